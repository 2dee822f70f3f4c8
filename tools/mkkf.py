import json,subprocess
P={'ee1bc66':'C28','3467f0e':'C10','90e05b9':'C28','466ddcd':'C11','46737d2':'C16','ff2674e':'C14','4e5b415':'C15','11ab9ef':'C16','61e05ce':'C16','8d98e13':'C16','4be007a':'C19','a3bf3b1':'C20','2646c85':'C20','868dc6e':'C20','67e7ef2':'C22','a4a977b':'C22','59c357a':'C03','d6f5899':'C04','5b77f72':'C03','e512d35':'C08','9f30f8a':'C07','7caac68':'C07','3d7c014':'C07','42bf1f3':'C12','4a5a7a1':'C05','82d2378':'C05','bd03574':'C05','3c22efe':'C05','bd0910b':'C05','e005a6f':'C24','d468d54':'C24','989cfac':'C24','48fde33':'C24','35dfcd5':'C24','da07f35':'C24','d83074c':'C24','827e47b':'C23','bdd319d':'C25','a235a77':'C18','6b07f4d':'C18','1a64781':'C18','ff1ba74':'C18','3d01160':'C17','f027aa7':'C17','b4dbac5':'C18','6b07f4d':'C18'}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','e1c35a6..HEAD'],capture_output=True,text=True).stdout.splitlines()
with open('/verif/known-findings.jsonl','w') as f:
    for l in log:
        h,s=l.split(' ',1)
        assert s.startswith('fix:'),l
        pid=P.get(h[:7]) or ('C34' if 'cross' in s else 'C28')
        f.write(json.dumps(dict(status='fixed',property=pid,entry='fixed: property=%s %s %s'%(pid,h,s[4:].strip())))+'\n')
        print(h,pid,s)
    import sys; sys.path.insert(0,'/verif')
    from hvs import rules; from hvs.oblig import World
    w=World()
    for k,m in rules.run(w,'cimports').findings:
        f.write(json.dumps(dict(status='known',property='C28',key=k,what='a .pyx module cimports a module that has no .pxd file, so it cannot be compiled (%s)'%m))+'\n')
        print(k,m)
