import ast, os, re, shutil, sys
"""Regenerate the reference from a reviewed tree (used by hand, never by a check)."""
src="/repo/hyvr"; dst="/verif/spec/hyvr"
if os.path.exists(dst): shutil.rmtree(dst)
for d,_,fs in os.walk(src):
    for f in fs:
        if not f.endswith(('.py','.pyx')) : continue
        p=os.path.join(d,f); q=os.path.join(dst,os.path.relpath(p,src)); os.makedirs(os.path.dirname(q),exist_ok=True)
        t=open(p,newline='').read().replace('\r\n','\n')
        if f.endswith('.py'):
            tree=ast.parse(t)
            for x in ast.walk(tree):
                if isinstance(x,(ast.Module,ast.FunctionDef,ast.ClassDef)) and x.body and isinstance(x.body[0],ast.Expr) and isinstance(x.body[0].value,ast.Constant) and isinstance(x.body[0].value.value,str):
                    x.body=x.body[1:] or ([ast.Pass()] if not isinstance(x,ast.Module) else [])
            t=ast.unparse(tree)+'\n'
        else:
            t=re.sub(r'^[ \t]*("""|\'\'\').*?\1[ \t]*\n','',t,flags=re.S|re.M)
            t=''.join(l for l in t.splitlines(True) if not re.match(r'\s*#(?! *cython)',l))
        open(q,'w').write(t)
