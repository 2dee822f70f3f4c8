"""Structural rules over the resolved program: names, attributes, arity,
destructive operations, entropy, option tables, accepted choices.

Every rule returns a Rule with the instances it looked at and its findings;
each finding is keyed by rule and construct, not by line.  Every rule has a
tiny positive example (SELFTEST) that must be reported on each run.
"""
import ast
import builtins
import json
import os
import re
import symtable

from .source import Program, Module, import_bindings, lower_pyx
from .interp import Interp, Unsup
from .opaque import OPAQUE
from .terms import *
from .store import subst
from .compare import compare
from . import oblig

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "data", "libnames.json")) as _f:
    LIB = json.load(_f)
LIBMODS = {k: set(v) for k, v in LIB["modules"].items()}
LIBATTRS = set(LIB["attributes"])
BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__"}


class Rule:
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.instances = 0
        self.findings = []
        self.undecided = []
        self.samples = []

    def see(self, what):
        self.instances += 1
        if len(self.samples) < 5:
            self.samples.append(what)

    def report(self, key, message, module=None, line=None):
        where = ""
        if module is not None:
            where = os.path.relpath(module.path, os.path.commonpath([module.path, "/repo"])) \
                if module.path.startswith("/repo") else module.path
            where = "%s:%s " % (where, line)
        f = (self.name + " " + key, where + message)
        if f[0] not in [x[0] for x in self.findings]:
            self.findings.append(f)


def functions(m):
    """(qualified name, class or None, node) of all functions of a module, nested ones excluded"""
    for f in m.funcs.values():
        yield f.name, None, f
    for c in m.classes.values():
        for f in c.methods.values():
            yield c.name + "." + f.name, c, f


def relname(m):
    return m.name.replace("!pyx", " (pyx)")


# ------------------------------------------------------------------ names
def module_names(prog, m, seen=()):
    out = set(m.funcs) | set(m.classes) | set(m.imports)
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Global):
            out |= set(x.names)
    try:
        t = symtable.symtable(m.text, m.path, "exec")
        out |= {s.get_name() for s in t.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    except SyntaxError:
        pass
    for s in m.star:
        if s in prog.modules and s not in seen:
            sm = prog.modules[s]
            names = module_names(prog, sm, tuple(seen) + (m.name,))
            al = sm.assigns.get("__all__")
            if al and isinstance(al[0], (ast.List, ast.Tuple)):
                out |= {e.value for e in al[0].elts if isinstance(e, ast.Constant)}
            else:
                out |= {n for n in names if not n.startswith("_")}
        elif s not in prog.modules:
            out.add("*")
    return out


def names(w, prog):
    r = Rule("names", "every name used in a function is bound in the function, its module or the builtins; every "
             "module imported from the package and every name imported from it exists; every library name exists")
    for m in prog.modules.values():
        known = module_names(prog, m)
        if "*" in known:
            r.undecided.append(relname(m) + ": star import from a library")
            continue
        try:
            table = symtable.symtable(m.text, m.path, "exec")
        except SyntaxError as e:
            r.undecided.append(relname(m) + ": %s" % e)
            continue

        def visit(t, path):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == "module") and not (
                        t.get_type() == "module" and (s.is_assigned() or s.is_imported())):
                    n = s.get_name()
                    r.see("%s%s: %s" % (relname(m), path, n))
                    if n not in known and n not in BUILTIN:
                        r.report("%s%s: %s" % (relname(m), path, n),
                                 "the name %s used in %s is not defined anywhere" % (n, path or "the module"), m,
                                 line_of(m, n))
            for c in t.get_children():
                visit(c, path + "." + c.get_name())
        visit(table, "")
        # names imported from the package
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                for a, q in import_bindings(node, m.name.replace("!pyx", "")):
                    if isinstance(node, ast.Import):
                        qs = [x.name for x in node.names]
                    else:
                        qs = [q]
                    for qq in qs:
                        check_import(r, prog, m, node, a, qq)
        # dotted library names
        for name, cls, fn in functions(m):
            imp = dict(m.imports)
            local = {x.arg for x in ast.walk(fn) if isinstance(x, ast.arg)}
            for x in ast.walk(fn):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a, q in import_bindings(x, m.name.replace("!pyx", "")):
                        imp[a] = q
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    local.add(x.id)
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute):
                    q = dotted(x, imp, local)
                    if q:
                        check_dotted(r, prog, m, name, x, q)
    return r


def line_of(m, n):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and x.id == n:
            return x.lineno
    return 1


def dotted(x, imp, local=()):
    parts = []
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if not isinstance(x, ast.Name) or x.id in local or x.id not in imp:
        return None
    return imp[x.id] + "." + ".".join(reversed(parts))


def check_dotted(r, prog, m, fname, x, q):
    parts = q.split(".")
    if parts[0] == "hyvr":
        # longest package module prefix
        k = len(parts)
        while k and ".".join(parts[:k]) not in prog.modules:
            k -= 1
        if k and k < len(parts):
            base = prog.modules[".".join(parts[:k])]
            nm = parts[k]
            r.see(q)
            sub = ".".join(parts[:k + 1])
            if "*" in module_names(prog, base):
                return
            if nm not in module_names(prog, base) and not any(n == sub or n.startswith(sub + ".") for n in prog.modules):
                r.report("%s.%s: %s" % (relname(m), fname, q), "%s uses %s, which does not exist" % (fname, q), m, x.lineno)
        return
    for k in range(len(parts) - 1, 0, -1):
        base = ".".join(parts[:k])
        if base in LIBMODS:
            r.see(q)
            full = base + "." + parts[k]
            if parts[k] not in LIBMODS[base] and full not in LIBMODS and \
                    not (m.path.endswith(".pyx") and parts[k].endswith("_t")):
                r.report("%s.%s: %s" % (relname(m), fname, full),
                         "%s uses %s, which the installed library does not have" % (fname, full), m, x.lineno)
            return


def check_import(r, prog, m, node, alias, q):
    if q.split(".")[0] != "hyvr":
        base, _, nm = q.rpartition(".")
        if base in LIBMODS and isinstance(node, ast.ImportFrom) and nm != "*":
            r.see("import " + q)
            if nm not in LIBMODS[base] and q not in LIBMODS:
                r.report("%s: import %s" % (relname(m), q), "%s does not exist" % q, m, node.lineno)
        return
    r.see("import " + q)
    if alias == "*":
        if q not in prog.modules:
            r.report("%s: import %s" % (relname(m), q), "module %s does not exist" % q, m, node.lineno)
        return
    if q in prog.modules:
        return
    if any(n.startswith(q + ".") for n in prog.modules):
        return
    base, _, nm = q.rpartition(".")
    if base in prog.modules:
        names_ = module_names(prog, prog.modules[base])
        if nm in names_ or "*" in names_:
            return
    r.report("%s: import %s" % (relname(m), q), "%s does not exist" % q, m, node.lineno)


def cimports(w, prog):
    r = Rule("cimports", "every Cython import from the package has a declaration file")
    repo = None
    for m in prog.modules.values():
        if not m.path.endswith(".pyx"):
            continue
        with open(m.path, encoding="utf-8") as f:
            raw = f.read()
        root = m.path[:m.path.rindex("/hyvr/")]
        repo = root
        for mt in re.finditer(r"^\s*(?:cimport\s+(hyvr[\w.]*)|from\s+(hyvr[\w.]*)\s+cimport)", raw, re.M):
            q = mt.group(1) or mt.group(2)
            r.see("%s: cimport %s" % (relname(m), q))
            if not os.path.exists(os.path.join(root, q.replace(".", "/") + ".pxd")):
                r.report("%s: cimport %s" % (m.name.replace("!pyx", ""), q),
                         "%s is imported at C level but has no declaration file" % q, m,
                         raw[:mt.start()].count("\n") + 1)
    return r


# ------------------------------------------------------------------ locals
def locals_(w, prog):
    r = Rule("locals", "a local variable is assigned on some path before each of its uses")
    for m in prog.modules.values():
        for name, cls, fn in functions(m):
            UseBeforeDef(r, m, name, fn).run()
    return r


class UseBeforeDef:
    """forward may-be-assigned analysis; a use no assignment can reach is an error"""

    def __init__(self, r, m, name, fn):
        self.r, self.m, self.name, self.fn = r, m, name, fn
        self.local = self.bound(fn)
        g = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.local -= g

    @staticmethod
    def bound(fn):
        out = set()
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            out.add(x.arg)
        params = set(out)

        def go(x, top=False):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
                out.add(x.name)
                return
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr):
                        out.add(y.target.id)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    out.add((al.asname or al.name).split(".")[0])
            if isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            for y in ast.iter_child_nodes(x):
                go(y)
        go(fn, True)
        out.discard("*")
        return out

    def run(self):
        have = set()
        a = self.fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            have.add(x.arg)
        self.block(self.fn.body, have)

    def assigned(self, nodes):
        out = set()
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for al in x.names:
                        out.add((al.asname or al.name).split(".")[0])
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
        return out

    def use(self, e, have):
        if e is None:
            return

        def go(x, hidden):
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                return          # runs later
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                h = set(hidden)
                for g in x.generators:
                    h |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for y in ast.iter_child_nodes(x):
                    go(y, h)
                return
            if isinstance(x, ast.NamedExpr):
                go(x.value, hidden)
                have.add(x.target.id)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.local and x.id not in hidden:
                self.r.see("%s.%s: %s" % (relname(self.m), self.name, x.id))
                if x.id not in have:
                    self.r.report("%s.%s: %s" % (relname(self.m), self.name, x.id),
                                  "%s is used in %s before anything can have assigned it" % (x.id, self.name), self.m,
                                  x.lineno)
            for y in ast.iter_child_nodes(x):
                go(y, hidden)
        go(e, set())

    def store(self, t, have):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.id)
        # subscripts and attributes of the target are uses
        self.use(t, have)

    def block(self, body, have):
        for s in body:
            self.stmt(s, have)

    def stmt(self, s, have):
        if isinstance(s, ast.Assign):
            self.use(s.value, have)
            for t in s.targets:
                self.store(t, have)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, have)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), have)
            self.store(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            self.use(s.value, have)
            if s.value is not None:
                self.store(s.target, have)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, have)
            have |= self.assigned(s.body)
            self.store(s.target, have)
            self.block(s.body, have)
            self.block(s.orelse, have)
        elif isinstance(s, ast.While):
            have |= self.assigned(s.body)
            self.use(s.test, have)
            self.block(s.body, have)
            self.block(s.orelse, have)
        elif isinstance(s, ast.If):
            self.use(s.test, have)
            a, b = set(have), set(have)
            self.block(s.body, a)
            self.block(s.orelse, b)
            have |= a | b
        elif isinstance(s, ast.Try):
            self.block(s.body, have)
            have |= self.assigned(s.body)
            for h in s.handlers:
                if h.name:
                    have.add(h.name)
                self.block(h.body, have)
            self.block(s.orelse, have)
            self.block(s.finalbody, have)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, have)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, have)
            self.block(s.body, have)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.use(t, have)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            have.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            have |= self.assigned([s])
        elif isinstance(s, ast.Match):
            have |= self.assigned([s]) | {n for x in ast.walk(s) for n in
                                          [getattr(x, "name", None), getattr(x, "rest", None)] if isinstance(n, str)}
            self.use(s.subject, have)
            for c in s.cases:
                self.block(c.body, have)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.use(x, have)


# ------------------------------------------------------------------ attributes
def cdef_names(m):
    """attributes declared at C level"""
    out = set()
    for p in (m.path, m.path[:-4] + ".pxd" if m.path.endswith(".pyx") else m.path[:-3] + ".pxd"):
        if not p.endswith((".pyx", ".pxd")) or not os.path.exists(p):
            continue
        with open(p, encoding="utf-8") as f:
            text = f.read()
        inside = None
        for line in text.split("\n"):
            st = line.split("#")[0]
            if not st.strip():
                continue
            ind = len(st) - len(st.lstrip())
            if re.match(r"\s*cdef\s*(public|readonly)?\s*:\s*$", st):
                inside = ind
                continue
            if inside is not None and ind <= inside:
                inside = None
            mm = None
            if inside is not None:
                mm = re.match(r"\s*[\w.]+(?:\s*\[[:, ]*\])?\s+(.*)$", st)
            else:
                mm = re.match(r"\s*cdef\s+(?:public|readonly)\s+[\w.]+(?:\s*\[[:, ]*\])?\s+(.*)$", st)
            if mm and "(" not in mm.group(1):
                out |= {x.strip() for x in mm.group(1).split(",")}
    return out


def attributes(w, prog):
    r = Rule("attributes", "every attribute that is read is set, declared or defined somewhere in the package, or is an "
             "attribute of a library object; an attribute read from self is set for that class")
    stored, selfset, dynamic = set(), {}, False
    for m in prog.modules.values():
        stored |= cdef_names(m)
        for c in m.classes.values():
            stored |= set(c.attrs) | set(c.methods)
            stored |= {b.target.id for b in c.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)}
        stored |= set(m.funcs) | set(m.classes) | set(m.assigns) | set(m.imports)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                stored.add(x.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                dynamic = True
            if isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__setattr__", "__getattr__"):
                dynamic = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("namedtuple", "dataclass"):
                dynamic = True
        for c in m.classes.values():
            if c.node.decorator_list:
                dynamic = True
    nonself = set()
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (
                    isinstance(x.value, ast.Name) and x.value.id == "self"):
                nonself.add(x.attr)
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
                continue
            if dotted(x, m.imports):
                continue
            r.see("%s: .%s" % (relname(m), x.attr))
            if x.attr in stored or x.attr in LIBATTRS or dynamic or x.attr in any_lib():
                continue
            r.report("%s: .%s" % (relname(m), x.attr), "attribute %s is read but nothing defines it" % x.attr, m, x.lineno)
    # self attributes, class by class
    for m in prog.modules.values():
        for c in m.classes.values():
            fam = set(prog.mro(c))
            for m2 in prog.modules.values():
                for c2 in m2.classes.values():
                    if c in prog.mro(c2):
                        fam.add(c2)
            if any(not isinstance(b, ast.Name) or prog.resolve_class(c.module, b.id) is None
                   for k in fam for b in k.node.bases):
                continue
            have = set()
            for k in fam:
                have |= set(k.attrs) | set(k.methods)
                have |= cdef_names(k.module) if k.module.path.endswith(".pyx") else set()
                for f in k.methods.values():
                    for x in ast.walk(f):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            have.add(x.attr)
            for fname, f in c.methods.items():
                if not f.args.args:
                    continue
                me = f.args.args[0].arg
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) \
                            and x.value.id == me:
                        r.see("%s.%s.%s: self.%s" % (relname(m), c.name, fname, x.attr))
                        if x.attr in have or x.attr in nonself or dynamic or hasattr(object, x.attr) or x.attr == "__dict__":
                            continue
                        r.report("%s.%s: self.%s" % (relname(m), c.name, x.attr),
                                 "%s.%s reads self.%s, which is never set" % (c.name, fname, x.attr), m, x.lineno)
    return r


_any = []


def any_lib():
    if not _any:
        s = set()
        for v in LIBMODS.values():
            s |= v
        _any.append(s)
    return _any[0]


# ------------------------------------------------------------------ arity
def arity(w, prog):
    r = Rule("arity", "every call of a function, method or constructor of the package passes arguments it accepts")
    for m in prog.modules.values():
        for name, cls, fn in list(functions(m)) + [("<module>", None, m.tree)]:
            imp = dict(m.imports)
            local = set()
            if fn is not m.tree:
                local = UseBeforeDef.bound(fn)
                for x in ast.walk(fn):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        for a, q in import_bindings(x, m.name.replace("!pyx", "")):
                            imp[a] = q
                            local.discard(a)
            for x in own_nodes(fn):
                if isinstance(x, ast.Call):
                    check_call(r, prog, m, name, cls, fn, x, imp, local)
    return r


def own_nodes(fn):
    if isinstance(fn, ast.Module):
        stack = [s for s in fn.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
    else:
        stack = list(fn.body)
    while stack:
        x = stack.pop()
        yield x
        stack.extend(ast.iter_child_nodes(x))


def check_call(r, prog, m, name, cls, fn, x, imp, local):
    f = x.func
    target = None
    skip = 0
    if isinstance(f, ast.Name):
        if f.id in local:
            return
        mem = prog.lookup(imp[f.id]) if f.id in imp else prog.member(m, f.id)
        if mem is None:
            return
        if mem[0] == "func":
            target = mem[2]
        elif mem[0] == "class":
            init = prog.find_method(mem[2], "__init__")
            if init is None:
                return
            target, skip = init[1], 1
    elif isinstance(f, ast.Attribute):
        q = dotted(f, imp, local)
        if q and q.startswith("hyvr."):
            mem = prog.lookup(q)
            if mem and mem[0] == "func":
                target = mem[2]
            elif mem and mem[0] == "class":
                init = prog.find_method(mem[2], "__init__")
                if init is None:
                    return
                target, skip = init[1], 1
        elif isinstance(f.value, ast.Name) and cls is not None and isinstance(fn, ast.FunctionDef) and fn.args.args \
                and f.value.id == fn.args.args[0].arg and not fn.decorator_list:
            mt = prog.find_method(cls, f.attr)
            if mt is None:
                return
            target, skip = mt[1], 1
    if target is None or [d for d in target.decorator_list]:
        return
    r.see("%s.%s calls %s" % (relname(m), name, target.name))
    a = target.args
    pos = [y.arg for y in a.posonlyargs + a.args][skip:]
    ndef = len(a.defaults)
    allpos = [y.arg for y in a.posonlyargs + a.args]
    required = set(allpos[skip:len(allpos) - ndef] if ndef else allpos[skip:])
    kwreq = {y.arg for y, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    kwall = {y.arg for y in a.kwonlyargs} | set(pos)
    star = any(isinstance(y, ast.Starred) for y in x.args)
    dstar = any(k.arg is None for k in x.keywords)
    key = "%s.%s: %s" % (relname(m), name, target.name)
    if not star and len(x.args) > len(pos) and not a.vararg:
        r.report(key, "%s passes %d positional arguments to %s, which takes %d" % (name, len(x.args), target.name, len(pos)),
                 m, x.lineno)
        return
    given = set(pos[:len(x.args)]) if not star else set(pos)
    for k in x.keywords:
        if k.arg is None:
            continue
        if k.arg not in kwall and not a.kwarg:
            r.report(key, "%s passes unknown argument %s to %s" % (name, k.arg, target.name), m, x.lineno)
        if not star and k.arg in given:
            r.report(key, "%s passes argument %s to %s twice" % (name, k.arg, target.name), m, x.lineno)
        given.add(k.arg)
    if not dstar and not star:
        miss = (required | kwreq) - given
        if miss:
            r.report(key, "%s does not pass %s to %s" % (name, ", ".join(sorted(miss)), target.name), m, x.lineno)


# ------------------------------------------------------------------ who may destroy
DELETES = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree", "shutil.move", "os.rename", "os.renames",
           "os.replace", "os.truncate", "os.system", "os.popen", "subprocess.run", "subprocess.call", "subprocess.Popen",
           "subprocess.check_call", "subprocess.check_output", "distutils.dir_util.remove_tree"}
DELETE_METHODS = {"unlink", "rmdir", "rmtree"}
MAY_DELETE = {"hyvr.input.parameters.set_up_directories", "hyvr.sim.run"}
MAY_WRITE = MAY_DELETE | {"hyvr.postprocess.output.to_pickle"}


def call_sites(prog):
    """{function simple name: set of qualified callers}"""
    out = {}
    for m in prog.modules.values():
        for name, cls, fn in functions(m):
            for x in ast.walk(fn):
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                    n = x.id if isinstance(x, ast.Name) else x.attr
                    out.setdefault(n, set()).add(m.name + "." + name)
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for x in ast.walk(s):
                    if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                        n = x.id if isinstance(x, ast.Name) else x.attr
                        out.setdefault(n, set()).add(m.name + ".<module>")
    return out


def allowed(q, roots, w, sites, seen=()):
    """the function is a root, or a helper (unknown to the reference) all of whose users are"""
    if q in roots:
        return True
    if q in seen or q.endswith(".<module>"):
        return False
    if oblig.find(w.spec, q) is not None:
        return False
    users = sites.get(q.rsplit(".", 1)[1], set()) - {q}
    return bool(users) and all(allowed(u, roots, w, sites, tuple(seen) + (q,)) for u in users)


def destructive(w, prog):
    r = Rule("destructive", "files are removed, renamed or moved only by the set-up of the run directory and the clean-up of "
             "the built-in test case, opened for writing only by these and the exporters")
    sites = call_sites(prog)
    for m in prog.modules.values():
        fns = [(m.name + "." + n, f) for n, _, f in functions(m)]
        fns.append((m.name + ".<module>", ast.Module([s for s in m.tree.body if not isinstance(
            s, (ast.FunctionDef, ast.ClassDef))], [])))
        for q, fn in fns:
            imp = dict(m.imports)
            for x in ast.walk(fn):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a, t in import_bindings(x, m.name.replace("!pyx", "")):
                        imp[a] = t
            for x in ast.walk(fn):
                if not isinstance(x, ast.Call):
                    continue
                f = x.func
                t = dotted(f, imp) if isinstance(f, ast.Attribute) else imp.get(f.id) if isinstance(f, ast.Name) else None
                r.see("%s calls %s" % (q, t or ast.unparse(f)[:40]))
                if t in DELETES or (isinstance(f, ast.Attribute) and f.attr in DELETE_METHODS and t is None):
                    what = t or "." + f.attr
                    if not allowed(q, MAY_DELETE, w, sites):
                        r.report("%s: %s" % (q, what), "%s calls %s; only the set-up of the run directory may" % (q, what),
                                 m, x.lineno)
                mode = None
                if isinstance(f, ast.Name) and f.id == "open" and "open" not in imp:
                    mode = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == "mode"), None)
                elif isinstance(f, ast.Attribute) and f.attr == "open" and t is None:
                    mode = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == "mode"), None)
                if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) & set("wax+") or \
                        isinstance(f, ast.Attribute) and f.attr in ("write_text", "write_bytes", "touch"):
                    if not allowed(q, MAY_WRITE | output_functions(w), w, sites):
                        r.report("%s: open for writing" % q, "%s writes a file; only run set-up and exporters may" % q, m,
                                 x.lineno)
    return r


def output_functions(w):
    m = w.spec.modules.get("hyvr.postprocess.output")
    return {m.name + "." + f for f in m.funcs} if m else set()


# ------------------------------------------------------------------ entropy
RNG_OK = {"uniform", "normal", "rand", "randn", "choice", "poisson", "randint", "random", "standard_normal", "exponential",
          "random_sample", "binomial", "lognormal", "multivariate_normal", "gamma", "beta", "shuffle", "permutation"}
BAD_MODULES = {"random", "secrets", "uuid"}
SETTY = ("set", "frozenset")


def entropy(w, prog):
    r = Rule("entropy", "random numbers come only from numpy's global generator, which is never seeded or replaced; no use of "
             "other entropy; no iteration over sets or unsorted directory listings")
    for m in prog.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                for a, q in import_bindings(node, m.name.replace("!pyx", "")):
                    qq = q if isinstance(node, ast.ImportFrom) else ",".join(x.name for x in node.names)
                    for one in qq.split(","):
                        r.see("import " + one)
                        if one.split(".")[0] in BAD_MODULES or one in ("libc.stdlib.rand", "libc.stdlib.srand",
                                                                      "os.urandom", "numpy.random.default_rng",
                                                                      "numpy.random.seed", "numpy.random.RandomState"):
                            r.report("%s: import %s" % (relname(m), one), "%s is another source of randomness" % one, m,
                                     node.lineno)
        for name, cls, fn in list(functions(m)) + [("<module>", None, m.tree)]:
            imp = dict(m.imports)
            setvars = set_locals(fn)
            for x in own_nodes(fn):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a, q in import_bindings(x, m.name.replace("!pyx", "")):
                        imp[a] = q
                if isinstance(x, ast.Attribute):
                    q = dotted(x, imp)
                    if q and q.startswith("numpy.random.") and q.count(".") == 2:
                        last = q.rsplit(".", 1)[1]
                        r.see("%s.%s: %s" % (relname(m), name, q))
                        if last not in RNG_OK:
                            r.report("%s.%s: %s" % (relname(m), name, q),
                                     "%s uses %s: the global random state must not be seeded, read or replaced" % (name, q),
                                     m, x.lineno)
                    elif q in ("os.urandom", "os.getpid", "os.getrandom") or q and q.split(".")[0] in BAD_MODULES:
                        r.report("%s.%s: %s" % (relname(m), name, q), "%s uses %s" % (name, q), m, x.lineno)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hash", "id") and \
                        x.func.id not in imp and x.func.id not in setvars:
                    r.report("%s.%s: %s()" % (relname(m), name, x.func.id),
                             "%s uses %s(), which differs between runs" % (name, x.func.id), m, x.lineno)
                for it in iterated(x):
                    r.see("%s.%s: iteration" % (relname(m), name))
                    if is_set(it, setvars):
                        r.report("%s.%s: iteration over a set" % (relname(m), name),
                                 "%s iterates over a set, whose order differs between runs" % name, m, x.lineno)
                    if isinstance(it, ast.Call) and listing(it, imp) and not allowed(
                            m.name + "." + name, {"hyvr.input.parameters.set_up_directories"}, w, call_sites(prog)):
                        r.report("%s.%s: directory order" % (relname(m), name),
                                 "%s iterates over an unsorted directory listing" % name, m, x.lineno)
    return r


def listing(c, imp):
    q = dotted(c.func, imp) if isinstance(c.func, ast.Attribute) else None
    return q in ("os.listdir", "os.scandir", "glob.glob") or isinstance(c.func, ast.Attribute) and c.func.attr in (
        "iterdir", "glob", "rglob")


def set_locals(fn):
    """names that are only ever bound to sets"""
    bad, good = set(), set()
    for x in own_nodes(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    (good if is_set(x.value, ()) else bad).add(t.id)
                else:
                    bad |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in good:
            pass
    return good - bad


def is_set(e, setvars):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in SETTY:
        return True
    if isinstance(e, ast.Name) and e.id in setvars:
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
        return is_set(e.left, setvars) and is_set(e.right, setvars)
    return False


def iterated(x):
    if isinstance(x, ast.For):
        yield x.iter
    elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
        for g in x.generators:
            yield g.iter
    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate", "iter",
                                                                                 "zip", "map"):
        for a in x.args:
            yield a


# ------------------------------------------------------------------ exceptions
def exceptions(w, prog):
    r = Rule("exceptions", "the error classes of the package are ordinary exceptions, so every failure is reported, and none "
             "counts as a missing library; no bare handler swallows an error silently")
    for m in prog.modules.values():
        for c in m.classes.values():
            base = roots(prog, c, set())
            if not base & {x for x in dir(builtins) if isinstance(getattr(builtins, x), type) and
                           issubclass(getattr(builtins, x), BaseException)}:
                continue
            r.see("%s.%s: %s" % (relname(m), c.name, ",".join(sorted(base))))
            cls = [getattr(builtins, b) for b in base if hasattr(builtins, b) and isinstance(getattr(builtins, b), type)]
            if not any(issubclass(b, Exception) for b in cls):
                r.report("%s.%s" % (relname(m), c.name), "%s is not an ordinary exception" % c.name, m, c.node.lineno)
            if any(issubclass(b, (ImportError, StopIteration, GeneratorExit)) for b in cls):
                r.report("%s.%s" % (relname(m), c.name), "%s counts as a missing library or end of iteration" % c.name, m,
                         c.node.lineno)
        for q, cls_, fn in functions(m):
            ref = oblig.find(w.spec, m.name + "." + q)
            for x in ast.walk(fn):
                if isinstance(x, ast.ExceptHandler):
                    r.see("%s.%s: handler" % (relname(m), q))
    return r


def roots(prog, c, seen):
    out = set()
    for b in c.node.bases:
        if isinstance(b, ast.Name):
            k = prog.resolve_class(c.module, b.id)
            if k is not None and k not in seen:
                seen.add(k)
                out |= roots(prog, k, seen)
            else:
                out.add(b.id)
    return out


# ------------------------------------------------------------------ option tables
def option_table(prog, mod, side):
    cs = oblig.find(prog, "hyvr.input.%s.<body options>" % mod)
    i = Interp(prog, OPAQUE, side)
    o = i.analyse(cs[0], None, cs[2], [])
    t = o["result"]
    d, base = oblig.chain(t)
    if t.op == "store" and base.op not in ("dict",):
        raise Unsup("option table is not a plain dictionary")
    out = {}
    for k, v in d.items():
        if v.op not in ("list", "tuple"):
            raise Unsup("option list of section %s" % pretty(k))
        opts = []
        for e in v.a:
            if e.op != "objst" or e.a[0] != "Option":
                raise Unsup("option of section %s" % pretty(k))
            f = dict(e.a[1])
            if not is_const(f["name"], "str"):
                raise Unsup("option name")
            opts.append((cval(f["name"]), f))
        out[cval(k)] = opts
    if not out:
        raise Unsup("no option table found")
    return out


def options_rule(mod):
    def rule(w, prog):
        r = Rule("options:" + mod, "each section declares exactly the documented options, each with its type, requiredness, "
                 "default, shape, restriction and alternative names")
        try:
            c, s = option_table(prog, mod, "c"), option_table(w.spec, mod, "s")
        except (Unsup, AttributeError, TypeError, KeyError) as e:
            r.undecided.append("%s: %s" % (mod, e))
            return r
        m = prog.modules["hyvr.input." + mod]
        for sec in sorted(set(c) | set(s)):
            if sec not in c or sec not in s:
                r.report("[%s]" % sec, "section %s is %s" % (sec, "missing" if sec not in c else "not documented"), m, 1)
                continue
            dc, ds = {}, {}
            for n, f in c[sec]:
                dc[n] = f
            for n, f in s[sec]:
                ds[n] = f
            for n in sorted(set(dc) | set(ds)):
                r.see("[%s] %s" % (sec, n))
                if n not in dc:
                    r.report("[%s] %s" % (sec, n), "option %s of section %s is gone" % (n, sec), m, 1)
                elif n not in ds:
                    continue        # an additional option
                else:
                    for fld in ("dtype", "optional", "default", "shape", "datatype", "validation_func", "alternatives"):
                        a, b = dc[n].get(fld), ds[n].get(fld)
                        if a is b or a is None and b is None:
                            continue
                        if a is None or b is None:
                            r.undecided.append("[%s] %s.%s" % (sec, n, fld))
                            continue
                        if fld == "validation_func":
                            x, y = accepted(a), accepted(b)
                            if x is not None and y is not None and x != y:
                                r.report("[%s] %s: %s" % (sec, n, fld), "option %s of section %s accepts %s instead of %s" % (
                                    n, sec, sorted(x), sorted(y)), m, line_of_option(m, n))
                                continue
                            if x is not None and x == y:
                                continue
                        res = compare(a, b)
                        if res.verdict == "DIFF" or is_const(a) and is_const(b):
                            r.report("[%s] %s: %s" % (sec, n, fld), "option %s of section %s: %s is %s instead of %s" % (
                                n, sec, fld, pretty(a), pretty(b)), m, line_of_option(m, n))
                        elif res.verdict == "UNDECIDED":
                            r.undecided.append("[%s] %s.%s: %s" % (sec, n, fld, res.why))
            # options that take their shape from another one come after it
            pos = {n: i for i, (n, f) in enumerate(c[sec])}
            for n, f in c[sec]:
                for x in subterms(f["shape"]).values():
                    if is_const(x, "str"):
                        o = cval(x)
                        r.see("[%s] %s after %s" % (sec, n, o))
                        if o not in pos or pos[o] > pos[n]:
                            r.report("[%s] %s: order" % (sec, n), "option %s of section %s takes its shape from %s, which is "
                                     "not parsed before it" % (n, sec, o), m, line_of_option(m, n))
        return r
    return rule


def line_of_option(m, n):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Constant) and x.value == n:
            return x.lineno
    return 1


def accepted(lam):
    """the strings a validation function accepts, when it is a plain enumeration"""
    if lam.op != "lam" or lam.a[0] != 1:
        return None
    cands = {cval(x) for x in subterms(lam.a[1]).values() if is_const(x, "str")}
    if not cands:
        return None
    ps = [x for x in subterms(lam.a[1]).values() if x.op == "in_" and str(x.a[0]).startswith("%")]
    if len(ps) != 1:
        return None
    out = set()
    for c in cands | {"\0none of these"}:
        v = subst(lam.a[1], {ps[0]: const(c)})
        if v is TRUE:
            out.add(c)
        elif v is not FALSE:
            return None
    if "\0none of these" in out:
        return None
    return out


# which module implements the values of which restricted option
IMPLEMENTED_BY = {
    ("run", "outputs"): ["hyvr.postprocess.output"],
    ("model", "heterogeneity_level"): ["hyvr.geo.model"],
    ("sheet", "structure"): ["hyvr.geo.sheet"],
    ("trough", "structure"): ["hyvr.geo.trough", "hyvr.geo.ae_types"],
    ("channel", "structure"): ["hyvr.geo.channel"],
    ("sheet", "geometry"): ["hyvr.geo.ae_types"],
    ("trough", "geometry"): ["hyvr.geo.ae_types"],
    ("channel", "geometry"): ["hyvr.geo.ae_types"],
}
IMPLICIT = {"massive", "internal", "facies"}      # the else branch


def spelled(tree):
    """The words a module can compare a configured value with: its string constants, the names of keyword
    arguments (dict(mat=to_mat)), and - where it looks names up by string - parts of its identifiers."""
    words, byname = set(), False
    for x in ast.walk(tree):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            words.add(x.value)
        elif isinstance(x, ast.keyword) and x.arg:
            words.add(x.arg)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "globals", "vars", "locals"):
            byname = True
    if byname:
        for x in ast.walk(tree):
            name = getattr(x, "name", None) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else \
                x.id if isinstance(x, ast.Name) else None
            if name:
                parts = name.split("_")
                words |= {"_".join(parts[i:]) for i in range(len(parts))}
    return words


def choices(w, prog):
    r = Rule("choices", "every value an option table accepts for a restricted option is named by the module that implements it")
    try:
        t = option_table(prog, "options", "c")
    except (Unsup, AttributeError, TypeError, KeyError) as e:
        r.undecided.append(str(e))
        return r
    for (sec, opt), mods in IMPLEMENTED_BY.items():
        f = dict(t.get(sec, ())).get(opt)
        if f is None:
            r.undecided.append("[%s] %s is not declared" % (sec, opt))
            continue
        acc = accepted(f["validation_func"])
        if acc is None:
            r.undecided.append("[%s] %s: restriction is not an enumeration" % (sec, opt))
            continue
        words = set()
        todo = list(mods)
        seen = set()
        while todo:
            q = todo.pop()
            if q in seen or q not in prog.modules:
                continue
            seen.add(q)
            m = prog.modules[q]
            words |= spelled(m.tree)
            # constants may live in a module it imports from
            todo += [v for v in list(m.imports.values()) + m.star if v.startswith("hyvr.") and v in prog.modules
                     and q in mods]
        for v in sorted(acc):
            r.see("[%s] %s = %s" % (sec, opt, v))
            if v not in words and v not in IMPLICIT:
                r.report("[%s] %s = %s" % (sec, opt, v), "option %s accepts %s, which %s does not implement" % (
                    opt, v, " and ".join(mods)), prog.modules["hyvr.input.options"], 1)
    return r


# ------------------------------------------------------------------ consumed keys
READS = {"model_dict": "model", "strata_dict": "strata", "hydraulics": "hydraulics", "flowtrans": "flowtrans",
         "run_settings": "run"}
GEO_OF = {"sheet": "sheet", "sheet_ae": "sheet", "trough": "trough", "trough_ae": "trough", "trough_utils": "trough",
          "channel": "channel", "channel_ae": "channel", "channel_utils": "channel"}


def consumed(w, prog):
    r = Rule("consumed", "every option the program reads from a parsed section is declared for it or set by the program")
    try:
        t = option_table(prog, "options", "c")
    except (Unsup, AttributeError, TypeError, KeyError) as e:
        r.undecided.append(str(e))
        return r
    stored = set()
    for q in ("hyvr.input.parameters", "hyvr.geo.stratum", "hyvr.sim", "hyvr.geo.model"):
        if q in prog.modules:
            for x in ast.walk(prog.modules[q].tree):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Constant):
                    stored.add(x.slice.value)
                if isinstance(x, ast.Dict):
                    stored |= {k.value for k in x.keys if isinstance(k, ast.Constant)}
                if isinstance(x, ast.keyword) and x.arg:
                    stored.add(x.arg)
    for m in prog.modules.values():
        short = m.name.rsplit(".", 1)[-1].replace("!pyx", "")
        if m.name.startswith("hyvr.input"):
            continue
        for x in ast.walk(m.tree):
            if not (isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Constant)
                    and isinstance(x.slice.value, str)):
                continue
            b = x.value
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            if n == "type_params":
                secs = [GEO_OF[short]] if short in GEO_OF else ["sheet", "trough", "channel"]
            elif n in READS:
                secs = [READS[n]]
            else:
                continue
            for sec in secs:
                r.see("%s reads [%s] %s" % (relname(m), sec, x.slice.value))
                if x.slice.value not in dict(t.get(sec, ())) and x.slice.value not in stored:
                    r.report("%s: [%s] %s" % (relname(m), sec, x.slice.value),
                             "%s is read but section %s has no such option" % (x.slice.value, sec), m, x.lineno)
    return r


# ------------------------------------------------------------------ module bodies and independent formulations
def cli(w, prog):
    r = Rule("cli", "the command line's behaviour: arguments declared, what is passed to the run, exit on failure")
    vs = oblig.check(w, "hyvr.__main__.<body>")
    for v in vs:
        r.see("%s: %s" % (v.obs, v.res.verdict))
        if v.res.verdict == "DIFF":
            r.report("%s" % v.obs, "the command line differs in %s" % v.obs, prog.modules.get("hyvr.__main__"), 1)
        elif v.res.verdict == "UNDECIDED":
            r.undecided.append("%s: %s" % (v.obs, v.res.why))
    return r


def axiom(name, qual, text):
    """the function against an independent formulation in /verif/spec/axioms"""
    def rule(w, prog):
        r = Rule(name, text)
        ax = Program()
        path = os.path.join(os.path.dirname(HERE), "spec", "axioms", name + ".py")
        ax.add_file(qual.rsplit(".", 1)[0], path)
        cs, ss = oblig.find(prog, qual), oblig.find(ax, qual)
        if cs is None or oblig.match_params(cs[2], ss[2]) is None:
            r.undecided.append(qual + " is missing or takes other parameters")
            return r
        try:
            oc = Interp(prog, OPAQUE, "c").analyse(cs[0], cs[1], cs[2], oblig.match_params(cs[2], ss[2]))
            os_ = Interp(ax, OPAQUE, "s").analyse(ss[0], ss[1], ss[2], [(n, n, k) for n, k in oblig.param_list(ss[2])])
        except (Unsup, RecursionError) as e:
            r.undecided.append(str(e))
            return r
        for o in os_:
            if o in oc:
                res = compare(oc[o], os_[o])
                r.see("%s %s: %s" % (qual, o, res.verdict))
                if res.verdict == "DIFF":
                    r.report("%s: %s" % (qual, o), "%s does not satisfy: %s" % (qual, text), cs[0], cs[2].lineno)
                elif res.verdict == "UNDECIDED":
                    r.undecided.append("%s: %s" % (o, res.why))
            else:
                r.undecided.append(o + " is not computed")
        return r
    return rule


def swallowed(m, fn):
    """classes a function catches without raising again: {class name: [handler]}; None for a bare except"""
    out = {}
    for t in own_nodes(fn):
        if not isinstance(t, ast.Try):
            continue
        for h in t.handlers:
            if h.body and isinstance(h.body[-1], ast.Raise):
                continue
            ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for x in ts:
                n = None if x is None else x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
                out.setdefault("BaseException" if n is None else n, []).append(h)
    return out


def builtin_class(n):
    c = getattr(builtins, n, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


def handlers(w, prog):
    r = Rule("handlers", "a function that goes on after an exception goes on after exactly the failures it is meant to "
                         "survive; any other failure ends it")
    ref = {}
    for m in w.spec.modules.values():
        for name, cls, fn in functions(m):
            ref[(m.name, name)] = swallowed(m, fn)
    for m in prog.modules.values():
        for name, cls, fn in functions(m):
            got, want = swallowed(m, fn), ref.get((m.name, name))
            if want is None and (m.name, name) not in ref:
                # a function the reference does not have may only swallow named failures
                for n in got:
                    r.see("%s.%s: except %s" % (relname(m), name, n))
                continue
            for n in got:
                r.see("%s.%s: except %s" % (relname(m), name, n))
                if n in want:
                    continue
                c = builtin_class(n)
                for o in want:
                    if o in got:
                        continue
                    oc = builtin_class(o)
                    # a library class counts as a specific one
                    if c is not None and o not in ("BaseException", "Exception") and \
                            (oc is not None and (issubclass(oc, c) or issubclass(c, oc)) or
                             oc is None and c in (Exception, BaseException)):
                        r.report("%s.%s: except %s" % (relname(m), name, n),
                                 "goes on after %s, meant to go on after %s only" % (n, o), m, got[n][0].lineno)
                if not want and c in (Exception, BaseException):
                    r.report("%s.%s: except %s" % (relname(m), name, n), "any failure is ignored here", m,
                             got[n][0].lineno)
    return r


RULES = {
    "names": names, "cimports": cimports, "locals": locals_, "attributes": attributes, "arity": arity,
    "destructive": destructive, "entropy": entropy, "exceptions": exceptions,
    "options_new": options_rule("options"), "options_old": options_rule("options_deprecated"),
    "handlers": handlers, "choices": choices, "consumed": consumed, "cli": cli,
    "ktensor": axiom("ktensor", "hyvr.optimized.set_anisotropic_ktensor",
                     "K = k (I + (1/r - 1) n n^T) with the unit normal n of the bedding plane"),
}

# a tiny program each zero-expectation rule must report
SELFTEST = {
    "names": "import numpy as np\ndef f():\n    return undefined_name + np.no_such_function(1)\n",
    "locals": "def f():\n    x = y + 1\n    y = 2\n    return x\n",
    "attributes": "class K:\n    def f(self):\n        return self.never_set_anywhere\n",
    "arity": "def g(a, b):\n    return a\ndef f():\n    return g(1)\n",
    "destructive": "import shutil\ndef f(p):\n    shutil.rmtree(p)\n",
    "entropy": "import numpy as np\ndef f():\n    np.random.seed(3)\n    return [x for x in {1, 2}]\n",
    "exceptions": "class E(BaseException):\n    pass\n",
}


def selftest(w, name):
    """does the rule still report its positive example"""
    if name not in SELFTEST:
        return True
    p = Program()
    text = SELFTEST[name]
    p.modules["hyvr.selftest"] = Module("hyvr.selftest", "/nonexistent/hyvr/selftest.py", ast.parse(text), text)
    return bool(RULES[name](w, p).findings)


def run(w, name):
    r = RULES[name](w, w.code)
    if not selftest(w, name):
        raise AssertionError("rule %s no longer reports its positive example" % name)
    return r
