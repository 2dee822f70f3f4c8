"""Obligations: one function of the package against its reference semantics."""
import ast
import signal
import sys
import threading
import time

from .source import Program
from .interp import Interp, Unsup, EMPTYL
from .opaque import OPAQUE
from .terms import *
from . import terms as tm
from .compare import compare, Result, heads
from .store import subst

sys.setrecursionlimit(20000)


def simple(name):
    return name[1:] if name.startswith(".") else name


class World:
    """the code, the reference, and what both define"""

    def __init__(self, code=None, spec=None):
        self.code = code or Program().load_repo()
        self.spec = spec or Program().load_repo(repo=__file__.rsplit("/", 2)[0] + "/spec")
        self.known_attrs = attrs_of(self.spec)
        self.code_sets, self.code_reads = attr_use(self.code)
        self.stats = dict(functions=0, observables=0, proved=0, equal=0, undecided=0, differ=0, nodes=0,
                          valuations=0, inlined=0)
        self.sites = None
        self.sigs = self.signature_changes()
        self.inexact = set()
        self.answers = {}
        self.active = []
        self.mod = self.code.clone()        # the code, with functions proved equal to the reference's replaced by those
        self.open = self.changed()

    def signature_changes(self):
        """opaque functions that are gone or take other parameters: analysed inline"""
        out = set()
        for key in OPAQUE:
            a, b = find_def(self.code, key), find_def(self.spec, key)
            if not b:
                continue
            for q, nb in b.items():
                na = a.get(q)
                if na is None or match_params(na, nb) is None:
                    out.add(key)
        return out


    def changed(self):
        """functions whose text differs from the reference's: {qualified name: simple names it is called by}"""
        out = {}
        for q, m, c, node in functions(self.spec):
            r = find_own(self.code, q)
            if r is None:
                continue
            if ast.dump(bare(r)) != ast.dump(bare(node)):
                out[q] = c.name if c is not None and node.name == "__init__" else node.name
        return out

    def settle(self, qual):
        """the functions `qual` calls that are proved to compute what the reference's compute are replaced by these:
        what is shown once for a function holds wherever it is called"""
        for q in self.below(qual):
            if q not in self.open or q in self.active or not self.fits(q):
                continue
            with limit(SETTLE_S) as ok:
                vs = check(self, q)
            if not ok or not vs or q in self.inexact or any(v.res.verdict not in ("PROVED", "EQUAL") for v in vs):
                continue
            if q in self.open:
                self.replace(q)

    def below(self, qual):
        """changed functions that can be reached from a function by the names it uses, callees first"""
        names = {}
        for q, m, c, node in functions(self.code):
            names.setdefault(node.name, []).append((q, node))
            if c is not None and node.name == "__init__":
                names.setdefault(c.name, []).append((q, node))
        out, seen = [], {qual}

        def go(node):
            for x in ast.walk(node):
                n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                for q, nd in names.get(n, ()):
                    if q not in seen:
                        seen.add(q)
                        go(nd)
                        if q in self.open:
                            out.append(q)
        r = find_own(self.code, qual)
        if r is not None:
            go(r)
        return out

    def fits(self, q):
        """would the reference's body mean the same in the place of the code's"""
        r, s = find(self.mod, q), find(self.spec, q)
        if r is None or s is None or param_list(r[2]) != param_list(s[2]) or \
                ast.dump(r[2].args) != ast.dump(s[2].args) or \
                [ast.dump(d) for d in r[2].decorator_list] != [ast.dump(d) for d in s[2].decorator_list]:
            return False
        left = set(self.open.values()) - {self.open[q]}
        for x in ast.walk(s[2]):
            if isinstance(x, ast.Attribute) and x.attr in left:
                return False
            if isinstance(x, ast.Attribute) and any(x.attr in c.methods for m in self.spec.modules.values()
                                                    for c in m.classes.values()):
                for m in self.spec.modules.values():
                    for c in m.classes.values():
                        if x.attr in c.methods and find_own(self.mod, m.name + "." + c.name + "." + x.attr) is None:
                            return False
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id in left:
                    return False
                a, b = self.spec.member(s[0], x.id), self.mod.member(r[0], x.id)
                if (a is None) != (b is None):
                    return False
                if a is not None and (a[0] != b[0] or (a[0] == "ext" and a[2] != b[2]) or
                                      (a[0] != "ext" and a[1].name != b[1].name) or
                                      (a[0] == "var" and [ast.dump(v) for v in a[2]] != [ast.dump(v) for v in b[2]])):
                    return False
        return True

    def replace(self, q):
        r, s = find(self.mod, q), find(self.spec, q)
        if r[1] is None:
            r[0].funcs[s[2].name] = s[2]
        else:
            r[1].methods[s[2].name] = s[2]
        del self.open[q]
        self.stats["settled"] = self.stats.get("settled", 0) + 1


SETTLE_S = 45


class Late(BaseException):
    pass


class limit:
    """at most so many seconds; true afterwards if that was enough"""

    def __init__(self, seconds):
        self.seconds, self.done = seconds, True

    def __bool__(self):
        return self.done

    def __enter__(self):
        def late(*a):
            raise Late()
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGALRM, late)
            self.rest = signal.setitimer(signal.ITIMER_REAL, self.seconds)[0]
            self.t = time.time()
        return self

    def __exit__(self, kind, e, tb):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
            if self.rest:
                signal.setitimer(signal.ITIMER_REAL, max(self.rest - (time.time() - self.t), 0.01))
        if kind is Late:
            self.done = False
            return True
        return False


def functions(prog):
    for m in prog.modules.values():
        for n, f in m.funcs.items():
            yield m.name + "." + n, m, None, f
        for c in m.classes.values():
            for n, f in c.methods.items():
                yield m.name + "." + c.name + "." + n, m, c, f


def find_own(prog, q):
    """the function itself, nothing inherited or imported"""
    mod, _, n = q.rpartition(".")
    if mod in prog.modules:
        return prog.modules[mod].funcs.get(n)
    mod, _, c = mod.rpartition(".")
    if mod in prog.modules and c in prog.modules[mod].classes:
        return prog.modules[mod].classes[c].methods.get(n)
    return None


def bare(node):
    """a function without its documentation"""
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:] or [ast.Pass()]
    return ast.Module(body=[node.args, ast.Tuple(elts=node.decorator_list, ctx=ast.Load())] + b, type_ignores=[])


def find_def(prog, key):
    """definitions an opaque entry stands for: {qualified name: node}"""
    out = {}
    nm = simple(key)
    for m in prog.modules.values():
        if m.name.endswith("!pyx"):
            continue
        if key.startswith("."):
            for c in m.classes.values():
                if nm in c.methods:
                    out[m.name + "." + c.name + "." + nm] = c.methods[nm]
        else:
            if nm in m.funcs:
                out[m.name + "." + nm] = m.funcs[nm]
            if nm in m.classes and "__init__" in m.classes[nm].methods:
                out[m.name + "." + nm] = m.classes[nm].methods["__init__"]
    return out


def attrs_of(prog):
    out = set()
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
            elif isinstance(x, ast.ClassDef):
                for y in x.body:
                    if isinstance(y, ast.Assign):
                        out |= {z.id for z in y.targets if isinstance(z, ast.Name)}
                    elif isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                        out.add(y.target.id)
    return out


def attr_use(prog):
    sets, reads = {}, {}
    for m in prog.modules.values():
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Attribute):
                d = sets if isinstance(f.ctx, (ast.Store, ast.Del)) else reads
                d.setdefault(f.attr, set()).add((m.name, f.lineno))
    return sets, reads


def param_list(node):
    a = node.args
    out = []
    for y in a.posonlyargs + a.args + a.kwonlyargs:
        kind = "int" if y.annotation is not None and ast.unparse(y.annotation) == "int" else None
        out.append((y.arg, kind))
    if a.kwarg:
        out.append((a.kwarg.arg, "kwargs"))
    if a.vararg:
        out.append((a.vararg.arg, None))
    return out


def match_params(nc, ns):
    """[(code name, canonical name, kind)] or None"""
    pc, ps = param_list(nc), param_list(ns)
    if len(pc) != len(ps):
        # additional parameters with defaults take their default value
        return None
    kinds = dict(ps)
    if {n for n, _ in pc} == {n for n, _ in ps}:
        return [(n, n, kinds[n]) for n, _ in pc]
    return [(n, m, k) for (n, _), (m, k) in zip(pc, ps)]


def locate(prog, qual):
    r = prog.lookup(qual)
    if r is None:
        return None
    if r[0] == "func":
        return r[1], None, r[2]
    if r[0] == "method":
        return r[1], r[2][0], r[2][1]
    return None


def find(prog, qual):
    mod = qual
    rest = []
    while mod and mod not in prog.modules:
        mod, _, last = mod.rpartition(".")
        rest.insert(0, last)
    if not mod:
        return None
    m = prog.modules[mod]
    if len(rest) == 1 and rest[0].startswith("<body"):
        return m, None, body_of(m, rest[0][5:-1].strip())
    if len(rest) == 1:
        if rest[0] in m.funcs:
            return m, None, m.funcs[rest[0]]
        r = prog.member(m, rest[0])
        if r and r[0] == "func":
            return r[1], None, r[2]
        return None
    if len(rest) == 2 and rest[0] in m.classes:
        c = m.classes[rest[0]]
        if rest[1] in c.methods:
            return m, c, c.methods[rest[1]]
        r = prog.find_method(c, rest[1])
        if r:
            return r[0].module, c, r[1]
    return None


def body_of(m, result=""):
    """the statements of a module as a function; `result` names the variable it is read for"""
    node = ast.parse("def body(): pass").body[0]
    node.name = "<body>"
    node.body = [x for x in m.tree.body
                 if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
    if result:
        node.body = node.body + [ast.copy_location(ast.Return(ast.copy_location(ast.Name(result, ast.Load()),
                                                                                m.tree.body[-1])), m.tree.body[-1])]
    if not node.body:
        node.body = [ast.Pass()]
    ast.fix_missing_locations(node)
    return node


class Verdict:
    __slots__ = ("qual", "obs", "res", "code", "spec")

    def __init__(self, qual, obs, res, code=None, spec=None):
        self.qual, self.obs, self.res, self.code, self.spec = qual, obs, res, code, spec


def default_of(name, other, cells):
    """value of an observable a function does not touch"""
    if name in ("outcome", "result"):
        return None
    k = cells.get(name)
    if k is None:
        return None
    if k[0] == "eff":
        return EMPTYL
    if k[0] == "c":
        return k[1]
    if k[0] == "fm":
        return mk("fm0", k[1], k[2])
    if k[0] == "a":
        return mk("attr", k[1], k[2])
    return None


# changes the reference makes to its parameters that nobody reads: code may leave them out
INCIDENTAL = {"hyvr.geo.stratum.Stratum.__init__": ("fields:c:.params[contact_model]",)}

KNOWN_EFF = ("fs", "model", "out", "surf", "objects", "read")


def analyse_pair(w, qual, opaque):
    cs, ss = find(w.mod, qual), find(w.spec, qual)
    if ss is None:
        raise Unsup("no reference for " + qual)
    if cs is None:
        return None
    mp = match_params(cs[2], ss[2])
    if mp is None:
        return None
    ic = Interp(w.mod, opaque, "c")
    oc = ic.analyse(cs[0], cs[1], cs[2], mp, ctor=cs[2].name == "__init__")
    isp = Interp(w.spec, opaque, "s")
    os_ = isp.analyse(ss[0], ss[1], ss[2], [(n, n, k) for n, k in param_list(ss[2])],
                      ctor=ss[2].name == "__init__")
    return (cs, ss, ic, oc, isp, os_)


VOCAB = {
    # how the run failed may decide how the command line ends
    "hyvr.__main__.<body>": {("excval",), ("call", "isinstance"), ("attr", "args"), ("attr", "errno"), ("attr", "code")},
    # which entries of the run directory go away
    "hyvr.input.parameters.set_up_directories": {("attr", "suffix"), ("attr", "stem"), ("call", "m:match"), ("call", "m:is_symlink"),
                                                    ("call", "m:glob")},
}


def check(w, qual, opaque=None, depth=0):
    """list of Verdicts for one function"""
    if opaque is None:
        if qual not in w.answers:
            w.active.append(qual)
            try:
                w.settle(qual)
                w.answers[qual] = _check(w, qual, None, 0)
            finally:
                w.active.pop()
        return w.answers[qual]
    return _check(w, qual, opaque, depth)


def _check(w, qual, opaque, depth):
    if opaque is None:
        opaque = {k: v for k, v in OPAQUE.items() if k not in w.sigs}
    own = qual.rsplit(".", 1)[1]
    try:
        r = analyse_pair(w, qual, opaque)
    except (Unsup, RecursionError) as e:
        return [Verdict(qual, "*", Result("UNDECIDED", "outside the analysed language: %s" % str(e)[:300]))]
    except Exception as e:  # a construct the engine does not know must not become an answer
        if depth == 0 and __import__("os").environ.get("HVS_DEBUG"):
            raise
        return [Verdict(qual, "*", Result("UNDECIDED", "analysis gave up: %s %s" % (type(e).__name__, str(e)[:200])))]
    if r is None:
        return [Verdict(qual, "*", Result("UNDECIDED", "function missing or with other parameters"))]
    cs, ss, ic, oc, isp, os_ = r
    out = []
    found = False
    memo = {}
    ctor = ss[2].name == "__init__"
    kept = {}
    vocab = {h for t in os_.values() if isinstance(t, T) for h in heads(t)} | VOCAB.get(qual, set())
    for name, t in oc.items():
        if isinstance(t, T):
            for i, x in subterms(t).items():
                if x.op in ("lout", "map"):
                    kept.setdefault(i, set()).add(name)
    rebound = {n for n in oc if n not in os_ and "*" + n in os_}
    for name in list(os_) + [n for n in oc if n not in os_]:
        a, b = oc.get(name), os_.get(name)
        if name in rebound:
            w.inexact.add(qual)
            continue
        if name[1:] in rebound and name not in oc:
            # the reference changes an object in place, the code puts a new one in its place
            a = oc[name[1:]]
        init = None
        if b is not None and name in isp.cells:
            init = default_of(name, b, isp.cells)
        if a is None:
            k = isp.cells.get(name)
            if name not in ("outcome", "result") and k is None:
                w.inexact.add(qual)
                continue
            if k[0] == "a":
                if ctor:
                    # an attribute the constructor no longer sets
                    if k[2] in w.code_reads and not moved(w, k[2]) and not class_default(w, cs[1], k[2]):
                        out.append(Verdict(qual, name, Result("DIFF", "attribute is read but no longer set"),
                                           None, b))
                    else:
                        out.append(Verdict(qual, name, Result("UNDECIDED", "attribute no longer set here")))
                    w.inexact.add(qual)
                    continue
            if name in INCIDENTAL.get(qual, ()):
                w.inexact.add(qual)
                continue
            a = default_of(name, b, isp.cells)
            if a is None:
                w.inexact.add(qual)
                continue
        if b is None:
            k = ic.cells.get(name)
            if k is None:
                w.inexact.add(qual)
                continue
            if k[0] == "eff":
                if not (k[1] in KNOWN_EFF):
                    w.inexact.add(qual)
                    continue
            if k[0] == "a":
                if k[2] not in w.known_attrs or ctor:
                    w.inexact.add(qual)
                    continue
            if k[0] == "fm" and k[1] == "a" and k[2] not in w.known_attrs:
                w.inexact.add(qual)
                continue
            b = default_of(name, a, ic.cells)
            init = b
            if b is None:
                w.inexact.add(qual)
                continue
        guards = ()
        if name != "outcome" and not name.startswith("effect:"):
            guards = tuple({t.id: t for t in (oc.get("outcome"), os_.get("outcome"))
                            if t is not None and t.op != "const"}.values())
        for nm, x, y in parts(name, a, b):
            if found and x is not y:
                out.append(Verdict(qual, nm, Result("SKIPPED", "a difference was already found in this function")))
                continue
            v = Verdict(qual, nm, compare(x, y, w.known_attrs, init,
                                        {i for i, ns in kept.items() if ns - {name}}, guards, vocab), x, y)
            out.append(v)
            if v.res.verdict == "DIFF":
                look_inside(w, v, own, opaque, depth, memo)
                if v.res.verdict == "DIFF":
                    unfold(v, own, ss, os_, (w.known_attrs, init, {i for i, ns in kept.items() if ns - {name}}, guards, vocab))
                found = v.res.verdict == "DIFF"
    return out


def look_inside(w, v, own, opaque, depth, memo):
    """opaque functions used on one side only: analyse them inline and compare again"""
    if depth >= 3:
        return
    one = set()
    for h in heads(v.code) ^ heads(v.spec):
        if h[0] in ("call", "draw", "new"):
            n = h[1]
            n = n[3:] if n.startswith("fn:") else n
            n = n[4:] if n.startswith("new ") else n
            n = n.split("!")[0]
            if n in opaque and simple(n) != own:
                one.add(n)
    if not one:
        return
    k = frozenset(one)
    if k not in memo:
        memo[k] = {x.obs: x for x in check(w, v.qual, {n: d for n, d in opaque.items() if n not in one}, depth + 1)}
    x = memo[k].get(v.obs)
    if x is not None and x.res.verdict in ("PROVED", "EQUAL"):
        v.res = Result("EQUAL", "after looking into " + ", ".join(sorted(one)))
    elif (x is None or x.res.verdict == "UNDECIDED") and \
            not (heads(v.code) - {("undefname",)} < heads(v.spec) and len(subterms(v.code)) < len(subterms(v.spec))):
        v.res = Result("UNDECIDED", "after looking into " + ", ".join(sorted(one)))


def unfold(v, own, ss, os_, more):
    """a recursive function: if the code satisfies the reference's own equation - recursive calls replaced, on both
    sides, by what the reference computes for them - it computes the same by induction"""
    body, names = os_.get("result"), ["fn:" + own, "m:" + own]
    if body is None:
        return
    ps = [mk("in_", n, k) if k and k != "kwargs" else mk("in_", n) for n, k in param_list(ss[2])]
    loops = any(x.op in ("lout", "map") for x in subterms(body).values())

    def once(t):
        m = {}
        for x in subterms(t).values():
            if x.op == "call" and x.a[0] in names and len(x.a[1]) == len(ps) and not x.a[2]:
                if loops and any(y.fv for y in x.a[1]):
                    return None
                at = dict(zip(ps, x.a[1]))
                m[x] = subst(body, at)
        return subst(t, m) if m else None
    c, s = v.code, v.spec
    for _ in range(2):
        c2, s2 = once(c), once(s)
        if c2 is None and s2 is None:
            return
        c, s = c2 or c, s2 or s
        r = compare(c, s, *more)
        if r.verdict in ("PROVED", "EQUAL"):
            v.res = Result("EQUAL", "with its recursive calls unfolded")
            return


def store_sites(prog):
    """{attribute: functions that store it}"""
    out = {}
    for m in prog.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.setdefault(x.attr, set()).add((m.name, fn.name))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                    out.setdefault("*", set()).add((m.name, fn.name))
                elif isinstance(x, ast.Attribute) and x.attr == "__dict__":
                    out.setdefault("*", set()).add((m.name, fn.name))
    return out


def moved(w, name):
    """is the attribute stored at a place where the reference does not store it"""
    if w.sites is None:
        w.sites = store_sites(w.code), store_sites(w.spec)
    c, s = w.sites
    return bool(c.get(name, set()) - s.get(name, set()) or c.get("*", set()) - s.get("*", set()))


def chain(t):
    d = {}
    while t.op == "store" and t.a[1].op == "const":
        d.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return d, t


def parts(name, a, b):
    """a container that is filled with the same constant keys on both sides is
    compared entry by entry"""
    if a is not b:
        if a.op == "store" and b.op == "store":
            da, ba = chain(a)
            db, bb = chain(b)
            if ba is bb and set(da) == set(db):
                out = []
                for k in db:
                    out += parts("%s[%s]" % (name, pretty(k)), da[k], db[k])
                return out
        if a.op == b.op and a.op in ("tuple", "list") and len(a.a) == len(b.a):
            out = []
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                out += parts("%s[%d]" % (name, i), x, y)
            return out
    return [(name, a, b)]


def class_default(w, cls, name):
    return cls is not None and w.code.class_attr(cls, name) is not None
