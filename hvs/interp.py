"""Abstract interpretation of the source into the value-graph domain.

Every function is translated, statement by statement, into terms: joins become
conditional terms, loops become fixed-point terms (one symbol per loop-carried
location, found by iterating the body to a fixed point), objects are addressed
symbolically.  No statement of the repository is executed.
"""
import ast
import builtins
import sys
from fractions import Fraction

from .terms import *
from . import terms as tm
from .store import (store, item, length, shape, ndim, isint, subst, height, has_slice,
                    is_scalar_key, definitely_distinct)
from . import libs
from .rnd import UNARY
from .source import import_bindings

sys.setrecursionlimit(50000)

F = ("F",)
INF = mk("inf")
EMPTYD = mk("dict", (), ABSENT)
EMPTYL = mk("list")
# attributes that hold the length of another one of the same object
COUNTED = {"n_objects": "object_list", "n_ae": "aes", "n_strata": "strata"}
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__"}


class Unsup(Exception):
    """construct outside the analysed language"""


class Dead(Exception):
    """the current path cannot continue"""


# ------------------------------------------------------------------ outcome trees
def leaf(kind, val, st):
    return ("leaf", kind, val, st)


def tite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return tite(c.a[0], b, a)
    return ("ite", c, a, b)


def tsub(t, r):
    if r is F:
        return t
    memo = {}

    def go(x):
        if x is F:
            return r
        if x[0] == "leaf":
            return x
        k = id(x)
        if k not in memo:
            memo[k] = tite(x[1], go(x[2]), go(x[3]))
        return memo[k]
    return go(t)


def tmap(t, f):
    """replace leaves"""
    memo = {}

    def go(x):
        if x is F:
            return F
        k = id(x)
        if k not in memo:
            memo[k] = f(x) if x[0] == "leaf" else tite(x[1], go(x[2]), go(x[3]))
        return memo[k]
    return go(t)


def tfold(t, f):
    """term of a tree: f(leaf) -> T or None (unreachable for this purpose)"""
    memo = {}

    def go(x):
        k = id(x)
        if k in memo:
            return memo[k]
        if x is F or x[0] == "leaf":
            r = f(x)
        else:
            a, b = go(x[2]), go(x[3])
            r = b if a is None else a if b is None else ite(x[1], a, b)
        memo[k] = r
        return r
    return go(t)


def tleaves(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x is F or x[0] == "leaf":
            out.append(x)
        else:
            stack.append(x[3])
            stack.append(x[2])
    return out


class State:
    __slots__ = ("env", "heap")

    def __init__(self, env=None, heap=None):
        self.env = {} if env is None else env
        self.heap = {} if heap is None else heap

    def copy(self):
        return State(dict(self.env), dict(self.heap))


class Frame:
    def __init__(self, module, cls, node, name):
        self.module = module
        self.cls = cls
        self.node = node
        self.name = name
        self.imports = {}
        self.exc = None
        self.loads = None
        self.parents = None
        self.exposed = {}


def exposed(loop):
    """names that may be read in an iteration before that iteration has set them"""
    out = set()

    def reads(e, have):
        for y in ast.walk(e):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in have:
                out.add(y.id)

    def stores(e):
        return {y.id for y in ast.walk(e) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}

    def block(body, have):
        have = set(have)
        for st in body:
            if isinstance(st, ast.If):
                reads(st.test, have)
                a, b = block(st.body, have), block(st.orelse, have)
                have |= a & b
            elif isinstance(st, ast.For):
                reads(st.iter, have)
                block(st.body, have | stores(st.target))
                block(st.orelse, have)
            elif isinstance(st, ast.While):
                reads(st.test, have)
                block(st.body, have)
                block(st.orelse, have)
            elif isinstance(st, ast.Try):
                block(st.body, have)
                for h in st.handlers:
                    block(h.body, have)
                block(st.orelse, have)
                have |= block(st.finalbody, have)
            elif isinstance(st, ast.With):
                for i in st.items:
                    reads(i.context_expr, have)
                    if i.optional_vars is not None:
                        have |= stores(i.optional_vars)
                have |= block(st.body, have)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                reads(st, have)
                have.add(st.name)
            else:
                if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id not in have:
                    out.add(st.target.id)
                # names bound by comprehensions are their own
                local = set()
                for y in ast.walk(st):
                    if isinstance(y, ast.comprehension):
                        local |= stores(y.target)
                    elif isinstance(y, ast.Lambda):
                        local |= {z.arg for z in y.args.args}
                reads(st, have | local)
                have |= stores(st) - local
        return have
    if isinstance(loop, ast.While):
        reads(loop.test, set())
        block(loop.body, set())
    else:
        block(loop.body, stores(loop.target))
    return out


def region(t):
    """name of the set of containers an address belongs to; containers reached
    through different attributes or parameters are taken to be different"""
    if t.op == "attr":
        return "." + t.a[1]
    if t.op == "in_":
        return "in:" + t.a[0]
    if t.op == "item":
        r = region(t.a[0])
        if not r:
            return ""
        if t.a[1].op == "const" and t.a[1].a[0] == "str":
            return r + "[%s]" % t.a[1].a[1]
        return r + "[]"
    if t.op == "rd":
        return region(t.a[1])
    if t.op == "new":
        return "new:" + t.a[0]
    return ""


def _appended(t, lv, depth=12):
    """(condition, value) of the element one round appends to lv, (FALSE, None) for none; (None, None) if it does
    anything else to the list."""
    if t is lv:
        return FALSE, None
    if t.op == "append" and t.a[0] is lv:
        return TRUE, t.a[1]
    if t.op == "ite" and depth:
        c1, v1 = _appended(t.a[1], lv, depth - 1)
        c2, v2 = _appended(t.a[2], lv, depth - 1)
        if c1 is None or c2 is None:
            return None, None
        return ite(t.a[0], c1, c2), v2 if v1 is None else v1 if v2 is None else ite(t.a[0], v1, v2)
    return None, None


class Interp:
    def __init__(self, prog, opaque, side):
        self.prog = prog
        self.opaque = opaque
        self.side = side
        self.st = None
        self.ctx = ()
        self.pend = F
        self.frames = []
        self.uid = 0
        self.fns = {}
        self.fnterms = {}
        self.views = set()
        self.small = {}         # arrays made here, and their (small) number of elements
        self.fndepth = 0
        self.clsof = {}
        self.closed = {}
        self.tries = []
        self.consts = {}
        self.inlined = set()
        self.calls_seen = 0
        self.stmts = 0
        self.recursive = None
        self.top = None

    # -------------------------------------------------------------- small helpers
    def fresh(self):
        self.uid += 1
        return "%s%d" % (self.side, self.uid)

    def new_ref(self, contents, kind="o"):
        r = mk("ref", self.fresh(), kind, self.ctx)
        self.st.heap[("c", r)] = contents
        if contents.op == "call" and contents.a[0] in ("zeros", "ones", "empty"):
            n = num(contents.a[1][0])
            if n is not None and 1 <= n <= 8:
                self.small[r] = int(n)
        return r

    def default(self, k):
        if k[0] == "v":
            return UNDEF
        if k[0] == "a":
            return self.attr_default(k[1], k[2])
        if k[0] == "c":
            return k[1]
        if k[0] == "eff":
            return EMPTYL
        if k[0] == "rng":
            return ZERO
        if k[0] == "fm":
            return mk("fm0", k[1], k[2])
        raise Unsup("cell " + repr(k))

    def attr_default(self, o, name):
        if o in self.closed:
            cls = self.closed[o]
            if cls is not None:
                a = self.prog.class_attr(cls, name)
                if a is not None:
                    return self.const_expr(a[1], a[0].module)
            return ABSENT
        d = mk("attr", o, name)
        if o.op == "call" and o.a[0] == "m:parse_args":
            # a flag without argument is a boolean
            for a in subterms(self.hget(("eff", "x:.add_argument"))).values():
                if a.op == "call" and a.a[0].startswith("x:.add_argument") and \
                        const("--" + name) in a.a[1] and ("action", const("store_true")) in a.a[2]:
                    return truth(d)
        return d

    def hget(self, k):
        v = self.st.heap.get(k)
        return v if v is not None else self.default(k)

    def deref(self, t):
        """current contents of the object a value denotes"""
        v = self.st.heap.get(("c", t))
        if v is not None:
            return v
        if t.op == "ite":
            a, b = self.deref(t.a[1]), self.deref(t.a[2])
            if a is not t.a[1] or b is not t.a[2]:
                return ite(t.a[0], a, b)
            return t
        if t.op in ("ref", "const", "poly"):
            return t
        if t.op in ("item", "attr", "lv", "new", "in_"):
            fms = [k for k in self.st.heap if k[0] == "fm" and k[1] == "c"]
            if fms:
                r = region(t)
                fms = [k for k in fms if not r or not k[2] or k[2] == r]
                if len(fms) > 1:
                    raise Unsup("contents written under several names")
                if fms:
                    return mk("rd", self.st.heap[fms[0]], t)
        return t

    def snap(self, t, depth=0):
        """value with every local container replaced by its present contents"""
        return self.resolve(t, self.st, set())

    def resolve(self, t, st, seen, memo=None):
        """Local containers are replaced by their contents wherever they occur;
        other addresses only where they stand for a reference (inside an
        arithmetic or call term they are a value read earlier)."""
        memo = {} if memo is None else memo
        from .store import rebuild

        def arg(x, rp):
            if isinstance(x, T):
                return go(x, rp)
            if isinstance(x, tuple):
                return tuple(arg(y, rp) for y in x)
            return x

        def go(x, rp):
            key = (x.id, rp)
            r = memo.get(key)
            if r is not None:
                return r
            o = x.op
            if o == "ref":
                if x in seen:
                    return mk("cyc")
                seen.add(x)
                c = st.heap.get(("c", x))
                if x.a[1] == "inst":
                    attrs = []
                    for k, v in st.heap.items():
                        if k[0] == "a" and k[1] is x:
                            attrs.append((k[2], go(v, True)))
                    attrs.sort()
                    cls = self.closed.get(x)
                    r = mk("objst", cls.name if cls else "object", tuple(attrs))
                else:
                    r = go(c, True) if c is not None else mk("cyc")
                seen.discard(x)
            elif o == "fn":
                r = self.fnterm(x)
            elif o in ("const", "lv", "ix", "glob", "undef", "absent", "inf"):
                r = x
            else:
                c = st.heap.get(("c", x)) if rp else None
                if c is not None and c is not x and x not in seen:
                    seen.add(x)
                    r = go(c, True)
                    seen.discard(x)
                elif o == "in_":
                    r = x
                elif o in ("list", "tuple"):
                    na = tuple(arg(y, rp) for y in x.a)
                    r = rebuild(o, na) if na != x.a else x
                elif o == "ite":
                    na = (go(x.a[0], False), go(x.a[1], rp), go(x.a[2], rp))
                    r = rebuild(o, na) if na != x.a else x
                elif o in ("store", "append"):
                    na = (go(x.a[0], False),) + tuple(go(y, False) for y in x.a[1:-1]) + (go(x.a[-1], rp),)
                    r = rebuild(o, na) if na != x.a else x
                else:
                    na = tuple(arg(y, False) for y in x.a)
                    r = rebuild(o, na) if na != x.a else x
            memo[key] = r
            return r
        return go(t, True)

    def fnterm(self, t):
        """a function value as a closed term"""
        if t in self.fnterms:
            return self.fnterms[t]
        self.fnterms[t] = t
        if t not in self.fns:
            return t
        node, fr, env = self.fns[t]
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults:
            raise Unsup("function value with unusual parameters")
        saved = (self.st, self.pend, self.ctx, self.tries)
        depth = self.fndepth
        self.fndepth += 1
        self.st = State(dict(env), dict(saved[0].heap) if saved[0] is not None else {})
        self.pend = F
        self.tries = []
        try:
            ps = [mk("in_", "%%%d.%d" % (depth, i)) for i in range(len(a.args))]
            before = dict(self.st.heap)
            try:
                v = self.snap(self.inline_fn(node, fr, env, ps, {}))
            except Dead:
                v = UNDEF
            for k in self.st.heap if self.st is not None else ():
                if k[0] == "eff" and self.st.heap[k] is not before.get(k):
                    raise Unsup("function value with effects")
        finally:
            self.st, self.pend, self.ctx, self.tries = saved
            self.fndepth = depth
        r = mk("lam", len(a.args), v)
        self.fnterms[t] = r
        return r

    def num(self, t):
        if t.op == "ref":
            return self.snap(t)
        c = self.deref(t)
        if c is not t:
            return self.resolve(c, self.st, {t} | ({t.a[1], t.a[2]} if t.op == "ite" else set()))
        return self.snap(t)

    # -------------------------------------------------------------- states
    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if s1 is s2:
            return s1
        out = State()
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            a = s1.env.get(k, UNDEF)
            b = s2.env.get(k, UNDEF)
            out.env[k] = a if a is b else ite(c, a, b)
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            a = s1.heap.get(k)
            b = s2.heap.get(k)
            if a is b:
                out.heap[k] = a
                continue
            if a is None:
                a = self.default(k) if not self.is_fresh_key(k) else b
            if b is None:
                b = self.default(k) if not self.is_fresh_key(k) else a
            out.heap[k] = ite(c, a, b)
        return out

    @staticmethod
    def is_fresh_key(k):
        return k[0] in ("c",) and k[1].op == "ref"

    def settle(self, tree, st):
        """merge the N leaves of a tree (and F with state st) into one state"""
        memo = {}

        def go(x):
            k = id(x)
            if k in memo:
                return memo[k]
            if x is F:
                r = (F, st)
            elif x[0] == "leaf":
                r = (F, x[3]) if x[1] == "N" else (x, None)
            else:
                t1, s1 = go(x[2])
                t2, s2 = go(x[3])
                r = (tite(x[1], t1, t2), self.merge(x[1], s1, s2))
            memo[k] = r
            return r
        return go(tree)

    def side_exit(self, tree):
        self.pend = tsub(self.pend, tree)

    # -------------------------------------------------------------- effects
    def effect(self, ch, t):
        k = ("eff", ch)
        self.st.heap[k] = libs.push(self.hget(k), t)

    def draw(self, fn, args, kw=()):
        args = tuple(args)
        kw = tuple(sorted(kw))
        k = ("rng", fn, args, kw, self.ctx)
        c = self.hget(k)
        self.st.heap[k] = add(c, ONE)
        return mk("draw", fn, args, kw, c, self.ctx)

    def may_raise(self, t):
        if self.tries:
            self.tries[-1].append(t)

    # -------------------------------------------------------------- statements
    def exec_block(self, body):
        tree = F
        for s in body:
            if self.st is None:
                break
            tree = tsub(tree, self.exec_stmt(s))
        return tree

    def exec_stmt(self, s):
        self.stmts += 1
        saved = self.pend
        self.pend = F
        if self.side == "c":
            tm.cur_line[0] = (self.frames[-1].module.path, s.lineno)
        else:
            tm.cur_line[0] = None
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsup("statement " + type(s).__name__)
            try:
                t = m(s)
            except Dead:
                t = F
                self.st = None
            return tsub(self.pend, t if t is not None else F)
        finally:
            self.pend = saved

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        raise Unsup("global")

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsup("decorated nested function")
        self.st.env[s.name] = self.make_fn(s)

    def s_ClassDef(self, s):
        raise Unsup("nested class")

    def s_Import(self, s):
        fr = self.frames[-1]
        for a, q in import_bindings(s, fr.module.name.split("!")[0]):
            if a == "*":
                raise Unsup("local star import")
            fr.imports[a] = q
            self.st.env.pop(a, None)
            self.may_raise(mk("call", "import", (const(q.split(".")[0]),), ()))

    s_ImportFrom = s_Import

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        st = self.st
        self.st = None
        return leaf("R", v, st)

    def s_Break(self, s):
        st = self.st
        self.st = None
        return leaf("B", None, st)

    def s_Continue(self, s):
        st = self.st
        self.st = None
        return leaf("C", None, st)

    def exit(self, code):
        """sys.exit: leaves as an exception that only says success or failure"""
        if is_const(code, "none") or is_const(code, "num") and cval(code) == 0:
            n = "SystemExit(success)"
        elif is_const(code):
            n = "SystemExit(failure)"
        else:
            n = None
        if n is None:
            c = truth(code)
            st = self.st
            out = tite(c, leaf("X", const("SystemExit(failure)"), st.copy()), leaf("X", const("SystemExit(success)"), st))
        else:
            out = leaf("X", const(n), self.st)
        self.pend = tsub(self.pend, out)
        self.st = None
        raise Dead()

    def s_Raise(self, s):
        name = None
        if s.exc is None:
            name = self.frames[-1].exc or "Exception"
        else:
            e = s.exc
            if isinstance(e, (ast.Call, ast.Name)) and self.last_name_or(e) == "SystemExit":
                self.exit(self.ev(e.args[0]) if isinstance(e, ast.Call) and e.args else NONE)
            if isinstance(e, ast.Call):
                f = e.func
                if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "type":
                    name = self.frames[-1].exc or "Exception"
                else:
                    name = self.last_name(f)
            elif isinstance(e, ast.Name) and e.id in self.st.env:
                v = self.st.env[e.id]
                name = v.a[0] if v.op == "excval" else "Exception"
            else:
                name = self.last_name(e)
        st = self.st
        self.st = None
        return leaf("X", const(name), st)

    def last_name_or(self, e):
        f = e.func if isinstance(e, ast.Call) else e
        return f.id if isinstance(f, ast.Name) else None

    def last_name(self, f):
        if isinstance(f, ast.Name):
            return f.id
        if isinstance(f, ast.Attribute):
            return f.attr
        raise Unsup("exception expression")

    def s_Assert(self, s):
        c = truth(self.ev(s.test))
        if c is TRUE:
            return F
        st = self.st
        return tite(c, F, leaf("X", const("AssertionError"), st.copy()))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                k = self.ev_index(t.slice)
                if is_const(k, "str"):
                    self.write(b, store(self.deref(b), k, ABSENT))
                else:
                    self.write(b, mk("call", "del", (self.snap(self.deref(b)), k), ()))
            elif isinstance(t, ast.Attribute):
                self.setattr(self.ev(t.value), t.attr, ABSENT)
            else:
                raise Unsup("del")

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            put = lambda v: self.assign(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b, k = self.target(t)
            old = self.getitem(b, k)
            put = lambda v: self.setitem(b, k, v)
        else:
            raise Unsup("augmented assignment")
        new = self.binop(s.op, old, self.ev(s.value))
        if isinstance(t, ast.Subscript) and has_slice(k):
            put(new)                    # the part is written back
        elif old.op == "ref" or (old.op == "new"):
            self.write(old, new)        # in place
        else:
            put(new)

    def s_If(self, s):
        c = truth(self.ev(s.test))
        if c is TRUE:
            return self.exec_block(s.body)
        if c is FALSE:
            return self.exec_block(s.orelse)
        s0 = self.st
        self.st = s0.copy()
        t1 = self.exec_block(s.body)
        s1 = self.st
        self.st = s0.copy()
        t2 = self.exec_block(s.orelse)
        s2 = self.st
        self.st = self.merge(c, s1, s2)
        return tite(c, t1, t2)

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.exec_block(s.body)

    # ---- try
    def s_Try(self, s):
        if s.finalbody and (s.handlers or True):
            pass
        s0 = self.st.copy()
        self.tries.append([])
        t1 = self.exec_block(s.body)
        rec = self.tries.pop()
        if s.orelse and self.st is not None:
            t1 = tsub(t1, self.exec_block(s.orelse))
        s1 = self.st
        tree, st = t1, s1
        fr = self.frames[-1]
        for h in reversed(s.handlers):
            names = self.handler_names(h)
            generic = names is None or "Exception" in names or "BaseException" in names
            hname = "Exception" if generic else names[0]
            keyed = names is not None and bool(set(names) & {"KeyError", "LookupError"})
            looks = [r for r in rec if r.op == "call" and r.a[0] == "key_"]
            calls = [r for r in rec if r not in looks]
            if looks and (keyed or generic and not calls):
                calls = calls + looks
            if names is not None and not generic and set(names) <= {"ImportError", "ModuleNotFoundError"}:
                calls = [r for r in rec if r.op == "call" and (r.a[0] == "import" or r.a[0] == "apply")]
            elif not generic:
                calls = [r for r in rec if not (r.op == "call" and r.a[0] == "import")]

            def run(state, exname):
                saved_exc, saved_st = fr.exc, self.st
                fr.exc = exname
                self.st = state.copy()
                if h.name:
                    self.st.env[h.name] = mk("excval", exname)
                th = self.exec_block(h.body)
                sh = self.st
                fr.exc, self.st = saved_exc, saved_st
                return th if sh is None else tsub(th, leaf("N", None, sh))

            # explicit raises of the body
            def catch(l):
                if l[1] == "X" and cval(l[2]).startswith("SystemExit"):
                    if names is None or "BaseException" in names or "SystemExit" in names:
                        return run(l[3], "SystemExit")
                    return l
                if l[1] == "X" and (generic or cval(l[2]) in names or
                                    (set(names) & {"LookupError"} and cval(l[2]) in ("KeyError", "IndexError"))):
                    return run(l[3], cval(l[2]))
                return l
            tree = tmap(tree, catch)
            cond = FALSE
            atoms = []
            for r in calls:
                if r.op == "call" and r.a[0] in ("index_", "key_"):
                    cond = or_(cond, not_(self.contains(r.a[1][1], r.a[1][0])))
                elif r not in atoms:
                    atoms.append(r)
            if atoms:
                atoms.sort(key=lambda x: x.id)
                cond = or_(cond, mk("exc", hname, tuple(atoms)))
            if cond is not FALSE:
                th = run(s0, hname)
                tree = tite(cond, th, tsub(tree, leaf("N", None, st)) if st is not None else tree)
                st = None
            tree, st = self.settle(tree, st)
        self.st = st
        if s.finalbody and self.st is not None:
            tree = tsub(tree, self.exec_block(s.finalbody))
        if self.tries and not s.handlers:
            self.tries[-1].extend(rec)
        return tree

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [self.last_name(t) for t in ts]

    # ---- loops
    def s_For(self, s):
        it = self.iterate(s.iter)
        return self.for_loop(s, it, lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body),
                             s.orelse)

    def s_While(self, s):
        def body():
            c = truth(self.ev(s.test))
            if c is FALSE:
                st = self.st
                self.st = None
                return leaf("B", "head", st)
            head = F
            if c is not TRUE:
                head = tite(c, F, leaf("B", "head", self.st.copy()))
            return tsub(head, self.exec_block(s.body))
        return self.loop(s, INF, None, body, s.orelse)

    def iterate(self, e):
        """('lit', [values]) or ('seq', n, f(ix))"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in self.st.env:
            f = e.func.id
            if f == "range" and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args):
                a = [self.num(self.ev(x)) for x in e.args]
                lo, hi, stp = ZERO, None, ONE
                if len(a) == 1:
                    hi = a[0]
                else:
                    lo, hi = a[0], a[1]
                    if len(a) > 2:
                        stp = a[2]
                sn = num(stp)
                if sn is None or sn == 0:
                    n = mk("call", "ceil", (div(sub(hi, lo), stp),), ())
                elif abs(sn) == 1:
                    n = mul(sub(hi, lo), const(sn))
                else:
                    n = mk("call", "ceil", (div(sub(hi, lo), stp),), ())
                nn = num(n)
                if nn is not None and nn <= 6:
                    return ("lit", [add(lo, mul(stp, const(i))) for i in range(max(0, int(nn)))])
                return ("seq", n, lambda ix: add(lo, mul(stp, ix)))
            if f == "enumerate":
                start = ZERO
                if len(e.args) > 1:
                    start = self.num(self.ev(e.args[1]))
                for kw in e.keywords:
                    start = self.num(self.ev(kw.value))
                it = self.iterate(e.args[0])
                if it[0] == "lit":
                    return ("lit", [mk("tuple", add(start, const(i)), v) for i, v in enumerate(it[1])])
                return ("seq", it[1], lambda ix: mk("tuple", add(start, ix), it[2](ix)))
            if f == "zip" and not any(isinstance(a, ast.Starred) for a in e.args):
                its = [self.iterate(a) for a in e.args]
                if all(i[0] == "lit" for i in its):
                    return ("lit", [mk("tuple", *v) for v in zip(*[i[1] for i in its])])
                if any(i[0] == "lit" for i in its):
                    raise Unsup("zip of literal and sequence")
                n = its[0][1]
                for i in its[1:]:
                    n = n if n is i[1] else self.zipmin(n, i[1])
                return ("seq", n, lambda ix: mk("tuple", *[i[2](ix) for i in its]))
            if f == "reversed":
                it = self.iterate(e.args[0])
                if it[0] == "lit":
                    return ("lit", it[1][::-1])
                return ("seq", it[1], lambda ix: it[2](sub(sub(it[1], ONE), ix)))
            if f in ("list", "tuple", "iter") and len(e.args) == 1:
                return self.iterate(e.args[0])
            if f == "map" and len(e.args) == 2:
                fn = self.ev(e.args[0])
                it = self.iterate(e.args[1])
                if it[0] == "lit":
                    return ("lit", [self.apply(fn, [v], {}) for v in it[1]])
                return ("seq", it[1], lambda ix: self.apply(fn, [it[2](ix)], {}))
        x = e
        while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("sorted", "list", "tuple", "iter") \
                and len(x.args) == 1 and not x.keywords and x.func.id not in self.st.env:
            x = x.args[0]
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not x.keywords and (
                x.func.attr == "iterdir" and not x.args or x.func.attr == "glob" and len(x.args) == 1 and
                isinstance(x.args[0], ast.Constant) and x.args[0].value == "*"):
            b = self.num(self.ev(x.func.value))
            if libs.pathy(b):
                # the entries of a directory, in no particular order
                v = self.deref(libs.external_vals(self, "os.listdir", [b], {}))
                return ("seq", length(v), lambda ix: libs.join([b, item(v, ix)]))
        if isinstance(e, ast.Call) and e.args and not e.keywords and self.last_name(e.func) in ("ndindex", "product") \
                and not any(isinstance(a, ast.Starred) for a in e.args):
            g = self.ev(e.func)
            n = g.a[0].split(":")[-1] if g.op == "glob" else ""
            its = None
            if n in ("np.ndindex", "numpy.ndindex"):
                d = [self.num(self.ev(a)) for a in e.args] if len(e.args) > 1 or not isinstance(
                    e.args[0], (ast.Tuple, ast.List)) else [self.num(self.ev(a)) for a in e.args[0].elts]
                if len(d) > 1:
                    its = [("seq", x, lambda ix: ix) for x in d]
            elif n == "itertools.product":
                its = [self.iterate(a) for a in e.args]
                its = [("seq", const(len(i[1])), lambda ix, i=i: item(mk("list", *i[1]), ix)) if i[0] == "lit" else i
                       for i in its]
            if its and all(num(i[1]) is None or num(i[1]) > 0 for i in its):
                # the last one runs fastest
                def at(ix):
                    out = []
                    for j, i in enumerate(its):
                        f = ONE
                        for x in its[j + 1:]:
                            f = mul(f, x[1])
                        q = ix if f is ONE else floordiv(ix, f)
                        out.append(i[2](mod(q, i[1]) if j else q))
                    return mk("tuple", *out)
                n = its[0][1]
                for i in its[1:]:
                    n = mul(n, i[1])
                return ("seq", n, at)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.args and not e.keywords \
                and e.func.attr in ("items", "keys", "values"):
            d = self.ev(e.func.value)
            c = self.deref(d)
            keys = self.known_keys(c)
            k = e.func.attr
            if keys is not None:
                vals = [item(c, x) for x in keys]
                return ("lit", [mk("tuple", a, b) for a, b in zip(keys, vals)] if k == "items"
                        else keys if k == "keys" else vals)
            c = self.snap_shallow(c)
            if k == "keys":
                return ("seq", length(c), lambda ix: item(c, ix))
            if k == "values":
                return ("seq", length(c), lambda ix: self.getitem(d, item(c, ix)))
            return ("seq", length(c), lambda ix: mk("tuple", item(c, ix), self.getitem(d, item(c, ix))))
        v = self.ev(e)
        return self.iterate_value(v)

    def zipmin(self, a, b):
        if a.op == "call" and b.op == "call" and a.a[0] == b.a[0] == "len":
            # parallel lists that grow together
            x, y = a.a[1][0], b.a[1][0]
            if x.op == y.op == "attr":
                return a if a.id < b.id else b
        return mk("call", "min", tuple(sorted((a, b), key=lambda t: t.id)), ())

    def snap_shallow(self, t):
        return t

    def known_keys(self, c):
        keys = []
        while c.op == "store" and is_const(c.a[1], "str"):
            if c.a[2] is not ABSENT:
                keys.append(c.a[1])
            c = c.a[0]
        if c is EMPTYD:
            return keys[::-1]
        return None

    def iterate_value(self, v):
        c = self.deref(v)
        if c.op in ("list", "tuple") and len(c.a) <= 12:
            return ("lit", list(c.a))
        if c.op == "dict" or c.op == "store":
            keys = self.known_keys(c)
            if keys is not None and len(keys) <= 16:
                return ("lit", keys)
        if is_const(c, "str"):
            return ("lit", [const(x) for x in cval(c)])
        if c.op == "call" and c.a[0] == "keys_":
            c = c.a[1][0]
        if c.op == "item" and c.a[1].op == "slice":
            r = self.iterate_slice(c.a[0], c.a[1])
            if r:
                return r
        return ("seq", length(c), lambda ix: item(c, ix))

    def iterate_slice(self, b, k):
        """a part of a sequence, by its positions in the whole"""
        lo, hi, st = k.a
        n = length(b)
        if is_const(lo, "none") and is_const(hi, "none") and num(st) == -1:
            return ("seq", n, lambda ix: item(b, sub(sub(n, ONE), ix)))
        if not is_const(st, "none"):
            return None
        lon = 0 if is_const(lo, "none") else num(lo)
        hin = None if is_const(hi, "none") else num(hi)
        if lon is None or (hin is None and not is_const(hi, "none")):
            return None
        if hin is not None and (hin >= 0) == (lon >= 0):
            return ("lit", [item(b, const(i)) for i in range(int(lon), int(hin))]) if 0 <= hin - lon <= 6 else None
        first = const(lon) if lon >= 0 else add(n, const(lon))
        last = n if hin is None else (add(n, hi) if hin < 0 else hi)
        return ("seq", sub(last, first), lambda ix: item(b, add(first, ix)))

    def for_loop(self, node, it, bind, body, orelse=()):
        if it[0] == "lit":
            tree = F
            brk = []
            for v in it[1]:
                if self.st is None:
                    break
                bind(v)
                t = body()
                # continue -> fall through ; break -> collected
                t = tmap(t, lambda l: leaf("N", None, l[3]) if l[1] == "C" else l)
                t = tsub(t, leaf("N", None, self.st)) if self.st is not None else t
                t, st = self.settle(t, None)
                self.st = st
                tree = tsub(tree, t)
            if orelse and self.st is not None:
                tree = tsub(tree, self.exec_block(orelse))
            if any(l[0] == "leaf" and l[1] == "B" for l in tleaves(tree)):
                tree = tmap(tree, lambda l: leaf("N", None, l[3]) if l[1] == "B" else l)
                if self.st is not None:
                    tree = tsub(tree, leaf("N", None, self.st))
                tree, self.st = self.settle(tree, None)
            return tree
        _, n, el = it
        return self.loop(node, n, lambda ix: bind(el(ix)), body, orelse)

    def live_after(self, node):
        fr = self.frames[-1]
        if fr.loads is None:
            fr.loads = {}
            for x in ast.walk(fr.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    fr.loads.setdefault(x.id, []).append(x)
        inside = set()
        if isinstance(node, ast.AST):
            inside = {id(x) for x in ast.walk(node)}
        return {n for n, l in fr.loads.items() if any(id(x) not in inside for x in l)} | self.carried(node)

    def carried(self, node):
        """variables a loop inside another loop hands to the next round of the outer one"""
        fr = self.frames[-1]
        if not isinstance(node, ast.AST):
            return set()
        if fr.parents is None:
            fr.parents = {}
            for x in ast.walk(fr.node):
                for y in ast.iter_child_nodes(x):
                    fr.parents[id(y)] = x
        out = set()
        x = fr.parents.get(id(node))
        while x is not None and not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            if isinstance(x, (ast.For, ast.While)):
                if x not in fr.exposed:
                    fr.exposed[x] = exposed(x)
                out |= fr.exposed[x]
            x = fr.parents.get(id(x))
        return out

    def loop(self, node, n, bind, body, orelse=()):
        entry = self.st
        uid = self.fresh()
        ix = mk("ix", uid)
        slots = {}
        saved_ctx = self.ctx
        ntry = len(self.tries)
        for rounds in range(12):
            st = entry.copy()
            for k, lv in slots.items():
                if k[0] == "v":
                    st.env[k[1]] = lv
                else:
                    st.heap[k] = lv
            for k in list(st.heap):
                if k[0] == "rng":
                    del st.heap[k]
            start = st.copy()
            self.st = st
            self.ctx = saved_ctx + (ix,)
            rec_len = len(self.tries[-1]) if self.tries else 0
            if bind is not None:
                bind(ix)
            tree = body()
            self.ctx = saved_ctx
            if self.st is not None:
                tree = tsub(tree, leaf("N", None, self.st))
            tree = tmap(tree, lambda l: self.close_leaf(l, ix, uid, start))
            new = False
            for l in tleaves(tree):
                if l is F:
                    continue
                s = l[3]
                for k, v in s.env.items():
                    kk = ("v", k)
                    if kk not in slots and v is not start.env.get(k):
                        slots[kk] = mk("lv", uid, "v:" + k)
                        new = True
                for k, v in s.heap.items():
                    if k[0] == "rng" or k in slots:
                        continue
                    if v is not start.heap.get(k) and not (k not in start.heap and v is self.default(k)):
                        if k[0] == "c" and k[1].op == "ref" and k not in entry.heap:
                            continue
                        slots[k] = mk("lv", uid, repr((k[0],) + tuple(
                            x.id if isinstance(x, T) else str(x) for x in k[1:])))
                        new = True
            if not new:
                break
            if self.tries:
                del self.tries[-1][rec_len:]
        else:
            raise Unsup("loop state does not stabilise")
        return self.close_loop(node, n, entry, slots, tree, uid, ix, orelse)

    def close_leaf(self, l, ix, uid, start):
        """end of an iteration: fold loop-local objects into what they are stored in"""
        _, kind, val, st = l
        st = st.copy()

        def variant(t):
            return any(f[1] == uid for f in t.fv)

        fresh = [k for k in st.heap if k[0] in ("a", "c") and k[1].op == "ref" and ix in k[1].a[2]
                 and k not in start.heap]
        freshset = {k[1] for k in fresh}
        memo = {}

        def fold(t):
            if not freshset:
                return t
            return self.resolve_only(t, st, freshset, memo)
        for k in list(st.env):
            st.env[k] = fold(st.env[k])
        for k in list(st.heap):
            if k in fresh:
                continue
            st.heap[k] = fold(st.heap[k])
        if isinstance(val, T):
            val = fold(val)
        for k in fresh:
            del st.heap[k]
        for k in list(st.heap):
            if k[0] in ("a", "c") and k not in start.heap:
                addr = fold(k[1])
                if variant(addr):
                    fk = ("fm", k[0], k[2] if k[0] == "a" else region(addr))
                    old = st.heap.get(fk) or self.default(fk)
                    st.heap[fk] = mk("fmst", old, addr, st.heap[k])
                    del st.heap[k]
        return leaf(kind, val, st)

    def resolve_only(self, t, st, refs, memo):
        seen = set()

        def arg(x):
            if isinstance(x, T):
                return go(x)
            if isinstance(x, tuple):
                return tuple(arg(y) for y in x)
            return x

        def go(x):
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op == "ref":
                if x not in refs or x in seen:
                    return x
                seen.add(x)
                if x.a[1] == "inst":
                    attrs = sorted((k[2], go(v)) for k, v in st.heap.items() if k[0] == "a" and k[1] is x)
                    cls = self.closed.get(x)
                    r = mk("objst", cls.name if cls else "object", tuple(attrs))
                else:
                    c = st.heap.get(("c", x))
                    r = go(c) if c is not None else x
                seen.discard(x)
            elif x.op in ("const", "in_", "lv", "ix", "fn", "glob", "undef", "absent", "inf"):
                r = x
            else:
                na = tuple(arg(y) for y in x.a)
                from .store import rebuild
                r = rebuild(x.op, na) if na != x.a else x
            memo[x.id] = r
            return r
        return go(t)

    def close_loop(self, node, n, entry, slots, tree, uid, ix, orelse):
        keys = list(slots)

        def get(st, k):
            if k[0] == "v":
                return st.env.get(k[1], UNDEF)
            v = st.heap.get(k)
            return v if v is not None else self.default(k)

        init = {k: get(entry, k) for k in keys}
        cont = lambda l: l[1] in ("N", "C")
        brk = tfold(tree, lambda l: FALSE if cont(l) else TRUE)
        nxt = {}
        for k in keys:
            v = tfold(tree, lambda l: get(l[3], k) if cont(l) else None)
            nxt[k] = v if v is not None else slots[k]
        hasbrk = brk is not FALSE
        bvs = {}
        if hasbrk:
            for k in keys:
                bvs[k] = tfold(tree, lambda l: None if cont(l) else get(l[3], k))
        kinds = sorted({(l[1] if l[1] != "X" else "X:" + cval(l[2])) for l in tleaves(tree) if not cont(l)})
        exits = [k for k in kinds if k != "B"]
        kindv = tfold(tree, lambda l: None if cont(l) else const(
            l[1] if l[1] != "X" else "X:" + cval(l[2]))) if hasbrk else None
        retv = tfold(tree, lambda l: l[2] if l[1] == "R" else None) if "R" in kinds else None
        lv2k = {slots[k]: k for k in keys}

        # --- loop-invariant and induction slots
        m = {}
        own = lambda t: any(f[1] == uid for f in t.fv)
        active = list(keys)
        changed = True
        fin_of = {k: slots[k] for k in keys}
        while changed:
            changed = False
            for k in list(active):
                lv = slots[k]
                nx = nxt[k]
                rep = None
                if nx is lv and not own(init[k]):
                    rep = init[k]
                    end = init[k]
                elif nx.op not in ("append", "store", "ite", "list", "tuple", "lcat"):
                    try:
                        d = tm.sub(nx, lv) if tm._isnumlike(nx) and not tm.stry(nx) and not tm.listy(nx) else None
                    except Exception:
                        d = None
                    if d is not None and d is not ZERO and not own(d) and nx.op in ("poly", "call", "attr", "item", "in_", "const", "draw") \
                            and any(x is lv for mm in tm.to_poly(nx) for x, e in mm):
                        rep = add(init[k], mul(d, ix))
                        end = add(init[k], mul(d, n)) if n is not INF else None
                if rep is None:
                    continue
                sm = {lv: rep}
                active.remove(k)
                fin_of[k] = (rep, end)
                for q in keys:
                    nxt[q] = subst(nxt[q], sm)
                    if hasbrk:
                        bvs[q] = subst(bvs[q], sm) if bvs[q] is not None else None
                    if isinstance(fin_of[q], tuple) and q != k:
                        fin_of[q] = (subst(fin_of[q][0], sm), fin_of[q][1])
                brk = subst(brk, sm)
                if kindv is not None:
                    kindv = subst(kindv, sm)
                if retv is not None:
                    retv = subst(retv, sm)
                changed = True
        hasbrk = brk is not FALSE
        # --- while i < N counted by ix  ->  counted loop
        if n is INF and brk.op in ("not", "ite"):
            c, rest = None, FALSE
            if brk.op == "not":
                c = brk.a[0]
            elif brk.a[2] is TRUE:
                c, rest = brk.a[0], brk.a[1]
            if c is not None and c.op == "lt" and c.a[0] is ZERO:
                d = add(c.a[1], ix)
                if not own(d) and (isint(d) or self.intlike(d)):
                    n = d
                    # leaving through the head is exhaustion, not a break
                    brk = rest
                    hasbrk = brk is not FALSE
                    for q in keys:
                        if isinstance(fin_of[q], tuple):
                            rep, end = fin_of[q]
                            fin_of[q] = (rep, subst(rep, {ix: n}) if not own(subst(rep, {ix: n})) else None)
                    fix = lambda t: None if t is None else tm._assume(t, c, True, 50)
                    for q in keys:
                        nxt[q] = fix(nxt[q])
                        if q in bvs:
                            bvs[q] = fix(bvs[q]) if hasbrk else None
                    kindv = fix(kindv) if hasbrk else None
                    if not hasbrk:
                        exits = []
        ctxinfo = dict(n=n, brk=brk, slots=slots, init=init, nxt=nxt, active=active, uid=uid, ix=ix)
        for rec in self.tries:
            for i, r in enumerate(rec):
                if own(r):
                    sm = {slots[k]: fin_of[k][0] for k in keys if isinstance(fin_of[k], tuple)}
                    r = subst(r, sm)
                    rec[i] = self.make_lout(ctxinfo, UNDEF, r) if own(r) else r
        self.st = entry.copy()
        live = self.live_after(node)
        out = {}
        for k in keys:
            if k[0] == "v" and k[1] not in live:
                self.st.env[k[1]] = UNDEF
                continue
            if isinstance(fin_of[k], tuple):
                rep, end = fin_of[k]
                if not hasbrk and end is not None:
                    v = end
                    if k[0] == "v" and num(n) is None and end is not init[k]:
                        pass
                elif hasbrk and bvs[k] is not None and not own(bvs[k]) and (bvs[k] is end):
                    v = end
                else:
                    fin = end if end is not None else rep
                    v = self.make_lout(ctxinfo, bvs.get(k) or UNDEF, fin)
            else:
                v = self.make_lout(ctxinfo, (bvs.get(k) or UNDEF) if hasbrk else UNDEF, slots[k], key=k)
            if k[0] == "v":
                self.st.env[k[1]] = v
            else:
                self.st.heap[k] = v
        res = F
        if exits or (orelse and hasbrk):
            kv = self.make_lout(ctxinfo, kindv, const("F"))
            if orelse:
                cexh = eq(kv, const("F"))
                s0 = self.st
                self.st = s0.copy()
                t = self.exec_block(orelse)
                s1 = self.st
                self.st = self.merge(cexh, s1, s0)
                res = tite(cexh, t, F)
            for x in exits:
                st = self.st.copy() if self.st is not None else entry.copy()
                if x == "R":
                    l = leaf("R", self.make_lout(ctxinfo, retv, UNDEF), st)
                else:
                    l = leaf("X", const(x[2:]), st)
                res = tsub(tite(eq(kv, const(x)), l, F), res)
            if n is INF and not any(k == "B" for k in kinds):
                # only left through return/raise
                res = tmap(tsub(res, leaf("DEAD", None, None)), lambda l: l)
                res = self.drop_dead(res)
                self.st = None
        elif orelse and self.st is not None:
            res = self.exec_block(orelse)
        return res

    def drop_dead(self, t):
        memo = {}

        def go(x):
            if x is F or (x[0] == "leaf"):
                return x
            k = id(x)
            if k not in memo:
                a, b = go(x[2]), go(x[3])
                if a is not F and a[0] == "leaf" and a[1] == "DEAD":
                    memo[k] = b
                elif b is not F and b[0] == "leaf" and b[1] == "DEAD":
                    memo[k] = a
                else:
                    memo[k] = tite(x[1], a, b)
            return memo[k]
        return go(t)

    def intlike(self, t):
        if t.op == "in_" or t.op == "attr" or t.op == "item":
            return t.op == "attr" and t.a[1] in ("nx", "ny", "nz") or (t.op == "call" and t.a[0] == "len")
        return False

    def make_lout(self, L, bv, fin, key=None):
        from .rnd import Sample, Env, Discard, key as rkey
        uid, ix, slots, nxt, init, n, brk = L["uid"], L["ix"], L["slots"], L["nxt"], L["init"], L["n"], L["brk"]
        own = lambda t: {f for f in t.fv if f[1] == uid}
        hasbrk = brk is not FALSE
        sym2k = {("lv",) + slots[k].a: k for k in L["active"]}

        def deps(ts):
            need, todo = [], list(ts)
            while todo:
                t = todo.pop()
                for f in own(t):
                    k = sym2k.get(f)
                    if k is not None and k not in need:
                        need.append(k)
                        todo.append(nxt[k])
            return need
        if not hasbrk:
            bv = UNDEF
            if not own(fin):
                return fin
            # a single slot that does not feed back
            if key is not None and fin is slots[key]:
                nx = nxt[key]
                o = own(nx)
                if not o:
                    return ite(lt(ZERO, n), nx, init[key])
                if o == {("ix", uid)}:
                    if n is not INF:
                        return ite(lt(ZERO, n), subst(nx, {ix: sub(n, ONE)}), init[key])
                r = self.as_map(L, key)
                if r is not None:
                    return r
        ts = [fin] + ([brk, bv] if hasbrk else [])
        need = deps(ts)
        body = [nxt[k] for k in need] + ([brk, bv] if hasbrk else []) + [fin]
        h = 1 + max([height(t) for t in body] + [0])
        # canonical order of the slots: colours by random interpretation
        order = {k: i for i, k in enumerate(slots)}
        need.sort(key=lambda k: order[k])
        if len(need) > 1:
            col = {k: 1.5 for k in need}
            for r in range(3):
                sm = Sample(1000 + r * 5 + 1, anon=True)
                new = {}
                for k in need:
                    vals = {("lv",) + slots[q].a: (col[q] if r else 1.5) for q in need}
                    e = Env(Env(None, {}, {}), vals, {("ix", uid): 2})
                    try:
                        v = (rkey(sm.ev(init[k], Env(None, {}, {}))), rkey(sm.ev(nxt[k], e)))
                        if not hasbrk:
                            v = v + (fin is slots[k],)
                        else:
                            v = v + (rkey(sm.ev(fin, e)) if own(fin) else None, fin is slots[k])
                    except Discard:
                        v = ("x",)
                    from .rnd import _h
                    new[k] = (_h(v, r, col[k]) % 999983) / 7919.0
                col = new
            need.sort(key=lambda k: col[k])
        m = {slots[k]: mk("lv", h, i) for i, k in enumerate(need)}
        m[ix] = mk("ix", h)
        g = lambda t: subst(t, m)
        sl = tuple((init[k], g(nxt[k])) for k in need)
        return mk("lout", n, g(brk), sl, g(bv) if hasbrk else UNDEF, g(fin), h)

    def as_map(self, L, key):
        """append loops are maps"""
        uid, ix, slots, nxt, init, n = L["uid"], L["ix"], L["slots"], L["nxt"], L["init"], L["n"]
        if n is INF:
            return None
        lv = slots[key]
        nx = nxt[key]
        c, v = _appended(nx, lv)
        if v is None:
            return None
        act = {("lv",) + slots[k].a for k in L["active"]}
        if (v.fv | c.fv) & act:
            return None
        h = 1 + max(height(v), height(c))
        m = {ix: mk("ix", h)}
        mp = mk("map", n, subst(v, m), subst(c, m), h)
        i0 = init[key]
        if i0 is EMPTYL:
            return mp
        return mk("lcat", i0, mp)

    # -------------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b, k = self.target(t)
            self.setitem(b, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.deref(v)
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsup("starred assignment")
            if c.op in ("tuple", "list") and len(c.a) != n:
                raise Unsup("unpacking mismatch")
            for i, x in enumerate(t.elts):
                self.assign(x, self.getitem(v, const(i)))
        else:
            raise Unsup("assignment target " + type(t).__name__)

    def target(self, t):
        """container and key a subscript store goes to; a[i][j] of an array is a[i, j]"""
        if isinstance(t.value, ast.Attribute) and t.value.attr in ("flat", "T", "real", "imag"):
            raise Unsup("store through a view")
        b = self.ev(t.value)
        k = self.ev_index(t.slice)
        if b.op == "item" and ("c", b) not in self.st.heap and isinstance(t.value, ast.Subscript) \
                and not any(isinstance(x, ast.Call) for x in ast.walk(t.value)) \
                and not is_const(b.a[1], "str"):
            b0, k0 = self.target(t.value)
            if b0.op == "ref" and is_scalar_key(k0) and not is_const(k0, "str"):
                flat = lambda x: x.a if x.op == "tuple" else (x,)
                return b0, mk("tuple", *(flat(k0) + flat(k)))
        return b, k

    def setattr(self, o, name, v):
        if o.op == "ite":
            c, a, b = o.a
            self.setattr(a, name, ite(c, v, self.getattr(a, name)))
            self.setattr(b, name, ite(c, self.getattr(b, name), v))
            return
        self.st.heap[("a", o, name)] = v

    def write(self, o, contents):
        if o.op == "ite":
            c, a, b = o.a
            da, db = self.deref(a), self.deref(b)
            self.write(a, ite(c, contents, da))
            self.write(b, ite(c, db, contents))
            return
        if o.op == "const":
            return      # a type error at run time
        if o in self.views:
            raise Unsup("write through a view")
        if o.op == "item" and not self.stable(o):
            raise Unsup("write through a part of a value")
        self.st.heap[("c", o)] = contents

    def setitem(self, b, k, v):
        if v.op == "ref" and self.is_array(v):
            v = self.num(v)
        if b.op == "ite":
            c, x, y = b.a
            self.write(x, ite(c, store(self.deref(x), k, v), self.deref(x)))
            self.write(y, ite(c, self.deref(y), store(self.deref(y), k, v)))
            return
        if b in self.small and k.op == "slice" and all(is_const(x, "none") or num(x) is not None for x in k.a) and \
                (num(v) is not None or v.op == "const"):
            # one number for several elements
            for i in range(self.small[b])[slice(*[None if is_const(x, "none") else int(num(x)) for x in k.a])]:
                self.write(b, store(self.deref(b), const(i), v))
            return
        self.write(b, store(self.deref(b), k, v))

    def is_array(self, r):
        return False

    def stable(self, t):
        """does the term denote an object (and not a snapshot of a value)"""
        while t.op in ("item", "attr"):
            if t.op == "item" and t.a[1].op == "slice":
                return False
            t = t.a[0]
        if t.op == "ite":
            return self.stable(t.a[1]) and self.stable(t.a[2])
        return t.op not in ("store", "append", "lout", "map", "lcat", "poly", "repeat") and \
            not (t.op == "call" and t.a[0] in ("zeros", "ones", "empty"))

    def getitem(self, b, k):
        if k.op == "ref":
            k = self.num(k)
        c = self.deref(b)
        if b.op == "ite" and c is b:
            return ite(b.a[0], self.getitem(b.a[1], k), self.getitem(b.a[2], k))
        if k.op == "slice" and b.op == "ref":
            r = self.new_ref(item(c, k))
            if not (tm.listy(c) or num(k.a[2]) == -1):
                self.views.add(r)
            return r
        if self.tries and k.op != "slice" and (is_const(k, "str") or c.op in ("store", "dict")):
            self.may_raise(mk("call", "key_", (c if b.op == "ref" else b, k), ()))
        keys = self.known_keys(c) if c.op in ("store", "dict") and k.op not in ("const", "slice", "tuple") else None
        if keys and len(keys) <= 12 and all(is_const(x, "str") for x in keys):
            # a table written out in the code
            r = UNDEF
            for x in reversed(keys):
                v = item(c, x)
                if v.op not in ("const", "glob", "ext", "fn", "cls") and v.op != "poly":
                    break
                r = ite(eq(k, x), v, r)
            else:
                return r
        return item(c, k)

    def getattr(self, o, name):
        if o.op == "ite":
            return ite(o.a[0], self.getattr(o.a[1], name), self.getattr(o.a[2], name))
        v = self.st.heap.get(("a", o, name))
        if v is not None:
            return v
        if o.op == "objst":
            for n, x in o.a[1]:
                if n == name:
                    return x
        if name == "shape":
            return shape(self.deref(o))
        if name == "T":
            return libs.transpose(self.num(o), None)
        if name == "size":
            n = self.num(o)
            if n.op == "call" and n.a[0] in ("arange", "linspace", "np.arange", "np.linspace", "np.unique"):
                return length(n)
        if name == "ndim":
            return ndim(self.num(o))
        if name == "size":
            return mk("call", name, (self.num(o),), ())
        if name in ("real", "imag"):
            return mk("call", "np." + name, (self.num(o),), ())
        cls = self.clsof.get(o)
        if cls is not None:
            m = self.prog.find_method(cls, name)
            if m is not None:
                if any(isinstance(d, ast.Name) and d.id == "property" for d in m[1].decorator_list):
                    return self.inline(m[1], m[0].module, m[0], {m[1].args.args[0].arg: o}, name)
                return mk("bound", o, name)
        fm = self.st.heap.get(("fm", "a", name))
        if fm is not None and o not in self.closed and o.op != "in_":
            return mk("rd", fm, o)
        return self.invariant(o, name) or self.default(("a", o, name))

    def invariant(self, o, name):
        """attributes that are set once, from others (in functions compared on their own)"""
        if name in COUNTED and not (o.op == "in_" and self.top.name in ("__init__", "generate_model")):
            return length(mk("attr", o, COUNTED[name]))
        if name == "optionnames" and self.top.name != "__init__":
            opts = mk("attr", o, "options")
            return mk("map", length(opts), mk("attr", item(opts, mk("ix", 1)), "name"), TRUE, 1)
        if name in ("xmax", "ymax", "zmax") and (o.op == "in_" and o.a[0] == "grid" or o.op == "attr" and o.a[1] == "grid"):
            return add(self.getattr(o, name[0] + "0"), self.getattr(o, "l" + name[0]))
        return None

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsup("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return mk("const", "ellipsis", "...")
        if isinstance(e.value, complex):
            return mk("call", "complex", (const(e.value.real), const(e.value.imag)), ())
        if isinstance(e.value, bytes):
            return mk("const", "bytes", repr(e.value))
        return const(e.value)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.num(self.ev(v.value))
                spec = ""
                if v.format_spec is not None:
                    s = self.e_JoinedStr(v.format_spec)
                    if not is_const(s, "str"):
                        raise Unsup("computed format")
                    spec = cval(s)
                if v.conversion == 114:
                    x = mk("call", "repr", (x,), ())
                parts.append(libs.fmt(x, spec))
        return concat(parts)

    def e_Name(self, e):
        v = self.st.env.get(e.id)
        if v is not None:
            if v is UNDEF:
                return mk("undefname", e.id)
            return v
        return self.global_name(e.id)

    def global_name(self, name):
        fr = self.frames[-1]
        if name in fr.imports:
            return self.qual_value(fr.imports[name])
        r = self.prog.member(fr.module, name)
        if r is None:
            if name in libs.BUILTIN_TYPES or name in BUILTINS or \
                    any(q not in self.prog.modules for q in fr.module.star):
                return mk("glob", name)
            return mk("undefname", name)
        return self.member_value(r, name, fr.module)

    def member_value(self, r, name, mod):
        kind, m, obj = r
        if kind == "func":
            return mk("glob", "fn:%s.%s" % (m.name, obj.name))
        if kind == "class":
            return mk("glob", "cls:%s.%s" % (m.name, obj.name))
        if kind == "var":
            return self.module_var(m, name, obj)
        if kind == "module":
            return mk("glob", "mod:" + m.name)
        if kind == "ext":
            return self.qual_value(obj)
        if kind == "method":
            return mk("glob", "fn:" + name)
        raise Unsup("global " + name)

    def module_var(self, m, name, exprs):
        # the variable may have been imported under another name
        for k, v in m.assigns.items():
            if v is exprs:
                name = k
        q = m.name.replace("!pyx", "") + "." + name
        if q in self.consts:
            return self.consts[q]
        self.consts[q] = mk("glob", q)
        if len(exprs) == 1 and self.simple_expr(exprs[0]) and not self.mutated(m, name):
            self.consts[q] = self.const_expr(exprs[0], m)
        return self.consts[q]

    def simple_expr(self, e):
        for x in ast.walk(e):
            if isinstance(x, (ast.Call, ast.Subscript, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.Attribute)):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                        "frozenset", "set", "tuple", "list", "float", "int", "dict", "range"):
                    continue
                if isinstance(x, ast.Attribute):
                    continue
                return False
        return not (isinstance(e, ast.Dict) and not e.keys)

    def mutated(self, m, name):
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                        return True
            if isinstance(x, ast.Global) and name in x.names:
                return True
        return False

    def const_expr(self, e, module):
        saved = (self.st, self.pend, self.ctx)
        self.st = State()
        self.frames.append(Frame(module, None, ast.copy_location(ast.Expr(e), e), "<const>"))
        try:
            v = self.ev(e)
            return self.snap(v)
        finally:
            self.frames.pop()
            self.st, self.pend, self.ctx = saved

    def qual_value(self, q):
        if q in libs.CONST_NAMES:
            return libs.CONST_NAMES[q]
        r = self.prog.lookup(q) if q.split(".")[0] == "hyvr" else None
        if r is not None:
            return self.member_value(r, q.split(".")[-1], r[1])
        return mk("glob", "ext:" + libs.canon_mod(q))

    def e_Attribute(self, e):
        q = self.dotted(e)
        if q is not None:
            return self.qual_value(q)
        o = self.ev(e.value)
        if o.op == "glob":
            return self.glob_attr(o, e.attr)
        return self.getattr(o, e.attr)

    def glob_attr(self, o, name):
        g = o.a[0]
        if g.startswith("mod:"):
            return self.qual_value(g[4:] + "." + name)
        if g.startswith("ext:"):
            return self.qual_value(g[4:] + "." + name)
        if g.startswith("cls:"):
            r = self.prog.lookup(g[4:])
            if r and r[0] == "class":
                a = self.prog.class_attr(r[2], name)
                if a is not None:
                    return self.const_expr(a[1], a[0].module)
                m = self.prog.find_method(r[2], name)
                if m:
                    return mk("glob", "fn:%s.%s" % (r[2].qual, name))
        return self.getattr(o, name)

    def dotted(self, e):
        """qualified name of an expression that denotes a module member"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name) or e.id in self.st.env:
            return None
        fr = self.frames[-1]
        base = fr.imports.get(e.id) or fr.module.imports.get(e.id)
        if base is None:
            return None
        if self.prog.lookup(base) is not None and self.prog.lookup(base)[0] != "module":
            return None
        if not parts:
            return base
        return base + "." + ".".join(reversed(parts))

    def e_Subscript(self, e):
        b = self.ev(e.value)
        k = self.ev_index(e.slice)
        return self.getitem(b, k)

    def ev_index(self, e):
        if isinstance(e, ast.Tuple):
            return mk("tuple", *[self.ev_index(x) for x in e.elts])
        if isinstance(e, ast.Slice):
            lo = self.num(self.ev(e.lower)) if e.lower else NONE
            hi = self.num(self.ev(e.upper)) if e.upper else NONE
            st = self.num(self.ev(e.step)) if e.step else NONE
            if lo is ZERO and st is NONE:
                lo = NONE
            if st is ONE:
                st = NONE
            return mk("slice", lo, hi, st)
        k = self.ev(e)
        if k.op == "ref":
            k = self.num(k)
        if is_const(k, "none"):
            return mk("newaxis")
        return k

    def e_List(self, e):
        return self.new_ref(mk("list", *self.elts(e.elts)))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                c = self.deref(self.ev(x.value))
                if c.op not in ("list", "tuple"):
                    raise Unsup("starred element")
                out.extend(c.a)
            else:
                out.append(self.ev(x))
        return out

    def e_Tuple(self, e):
        return mk("tuple", *self.elts(e.elts))

    def e_Set(self, e):
        return mk("call", "set", (mk("list", *sorted(set(self.elts(e.elts)), key=lambda t: t.id)),), ())

    def e_Dict(self, e):
        c = EMPTYD
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.deref(self.ev(v))
                keys = self.known_keys(x)
                if keys is None:
                    if c is EMPTYD:
                        c = x
                        continue
                    raise Unsup("dict unpacking")
                for kk in keys:
                    c = store(c, kk, item(x, kk))
                continue
            kk = self.ev(k)
            c = store(c, kk, self.ev(v))
        return self.new_ref(c)

    def e_IfExp(self, e):
        c = truth(self.ev(e.test))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        a, b = self.cond_pair(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))
        return ite(c, a, b)

    def cond_pair(self, c, f, g):
        s0, p0 = self.st, self.pend
        r = []
        sts, trees = [], []
        for h in (f, g):
            self.st = s0.copy()
            self.pend = F
            try:
                r.append(h())
            except Dead:
                r.append(UNDEF)
                self.st = None
            sts.append(self.st)
            trees.append(self.pend)
        self.pend = tsub(p0, tite(c, trees[0], trees[1]))
        self.st = self.merge(c, sts[0], sts[1])
        if self.st is None:
            raise Dead()
        if sts[0] is None:
            r[0] = r[1]
        if sts[1] is None:
            r[1] = r[0]
        return r

    def e_BoolOp(self, e):
        v = self.ev(e.values[0])
        isand = isinstance(e.op, ast.And)
        for x in e.values[1:]:
            if v.op == "ref":
                c = truth(self.deref(v))
            else:
                c = truth(v)
            if c is TRUE and isand or c is FALSE and not isand:
                v = self.ev(x)
                continue
            if c is FALSE and isand or c is TRUE and not isand:
                return v
            if isand:
                a, b = self.cond_pair(c, lambda: self.ev(x), lambda: v)
            else:
                a, b = self.cond_pair(c, lambda: v, lambda: self.ev(x))
            if isbool(a) and isbool(b) or (isbool(v)):
                v = ite(c, a, FALSE if b is v else b) if isand else ite(c, TRUE if a is v else a, b)
            else:
                v = ite(c, a, b)
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(truth(self.deref(v)))
        fresh = v.op == "ref"
        v = self.num(v)
        if isinstance(e.op, ast.USub):
            return self.new_ref(neg(v)) if fresh else neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return not_(v) if isbool(v) else mk("call", "invert", (v,), ())
        raise Unsup("unary")

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        v = self.binop(e.op, a, b)
        if (a.op == "ref" or b.op == "ref") and v.op != "ref":
            return self.new_ref(v)
        return v

    def binop(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            if libs.pathy(a) or tm.stry(b):
                return libs.join([a, b])
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        if isinstance(op, ast.Mod):
            if is_const(a, "str"):
                return libs.percent(cval(a), b)
            return mod(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.BitAnd):
            return libs.bitop("bitand", a, b)
        if isinstance(op, ast.BitOr):
            return libs.bitop("bitor", a, b)
        if isinstance(op, ast.MatMult):
            return mk("call", "np.dot", (a, b), ())
        raise Unsup("operator")

    def e_Compare(self, e):
        left = self.ev(e.left)
        r = None
        for op, x in zip(e.ops, e.comparators):
            right = self.ev(x)
            c = self.compare(op, left, right)
            r = c if r is None else and_(r, c)
            left = right
        return r

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(self.num(a), self.deref(b))
            return not_(c) if isinstance(op, ast.NotIn) else c
        if isinstance(op, (ast.Is, ast.IsNot)):
            a2, b2 = a, b
            if a.op == "ref" or b.op == "ref":
                c = TRUE if a is b else FALSE
            else:
                c = eq(a2, b2)
            return not_(c) if isinstance(op, ast.IsNot) else c
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = eq(libs.typ(self.num(a)), libs.typ(self.num(b)))
            return not_(c) if isinstance(op, ast.NotEq) else c
        for x, y, o in ((a, b, ast.LtE), (b, a, ast.GtE)):
            x = self.deref(x)
            if isinstance(op, o) and x.op == "call" and x.a[0] == "set":
                r = libs.subset(self, x, y)
                if r is not None:
                    return r
        a, b = self.num(a), self.num(b)
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return not_(lt(b, a))
        if isinstance(op, ast.GtE):
            return not_(lt(a, b))
        raise Unsup("comparison")

    def contains(self, k, c):
        if c.op in ("list", "tuple"):
            r = FALSE
            for x in c.a:
                r = or_(r, eq(k, x))
            return r
        if c.op == "ite":
            return ite(c.a[0], self.contains(k, c.a[1]), self.contains(k, c.a[2]))
        if c.op == "dict":
            return FALSE
        if c.op == "store":
            b, k2, v = c.a
            e = eq(k, k2)
            return ite(e, FALSE if v is ABSENT else TRUE, self.contains(k, b))
        if c.op == "call" and c.a[0] in ("keys_", "set", "frozenset", "m:keys") and len(c.a[1]) == 1:
            return self.contains(k, self.deref(c.a[1][0]))
        if c.op == "map" and c.a[2] is TRUE and c.a[1] is mk("ix", c.a[3]) and isint(k):
            return and_(not_(lt(k, ZERO)), lt(k, c.a[0]))
        return mk("in", k, self.snap(c))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        return self.make_fn(e)

    def make_fn(self, node):
        i = self.fresh()
        t = mk("fn", i)
        self.fns[t] = (node, self.frames[-1], self.st.env)
        return t

    def e_ListComp(self, e):
        return self.new_ref(self.comp(e, lambda acc: self.push(acc, self.ev(e.elt))))

    def e_GeneratorExp(self, e):
        return self.comp(e, lambda acc: self.push(acc, self.ev(e.elt)))

    def e_SetComp(self, e):
        return mk("call", "set", (self.comp(e, lambda acc: self.push(acc, self.ev(e.elt))),), ())

    def push(self, acc, v):
        if acc.op == "list":
            return mk("list", *(acc.a + (v,)))
        return mk("append", acc, v)

    def e_DictComp(self, e):
        return self.new_ref(self.comp(e, lambda acc: store(acc, self.ev(e.key), self.ev(e.value)), EMPTYD))

    def comp(self, e, upd, init=EMPTYL):
        saved = dict(self.st.env)
        name = "$acc" + self.fresh()
        self.st.env[name] = init

        def apart(f):
            """like a statement of its own: what it raises, it raises in its round"""
            saved, self.pend = self.pend, F
            try:
                try:
                    t = f()
                except Dead:
                    t = F
                    self.st = None
                return tsub(self.pend, t)
            finally:
                self.pend = saved

        def gen(i):
            if i == len(e.generators):
                self.st.env[name] = upd(self.st.env[name])
                return F
            g = e.generators[i]
            it = self.iterate(g.iter)

            def body():
                c = TRUE
                for cnd in g.ifs:
                    c = and_(c, self.ev(cnd))
                if c is FALSE:
                    return F
                if c is TRUE:
                    return apart(lambda: gen(i + 1))
                s0 = self.st
                self.st = s0.copy()
                t = apart(lambda: gen(i + 1))
                s1 = self.st
                self.st = self.merge(c, s1, s0) if s1 is not None else s0
                return tite(c, t, F)
            node = ast.Module(body=[], type_ignores=[])
            return self.for_loop(node, it, lambda v: self.assign(g.target, v), lambda: apart(body))
        # the accumulator is live after the loops
        fr = self.frames[-1]
        self.live_after(None)
        fr.loads.setdefault(name, []).append(ast.Name(name, ast.Load()))
        tree = gen(0)
        self.side_exit(tree)
        if self.st is None:
            raise Dead()
        r = self.st.env[name]
        self.st.env = saved
        return r

    def e_Starred(self, e):
        raise Unsup("starred")

    # -------------------------------------------------------------- calls
    def e_Call(self, e):
        self.calls_seen += 1
        f = e.func
        # super().__init__(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self.super_call(f.attr, e)
        if isinstance(f, ast.Name) and f.id not in self.st.env:
            fr = self.frames[-1]
            if f.id not in fr.imports and self.prog.member(fr.module, f.id) is None:
                return libs.builtin(self, f.id, e)
            v = self.global_name(f.id)
            return self.call_value(v, e)
        if isinstance(f, ast.Attribute):
            q = self.dotted(f)
            if q is not None:
                return self.call_value(self.qual_value(q), e)
            o = self.ev(f.value)
            if o.op == "glob" and o.a[0].split(":")[0] in ("mod", "ext", "cls"):
                return self.call_value(self.glob_attr(o, f.attr), e)
            return self.method(o, f.attr, e)
        v = self.ev(f)
        return self.call_value(v, e)

    def args(self, e, arity=None):
        """positional terms and keyword dict; '**' under the key None"""
        pos, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                c = self.deref(v)
                if c.op in ("list", "tuple"):
                    pos.extend(c.a)
                elif arity is not None:
                    rest = len(e.args) - 1 - e.args.index(a)
                    n = arity - len(pos) - rest - len(e.keywords)
                    pos.extend(self.getitem(v, const(i)) for i in range(n))
                else:
                    pos.append(mk("star", self.snap(c)))
            else:
                pos.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                c = self.deref(v)
                keys = self.known_keys(c)
                if keys is not None:
                    for kk in keys:
                        kw[cval(kk)] = item(c, kk)
                else:
                    if None in kw:
                        raise Unsup("two ** arguments")
                    kw[None] = v
            else:
                kw[k.arg] = v
        return pos, kw

    def dispatch(self, v):
        """an entry of a literal table, selected by a computed key"""
        if v.op == "item" and v.a[0].op == "store":
            keys = self.known_keys(v.a[0])
            if keys:
                r = None
                for k in sorted(keys, key=cval, reverse=True):
                    x = item(v.a[0], k)
                    r = x if r is None else ite(eq(v.a[1], k), x, r)
                return r
        return v

    def call_value(self, v, e):
        v = self.dispatch(v)
        if v.op == "ite":
            c = v.a[0]
            a, b = self.cond_pair(c, lambda: self.call_value(v.a[1], e), lambda: self.call_value(v.a[2], e))
            return ite(c, a, b)
        if v.op == "bound":
            return self.method(v.a[0], v.a[1], e)
        if v.op == "glob":
            g = v.a[0]
            if g.startswith("fn:"):
                r = self.prog.lookup(g[3:])
                if r is None:
                    raise Unsup("function " + g)
                if r[0] == "func":
                    return self.repo_call(r[1], None, r[2], e)
                if r[0] == "method":
                    return self.repo_call(r[1], r[2][0], r[2][1], e)
            if g.startswith("cls:"):
                r = self.prog.lookup(g[4:])
                return self.construct(r[2], e)
            if g.startswith("ext:"):
                return libs.external(self, g[4:], e)
            return libs.builtin(self, g, e)
        pos, kw = self.args(e)
        return self.apply(v, pos, kw)

    def apply(self, v, pos, kw):
        v = self.dispatch(v)
        if v.op == "ite":
            a, b = self.cond_pair(v.a[0], lambda: self.apply(v.a[1], pos, kw), lambda: self.apply(v.a[2], pos, kw))
            return ite(v.a[0], a, b)
        if v.op == "fn":
            node, fr, env = self.fns[v]
            return self.inline_fn(node, fr, env, pos, kw)
        if v.op == "glob":
            g = v.a[0]
            if g.startswith("fn:"):
                r = self.prog.lookup(g[3:])
                if r and r[0] == "func":
                    return self.repo_apply(r[1], None, r[2], pos, kw)
            if g in ("int", "float", "str", "bool", "len"):
                return libs.builtin_vals(self, g, pos, kw)
        t = mk("call", "apply", (v,) + tuple(self.snap(x) for x in pos),
               tuple(sorted((k, self.snap(x)) for k, x in kw.items() if k)))
        self.may_raise(t)
        if not (v.op == "attr" or v.op == "in_" or v.op == "glob"):
            self.effect("apply", t)
        return t

    def method(self, o, name, e):
        if o.op == "ite" and o.a[1].op != "const":
            c = o.a[0]
            a, b = self.cond_pair(c, lambda: self.method(o.a[1], name, e), lambda: self.method(o.a[2], name, e))
            return ite(c, a, b)
        if o.op == "ref" and o.a[1] != "inst":
            return libs.method(self, o, name, e)
        cls = self.clsof.get(o)
        if cls is not None:
            m = self.prog.find_method(cls, name)
            if m is not None:
                if self.is_virtual(cls, name):
                    return self.opaque_method(o, name, m, e)
                return self.repo_call(m[0].module, m[0], m[1], e, self_=o)
            # a function-valued attribute
            if ("a", o, name) in self.st.heap:
                pos, kw = self.args(e)
                return self.apply(self.st.heap[("a", o, name)], pos, kw)
        if "." + name in self.opaque:
            ms = self.prog.methods_named(name)
            return self.opaque_method(o, name, ms[0] if ms else None, e)
        if name not in libs.KNOWN_METHODS:
            ms = self.prog.methods_named(name)
            if len(ms) == 1 and o.op in ("in_", "attr", "item", "new", "lv", "ref", "objst"):
                return self.repo_call(ms[0][0].module, ms[0][0], ms[0][1], e, self_=o)
        return libs.method(self, o, name, e)

    def is_virtual(self, cls, name):
        return ("." + name) in self.opaque and self.opaque["." + name].get("virtual")

    def opaque_method(self, o, name, m, e):
        spec = self.opaque["." + name]
        node = m[1] if m is not None else None
        pos, kw = self.args(e)
        bound = self.bind_opaque(spec, node, pos, kw, method=True)
        return self.opaque_call("." + name, spec, bound, self_=o)

    def super_call(self, name, e):
        fr = self.frames[-1]
        mro = self.prog.mro(fr.cls)
        for c in mro[1:]:
            if name in c.methods:
                so = self.st.env[fr.node.args.args[0].arg]
                return self.repo_call(c.module, c, c.methods[name], e, self_=so)
        self.args(e)
        return NONE

    def repo_call(self, module, cls, node, e, self_=None):
        n = len(node.args.args) + len(node.args.kwonlyargs)
        if any(isinstance(a, ast.Starred) for a in e.args):
            pos, kw = self.args(e, n - (1 if self_ is not None else 0))
        else:
            pos, kw = self.args(e)
        return self.repo_apply(module, cls, node, pos, kw, self_)

    def repo_apply(self, module, cls, node, pos, kw, self_=None):
        name = node.name
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        ismeth = cls is not None and not static
        key = ("." if ismeth else "") + name
        if key in self.opaque and (self_ is not None or not ismeth):
            spec = self.opaque[key]
            bound = self.bind_opaque(spec, node, pos, kw, method=ismeth)
            return self.opaque_call(key, spec, bound, self_=self_)
        if ismeth and self_ is not None:
            pos = [self_] + list(pos)
        env = self.bind(node, pos, kw, module)
        return self.inline(node, module, cls, env, name)

    def bind(self, node, pos, kw, module):
        a = node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        env = {}
        kw = dict(kw)
        extra = []
        for i, v in enumerate(pos):
            if v.op == "star":
                raise Unsup("star argument")
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            raise Unsup("too many arguments for " + getattr(node, "name", "lambda"))
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *extra)
        star = kw.pop(None, None)
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                rest[k] = v
        if rest and not a.kwarg:
            raise Unsup("unexpected keyword for " + getattr(node, "name", "lambda"))
        if a.kwarg:
            c = EMPTYD if star is None else self.deref(star)
            for k, v in rest.items():
                c = store(c, const(k), v)
            env[a.kwarg.arg] = self.new_ref(c)
            star = None
        d = a.defaults
        for nm, df in zip(names[len(names) - len(d):], d):
            if nm not in env:
                env[nm] = self.const_expr(df, module)
        for x, df in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and df is not None:
                env[x.arg] = self.const_expr(df, module)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                if star is not None:
                    env[nm] = self.getitem(star, const(nm))
                else:
                    raise Unsup("missing argument %s of %s" % (nm, getattr(node, "name", "lambda")))
        return env

    def inline(self, node, module, cls, env, name):
        if len(self.frames) > 30:
            raise Unsup("inlining depth")
        for fr in self.frames:
            if fr.node is node:
                t = mk("call", "rec:" + name, tuple(self.snap(v) for v in env.values()), ())
                return t
        if isinstance(node, (ast.FunctionDef,)):
            for x in node.decorator_list:
                nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                if nm not in ("property", "staticmethod", "classmethod"):
                    raise Unsup("decorator on " + name)
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unsup("generator")
        self.inlined.add((module.name, name))
        caller = self.st.env
        saved_line = tm.cur_line[0]
        self.st.env = dict(env)
        self.frames.append(Frame(module, cls, node, name))
        saved_pend = self.pend
        self.pend = F
        try:
            tree = self.exec_block(node.body)
            if self.st is not None:
                tree = tsub(tree, leaf("R", NONE, self.st))
        finally:
            self.frames.pop()
            self.pend = saved_pend
            tm.cur_line[0] = saved_line
        ret = tfold(tree, lambda l: l[2] if l[1] == "R" else None)

        def back(l):
            st = State(dict(caller), l[3].heap)
            if l[1] == "R":
                return leaf("N", None, st)
            if l[1] == "X":
                return leaf("X", l[2], st)
            raise Unsup("break outside loop")
        tree = tmap(tree, back)
        tree, st = self.settle(tree, None)
        self.side_exit(tree)
        self.st = st
        if st is None:
            raise Dead()
        return ret

    def inline_fn(self, node, fr, env, pos, kw):
        if isinstance(node, ast.Lambda):
            fn = ast.FunctionDef(name="<lambda>", args=node.args, body=[ast.copy_location(ast.Return(node.body), node)],
                                 decorator_list=[])
            ast.copy_location(fn, node)
            ast.fix_missing_locations(fn)
        else:
            fn = node
        b = self.bind(fn, pos, kw, fr.module)
        full = dict(env)
        # closures see the variables of the defining function as they are now
        if self.frames[-1] is fr:
            full.update(self.st.env)
        full.update(b)
        caller = self.st.env
        n = len(self.frames)
        if n > 30:
            raise Unsup("inlining depth")
        for f2 in self.frames:
            if f2.node is node:
                raise Unsup("recursive closure")
        self.st.env = full
        nf = Frame(fr.module, fr.cls, node, "<fn>")
        nf.imports = fr.imports
        self.frames.append(nf)
        sp = self.pend
        self.pend = F
        try:
            tree = self.exec_block(fn.body)
            if self.st is not None:
                tree = tsub(tree, leaf("R", NONE, self.st))
        finally:
            self.frames.pop()
            self.pend = sp
        ret = tfold(tree, lambda l: l[2] if l[1] == "R" else None)
        tree = tmap(tree, lambda l: leaf("N" if l[1] == "R" else l[1], l[2], State(dict(caller), l[3].heap)))
        tree, st = self.settle(tree, None)
        self.side_exit(tree)
        self.st = st
        if st is None:
            raise Dead()
        return ret

    # ---- opaque (specified elsewhere) functions and constructors
    def construct(self, cls, e):
        init = self.prog.find_method(cls, "__init__")
        if cls.name in self.opaque:
            spec = self.opaque[cls.name]
            pos, kw = self.args(e)
            bound = self.bind_opaque(spec, init[1] if init else None, pos, kw, method=True)
            return self.opaque_call(cls.name, spec, bound, ctor=cls)
        bases = {self.last_name(b) for b in cls.node.bases}
        if any(b.endswith("Error") or b.endswith("Exception") for b in bases):
            self.args(e)
            return mk("excval", cls.name)
        o = mk("ref", self.fresh(), "inst", self.ctx)
        self.closed[o] = cls
        self.clsof[o] = cls
        if init is not None:
            pos, kw = self.args(e)
            env = self.bind(init[1], [o] + pos, kw, init[0].module)
            self.inline(init[1], init[0].module, init[0], env, "__init__")
        elif e.args or e.keywords:
            raise Unsup("constructor of " + cls.name)
        return o

    def bind_opaque(self, spec, node, pos, kw, method):
        """canonical name -> term through the callee's own signature"""
        want = spec["params"]
        kwarg = spec.get("kwargs")
        kw = dict(kw)
        star = kw.pop(None, None)
        if node is not None:
            names = [x.arg for x in node.args.args]
            if method:
                names = names[1:]
            konly = [x.arg for x in node.args.kwonlyargs]
        else:
            names, konly = list(want), []
        allnames = names + konly
        if set(want) <= set(allnames):
            tr = {n: n for n in allnames}
        elif len(allnames) == len(want):
            tr = dict(zip(allnames, want))
        else:
            raise Unsup("signature of %s" % (node.name if node is not None else "?"))
        got = {}
        if len(pos) > len(names):
            raise Unsup("arguments of opaque function")
        for n, v in zip(names, pos):
            if v.op == "star":
                raise Unsup("star argument")
            got[tr[n]] = v
        rest = {}
        for k, v in kw.items():
            if k in tr:
                got[tr[k]] = v
            else:
                rest[k] = v
        if kwarg:
            c = EMPTYD if star is None else self.deref(star)
            for k, v in rest.items():
                c = store(c, const(k), self.snap(v))
            got[kwarg] = c
        elif rest:
            raise Unsup("unexpected keyword")
        if node is not None:
            d = node.args.defaults
            allp = [x.arg for x in node.args.args]
            for nm, df in zip(allp[len(allp) - len(d):], d):
                if tr.get(nm) is not None and tr[nm] not in got:
                    got[tr[nm]] = self.const_expr(df, self.prog_module(node))
            for x, df in zip(node.args.kwonlyargs, node.args.kw_defaults):
                if tr[x.arg] not in got and df is not None:
                    got[tr[x.arg]] = self.const_expr(df, self.prog_module(node))
        for w in want:
            if w not in got:
                if star is not None and not kwarg:
                    got[w] = self.getitem(star, const(w))
                else:
                    got[w] = mk("undefname", "missing argument " + w)
        for g in got:
            if g not in want and g != kwarg:
                # a parameter the reference does not have: only its default is understood
                nm = [n for n in tr if tr[n] == g][0]
                dv = None
                if node is not None:
                    allp = [x.arg for x in node.args.args]
                    d = node.args.defaults
                    dd = dict(zip(allp[len(allp) - len(d):], d))
                    if nm in dd:
                        dv = self.const_expr(dd[nm], self.prog_module(node))
                if dv is not got[g]:
                    raise Unsup("additional argument " + g)
        out = [(w, got[w]) for w in want]
        if kwarg:
            out.append((kwarg, got[kwarg]))
        return out

    def prog_module(self, node):
        return self.frames[-1].module

    def opaque_call(self, name, spec, bound, self_=None, ctor=None):
        byid = spec.get("byid", ())
        vals = []
        for n, v in bound:
            vals.append((n, v if n in byid else self.snap(v)))
        args = tuple(v for _, v in vals)
        if self_ is not None:
            args = (self.snap(self_) if self_.op == "ref" and self_.a[1] != "inst" else self_,) + args
        if ctor is not None:
            kk = ("rng", "new:" + name, args, (), self.ctx)
            c = self.hget(kk)
            self.st.heap[kk] = add(c, ONE)
            t = mk("new", name, tuple(vals), c, self.ctx)
            if spec.get("eff"):
                self.effect(spec["eff"], mk("call", "new " + name, args, ()))
            self.may_raise(t)
            return t
        if spec.get("draw"):
            t = self.draw("fn:" + name, args)
        else:
            t = mk("call", "fn:" + name, args, ())
        if spec.get("eff"):
            self.effect(spec["eff"], t)
        for p in spec.get("mods", ()):
            addr = self_ if p == "self" else dict(bound)[p]
            old = self.deref(addr)
            self.write(addr, mk("call", "fn:%s!%s" % (name, p), args + (
                shape(old) if p in spec.get("whole", ()) else self.snap(old),), ()))
        for a in spec.get("sets", ()):
            self.setattr(self_, a, mk("call", "fn:%s.%s" % (name, a), args, ()))
        for a in spec.get("resets", ()):
            # locations of self whose new value is not tracked
            self.st.heap.pop(("a", self_, a), None)
        self.may_raise(t)
        if spec.get("returns") == "array":
            return self.new_ref(t)
        if spec.get("returns") == "none":
            return NONE
        return t

    # -------------------------------------------------------------- entry
    def analyse(self, module, cls, node, params, ctor=False, concrete=None):
        """params: list of (name in this code, canonical name, kind)"""
        self.st = State()
        self.ctx = ()
        self.pend = F
        fr = Frame(module, cls, node, node.name)
        self.frames = [fr]
        self.top = node
        for nm, canon, kind in params:
            t = mk("in_", canon, kind) if kind else mk("in_", canon)
            if canon == "self" and cls is not None:
                self.clsof[t] = concrete or cls
                if ctor:
                    self.closed[t] = concrete or cls
            if kind == "kwargs":
                t = mk("in_", canon)
            self.st.env[nm] = t
        tree = self.exec_block(node.body)
        if self.st is not None:
            tree = tsub(tree, leaf("R", NONE, self.st))
        tm.cur_line[0] = None
        # observables
        obs = {}
        obs["outcome"] = tfold(tree, lambda l: const("returns") if l[1] == "R" else concat(
            [const("raises "), l[2]]))
        leaves = [l for l in tleaves(tree) if l[0] == "leaf"]
        memo = {id(l): {} for l in leaves}

        def res(l, v):
            return self.resolve(v, l[3], set(), memo[id(l)])
        obs["result"] = tfold(tree, lambda l: res(l, l[2]) if l[1] == "R" else None) or UNDEF
        keys = []
        for l in leaves:
            for k in l[3].heap:
                if k[0] == "rng" or k in keys:
                    continue
                if k[0] in ("a", "c") and self.rooted_local(k[1]):
                    continue
                keys.append(k)
        for k in keys:
            def val(l):
                if l[1] == "X" and k[0] != "eff":
                    return None
                v = l[3].heap.get(k)
                if v is None:
                    v = self.default(k)
                if k[0] == "c" and v is k[1]:
                    return v
                if k[0] == "c":
                    # own contents: do not loop through the address itself
                    return self.resolve(v, l[3], {k[1]}, {})
                return res(l, v)
            v = tfold(tree, val)
            if v is None:
                continue
            obs[self.cell_name(k)] = v
        self.cells = {self.cell_name(k): k for k in keys}
        return obs

    def rooted_local(self, t):
        while True:
            if t.op == "ref":
                return True
            if t.op in ("attr", "item"):
                t = t.a[0]
                continue
            if t.op == "objst" or t.op == "call" and t.a[0] == "m:parse_args":
                return True
            if t.op == "poly" or t.op == "call" and (t.a[0] in UNARY or t.a[0].startswith("np.fft.")):
                return True             # a new array
            return False

    def cell_name(self, k):
        if k[0] == "a":
            return "%s.%s" % (self.addr_name(k[1]), k[2])
        if k[0] == "c":
            return "*" + self.addr_name(k[1])
        if k[0] == "eff":
            return "effect:" + k[1]
        if k[0] == "fm":
            return "fields:%s%s" % (k[1], ":" + k[2] if k[2] else "")
        return repr(k)

    def addr_name(self, t):
        if t.op == "in_":
            return t.a[0]
        if t.op == "attr":
            return self.addr_name(t.a[0]) + "." + t.a[1]
        if t.op == "item" and t.a[1].op == "const":
            return "%s[%s]" % (self.addr_name(t.a[0]), pretty(t.a[1]))
        return "<%s>" % pretty(t, 7)[:400]
