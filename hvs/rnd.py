"""Random interpretation of value graphs (Gulwani & Necula).

A valuation gives every free input a value and every library function an
arbitrary (pseudo-random) interpretation, except for the arithmetic, boolean
and elementary functions, which keep their meaning.  Two graphs that disagree
under one such valuation are different functions of their inputs, up to the
identities between library functions that are listed in compare.py.
Nothing of the analysed program is executed: only its value graph is read.
"""
import math
import random as _random
from fractions import Fraction
from hashlib import blake2b

from .terms import T, is_const


class Discard(Exception):
    pass


class Num:
    pass


def _h(*parts):
    return int.from_bytes(blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


def key(v):
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        if v != v:
            return ("n", "nan")
        if v in (float("inf"), float("-inf")):
            return ("n", str(v))
        if abs(v) < 1e-10:
            return ("n", "0")
        return ("n", "%.8g" % v)
    if isinstance(v, str):
        return ("s", v)
    if v is None:
        return ("none",)
    if isinstance(v, tuple):
        return tuple(key(x) if not isinstance(x, str) or i > 0 else x for i, x in enumerate(v))
    return ("o", repr(v))


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        if a != a and b != b:
            return True
        return abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def snap(x):
    """a value next to a whole number is that number: rounding errors do not count"""
    if isinstance(x, float) and abs(x) < 1e12:
        r = round(x)
        if abs(x - r) <= 1e-9 * max(1.0, abs(x)):
            return r
    return x


def nearest(x):
    """the nearest whole number; which one halves go to is left open"""
    if abs(snap(2 * x) % 2) == 1:
        raise Discard
    return round(x)


def fdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    return math.floor(snap(a / b))


def fmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    return a - b * fdiv(a, b)


UNARY = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log,
    "sqrt": math.sqrt, "abs": abs, "floor": lambda x: math.floor(snap(x)), "ceil": lambda x: math.ceil(snap(x)),
    "arccos": math.acos, "arcsin": math.asin, "arctan": math.atan, "int": lambda x: int(snap(x)),
    "float": float, "np.deg2rad": math.radians, "np.radians": math.radians,
    "np.rad2deg": math.degrees, "np.degrees": math.degrees, "np.round": nearest, "round": nearest,
    "np.square": lambda x: x * x, "np.sign": lambda x: (x > 0) - (x < 0), "np.trunc": lambda x: math.trunc(snap(x)),
    "np.rint": nearest,
}
BINARY = {
    "pow": lambda a, b: a ** b, "floordiv": fdiv, "mod": fmod,
    "np.mod": fmod, "np.remainder": fmod, "np.fmod": lambda a, b: a - b * int(snap(a / b)),
    "arctan2": math.atan2, "hypot": math.hypot, "max": max, "min": min,
}


# sizes of the grid: positive, or there is no grid
POSITIVE = {("attr", n) for n in ("lx", "ly", "lz", "dx", "dy", "dz", "nx", "ny", "nz")}


# operations that are not opaque where they are evaluated with known arguments
PLAYED = ("call", "lout", "map", "slice", "item", "store")


class Sample:
    """one valuation"""

    def __init__(self, seed, pools=None, forced=None, R=2, anon=False, fkeys=None, cover=None):
        self.anon = anon
        self.fkeys = fkeys or {}
        self.enum = ()
        self.watch = ()
        self.extra, self.slices, self.dirty = (), False, False
        self.summed = ()
        self.cover = cover      # {ite id: bits of the branches taken}
        self.keys_of = {}       # application -> keys it was looked up under
        self.seed = seed
        self.mode = seed % 5
        self.pools = pools or {}
        self.memo = {}
        self.table = {}
        self.forced = forced or {}
        self.R = R
        self.budget = 120000

    # ----- values of uninterpreted applications
    def generic(self, k, pool):
        h = _h(self.seed, k)
        r = h & 0xffff
        h >>= 16
        if pool and r % 3 != 0:
            return pool[(h >> 3) % len(pool)]
        m = self.mode
        u = (h % 1000003) / 1000003.0
        if m == 0:
            return 1 + h % 5
        if m == 1:
            return 0.3 + 4.0 * u
        if m == 2:
            return -3.0 + 6.0 * u
        if m == 3:
            return -1 + h % 4
        return (1 + h % 6) if r & 0x100 else 0.2 + 3 * u

    def app(self, sig, k, t=None):
        """value of an uninterpreted application with key k"""
        if t is not None and t.id in self.extra:
            self.dirty = True
        if self.cover is not None and t is not None:
            ks = self.keys_of.setdefault(t.id, [])
            if k not in ks:
                ks.append(k)
        if sig == ("item",) and t is not None and t.op == "item":
            sig = pool_sig(t)
        if t is not None and t in self.forced:
            v = self.forced[t]
            old = self.table.get(k)
            if type(v) is float and v != int(v) and sig in self.enum or \
                    sig in POSITIVE and type(v) in (int, float) and v <= 0:
                raise Discard()
            if old is not None and not same(old[0], v):
                raise Discard()
            self.table[k] = (v,)
            return v
        old = self.table.get(k)
        if old is not None:
            if type(old[0]) is float and sig in self.enum:
                raise Discard()
            return old[0]
        if k in self.fkeys:
            v = self.fkeys[k]
        else:
            v = self.generic(k, self.pools.get(sig))
        if type(v) is float and sig in self.enum:
            v = round(v)
        elif sig in POSITIVE and type(v) in (int, float) and v <= 0:
            v = abs(v) or 1
        self.table[k] = (v,)
        return v

    def coin(self, *k):
        return bool(_h(self.seed, "coin", k) & 8)

    # ----- evaluation
    def ev(self, t, env):
        memo = env.memo if t.fv & env.syms else None
        if memo is None:
            e = env
            while e.parent is not None and not (t.fv & e.syms):
                e = e.parent
            memo = e.memo if (t.fv & e.syms) else self.memo
        r = memo.get(t.id, memo)
        if r is not memo:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Discard()
        v = self._ev(t, env)
        memo[t.id] = v
        if t.id in self.extra and t.op not in PLAYED:
            self.dirty = True
        if t.id in self.watch:
            self.cover[("w", t.id)] = 1
        return v

    def vals(self, ts, env):
        return [self.ev(x, env) for x in ts]

    def cond(self, t, env):
        v = self.ev(t, env)
        return self.truthy(v)

    def truthy(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return abs(v) > 1e-12
        if isinstance(v, str):
            return v != ""
        if isinstance(v, tuple) and v and v[0] == "L":
            return len(v) > 1
        return self.coin("truth", key(v))

    def _ev(self, t, env):
        o, a = t.op, t.a
        if o == "const":
            k, v = a
            if k == "num":
                return int(v) if v.denominator == 1 else float(v)
            if k == "none":
                return None
            if k in ("bool", "str"):
                return v
            if k == "fspec":
                return ("spec", v)
            return ("const", k, v)
        if o == "poly":
            tot = 0
            for m, c in a[0]:
                x = int(c) if c.denominator == 1 else float(c)
                for y, e in m:
                    v = self.ev(y, env)
                    if isinstance(v, bool):
                        v = int(v)
                    if not isinstance(v, (int, float)):
                        v = self.app(None, ("num", key(v)))
                        if not isinstance(v, (int, float)):
                            v = 1.25
                    try:
                        x = x * v ** e
                    except (ZeroDivisionError, OverflowError):
                        x = self.app(None, ("zdiv", key(x), e))
                        if not isinstance(x, (int, float)):
                            x = 0.75
                    if isinstance(x, complex):
                        x = 0.5
                tot = tot + x
            return tot
        if o == "opq":
            return self.ev(a[0], env)
        if o == "ite":
            b = self.cond(a[0], env)
            if self.cover is not None:
                self.cover[t.id] = self.cover.get(t.id, 0) | (1 if b else 2)
            return self.ev(a[1] if b else a[2], env)
        if o == "not":
            return not self.cond(a[0], env)
        if o == "truth":
            return self.truthy(self.ev(a[0], env))
        if o == "lt":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return y - x > 1e-9 * max(1.0, abs(x), abs(y))
            return self.coin("lt", key(x), key(y))
        if o == "eq":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, bool) and isinstance(y, (int, float)):
                x = int(x)
            if isinstance(y, bool) and isinstance(x, (int, float)):
                y = int(y)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
            return same(x, y)
        if o == "in":
            return self._in(t, self.ev(a[0], env), self.ev(a[1], env))
        if o == "isinstance":
            x = self.ev(a[0], env)
            return self._isinst(x, a[1], t)
        if o == "exc":
            ks = tuple(sorted(repr(key(self.ev(x, env))) for x in a[1]))
            return self._bool(t, ("exc", a[0], ks))
        if o == "input":
            return self.app(("in", a[0]), ("in", a[0]), t)
        if o == "in_":
            return self.app(("in", a[0]), ("in", a[0]), t)
        if o == "attr":
            return self.app(("attr", a[1]), ("attr", key(self.ev(a[0], env)), a[1]), t)
        if o == "item":
            return self._item(t, self.ev(a[0], env), self.ev(a[1], env))
        if o == "store":
            b, k, v = self.vals(a, env)
            return self._store(b, k, v)
        if o in ("list", "tuple"):
            return ("L",) + tuple(self.vals(a, env))
        if o == "append":
            b, v = self.vals(a, env)
            if isinstance(b, tuple) and b and b[0] == "L":
                return b + (v,)
            return ("app", key(b), key(v))
        if o == "lcat":
            b, v = self.vals(a, env)
            if isinstance(b, tuple) and isinstance(v, tuple) and b[:1] == ("L",) and v[:1] == ("L",):
                return b + v[1:]
            return ("lcat", key(b), key(v))
        if o == "repeat":
            b, v = self.vals(a, env)
            if isinstance(b, tuple) and b and b[0] == "L" and isinstance(v, int) and 0 <= v <= 8:
                return ("L",) + b[1:] * v
            return ("rep", key(b), key(v))
        if o == "concat":
            vs = self.vals(a, env)
            out = []
            for v in vs:
                if isinstance(v, str):
                    if out and isinstance(out[-1], str):
                        out[-1] += v
                    else:
                        out.append(v)
                else:
                    out.append(v)
            if len(out) == 1 and isinstance(out[0], str):
                return out[0]
            return ("cat",) + tuple(key(x) for x in out)
        if o == "dict":
            d = tuple(sorted(((key(self.ev(k, env)), key(self.ev(v, env))) for k, v in a[0]), key=repr))
            rest = self.ev(a[1], env) if isinstance(a[1], T) else a[1]
            return ("dict", d, key(rest))
        if o == "call":
            return self._call(t, a[0], self.vals(a[1], env), [(k, self.ev(v, env)) for k, v in a[2]])
        if o == "draw":
            k = ("draw", a[0], tuple(key(x) for x in self.vals(a[1], env)),
                 tuple((n, key(self.ev(v, env))) for n, v in a[2]),
                 key(self.ev(a[3], env)), tuple(key(self.ev(x, env)) for x in a[4]))
            return self.app(("draw", a[0]), k, t)
        if o == "new":
            k = ("new", a[0], tuple((n, key(self.ev(v, env))) for n, v in a[1]),
                 key(self.ev(a[2], env)), tuple(key(self.ev(x, env)) for x in a[3]))
            return ("obj", _h(k))
        if o == "lout":
            return self._lout(t, env)
        if o == "map":
            return self._map(t, env)
        if o in ("lv", "ix"):
            e = env
            while e is not None:
                if (o,) + a in e.syms:
                    return e.vals[(o,) + a]
                e = e.parent
            return self.app(None, ("free", o) if self.anon else ("free", o, a), t)
        if o in ("undef", "absent"):
            return (o,)
        if self.anon and o in ("ref", "fn"):
            return ("st", o)
        # generic constructor: hash of everything
        def kk(x):
            if isinstance(x, T):
                return key(self.ev(x, env))
            if isinstance(x, tuple):
                return tuple(kk(y) for y in x)
            return x
        k = (o,) + tuple(kk(x) for x in a)
        if o in ("slice", "objst", "mod", "inst", "ref", "fn", "glob", "cls", "star", "exckind", "fm0", "newaxis"):
            return ("st", _h(k)) if o != "mod" else self.app(("mod", a[0]), k, t)
        return self.app((o,), k, t)

    def _bool(self, t, k):
        if t is not None and t.id in self.extra:
            self.dirty = True
        if t in self.forced:
            v = self.forced[t]
            old = self.table.get(k)
            if old is not None and old[0] != v:
                raise Discard()
            self.table[k] = (v,)
            return v
        if self.cover is not None:
            ks = self.keys_of.setdefault(t.id, [])
            if k not in ks:
                ks.append(k)
        old = self.table.get(k)
        if old is None and k in self.fkeys:
            old = self.table[k] = (bool(self.fkeys[k]),)
        if old is None:
            # exceptions are rarer than their absence
            h = _h(self.seed, k)
            old = ((h & 3) == 0,) if k[0] == "exc" else ((h & 1) == 0,)
            self.table[k] = old
        return old[0]

    def _in(self, t, x, c):
        if isinstance(c, tuple) and c and c[0] in ("L", "FK"):
            return any(same(x, y) for y in c[1:])
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return self._bool(t, ("in", key(x), key(c)))

    def _isinst(self, x, kind, t):
        if isinstance(x, tuple) and x and x[0] == "L":
            return "list" in kind or "tuple" in kind
        if isinstance(x, str):
            return "str" in kind.split("|")
        if isinstance(x, bool):
            return "bool" in kind or "int" in kind.split("|")
        return self._bool(t, ("isinst", key(x), kind))

    def _item(self, t, b, k):
        if isinstance(b, str) and isinstance(k, tuple) and k[:1] == ("slice",) and \
                all(x is None or isinstance(x, int) for x in k[1:]):
            return b[slice(*k[1:])]
        if isinstance(b, tuple) and b:
            if b[0] == "L" and isinstance(k, int) and not isinstance(k, bool):
                n = len(b) - 1
                if -n <= k < n:
                    return b[1:][k]
            if b[0] == "A":
                base, writes = b[1], b[2]
                kk = key(k)
                if not _complexkey(kk):
                    ok = True
                    for wk, wv in writes:
                        if _complexkey(wk):
                            ok = False
                    if ok:
                        for wk, wv in writes:
                            if wk == kk:
                                return wv
                        return self._item(t, base, k)
        sig = ("item", k) if isinstance(k, str) else ("item",)
        return self.app(sig, ("item", key(b), key(k)), t)

    def _store(self, b, k, v):
        kk = key(k)
        if isinstance(b, tuple) and b and b[0] == "A":
            base, writes = b[1], b[2]
            if not _complexkey(kk) and all(not _complexkey(w[0]) for w in writes):
                w = [x for x in writes if x[0] != kk] + [(kk, v)]
                w.sort(key=lambda x: repr(x[0]))
                return ("A", base, tuple(w))
            return ("A", ("st", _h(key(b))), ((kk, v),))
        if isinstance(b, tuple) and b and b[0] == "L" and isinstance(k, int) and -len(b) < k < len(b) - 1:
            l = list(b[1:])
            if -len(l) <= k < len(l):
                l[k] = v
                return ("L",) + tuple(l)
        return ("A", b, ((kk, v),))

    def _call(self, t, f, args, kw):
        if not kw:
            r = played.strings(f, args, kw)
            if r is not None:
                return r[0]
            if len(args) == 1 and f in UNARY:
                x = args[0]
                if isinstance(x, bool):
                    x = int(x)
                if isinstance(x, (int, float)):
                    try:
                        return UNARY[f](x)
                    except (ValueError, OverflowError, ZeroDivisionError):
                        pass
            if f in BINARY and len(args) >= 2 and all(isinstance(x, (int, float)) for x in args):
                try:
                    r = args[0]
                    for y in args[1:]:
                        r = BINARY[f](r, y)
                    if isinstance(r, (int, float)):
                        return r
                except (ValueError, OverflowError, ZeroDivisionError):
                    pass
            if f == "len" and len(args) == 1:
                x = args[0]
                if isinstance(x, tuple) and x and x[0] == "L":
                    return len(x) - 1
                if isinstance(x, str):
                    return len(x)
                v = self.app(("call", "len"), ("call", "len", key(x)), t)
                return v
            if f in ("all", "any") and len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] == ("L",):
                g = all if f == "all" else any
                return g(self.truthy(x) for x in args[0][1:])
            if f == "bool" and len(args) == 1:
                return self.truthy(args[0])
        k = ("call", f, tuple(key(x) for x in args), tuple((n, key(v)) for n, v in kw))
        if f in ("all", "any", "isnan", "m:exists", "m:is_file", "m:is_dir", "m:endswith", "m:startswith",
                 "m:isdigit", "m:isnumeric", "m:isdecimal", "m:isalpha", "m:isalnum", "m:isspace", "m:islower", "m:isupper",
                 "m:issubset", "callable"):
            return self._bool(t, k)
        return self.app(("call", f), k, t)

    # ----- loops: coinductive fingerprint
    def _lout(self, t, env):
        n, brk, slots, bv, fin, h = t.a
        nv = self.ev(n, env) if n.op != "inf" else None
        inits = [self.ev(i, env) for i, _ in slots]
        ixs = ("ix", h)
        if nv is not None and isinstance(nv, (int, float)) and nv <= 0:
            e = Env(env, {("lv", h, k): v for k, v in enumerate(inits)}, {ixs: 0})
            return self.ev(fin, e)
        res = []
        for r in range(self.R):
            vals = {}
            for k in range(len(slots)):
                vals[("lv", h, k)] = self.slotval(inits[k], k, h, r, t)
            iv = self.ixval(nv, r, t)
            e = child(env, vals, {ixs: iv})
            row = []
            b = self.cond(brk, e)
            if self.cover is not None:
                self.cover[-t.id] = self.cover.get(-t.id, 0) | (1 if b else 2)
            row.append(b)
            for k, (i, nx) in enumerate(slots):
                row.append(key(self.ev(nx, e)) if not b else None)
            if b:
                row.append(key(self.ev(bv, e)))
            row.append(key(self.ev(fin, child(env, vals, {ixs: nv if nv is not None else 0}))))
            res.append(tuple(row))
        return self.app(("lout",), ("lout", key(nv), tuple(key(i) for i in inits), tuple(res)), t)

    def slotval(self, init, k, h, r, t):
        hh = _h(self.seed, "slot", k, h, r)
        f = self.fkeys.get(("slot", h, k, r))
        if f is not None and isinstance(init, (int, float)):
            return f if not isinstance(init, bool) else bool(f)
        if isinstance(init, bool):
            return bool(hh & 1)
        if isinstance(init, tuple) and init and init[0] in ("A", "L", "obj", "dict", "app"):
            return ("sv", hh)
        if (hh & 7) == 0:
            return init
        m = self.mode
        if m in (0, 3):
            return (hh >> 8) % 5
        return -2 + 7.0 * ((hh >> 8) % 1000003) / 1000003.0 if hh & 16 else (hh >> 8) % 5

    def ixval(self, nv, r, t):
        hh = _h(self.seed, "ix", r)
        if isinstance(nv, (int, float)) and 0 < nv < 100:
            return (hh >> 4) % max(1, int(math.ceil(nv)))
        return (hh >> 4) % 5

    def _map(self, t, env):
        n, body, c, h = t.a
        nv = self.ev(n, env)
        res = []
        for r in range(self.R):
            e = child(env, {}, {("ix", h): self.ixval(nv, r, t)})
            cv = self.cond(c, e)
            res.append((cv, key(self.ev(body, e)) if cv else None))
        return ("map", _h(key(nv), tuple(res)))


def _complexkey(k):
    if isinstance(k, tuple):
        if k and k[0] in ("st", "b", "none", "o"):
            return True
        return any(_complexkey(x) for x in k if isinstance(x, tuple))
    return False


def child(env, vals, ix):
    """loops that are entered in the same state share what is computed there"""
    vals = dict(vals)
    vals.update(ix)
    k = tuple((n, type(v), v) for n, v in vals.items())
    e = env.kids.get(k)
    if e is None:
        e = env.kids[k] = Env(env, vals, {})
    return e


class Env:
    __slots__ = ("parent", "vals", "syms", "memo", "kids")

    def __init__(self, parent, vals, ix):
        self.parent = parent
        self.vals = dict(vals)
        self.vals.update(ix)
        self.syms = frozenset(self.vals)
        self.memo = {}
        self.kids = {}


ROOT = Env(None, {}, {})


def root_env():
    return Env(None, {}, {})


def pool_sig(x):
    if x.op == "in_":
        return ("in", x.a[0])
    if x.op == "attr":
        return ("attr", x.a[1])
    if x.op == "item":
        if is_const(x.a[1], "str"):
            return ("item", x.a[1].a[1])
        b = x.a[0]
        while b.op in ("item", "store") and not (b.op == "item" and is_const(b.a[1], "str")):
            b = b.a[0]
        return ("item", "of", pool_sig(b))
    if x.op in ("call", "draw"):
        return (x.op, x.a[0])
    if x.op == "mod":
        return ("mod", x.a[0])
    if x.op == "lout":
        return ("lout",)
    return (x.op,)


def enumerated(t):
    """kinds of values the reference only ever compares with integer constants: codes"""
    from .terms import subterms
    good, bad = {}, set()

    def walk(a, ok):
        for x in a:
            if isinstance(x, T):
                if x.op in ("in_", "attr", "item", "rd"):
                    if ok:
                        good.setdefault(pool_sig(x), set()).add(ok)
                    else:
                        bad.add(pool_sig(x))
            elif isinstance(x, tuple):
                walk(x, ok)
    for p in subterms(t).values():
        ok = None
        if p.op == "eq":
            c = [x for x in p.a if x.op == "const" and x.a[0] == "num" and x.a[1].denominator == 1]
            ok = c[0].id if len(c) == 1 else None
        walk(p.a, ok)
    return {k for k, v in good.items() if len(v) > 1 and k not in bad}


def collect_pools(terms):
    """constants each kind of uninterpreted value is compared with"""
    from .terms import subterms
    sig = pool_sig
    pools = {}
    seen = {}
    for t in terms:
        subterms(t, seen)

    def cv(c):
        k, v = c.a
        if k == "num":
            return int(v) if v.denominator == 1 else float(v)
        if k == "none":
            return None
        if k in ("bool", "str"):
            return v
        return None

    def put(x, v):
        p = pools.setdefault(sig(x), [])
        if not any(type(y) == type(v) and y == v for y in p):
            p.append(v)

    for x in seen.values():
        if x.op == "eq":
            l, r = x.a
            if r.op == "const" and l.op != "const":
                put(l, cv(r))
        elif x.op == "truth":
            y = x.a[0]
            if y.op not in ("poly", "const"):
                put(y, True)
                put(y, False)
        elif x.op == "in":
            l, r = x.a
            if r.op in ("list", "tuple"):
                for e in r.a:
                    if e.op == "const":
                        put(l, cv(e))
    # lengths: what they are compared with, directly or as part of a sum
    for x in seen.values():
        if x.op in ("eq", "lt"):
            sub = subterms(x)
            if len(sub) < 40 and any(y.op == "call" and y.a[0] == "len" for y in sub.values()):
                cs = set()
                for y in sub.values():
                    if y.op == "const" and y.a[0] == "num":
                        cs.add(y.a[1])
                    elif y.op == "poly":
                        cs |= {abs(c) for m, c in y.a[0] if not m}
                for c in cs | {c + d for c in cs for d in cs if len(cs) <= 4}:
                    if c.denominator == 1 and 0 < c <= 8:
                        p = pools.setdefault(("len",), [])
                        p += [int(c)] if int(c) not in p else []
    rec = []
    for x in seen.values():
        if x.op == "call":
            r = played.receiver(x.a[0], x)
            while r is not None and r.op == "call" and played.receiver(r.a[0], r) is not None:
                r = played.receiver(r.a[0], r)
            if r is not None and r.op != "const" and sig(r) not in rec:
                rec.append(sig(r))
    if rec:
        for x in seen.values():
            # what is compared with the result of a string method is a string
            if x.op in ("eq", "in"):
                for y, z in (x.a, x.a[::-1]):
                    if any(w.op == "call" and played.receiver(w.a[0], w) is not None for w in subterms(y).values()):
                        while z.op == "map":
                            z = z.a[1]
                        if z.op in ("attr", "item", "in_") and sig(z) not in rec:
                            rec.append(sig(z))
        cs = set()
        for x in seen.values():
            if x.op in ("eq", "in"):
                for y in x.a:
                    cs |= {z.a[1] for z in ((y,) + y.a if y.op in ("list", "tuple") else (y,))
                           if z.op == "const" and z.a[0] == "str"}
            elif x.op == "call" and played.receiver(x.a[0], x) is not None:
                cs |= {y.a[1] for y in x.a[1] if y.op == "const" and y.a[0] == "str"}
        vs = played.variants(cs)
        n = max(1, len(vs) // (3 * max(1, len(cs))))
        for k in rec:
            p = pools.setdefault(k, [])
            p += [v for v in vs if v not in p] + [c for c in cs if len(c) > 2] * n
            pools[("str", k)] = [v for v in p if isinstance(v, str)]
    for p in pools.values():
        p.sort(key=repr)
    return pools


from . import played  # noqa: E402  (played uses key and same)
