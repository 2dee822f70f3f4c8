"""Valuations under which loops are unrolled and small arrays are written out.

The valuations of rnd.py compare the bodies of loops for arbitrary values of
what they carry.  That is more than the meaning of a loop (an invariant may
exclude some of these values, and the same loop can carry other variables), so
a difference found there is confirmed here: every bound and index is a small
number, a loop is the sequence of its rounds, a list is the sequence of its
elements, and an array with known shape the (nested) list of its elements.
What a library function or an unknown object returns stays arbitrary.
"""
import math
from itertools import product

from .terms import T, subterms, is_const
from . import played
from .rnd import Sample, Discard, Env, child, key, same, pool_sig, _h, UNARY, BINARY

NMAX = 6
ROUNDS = 9
MANY = 45


class Endless(Discard):
    """a loop without a bound goes on"""
CELLS = 160
FULL = ("slice", None, None, None)
ARRAYS = ("fn:specsim", "np.fft.fftn", "np.fft.ifftn", "x:numpy.random.randn", "mesh")


class Inconclusive(Exception):
    """the values are of another kind (an array as a whole against its elements)"""


def isnum(x):
    return isinstance(x, (int, float))


def isL(x):
    return isinstance(x, tuple) and x[:1] == ("L",)


def isF(x):
    return isinstance(x, tuple) and x[:1] == ("F",)


def isSl(x):
    return isinstance(x, tuple) and x[:1] == ("slice",)


def asint(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float) and v == int(v) if v == v and abs(v) < 1e9 else False:
        return int(v)
    return None


def dims(x):
    """shape of a nested list, None if it is ragged"""
    if not isL(x):
        return ()
    if len(x) == 1:
        return (0,)
    d = dims(x[1])
    for y in x[2:]:
        if dims(y) != d:
            return (len(x) - 1,)
    return (len(x) - 1,) + d


def leaves(x):
    if isL(x):
        for y in x[1:]:
            yield from leaves(y)
    else:
        yield x


def get(x, idx):
    for i in idx:
        x = x[1 + i]
    return x


def build(shape, f, idx=()):
    if not shape:
        return f(idx)
    return ("L",) + tuple(build(shape[1:], f, idx + (i,)) for i in range(shape[0]))


def bshape(ds):
    n = max(len(d) for d in ds)
    if any(0 in d and len(d) < n for d in ds) or any(0 in d and len(d) == n for d in ds) and any(0 < len(d) < n for d in ds):
        raise Discard()         # how many axes an empty array has is not known
    out = []
    for k in range(n):
        m = 1
        for d in ds:
            j = k - (n - len(d))
            if j >= 0 and d[j] != 1:
                if m != 1 and m != d[j]:
                    raise Discard()
                m = d[j]
        out.append(m)
    return tuple(out)


def bget(x, d, idx):
    n = len(idx) - len(d)
    return get(x, tuple(0 if d[j] == 1 else idx[n + j] for j in range(len(d))))


def ew(f, *xs):
    """elementwise, with broadcasting"""
    ds = [dims(x) for x in xs]
    sh = bshape(ds)
    return build(sh, lambda idx: f(*[bget(x, d, idx) for x, d in zip(xs, ds)]))


def uniform(x):
    vs = list(leaves(x))
    if vs and isnum(vs[0]) and all(isnum(v) and same(v, vs[0]) for v in vs):
        return vs[0]
    return None


REDUCE = {
    "np.count_nonzero": lambda v: sum(1 for x in v if x),"np.max": max, "np.min": min, "max": max, "min": min, "np.sum": sum, "sum": sum,
          "np.mean": lambda v: sum(v) / len(v), "np.prod": math.prod}


def int_terms(ts):
    """terms that count rounds, index elements or give shapes"""
    from .compare import atoms
    out = set()

    def add(x):
        if not isinstance(x, T):
            return
        if x.op in ("tuple", "list"):
            for y in x.a:
                add(y)
            return
        if x.op == "slice":
            for y in x.a:
                add(y)
            return
        for y in atoms(x):
            if y.op in ("in_", "attr", "item", "call", "draw", "rd", "lv"):
                out.add(y.id)
            elif y.op == "ite":
                add(y.a[1])
                add(y.a[2])
    objs = set()
    keys = set()
    for t in ts:
        for x in subterms(t).values():
            if x.op == "in":
                # what is looked up by membership is a name, not a position
                keys |= {y.id for y in atoms(x.a[0])} | {x.a[0].id}
            if x.op in ("lout", "map"):
                add(x.a[0])
            elif x.op in ("item", "store"):
                k = x.a[1]
                if not (k.op == "const" and k.a[0] == "str"):
                    add(k)
            elif x.op == "call" and x.a[0] in ("zeros", "ones", "empty", "arange", "np.broadcast_to"):
                for y in x.a[1]:
                    add(y)
            if x.op == "attr" and isinstance(x.a[0], T):
                objs.add(x.a[0].id)
            elif x.op in ("rd", "fmst") and len(x.a) > 1 and isinstance(x.a[1], T):
                objs.add(x.a[1].id)
    arrays = {pool_sig(x.a[0]) for t in ts for x in subterms(t).values()
              if x.op == "item" and not is_const(x.a[1], "str") and x.a[0].op in ("attr", "item", "in_")}
    return out - keys, objs, keys, arrays


class Outside(Discard):
    """an element an array made by the function itself does not have, or a variable never set"""


class Unroll(Sample):
    most = ROUNDS
    longest = 0
    ints = frozenset()
    objs = frozenset()
    names = frozenset()
    arrays = frozenset()

    def __init__(self, *a, **k):
        Sample.__init__(self, *a, **k)
        self.budget = 60000
        self.traces = {}
        self.summed = set()
        self.sizes = {}

    deep = False
    scale = 0           # largest number the two compare anything with

    def generic(self, k, pool):
        if self.scale and not pool and self.seed % 2 == 0:
            h = _h(self.seed, "scale", k)
            if h % 2:
                return self.scale * (-2.0 + 4.0 * ((h >> 8) % 1000003) / 1000003.0)
        return Sample.generic(self, k, pool)

    # ----- uninterpreted values
    def small(self, k):
        h = _h(self.seed, "int", k)
        if self.deep:
            return (0, 1, 1, 1, 1, 2, 2, 2)[h & 7]      # many loops within one another
        if self.seed % 6 == 0:
            return (1, 2, 3, 3, 4, 4, 5, 5)[h & 7]
        return (0, 1, 1, 2, 2, 2, 3, 3)[h & 7] if self.mode != 3 else (1, 2, 2, 3)[h & 3]

    def app(self, sig, k, t=None):
        if self.slices and not self.dirty and k[0] == "item" and "slice" in str(k[2]):
            self.dirty = True
        if t is not None and t.op == "lv":
            return Sample.app(self, sig, k, t)
        if k not in self.table and k not in self.fkeys and (t is None or t not in self.forced):
            if sig == ("call", "size"):
                self.table[k] = (1 + self.small(k),)
            elif sig == ("call", "len") or (t is not None and t.id in self.ints):
                self.table[k] = (self.small(k),)
                p = self.pools.get(("len",)) if sig == ("call", "len") else None
                if p and _h(self.seed, "len", k) % 2:
                    self.table[k] = (p[_h(self.seed, "which", k) % len(p)],)
            elif ("str", sig if t is None or t.op != "item" else pool_sig(t)) in self.pools and self.seed % 4:
                # a string method is applied to it, and nothing else has such a method
                p = self.pools["str", sig if t is None or t.op != "item" else pool_sig(t)]
                self.table[k] = (p[_h(self.seed, k) % len(p)],)
            elif t is not None and t.id in self.names:
                # a name: never a position counted from the end
                v = self.generic(k, self.pools.get(sig))
                self.table[k] = (abs(v) if isnum(v) and not isinstance(v, bool) else v,)
            elif t is not None and t.id in self.objs:
                v = self.generic(k, self.pools.get(sig))
                self.table[k] = (v if v is None or isinstance(v, str) else ("ob", _h(k)),)
            elif t is not None and t.op in ("attr", "item", "in_") and pool_sig(t) in self.arrays:
                # a sequence: not to be taken for another one
                v = self.generic(k, self.pools.get(pool_sig(t)))
                if type(v) is int and v not in self.pools.get(pool_sig(t), ()):
                    self.table[k] = (v + 0.05 + _h(k) % 9001 / 1e4,)
        return Sample.app(self, sig, k, t)

    def truthy(self, v):
        if isinstance(v, tuple) and v and v[0] in ("obj", "F", "dict"):
            return True
        if isinstance(v, tuple) and v and v[0] == "ob":
            return True
        return Sample.truthy(self, v)

    # ----- evaluation
    def _ev(self, t, env):
        o, a = t.op, t.a
        if o == "poly":
            return self._poly(t, env)
        if o == "slice":
            return ("slice",) + tuple(self.ev(x, env) for x in a)
        if o == "ite":
            v = self.ev(a[0], env)
            if isL(v) and len(v) > 1 and all(isinstance(x, bool) for x in leaves(v)):
                return ew(lambda c, x, y: x if c else y, v, self.ev(a[1], env), self.ev(a[2], env))
            b = self.truthy(v)
            if self.cover is not None:
                self.cover[t.id] = self.cover.get(t.id, 0) | (1 if b else 2)
            return self.ev(a[1] if b else a[2], env)
        if o == "not":
            v = self.ev(a[0], env)
            if isL(v) and len(v) > 1 and all(isinstance(x, bool) for x in leaves(v)):
                return ew(lambda x: not x, v)
            return not self.truthy(v)
        if o in ("lt", "eq"):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if (isL(x) and (isL(y) and o == "lt" or isnum(y))) or (isL(y) and isnum(x)):
                return ew(lambda p, q: self._cmp(o, p, q), x, y)
            return self._cmp(o, x, y)
        if o == "glob":
            return ("dt", a[0])
        if o == "item":
            b, k = self.ev(a[0], env), self.index(a[1], env)
            if counted(a[1]) and isnum(k) and k < 0:
                raise Discard()     # an index counted from a length is not meant to wrap
            return self._item(t, b, k)
        if o == "store":
            b = self.ev(a[0], env)
            k, v = self.index(a[1], env), self.ev(a[2], env)
            if isnum(v) and a[2].op in ("attr", "item", "in_") and pool_sig(a[2]) in self.arrays:
                v = self.wide(a[2], b, k, v)
            return self._store(b, k, v)
        if o == "newaxis":
            return ("newaxis",)
        if o == "fm0":
            return ("fm0",) + tuple(a)
        if o == "fmst":
            return self._fmst(t, [self.ev(x, env) if isinstance(x, T) else x for x in a])
        if o == "rd":
            return self._rd(t, [self.ev(x, env) if isinstance(x, T) else x for x in a])
        if o == "append":
            b, v = self.vals(a, env)
            if isL(b):
                return b + (v,)
            if isinstance(b, tuple) and b[:1] == ("X",):
                return b + (v,)
            return ("X", b, v)      # a sequence with an unknown beginning
        if o == "lcat":
            b, v = self.vals(a, env)
            if isL(v) and isL(b):
                return b + v[1:]
            if isL(v) and len(v) == 1:
                return b
            if isL(v):
                return (b if isinstance(b, tuple) and b[:1] == ("X",) else ("X", b)) + v[1:]
            return ("lcat", key(b), key(v))
        if o == "dict":
            rest = self.ev(a[1], env) if isinstance(a[1], T) else a[1]
            r = ("A", ("dict", key(rest)), ())
            for k, v in a[0]:
                r = self._store(r, self.ev(k, env), self.ev(v, env))
            return r
        return Sample._ev(self, t, env)

    def index(self, k, env):
        """a list as an index selects several elements"""
        v = self.ev(k, env)
        if isL(v) and k.op != "tuple" and not (len(v) > 1 and all(isinstance(x, bool) for x in leaves(v))):
            return ("I", v)
        return v

    def _cmp(self, o, x, y):
        if isinstance(x, bool) and isnum(y):
            x = int(x)
        if isinstance(y, bool) and isnum(x):
            y = int(y)
        if isnum(x) and isnum(y):
            if o == "lt":
                return y - x > 1e-9 * max(1.0, abs(x), abs(y))
            return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
        if o == "eq":
            return same(x, y)
        return self.coin("lt", key(x), key(y))

    def num1(self, v):
        if isinstance(v, bool):
            return int(v)
        if isnum(v):
            return v
        return 0.2 + 3.0 * (_h(self.seed, "num", key(v)) % 1000003) / 1000003.0

    def _poly(self, t, env):
        vals = {}
        arr = opq = False
        ms = t.a[0]
        if len(ms) == 2 and all(c == 1 and len(m) == 1 and m[0][1] == 1 for m, c in ms):
            v, u = (self.ev(m[0][0], env) for m, _ in ms)
            if (v == ("L",)) != (u == ("L",)):
                return u if v == ("L",) else v      # a list put behind an empty one
        for m, c in ms:
            for y, e in m:
                if y.id not in vals:
                    v = self.ev(y, env)
                    if isF(v):
                        v = v[2]
                        opq = True
                    if y.op in ("call", "draw") and y.a[0] in ARRAYS:
                        opq = True
                    if isL(v):
                        arr = True
                    elif not isnum(v):
                        v = self.num1(v)
                        opq = True
                    vals[y.id] = v
        if arr and opq:
            # an array as a whole stands for one of its elements
            for k, v in vals.items():
                if isL(v):
                    if next(leaves(v), None) is None:
                        raise Discard()
                    u = uniform(v)
                    while isL(v) and len(v) == 2 and isL(v[1]):
                        v = v[1]        # axes in front
                    vals[k] = u if u is not None else self.num1(v)
            arr = False

        def one(get):
            tot = 0
            for m, c in t.a[0]:
                x = int(c) if c.denominator == 1 else float(c)
                for y, e in m:
                    v = get(y.id)
                    v = int(v) if isinstance(v, bool) else v
                    if not isnum(v):
                        v = self.num1(v)
                    try:
                        x = x * v ** e
                    except (ZeroDivisionError, OverflowError):
                        raise Discard()
                    if isinstance(x, complex):
                        x = 0.5
                tot = tot + x
            return tot
        if not arr:
            return one(vals.__getitem__)
        ids = list(vals)
        return ew(lambda *xs: one(dict(zip(ids, xs)).__getitem__), *[vals[i] for i in ids])

    # ----- fields of objects
    def _fmst(self, t, a):
        if len(a) == 3:
            return self._store(a[0], ("fk", key(a[1])), a[2])
        return self.app(("fmst",), ("fmst",) + tuple(key(x) for x in a), t)

    def _rd(self, t, a):
        b = a[0]
        if len(a) == 2:
            k = key(("fk", key(a[1])))
            while isinstance(b, tuple) and b[:1] == ("A",):
                for wk, wv in b[2]:
                    if wk == k:
                        return wv
                b = b[1]
            if isinstance(b, tuple) and b[:2] == ("fm0", "c"):
                return a[1]             # contents nobody changed
            if isinstance(b, tuple) and b[:2] == ("fm0", "a"):
                return self.app(("attr", b[2]), ("attr", key(a[1]), b[2]), t)
            return self.app(("rd",), ("rd", key(b), k), t)
        return self.app(("rd",), ("rd",) + tuple(key(x) for x in a), t)

    # ----- elements
    def _len(self, b):
        if isL(b):
            return len(b) - 1
        if isinstance(b, tuple) and b[:1] == ("A",):
            return self._len(b[1])
        if isinstance(b, tuple) and b[:1] == ("X",):
            n = self._len(b[1])
            return n + len(b) - 2
        if isinstance(b, tuple) and b[:1] == ("FK",):
            return len(b) - 1
        if isinstance(b, str):
            return len(b)
        k = ("call", "len", key(b))
        v = self.app(("call", "len"), k)
        n = asint(v)
        if n is None or n < 0:
            raise Discard()
        return n

    def norm(self, b, k):
        """index in the form under which elements are kept"""
        if isL(k) and len(k) > 1 and all(isinstance(x, bool) for x in leaves(k)):
            return k        # a mask
        if isL(k) and len(k) == 2:
            return self.norm(b, k[1])
        n = asint(k) if isnum(k) else None
        if n is not None:
            if n < 0:
                d = b[1] if isinstance(b, tuple) and b[:1] == ("A",) else b
                if self.names and not isL(d) and ("in", key(k), key(d)) in self.table:
                    return n
                m = self._len(b)
                if n + m < 0:
                    raise Discard()
                return n + m
            return n
        if isL(k):
            out = []
            for i, x in enumerate(k[1:]):
                n = asint(x) if isnum(x) else None
                out.append(x if n is None else n if (n >= 0 or i > 0) else self.norm(b, n))
            return ("L",) + tuple(out)
        return k

    def _item(self, t, b, k):
        if isinstance(k, tuple) and k[:1] == ("I",):
            if all(isnum(x) and asint(x) is not None for x in k[1][1:]):
                return ("L",) + tuple(self._item(t, b, asint(x)) for x in k[1][1:])
        while k == ("newaxis",) or isL(k) and k[1:2] == (("newaxis",),):
            # axes in front do not change what the elements are multiplied with
            if isL(b):
                b = ("L", b)
                k = ("L", ("slice", None, None, None)) + (k[2:] if isL(k) else ())
                break
            k = k[2] if isL(k) and len(k) == 3 else ("L",) + k[2:] if isL(k) and len(k) > 3 else None
            if k is None or k == FULL:
                return b
        if isinstance(b, tuple) and b[:1] == ("FK",):
            b = ("L",) + b[1:]      # the keys, in order
        k = self.norm(b, k)
        if isL(b):
            r = self.lget(b, k)
            if r is not None:
                return r[0]
            if isinstance(k, int) or isL(k) and all(isinstance(x, int) for x in k[1:]):
                raise Outside()
        elif isF(b):
            if isinstance(k, int) or isL(k) and all(isinstance(x, int) and not isinstance(x, bool) for x in k[1:]):
                return b[2]
        elif isinstance(b, tuple) and b[:1] == ("X",):
            n = self._len(b[1])
            if isinstance(k, int) and k >= n:
                if k - n < len(b) - 2:
                    return b[2 + k - n]
                raise Discard()
            if isinstance(k, int):
                return self._item(t, b[1], k)
        elif isinstance(b, tuple) and b[:1] == ("A",):
            return self.aget(t, b, k)
        elif isinstance(b, str) and isinstance(k, int):
            if k < len(b):
                return b[k]
            raise Discard()
        elif isSl(k) and ("call", "len", key(b)) in self.table and \
                not isinstance(b, str) and not (isnum(b) and asint(b) is not None):
            # part of a sequence the length of which is asked for: its elements
            s, n = self.pyslice(k), self._len(b)
            if s is not None and n <= 6:
                return ("L",) + tuple(self._item(t, b, i) for i in range(n)[s])
        sig = ("item", k) if isinstance(k, str) else ("item",)
        return self.app(sig, ("item", key(b), key(k)), t)

    def aget(self, t, b, k):
        base, writes = b[1], b[2]
        if scalar(k):
            kk = key(k)
            for wk, wv in writes:
                if wk == kk:
                    return wv
            pre = [w for w in writes if prefix(kk, w[0])]
            if pre:
                # a row some elements of which were written
                n = len(flat(kk))
                r = self._item(t, base, k)
                for wk, wv in pre:
                    rest = flat(wk)[n:]
                    r = self._store(r, unkey(rest), wv)
                return r
            for wk, wv in writes:
                if prefix(wk, kk):
                    return self._item(t, wv, unkey(flat(kk)[len(flat(wk)):]))
            return self._item(t, base, k)
        return self.app(("item",), ("item", key(b), key(k)), t)

    def lget(self, b, k):
        """(value,) of an element or part of a written-out array"""
        if isinstance(k, bool) or isinstance(k, str) or k is None:
            return None
        if isinstance(k, int):
            return (b[1 + k],) if 0 <= k < len(b) - 1 else None
        if isSl(k):
            s = self.pyslice(k)
            return None if s is None else (("L",) + b[1:][s],)
        if isL(k):
            d = dims(b)
            if len(k) - 1 == 1 or all(isinstance(x, bool) for x in leaves(k)):
                if dims(k) == d[:len(dims(k))]:
                    return (("L",) + tuple(get(b, i) for i in product(*map(range, dims(k))) if get(k, i)),)
                return None
            if all(isinstance(x, int) and not isinstance(x, bool) or isSl(x) or x == ("newaxis",) for x in k[1:]):
                r = b
                return self.sub(r, k[1:])
        return None

    def sub(self, b, ks):
        if not ks:
            return (b,)
        if not isL(b) and ks == (("newaxis",),) * len(ks):
            return (build((1,) * len(ks), lambda i: b),)
        if not isL(b):
            if isinstance(b, tuple):
                try:
                    return (self._item(None, b, ks[0] if len(ks) == 1 else ("L",) + tuple(ks)),)
                except RecursionError:
                    return None
            return None
        k = ks[0]
        if k == ("newaxis",):
            r = self.sub(b, ks[1:])
            return None if r is None else (("L", r[0]),)
        if isinstance(k, int):
            if k < 0:
                k += len(b) - 1
            if not 0 <= k < len(b) - 1:
                return None
            return self.sub(b[1 + k], ks[1:])
        s = self.pyslice(k)
        if s is None:
            return None
        out = []
        for y in b[1:][s]:
            r = self.sub(y, ks[1:])
            if r is None:
                return None
            out.append(r[0])
        return (("L",) + tuple(out),)

    def pyslice(self, k):
        v = []
        for x in k[1:]:
            if x is None:
                v.append(None)
            else:
                n = asint(x) if isnum(x) else None
                if n is None:
                    return None
                v.append(n)
        if v[2] == 0:
            return None
        return slice(*v)

    def wide(self, t, b, k, v):
        """an array that is only known by name, put into part of an array: by its elements"""
        while isinstance(b, tuple) and b[:1] == ("A",):
            b = b[1]
        if isF(b) and b[1][:1] == ("L",) and all(x[:1] == ("n",) for x in b[1][1:]):
            d = tuple(int(float(x[1])) for x in b[1][1:])
        else:
            d = dims(b)
        if not d:
            return v
        ks = k[1:] if isL(k) else (k,)
        if len(ks) > len(d) or not all(isinstance(x, int) and not isinstance(x, bool) or isSl(x) for x in ks):
            return v
        sh = []
        for x, n in zip(ks, d):
            if isSl(x):
                s = self.pyslice(x)
                if s is None:
                    return v
                sh.append(len(range(n)[s]))
        sh += d[len(ks):]
        if not sh or math.prod(sh) > 60:
            return v
        return build(tuple(sh), lambda i: self._item(t, v, ("L",) + i if len(i) > 1 else i[0]))

    def _store(self, b, k, v):
        k = self.norm(b, k)
        if isL(b):
            r = self.lset(b, k, v)
            if r is not None:
                return r
            if isinstance(k, int) or isL(k) and len(k) > 1 and all(isinstance(x, int) for x in k[1:]):
                raise Outside()
        if isinstance(b, tuple) and b[:1] == ("X",) and isinstance(k, int):
            n = self._len(b[1])
            if k >= n:
                if k - n < len(b) - 2:
                    return b[:2 + k - n] + (v,) + b[3 + k - n:]
                raise Discard()
        if isL(v) and scalar(k) and not isinstance(k, str) and dims(v) and 0 not in dims(v) and len(list(leaves(v))) <= 40 \
                and not (isinstance(k, tuple) and k[:1] == ("fk",)) and not isdict(b):
            # a row is stored element by element
            for i, x in enumerate(v[1:]):
                b = self._store(b, ("L",) + (k[1:] if isL(k) else (k,)) + (i,), x)
            return b
        if isSl(k) and isL(v) and (isinstance(b, tuple) or isnum(b)) and not isdict(b) and not isL(b):
            # so are the elements of a part
            s, n = self.pyslice(k), self._len(b)
            if s is not None and isinstance(n, int) and n <= 6 and len(range(n)[s]) == len(v) - 1:
                for i, x in zip(range(n)[s], v[1:]):
                    b = self._store(b, i, x)
                return b
        if isSl(k) and isnum(v) and self.sizes:
            # a number in all elements of an array that a function of the package has filled
            x = b
            while isinstance(x, tuple) and x[:1] == ("A",):
                x = x[1]
            n = None if isL(x) else self.sizes.get(key(x))
            s = self.pyslice(k) if n else None
            if s is not None:
                for i in range(n)[s]:
                    b = self._store(b, i, v)
                return b
        kk = key(k)
        if not (isinstance(b, tuple) and b[:1] == ("A",)):
            b = ("A", b, ())
        base, writes = b[1], b[2]
        if scalar(k) and all(sk(w[0]) for w in writes):
            w = [x for x in writes if x[0] != kk and not prefix(kk, x[0])]
            for x in w:
                if prefix(x[0], kk):
                    nv = self._store(x[1], unkey(flat(kk)[len(flat(x[0])):]), v)
                    w = [(p, nv if p == x[0] else q) for p, q in w]
                    w.sort(key=lambda x: repr(x[0]))
                    return ("A", base, tuple(w))
            if self.old(base, k, kk, v):
                return ("A", base, tuple(w)) if w else base
            w.append((kk, v))
            w.sort(key=lambda x: repr(x[0]))
            return ("A", base, tuple(w))
        if not writes and self.old(base, k, kk, v):
            return base
        return ("A", ("st", _h(key(b))) if writes else base, ((kk, v),))

    def old(self, base, k, kk, v):
        """is that already the value of the element"""
        if isinstance(k, tuple) and k[:1] == ("fk",):
            if isinstance(base, tuple) and base[:2] == ("fm0", "c"):
                return key(v) == k[1]
            q = ("rd", key(base), key(k))
            if isinstance(base, tuple) and base[:2] == ("fm0", "a"):
                q = ("attr", k[1], base[2])
        elif isL(base) or isF(base):
            return isF(base) and same(base[2], v)
        else:
            q = ("item", key(base), kk)
        if self.names and not self.table.get(("in", kk, key(base)), (False,))[0]:
            return False
        o = self.table.get(q)
        return o is not None and same(o[0], v)

    def lset(self, b, k, v):
        d = dims(b)
        if isinstance(k, bool) or isinstance(k, str) or k is None:
            return None
        if isinstance(k, int):
            if not 0 <= k < len(b) - 1:
                return None
            if len(d) > 1:
                v = ew(lambda x, y: y, build(d[1:], lambda i: 0), v)
            return b[:1 + k] + (v,) + b[2 + k:]
        if isL(k) and len(k) > 1 and all(isinstance(x, bool) for x in leaves(k)) and dims(k) == d and not isL(v):
            return ew(lambda c, x, y: y if c else x, k, b, v)
        if isL(k) and len(k) > 1 and all(isinstance(x, bool) for x in leaves(k)) and dims(k) == d and isL(v):
            at = [i for i in product(*map(range, d)) if get(k, i)]
            if len(dims(v)) != 1 or len(v) - 1 != len(at):
                raise Discard()
            at = dict(zip(at, v[1:]))
            return build(d, lambda i: at[i] if i in at else get(b, i))
        ks = k[1:] if isL(k) else (k,)
        if not ks or not all(isinstance(x, int) and not isinstance(x, bool) or isSl(x) for x in ks):
            return None
        if len(ks) > len(d):
            if len(d) == 1 and isinstance(ks[0], int) and 0 <= ks[0] < d[0]:
                return b[:1 + ks[0]] + (self._store(b[1 + ks[0]], unkey(tuple(key(x) for x in ks[1:])), v),) + b[2 + ks[0]:]
            return None
        sel, sh = [], []
        for x, n in zip(ks, d):
            if isSl(x):
                s = self.pyslice(x)
                if s is None:
                    return None
                r = list(range(n))[s]
                sel.append(r)
                sh.append(len(r))
            else:
                x = x + n if x < 0 else x
                if not 0 <= x < n:
                    return None
                sel.append(x)
        for n in d[len(ks):]:
            sel.append(list(range(n)))
            sh.append(n)
        v = ew(lambda x, y: y, build(tuple(sh), lambda i: 0), v) if sh else v
        if sh and dims(v)[:len(sh)] != tuple(sh):
            raise Discard()
        at = {}
        for idx in product(*map(range, sh)):
            it = iter(idx)
            at[tuple(s[next(it)] if isinstance(s, list) else s for s in sel)] = get(v, idx)
        return build(d, lambda i: at.get(i, get(b, i)) if i in at else get(b, i))

    def _in(self, t, x, c):
        if isinstance(c, tuple) and c[:1] == ("A",):
            kk = key(x)
            if all(sk(w[0]) for w in c[2]):
                for wk, wv in c[2]:
                    if wk == kk:
                        return wv != ("absent",)
                return self._in(t, x, c[1])
        return Sample._in(self, t, x, c)

    def without(self, t, b, ks):
        """(element, rest) of removing one element of a list or dictionary"""
        k = ks[0] if ks else -1
        name = len(t.a[1]) > 1 and t.a[1][1].id in self.names
        if isnum(k) and asint(k) is not None and not name:
            k = asint(k)
            if not isL(b):
                n = self._len(b)
                if n > 6:
                    return None
                b = ("L",) + tuple(self._item(t, b, i) for i in range(n))
            n = len(b) - 1
            k = k + n if k < 0 else k
            if not 0 <= k < n:
                raise Discard()
            return b[1 + k], b[:1 + k] + b[2 + k:]
        if isL(b) or not scalar(k):
            return None
        return self._item(t, b, k), self._store(b, k, ("absent",))

    # ----- library functions
    def _call(self, t, f, args, kw):
        if f in ("del", "l:pop", "l:popped") and args and not kw:
            r = self.without(t, args[0], args[1:])
            if r is not None:
                return r[0] if f == "l:popped" else r[1]
        r = self.lib(f, args, dict(kw))
        if r is not None:
            return r[0]
        if not kw:
            if f in ("sorted", "set") and len(args) == 1 and t is not None and t.id in self.extra and \
                    (isnum(args[0]) or isinstance(args[0], tuple) and args[0][:1] in (("ob",), ("st",))):
                # a sequence that is only known by name: by its elements
                n = self._len(args[0])
                if n <= 6:
                    args = (("L",) + tuple(self._item(None, args[0], i) for i in range(n)),)
            r = played.lists(f, args) or self.stat(f, args)
            if r is not None:
                return r[0]
            if played.receiver(f, t) is not None and f[2:] != "count" and \
                    (isnum(args[0]) or args[0] is None or isinstance(args[0], bool)):
                raise Discard()     # a number has no such method
        if f == "len" and len(args) == 1:
            return self._len(args[0])
        r = Sample._call(self, t, f, args, kw)
        if "!" in f and f.startswith("fn:") and args and isL(args[-1]) and len(dims(args[-1])) == 1 and not isL(r):
            self.sizes[key(r)] = len(args[-1]) - 1
        return r

    def stat(self, f, args):
        """order statistics and means, of arrays known by name only as well"""
        g = played.stat(f, args)
        if g is None:
            return None
        x = args[0]
        if isL(x):
            vs = list(leaves(x))
            return (g(vs),) if vs and all(isnum(v) for v in vs) else None
        if isF(x):
            return (g([x[2]] * 3),) if isnum(x[2]) else None
        if not self.extra or isinstance(x, (str, bool)) or x is None or isinstance(x, tuple) and x[:1] not in (("st",),) \
                and x[:1] != ("ob",):
            return None
        self.summed.add(key(x))
        v = self.num1(x)
        return (g([v - 0.75, v, v + 0.75]),)

    def shapeof(self, s):
        n = asint(s) if isnum(s) else None
        if n is not None:
            d = (n,)
        elif isL(s):
            d = tuple(asint(x) if isnum(x) else None for x in s[1:])
            if any(isnum(x) and asint(x) is None for x in s[1:]):
                raise Discard()
            if None in d:
                return None
        else:
            return None
        if min(d, default=0) < 0:
            raise Discard()
        return d if math.prod(d) <= CELLS else None

    def fill(self, shape, v):
        d = self.shapeof(shape)
        if d is None:
            return ("F", key(shape), v)
        return build(d, lambda i: v)

    def lib(self, f, args, kw):
        a0 = args[0] if args else None
        if f in ("zeros", "ones", "empty") and len(args) == 1:
            return (self.fill(a0, 0 if f == "zeros" else 1 if f == "ones" else self.num1(("empty",))),)
        if f == "np.broadcast_to" and len(args) == 2 and isnum(a0):
            return (self.fill(args[1], a0),)
        if f == "arange" and not kw and all(isnum(x) and asint(x) is not None for x in args):
            r = range(*[asint(x) for x in args]) if len(args) < 3 or asint(args[2]) else None
            if r is not None and len(r) <= 12:
                return (("L",) + tuple(r),)
        elif f == "arange" and len(args) == 3 and not kw and all(isnum(x) for x in args) and args[2]:
            n = math.ceil((args[1] - args[0]) / args[2])
            if n <= 12:
                return (("L",) + tuple(args[0] + i * args[2] for i in range(n)),)
        if f == "np.linspace" and len(args) == 3 and set(kw) <= {"endpoint"} and all(isnum(x) for x in args) \
                and kw.get("endpoint") in (None, True, False):
            n = asint(args[2])
            if n is not None and 0 <= n <= 12:
                lo, hi = args[:2]
                m = n if kw.get("endpoint") is False else n - 1
                return (("L",) + tuple(lo + (hi - lo) * i / m if n > 1 else lo for i in range(n)),)
        if f in ("np.isclose", "math.isclose") and 2 <= len(args) <= 4 and kw and all(isnum(x) for x in args) \
                and all(isnum(x) for x in kw.values()):
            o = dict(kw)
            for n, x in zip(("rtol", "atol"), args[2:]):
                o[n] = x
            x, y = args[:2]
            if f == "np.isclose" and set(o) <= {"rtol", "atol"}:
                return (abs(x - y) <= o.get("atol", 1e-8) + o.get("rtol", 1e-5) * abs(y),)
            if f == "math.isclose" and set(o) <= {"rel_tol", "abs_tol"}:
                return (abs(x - y) <= max(o.get("abs_tol", 0), o.get("rel_tol", 1e-9) * max(abs(x), abs(y))),)
        if kw and set(kw) - {"dtype"}:
            return None
        if len(args) == 1:
            if f == "astype":
                return None
            if isF(a0):
                if f in UNARY and isnum(a0[2]):
                    try:
                        return (("F", a0[1], UNARY[f](a0[2])),)
                    except (ValueError, OverflowError, ZeroDivisionError):
                        return None
                return None
            if not isL(a0):
                return None
            d = dims(a0)
            vs = list(leaves(a0))
            nums = all(isnum(x) for x in vs)
            if f in REDUCE and vs and nums:
                return (REDUCE[f](vs),)
            if f in ("all", "any") and vs and all(isinstance(x, bool) for x in vs):
                return ((all if f == "all" else any)(vs),)
            if f in ("np.sum", "sum") and not vs:
                return (0,)
            if f in UNARY and nums:
                try:
                    return (ew(lambda x: UNARY[f](x), a0),)
                except (ValueError, OverflowError, ZeroDivisionError):
                    return None
            if f == "shape":
                return (("L",) + d,)
            if f == "size":
                return (len(vs),)
            if f == "ndim":
                return (len(d),)
            if f == "np.transpose":
                return (build(d[::-1], lambda i: get(a0, i[::-1])),)
            if f in ("list", "tuple"):
                return (a0,)
            if f == "sorted" and nums and len(d) == 1:
                return (("L",) + tuple(sorted(a0[1:])),)
            if f == "np.unique" and nums:
                out = []
                for x in sorted(vs):
                    if not out or not same(out[-1], x):
                        out.append(x)
                return (("L",) + tuple(out),)
            if f == "np.column_stack" and len(d) == 2:
                return (build(d[::-1], lambda i: get(a0, i[::-1])),)
            if f in ("isnan", "np.isnan") and nums:
                return (ew(lambda x: x != x, a0),)
            return None
        if f == "astype" and isL(a0):
            g = args[1]
            if isinstance(g, tuple) and g[:1] == ("dt",):
                if g[1] in ("int", "int32", "int64"):
                    try:
                        r = ew(UNARY["int"], a0)
                        self.dirty = self.dirty or bool(self.extra) and not same(r, a0)
                        return (r,)
                    except (TypeError, ValueError, OverflowError):
                        return None
        if f in ("np.swapaxes", "m:swapaxes") and isL(a0) and len(args) == 3:
            d, i, j = dims(a0), asint(args[1]), asint(args[2])
            if i is not None and j is not None and -len(d) <= min(i, j) and max(i, j) < len(d):
                i, j = i % len(d), j % len(d)
                sw = lambda x: tuple(x[j] if n == i else x[i] if n == j else y for n, y in enumerate(x))
                return (build(sw(d), lambda x: get(a0, sw(x))),)
        if f == "flatten" and isL(a0) and len(args) == 2:
            od = args[1]
            d = dims(a0)
            if od == "C":
                return (("L",) + tuple(leaves(a0)),)
            if od == "F":
                return (("L",) + tuple(get(a0, i[::-1]) for i in product(*map(range, d[::-1]))),)
        if f in BINARY and len(args) >= 2 and any(isL(x) for x in args) and \
                all(isL(x) and all(isnum(y) for y in leaves(x)) or isnum(x) for x in args):
            try:
                r = args[0]
                for y in args[1:]:
                    r = ew(BINARY[f], r, y)
                return (r,)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                return None
        if f == "where" and len(args) == 3 and isL(a0):
            return (ew(lambda c, x, y: x if self.truthy(c) else y, *args),)
        if f in ("bitand", "bitor") and len(args) == 2 and (isL(a0) or isL(args[1])):
            g = (lambda x, y: x and y) if f == "bitand" else (lambda x, y: x or y)
            if all(isinstance(x, bool) for y in args for x in leaves(y)):
                return (ew(g, *args),)
        if f == "np.dot" and len(args) == 2 and isL(a0) and isL(args[1]):
            b = args[1]
            d, e = dims(a0), dims(b)
            if all(isnum(x) for y in args for x in leaves(y)) and d[-1] == e[0] and len(d) <= 2 and len(e) <= 2:
                def el(i):
                    i1, i2 = i[:len(d) - 1], i[len(d) - 1:]
                    return sum(get(a0, i1 + (k,)) * get(b, (k,) + i2) for k in range(e[0]))
                return (build(d[:-1] + e[1:], el),)
        return None

    # ----- loops
    def _lout(self, t, env):
        n, brk, slots, bv, fin, h = t.a
        nv = self.rounds(n, env)
        own = env
        while own.parent is not None and not (t.fv & own.syms):
            own = own.parent
        ck = (id(own), n.id, brk.id, tuple((i.id, x.id) for i, x in slots), h)
        tr = self.traces.get(ck)
        if tr is None:
            tr = self.traces[ck] = self.trace(nv, brk, slots, h, env) + (own,)
        b, vals, i = tr[:3]
        e = child(env, vals, {("ix", h): i})
        if self.cover is not None and brk.op != "const":
            self.cover[-t.id] = self.cover.get(-t.id, 0) | (1 if b else 2)
        return self.ev(bv if b else fin, e)

    def rounds(self, n, env):
        if n.op == "inf":
            return None
        nv = self.ev(n, env)
        if nv == ("undef",):
            raise Outside()
        nv = asint(nv) if isnum(nv) else None
        if nv is None or nv > NMAX:
            raise Discard()
        return max(nv, 0)

    def trace(self, nv, brk, slots, h, env):
        vals = {("lv", h, k): self.ev(i, env) for k, (i, _) in enumerate(slots)}
        i = 0
        while nv is None or i < nv:
            if i >= self.most:
                raise Endless() if nv is None else Discard()
            e = child(env, vals, {("ix", h): i})
            if self.cond(brk, e):
                self.longest = max(self.longest, i)
                return True, vals, i
            vals = {("lv", h, k): self.ev(x, e) for k, (_, x) in enumerate(slots)}
            i += 1
        return False, vals, i

    def _map(self, t, env):
        n, body, c, h = t.a
        nv = self.rounds(n, env)
        if nv is None:
            raise Discard()
        out = ["L"]
        for i in range(nv):
            e = child(env, {}, {("ix", h): i})
            if self.cond(c, e):
                out.append(self.ev(body, e))
        return tuple(out)


def isdict(b):
    while isinstance(b, tuple) and b[:1] == ("A",):
        b = b[1]
    return isinstance(b, tuple) and b[:1] == ("dict",)


def scalar(k):
    """an index of one element (or row)"""
    if isinstance(k, bool) or k is None:
        return False
    if isnum(k) or isinstance(k, str):
        return True
    if isL(k):
        return len(k) > 1 and all(isnum(x) and not isinstance(x, bool) for x in k[1:])
    return isinstance(k, tuple) and k[:1] in (("fk",), ("ob",), ("obj",))


def sk(kk):
    """the same for the key of an index"""
    if not isinstance(kk, tuple):
        return True
    return kk[0] in ("n", "s", "fk", "ob", "obj") or kk[0] == "L" and all(isinstance(x, tuple) and x[0] == "n" for x in kk[1:])


def flat(kk):
    return kk[1:] if kk[:1] == ("L",) else (kk,)


def prefix(a, b):
    """does the element with key b lie in the row with key a"""
    if a[:1] not in (("n",), ("L",)) or b[:1] != ("L",):
        return False
    fa, fb = flat(a), flat(b)
    return len(fa) < len(fb) and fb[:len(fa)] == fa


def unkey(ks):
    v = tuple(int(float(k[1])) if float(k[1]) == int(float(k[1])) else float(k[1]) for k in ks)
    return v[0] if len(v) == 1 else ("L",) + v


def counted(k):
    """is k an index counted from a length"""
    return k.op == "poly" and any(c > 0 and any(y.op == "call" and y.a[0] == "len" for y, _ in m) for m, c in k.a[0])


class UnrollNoCount(Unroll):
    """draws are told apart by what is drawn and where, not by their order"""

    def _ev(self, t, env):
        if t.op == "draw":
            a = t.a
            k = ("draw", a[0], tuple(key(x) for x in self.vals(a[1], env)),
                 tuple((n, key(self.ev(v, env))) for n, v in a[2]),
                 tuple(key(self.ev(x, env)) for x in a[4]))
            return self.app(("draw", a[0]), k, t)
        return Unroll._ev(self, t, env)


class UnrollNoCtx(Unroll):
    """draws are told apart by what is drawn only"""

    def _ev(self, t, env):
        if t.op == "draw":
            a = t.a
            k = ("draw", a[0], tuple(key(x) for x in self.vals(a[1], env)),
                 tuple((n, key(self.ev(v, env))) for n, v in a[2]))
            return self.app(("draw", a[0]), k, t)
        return Unroll._ev(self, t, env)


class UnrollBare(UnrollNoCtx):
    """objects are told apart by what they are made from only"""

    def _ev(self, t, env):
        if t.op == "new":
            a = t.a
            return ("obj", _h(("new", a[0], tuple((n, key(self.ev(v, env))) for n, v in a[1]))))
        return UnrollNoCtx._ev(self, t, env)


SHAPES = {("attr", "surface"): ("nx", "ny"), ("attr", "X"): ("nx", "ny", "nz"), ("attr", "Y"): ("nx", "ny", "nz")}
for _n in ("facies", "azim", "dip", "strata", "ae", "ha", "hat", "k_iso", "poros", "anirat"):
    SHAPES["item", _n] = ("nx", "ny", "nz")
SHAPES["item", "ktensors"] = ("nx", "ny", "nz", 3, 3)


def shape_of(t):
    if t.op == "attr":
        return SHAPES.get(("attr", t.a[1]))
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "data" and t.a[1].op == "const":
        return SHAPES.get(("item", t.a[1].a[1]))
    return None


class UnrollShaped(Unroll):
    """arrays over the grid, element by element: the program has one grid, and its surfaces and data have its shape"""

    def small(self, k):
        return (1, 1, 2, 2, 2, 3, 2, 1)[_h(self.seed, "int", k) & 7]

    def app(self, sig, k, t=None):
        if t is not None and t.op == "attr" and t.a[1] in ("nx", "ny", "nz"):
            k = ("grid", t.a[1])
            if k not in self.table:
                self.table[k] = (self.small(k),)
            return self.table[k][0]
        sh = shape_of(t) if t is not None else None
        if sh is not None:
            if k not in self.table:
                d = tuple(n if isinstance(n, int) else self.app(("attr", n), ("grid", n), None) if ("grid", n) in self.table
                          else self.table.setdefault(("grid", n), (self.small(("grid", n)),))[0] for n in sh)
                self.table[k] = (build(d, lambda i: self.generic((k, i), None)),)
            return self.table[k][0]
        if sig[0] == "call" and "'L'" in repr(k):
            self.dirty = True       # an operation on whole arrays that is not known here
        return Unroll.app(self, sig, k, t)


def kinds_differ(a, b):
    """one side is an array as a whole, the other its elements"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and a[:1] in (("L",), ("A",)):
        if a[0] == "L" and len(a) == len(b):
            return any(kinds_differ(x, y) for x, y in zip(a[1:], b[1:]))
        return False
    for x, y in ((a, b), (b, a)):
        # elements were written on one side, none on the other
        while isinstance(x, tuple) and x[:1] == ("A",):
            x = x[1]
            if same(x, y):
                return False
    if a in (("undef",), ("absent",)) or b in (("undef",), ("absent",)):
        return False
    w = lambda x: isL(x) or isF(x) or isinstance(x, tuple) and x[:1] == ("A",)
    return w(a) != w(b) and not (a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)))
