"""Containers, substitution and loop-term helpers on top of terms."""
from .terms import *
from . import terms as tm


def definitely_distinct(k1, k2):
    if k1 is k2:
        return False
    if k1.op == "const" and k2.op == "const":
        return True
    if k1.op == "tuple" and k2.op == "tuple" and len(k1.a) == len(k2.a):
        return any(definitely_distinct(x, y) for x, y in zip(k1.a, k2.a))
    if is_const(k1, "str") or is_const(k2, "str"):
        return False
    if is_scalar_key(k1) and is_scalar_key(k2) and k1.op in ("poly", "const", "ix", "lv", "in_") \
            and k2.op in ("poly", "const", "ix", "lv", "in_"):
        d = sub(k1, k2)
        n = num(d)
        return n is not None and n != 0
    return False


def has_slice(k):
    if k.op in ("slice", "newaxis"):
        return True
    if is_const(k, "none") or is_const(k, "ellipsis"):
        return True
    if k.op == "tuple":
        return any(has_slice(x) for x in k.a)
    return isbool(k) and k.op != "const"


def is_scalar_key(k):
    return not has_slice(k)


def const_key(k):
    return k.op == "const" or (k.op == "tuple" and all(x.op == "const" for x in k.a))


def whole(k):
    return k.op == "slice" and all(is_const(x, "none") for x in k.a)


def short(k):
    """a[i, :] is a[i]"""
    if k.op == "tuple" and len(k.a) > 1 and k.a[-1].op == "slice" and all(is_const(x, "none") for x in k.a[-1].a):
        return short(k.a[0] if len(k.a) == 2 else mk("tuple", *k.a[:-1]))
    return k


def small(b, n):
    """an array of n numbers, or one that is passed in"""
    while b.op == "store":
        b = b.a[0]
    if b.op == "ite":
        return small(b.a[1], n) and small(b.a[2], n)
    if b.op == "lout":
        return small(b.a[2][b.a[5]][0], n)
    return b.op == "in_" or b.op == "call" and b.a[0] in ("zeros", "ones", "empty") and num(b.a[1][0]) == n


def store(b, k, v):
    k = short(k)
    if k.op == "ite" and const_key(k.a[1]) and const_key(k.a[2]) and k.a[1].op == "tuple":
        return ite(k.a[0], store(b, k.a[1], v), store(b, k.a[2], v))
    if k.op == "tuple" and v.op == "const":
        # a number at several positions
        at = [i for i, x in enumerate(k.a) if x.op == "list"]
        if len(at) == 1 and all(num(x) is not None for x in k.a[at[0]].a) and \
                all(x.op in ("slice", "list") or is_scalar_key(x) for x in k.a):
            for x in k.a[at[0]].a:
                b = store(b, mk("tuple", *(k.a[:at[0]] + (x,) + k.a[at[0] + 1:])), v)
            return b
    if k.op == "slice" and all(is_const(x, "none") for x in k.a) and v.op in ("tuple", "list") and 2 <= len(v.a) <= 8 \
            and not any(x.op in ("tuple", "list", "star", "in_") for x in v.a):
        # all elements of a small array that is passed in
        if small(b, len(v.a)):
            for i, x in enumerate(v.a):
                b = store(b, const(i), x)
            return b
    if b.op == "list" and num(k) is not None and num(k).denominator == 1:
        i = int(num(k))
        n = len(b.a)
        if -n <= i < n:
            a = list(b.a)
            a[i] = v
            return mk("list", *a)
    if b.op == "store":
        b2, k2, v2 = b.a
        if k2 is k:
            return store(b2, k, v)
        if const_key(k) and const_key(k2) and is_scalar_key(k) and is_scalar_key(k2) \
                and definitely_distinct(k, k2) and k.id < k2.id:
            return mk("store", store(b2, k, v), k2, v2)
    if v.op == "item" and v.a[0] is b and v.a[1] is k:
        return b
    return mk("store", b, k, v)


def item(b, k):
    k = short(k)
    if b.op in ("list", "tuple"):
        n = num(k)
        if n is not None and n.denominator == 1 and -len(b.a) <= n < len(b.a):
            return b.a[int(n)]
        if k.op == "slice":
            lo, hi, st = k.a
            if all(is_const(x, "none") or num(x) is not None for x in k.a):
                f = lambda x: None if is_const(x, "none") else int(num(x))
                return mk(b.op, *b.a[slice(f(lo), f(hi), f(st))])
    if b.op == "ite":
        return ite(b.a[0], item(b.a[1], k), item(b.a[2], k))
    if k.op == "ite" and is_const(k.a[1]) and is_const(k.a[2]):
        return ite(k.a[0], item(b, k.a[1]), item(b, k.a[2]))
    if b.op == "store":
        b2, k2, v2 = b.a
        if k2 is k:
            return v2
        if definitely_distinct(k, k2):
            return item(b2, k)
    if b.op == "dict":
        for kk, vv in b.a[0]:
            if kk is k:
                return vv
        if is_const(k, "str") and b.a[1] is not ABSENT:
            return item(b.a[1], k)
    if b.op == "map" and b.a[2] is TRUE and is_scalar_key(k):
        n, body, c, h = b.a
        kk = k
        if num(k) is not None and num(k) < 0:
            kk = add(n, k)
        return subst(body, {mk("ix", h): kk})
    if b.op == "item" and not is_const(k, "str") and not is_const(b.a[1], "str") and is_scalar_key(b.a[1]) \
            and b.a[1].op in ("const", "poly", "ix", "lv", "in_", "tuple", "attr") and not is_const(b.a[1], "none"):
        flat = lambda x: x.a if x.op == "tuple" else (x,)
        return item(b.a[0], mk("tuple", *(flat(b.a[1]) + flat(k))))
    if b.op == "item" and b.a[1].op == "tuple" and has_slice(k):
        # a[:, :, 0][i:j, k:l] is a[i:j, k:l, 0]
        ks = list(k.a) if k.op == "tuple" else [k]
        free = [i for i, x in enumerate(b.a[1].a) if x.op == "slice"]
        if all(whole(b.a[1].a[i]) for i in free[:len(ks)]) and len(ks) <= len(free) and \
                all(x.op == "slice" or is_scalar_key(x) for x in ks) and \
                all(x.op == "slice" or is_scalar_key(x) and isint(x) for x in b.a[1].a):
            full = list(b.a[1].a)
            for i, x in zip(free, ks):
                full[i] = x
            return item(b.a[0], mk("tuple", *full))
    if b.op == "repeat" and b.a[0].op == "list" and len(b.a[0].a) == 1 and is_scalar_key(k) and k.op != "slice":
        return b.a[0].a[0]
    return mk("item", b, k)


def dict_keys(t):
    """keys of a dictionary that was filled in place with constant keys, or None"""
    ks = {}
    while t.op == "store":
        if not is_const(t.a[1], "str") or t.a[2].op == "ite":
            return None
        ks.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return [k for k, v in ks.items() if v is not tm.ABSENT] if t.op == "dict" and t.a == ((), tm.ABSENT) else None


def length(t):
    if t.op in ("list", "tuple"):
        return const(len(t.a))
    if is_const(t, "str"):
        return const(len(cval(t)))
    if t.op == "append":
        return add(length(t.a[0]), ONE)
    if t.op == "lcat":
        return add(length(t.a[0]), length(t.a[1]))
    if t.op == "map" and t.a[2] is TRUE:
        return t.a[0]
    if t.op == "store":
        b = t
        while b.op == "store":
            b = b.a[0]
        if b.op != "dict":
            return length(t.a[0])
    if t.op == "repeat" and listy(t.a[0]):
        return mul(length(t.a[0]), t.a[1])
    if t.op == "ite":
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    ks = dict_keys(t)
    if ks is not None:
        return const(len(ks))
    if t.op == "call" and t.a[0] in ("zeros", "ones", "empty") and t.a[1]:
        s = t.a[1][0]
        if s.op == "tuple":
            return s.a[0]
        if isint(s):
            return s
    return mk("call", "len", (t,), ())


def shape(t):
    if t.op == "store":
        return shape(t.a[0])
    if t.op == "call" and t.a[0] in ("zeros", "ones", "empty") and t.a[1]:
        s = t.a[1][0]
        if s.op == "tuple":
            return s
        if isint(s):
            return mk("tuple", s)
    if t.op == "ite":
        return ite(t.a[0], shape(t.a[1]), shape(t.a[2]))
    return mk("call", "shape", (t,), ())


GRIDDED = {"X", "Y", "Z", "X_centered", "Y_centered", "Z_centered"}
SAMERANK = {"abs", "sqrt", "exp", "log", "sin", "cos", "tan", "floor", "ceil", "np.real", "np.imag", "np.fft.fftn",
            "np.fft.ifftn", "np.fft.fftshift", "np.fft.ifftshift", "np.transpose", "np.isnan", "isnan"}
REDUCED = {"np.min", "np.max", "np.sum", "np.mean", "np.std", "size", "len", "ndim", "int", "float"}


def rank(t):
    """the number of dimensions of an array, a term (a choice of numbers), or None where it is unknown; arrays met
    in a sum or product with inputs that are no arrays of the grid are broadcast against numbers"""
    o = t.op
    if o == "const":
        return ZERO
    if o == "ite":
        a, b = rank(t.a[1]), rank(t.a[2])
        return ite(t.a[0], a, b) if a is not None and b is not None else None
    if o == "attr":
        return const(3) if t.a[1] in GRIDDED else None
    if o == "store":
        return rank(t.a[0])
    if o == "item":
        b, k = t.a
        if b.op == "attr" and b.a[1] == "data" and is_const(k, "str"):
            return const(5 if cval(k) == "ktensors" else 3)
        r = rank(b)
        ks = k.a if k.op == "tuple" else (k,)
        if r is None or any(not (x.op in ("slice", "newaxis") or is_scalar_key(x) and isint(x)) for x in ks):
            return None
        return add(r, const(sum(0 if x.op == "slice" else 1 if x.op == "newaxis" else -1 for x in ks)))
    if o == "call":
        if t.a[0] in ("np.linspace", "arange") and not t.a[2]:
            return ONE
        if t.a[0] in SAMERANK and t.a[1]:
            return rank(t.a[1][0])
        if t.a[0] in REDUCED and len(t.a[1]) == 1 and not t.a[2]:
            return ZERO
        return None
    if o == "poly":
        out = None
        for m, c in t.a[0]:
            for x, e in m:
                r = rank(x)
                if r is None:
                    if x.op == "in_" or x.op == "item" and x.a[0].op == "in_" and x.a[1].op == "const":
                        continue
                    return None
                if r is ZERO or r is out:
                    continue
                if out is not None:
                    return None
                out = r
        return out
    return None


def ndim(t):
    r = rank(t)
    return r if r is not None else mk("call", "ndim", (t,), ())


INT_ATTRS = {"nx", "ny", "nz", "n_objects", "n_ae", "n_strata", "num_facies", "size", "ndim",
             "len_centerline"}


INT_KEYS = {"numsim"}         # options declared as integers


def isint(t):
    """is the value certainly an integer"""
    if t._isint is None:
        t._isint = False
        t._isint = _isint(t)
    return t._isint


def _isint(t):
    o = t.op
    if o == "const":
        return t.a[0] == "num" and t.a[1].denominator == 1
    if o == "ix":
        return True
    if o == "in_":
        return len(t.a) > 1 and t.a[1] == "int"
    if o == "poly":
        return all(c.denominator == 1 and all(e > 0 and isint(x) for x, e in m) for m, c in t.a[0])
    if o == "ite":
        return isint(t.a[1]) and isint(t.a[2])
    if o == "call":
        if t.a[0] in ("int", "len", "np.argmin", "np.argmax", "m:index", "np.random.randint"):
            return True
        if t.a[0] in ("floordiv", "mod", "max", "min", "abs"):
            return all(isint(x) for x in t.a[1])
    if o == "attr":
        return t.a[1] in INT_ATTRS
    if o == "item":
        if is_const(t.a[1], "str") and cval(t.a[1]) in INT_KEYS:
            return True
        return t.a[0].op == "call" and t.a[0].a[0] == "shape" and t.a[1].op == "const"
    return False


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(op, a):
    if op == "poly":
        r = ZERO
        for m, c in a[0]:
            t = const(c)
            for x, e in m:
                if e >= 0:
                    for _ in range(e):
                        t = mul(t, x)
                else:
                    for _ in range(-e):
                        t = mul(t, inv(x)) if tm.to_poly(x) else mk("call", "divzero", (t,), ())
            r = add(r, t)
        return r
    if op == "ite":
        return ite(*a)
    if op == "lt":
        return lt(*a)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return not_(a[0])
    if op == "truth":
        return truth(a[0])
    if op == "concat":
        return concat(list(a))
    if op == "item":
        return item(*a)
    if op == "store":
        return store(*a)
    if op == "call":
        if a[0] == "len" and len(a[1]) == 1:
            return length(a[1][0])
        if a[0] == "shape" and len(a[1]) == 1:
            return shape(a[1][0])
        if a[0] == "ndim" and len(a[1]) == 1:
            return ndim(a[1][0])
        if a[0] == "int" and len(a[1]) == 1 and isint(a[1][0]):
            return a[1][0]
        if a[0] == "floordiv":
            return floordiv(*a[1])
        if a[0] == "mod" and len(a[1]) == 2:
            return mod(*a[1])
        if not a[2]:
            from . import libs
            if len(a[1]) == 1 and a[0] in ("abs", "sin", "cos", "tan", "arctan", "floor", "ceil"):
                return libs.fn(a[0], a[1])
            if a[0] in ("min", "max") and len(a[1]) > 1:
                return libs.minmax(a[0], list(a[1]))
            if a[0] in ("bitand", "bitor"):
                return mk("call", a[0], tuple(sorted(a[1], key=lambda t: t.id)), ())
    if op == "lcat":
        return add(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    """replace the terms that are keys of m (bound symbols, refs)"""
    memo = {} if memo is None else memo

    def go_arg(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(go_arg(y) for y in x)
        return x

    fvs = set()
    onlysyms = all(k.op in ("lv", "ix") for k in m)
    if onlysyms:
        for k in m:
            fvs |= k.fv

    def go(x):
        if x in m:
            return m[x]
        if onlysyms and not (x.fv & fvs):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        na = tuple(go_arg(y) for y in x.a)
        r = rebuild(x.op, na) if na != x.a else x
        memo[x.id] = r
        return r

    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


_height = {}


def height(t):
    """nesting height of closed loops below t"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return max([height(x) for x in t] or [0])
        return 0
    h = _height.get(t.id)
    if h is None:
        h = max([height(x) for x in t.a] or [0])
        if t.op in ("lout", "map"):
            h = max(h, t.a[-1] + 1)
        _height[t.id] = h
    return h
