"""Meaning of operations on values that are known in a valuation: strings, sets and order statistics."""
import math

from .rnd import key, same


STRM = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "split", "rsplit",
        "partition", "rpartition", "splitlines", "replace", "find", "rfind", "count", "startswith", "endswith",
        "isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isspace", "islower", "isupper", "zfill",
        "removeprefix", "removesuffix", "ljust", "rjust"}


def receiver(f, t):
    """the term a string method is applied to"""
    if f[:2] == "m:" and f[2:] in STRM and t.a[1]:
        return t.a[1][0]
    return None


def lst(x):
    return ("L",) + tuple(x)


def strings(f, args, kw):
    """(value,) of a string operation"""
    if f == "str" and len(args) == 1 and isinstance(args[0], str):
        return (args[0],)
    if f[:2] != "m:" or not args or kw:
        return None
    x, n = args[0], f[2:]
    if n == "join" and len(args) == 2 and isinstance(x, str) and isinstance(args[1], tuple) and \
            args[1][:1] == ("L",) and all(isinstance(y, str) for y in args[1][1:]):
        return (x.join(args[1][1:]),)
    if not isinstance(x, str) or n not in STRM:
        return None
    rest = []
    for y in args[1:]:
        if isinstance(y, tuple) and y[:1] == ("L",) and n in ("startswith", "endswith") and \
                all(isinstance(z, str) for z in y[1:]):
            y = tuple(y[1:])
        elif isinstance(y, float) and y == int(y):
            y = int(y)
        elif not isinstance(y, (str, int)) and y is not None:
            return None
        rest.append(y)
    try:
        r = getattr(x, n)(*rest)
    except (TypeError, ValueError):
        return None
    return (lst(r) if isinstance(r, (list, tuple)) else r,)


def variants(consts):
    """strings to try where a string method is applied"""
    out = ["", "ab", "a b", "ab2", "2", "1.5", "ß", "²", "a.b.c", "a_b", "A_b1"]
    cs = sorted(c for c in consts if c and len(c) <= 40)[:10]
    for c in cs:
        out += [c, c.upper(), c.capitalize(), " " + c, c + " ", c + c, "x" + c, c + "x", "x" + c + "y" + c + "z", c + "\t", "\n" + c, "_" + c, "y." + c, "z__" + c]
    for c in cs[:5]:
        for d in cs[:5]:
            if c != d:
                out.append(c + "q" + d)
    r = []
    for c in out:
        if c not in r:
            r.append(c)
    return r


def dedupe(vs):
    out = []
    for v in vs:
        if not any(same(v, w) and key(v) == key(w) for w in out):
            out.append(v)
    return out


def plain(v):
    if isinstance(v, tuple):
        return v[:1] == ("L",) and all(plain(x) for x in v[1:])
    return isinstance(v, (int, float, str)) or v is None


def order(v):
    if isinstance(v, tuple):
        return [order(x) for x in v[1:]]
    return v


def percentile(vs, q):
    vs = sorted(vs)
    p = (len(vs) - 1) * q / 100.0
    i = min(int(math.floor(p)), len(vs) - 1)
    j = min(i + 1, len(vs) - 1)
    return vs[i] + (vs[j] - vs[i]) * (p - i)


def var(vs):
    m = sum(vs) / len(vs)
    return sum((v - m) ** 2 for v in vs) / len(vs)


STATS = {"np.median": lambda v: percentile(v, 50), "np.std": lambda v: math.sqrt(var(v)), "np.var": var,
         "np.ptp": lambda v: max(v) - min(v)}
STATS.update({"np.nan" + n[3:]: STATS[n] for n in ("np.median", "np.std", "np.var")})
PLAIN = {"np.max": max, "np.min": min, "np.mean": lambda v: sum(v) / len(v)}
PLAIN.update({"np.nan" + n[3:]: PLAIN[n] for n in ("np.max", "np.min", "np.mean")})


def stat(f, args):
    """the order statistic as a function of the numbers"""
    if len(args) == 1:
        return STATS.get(f) or PLAIN.get(f)
    if len(args) == 2 and f in ("np.percentile", "np.quantile", "np.nanpercentile", "np.nanquantile") and \
            isinstance(args[1], (int, float)):
        q = args[1] if "percentile" in f else 100.0 * args[1]
        if 0 <= q <= 100:
            return lambda vs: percentile(vs, q)
    return None


def lists(f, args):
    """(value,) of an operation on written-out lists"""
    a0 = args[0] if args else None
    isl = isinstance(a0, tuple) and a0[:1] == ("L",)
    if len(args) == 1 and f in ("set", "frozenset") and isl and plain(a0):
        return (lst(sorted(dedupe(a0[1:]), key=lambda v: repr(key(v)))),)
    if f == "x:.fromkeys/1" and len(args) == 2 and isinstance(args[1], tuple) and args[1][:1] == ("L",) and plain(args[1]):
        return (("FK",) + tuple(dedupe(args[1][1:])),)
    if len(args) == 1 and f in ("list", "tuple", "sorted", "len", "keys_", "m:keys") and isinstance(a0, tuple) and a0[:1] == ("FK",):
        r = lst(a0[1:])
        if f == "len":
            return (len(r) - 1,)
        return (r,) if f != "sorted" else lists("sorted", (r,))
    if len(args) == 1 and f == "sorted" and isl and plain(a0):
        try:
            return (lst(sorted(a0[1:], key=order)),)
        except TypeError:
            return None
    if len(args) == 1 and f == "np.argsort" and isl and all(isinstance(x, (int, float)) for x in a0[1:]):
        if len(dedupe(a0[1:])) == len(a0) - 1:
            return (lst(sorted(range(len(a0) - 1), key=lambda i: a0[1 + i])),)
    if f in ("np.argmin", "np.argmax") and len(args) == 1 and isl and len(a0) > 1 and \
            all(isinstance(x, (int, float)) for x in a0[1:]):
        v = list(a0[1:])
        return (v.index((min if f == "np.argmin" else max)(v)),)
    if f == "np.cumsum" and len(args) == 1 and isl and all(isinstance(x, (int, float)) for x in a0[1:]):
        return (lst(sum(a0[1:2 + i]) for i in range(len(a0) - 1)),)
    if f == "np.diff" and len(args) == 1 and isl and len(a0) > 1 and all(isinstance(x, (int, float)) for x in a0[1:]):
        return (lst(y - x for x, y in zip(a0[1:], a0[2:])),)
    if f in ("np.isclose", "math.isclose") and len(args) == 2 and all(isinstance(x, (int, float)) for x in args):
        x, y = args
        if f == "np.isclose":
            return (abs(x - y) <= 1e-8 + 1e-5 * abs(y),)
        return (abs(x - y) <= 1e-9 * max(abs(x), abs(y)),)
    return None
