"""Hash-consed value-graph terms and their normal form."""
from fractions import Fraction

_table = {}
_nodes = []


class T:
    __slots__ = ("op", "a", "id", "fv", "_isint", "line")

    def __repr__(self):
        return pretty(self, 6)


def _fv(op, a):
    if op in ("lv", "ix"):
        return frozenset([(op,) + a])
    s = frozenset()
    for x in a:
        if isinstance(x, T):
            s = s | x.fv
        elif isinstance(x, tuple):
            s = s | _fv("", x)
    return s


cur_line = [None]


def mk(op, *a):
    key = (op,) + tuple(_key(x) for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_nodes)
        t.fv = _fv(op, a)
        t._isint = None
        t.line = cur_line[0]
        _nodes.append(t)
        _table[key] = t
    return t


def _key(x):
    if isinstance(x, T):
        return ("T", x.id)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    if isinstance(x, bool):
        return ("b", x)
    return x


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, T):
        return v
    if v is None:
        return mk("const", "none", None)
    if isinstance(v, bool):
        return mk("const", "bool", v)
    if isinstance(v, (int, Fraction)):
        return mk("const", "num", Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", "fspec", repr(v))
        return mk("const", "num", Fraction(repr(v)))
    if isinstance(v, str):
        return mk("const", "str", v)
    return mk("const", type(v).__name__, repr(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
UNDEF = mk("undef")
ABSENT = mk("absent")


def is_const(t, kind=None):
    return t.op == "const" and (kind is None or t.a[0] == kind)


def cval(t):
    return t.a[1]


def num(t):
    return t.a[1] if t.op == "const" and t.a[0] == "num" else None


# ---------------------------------------------------------------- polynomials
def _mono_key(m):
    return tuple((x.id, e) for x, e in m)


def to_poly(t):
    """dict monomial -> coefficient; a monomial is a sorted tuple of (T, exponent)."""
    if t.op == "const" and t.a[0] == "num":
        return {(): t.a[1]} if t.a[1] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: (len(mc[0]), _mono_key(mc[0])))
    return mk("poly", tuple(items))


def _mono_mul(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: xe[0].id))


def _isnumlike(t):
    return not (is_const(t, "str") or is_const(t, "none"))


STRY = ("concat",)
LISTY = ("list", "tuple", "append", "map", "lcat", "repeat")


def stry(t):
    return is_const(t, "str") or t.op in STRY or (t.op == "call" and t.a[0] in ("str", "m:lower", "m:strip", "m:upper", "m:format"))


def listy(t):
    return t.op in LISTY


def _numbool(t):
    # booleans in arithmetic are 0/1
    if is_const(t, "bool"):
        return ONE if cval(t) else ZERO
    return t


def add(a, b):
    if stry(a) or stry(b):
        return concat([a, b])
    if listy(a) or listy(b):
        if a.op == b.op and a.op in ("list", "tuple"):
            return mk(a.op, *(a.a + b.a))
        if a.op == "list" and not a.a:
            return b
        if b.op == "list" and not b.a:
            return a
        if b.op == "list" and len(b.a) == 1:
            return mk("append", a, b.a[0])
        return mk("lcat", a, b)
    a, b = _numbool(a), _numbool(b)
    if a.op == "ite" and is_const(b):
        return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
    if b.op == "ite" and is_const(a):
        return ite(b.a[0], add(a, b.a[1]), add(a, b.a[2]))
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, Fraction(0)) + c
    return from_poly(p)


def neg(a):
    a = _numbool(a)
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def repeat(a, n):
    if n.op == "ite":
        return ite(n.a[0], repeat(a, n.a[1]), repeat(a, n.a[2]))
    if a.op == "tuple" and is_const(n, "num") and 0 <= cval(n) <= 8 and cval(n).denominator == 1:
        return mk("tuple", *(a.a * int(cval(n))))
    return mk("repeat", a, n)


def mul(a, b):
    if listy(a) or is_const(a, "str"):
        return repeat(a, b)
    if listy(b) or is_const(b, "str"):
        return repeat(b, a)
    a, b = _numbool(a), _numbool(b)
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 60:
        if len(pa) > 1:
            pa = {((mk("opq", a), 1),): Fraction(1)}
        if len(pb) > 1:
            pb = {((mk("opq", b), 1),): Fraction(1)}
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, Fraction(0)) + c1 * c2
    return from_poly(r)


def inv(b):
    b = _numbool(b)
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    if not p:
        return mk("call", "inv", (b,), ())
    return from_poly({((b, -1),): Fraction(1)})


def div(a, b):
    if not to_poly(_numbool(b)):
        return mk("call", "divzero", (a,), ())
    return mul(a, inv(b))


def power(a, b):
    n = num(b)
    a = _numbool(a)
    if n is not None and n.denominator == 1:
        n = int(n)
        if n == 0:
            return ONE
        if 0 < n <= 3:
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return r
        if n < 0:
            return inv(power(a, const(-n)))
    if n is not None and n == Fraction(1, 2):
        return call("sqrt", a)
    if num(a) is not None and n is not None and n.denominator == 1 and abs(n) < 64:
        return const(num(a) ** int(n))
    return mk("call", "pow", (a, b), ())


def floordiv(a, b):
    if num(a) is not None and num(b) not in (None, 0):
        return const(num(a) // num(b))
    return mk("call", "floordiv", (a, b), ())


def mod(a, b):
    if is_const(a, "str"):
        return mk("call", "fmtmod", (a, b), ())
    if num(a) is not None and num(b) not in (None, 0):
        return const(num(a) % num(b))
    return mk("call", "mod", (a, b), ())


def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out.extend(p.a)
        else:
            out.append(p)
    merged = []
    for p in out:
        if is_const(p, "str"):
            if cval(p) == "":
                continue
            if merged and is_const(merged[-1], "str"):
                merged[-1] = const(cval(merged[-1]) + cval(p))
                continue
        merged.append(p)
    if not merged:
        return const("")
    if len(merged) == 1 and is_const(merged[0], "str"):
        return merged[0]
    return mk("concat", *merged)


# ---------------------------------------------------------------- booleans
BOOLOPS = ("lt", "eq", "in", "not", "truth", "isinstance", "exc")


def isbool(t):
    if t.op == "const":
        return t.a[0] == "bool"
    if t.op in BOOLOPS:
        return True
    if t.op == "ite":
        return isbool(t.a[1]) and isbool(t.a[2])
    if t.op == "call" and t.a[0] in ("isnan", "all", "any", "m:exists", "m:is_file", "m:is_dir", "m:endswith", "m:startswith", "m:isdigit", "callable", "m:issubset"):
        return True
    return False


def truth(t):
    """the condition `bool(t)`"""
    if t.op == "const":
        k, v = t.a
        if k == "none":
            return FALSE
        if k == "bool":
            return t
        if k == "num":
            return TRUE if v != 0 else FALSE
        if k == "str":
            return TRUE if v else FALSE
    if t.op in ("list", "tuple"):
        return TRUE if t.a else FALSE
    if isbool(t):
        return t
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op in ("undef", "absent"):
        return t
    return mk("truth", t)


def not_(c):
    c = truth(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "ite":
        return ite(c.a[0], not_(c.a[1]), not_(c.a[2]))
    return mk("not", c)


def and_(a, b):
    a = truth(a)
    return ite(a, truth(b), FALSE)


def or_(a, b):
    a = truth(a)
    return ite(a, TRUE, truth(b))


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk("not", c) if c.op != "ite" else ite(c.a[0], not_(c.a[1]), not_(c.a[2]))
    if c.op == "ite" and (is_const(c.a[1], "bool") or is_const(c.a[2], "bool")):
        # flatten a conditional condition
        return ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b:
        return a
    if c.op == "call" and c.a[0] in ("m:exists", "m:is_dir"):
        b = _missing(c, b)
        last = b.a[1] if b.op == "append" and b.a[0] is a else \
            b.a[-1] if b.op == "list" and a.op == "list" and b.a[:-1] == a.a and b.a else None
        if last is not None and last.op == "call" and last.a[0] == "fs:mkdir" and _dirof(c) is last.a[1][0]:
            return b
    return mk("ite", c, a, b)


def _dirof(c):
    p = c.a[1][0]
    while p.op == "call" and p.a[0] == "Path":
        p = p.a[1][0]
    return p


def _missing(c, b):
    """where a directory does not exist it makes no difference whether it may"""
    p = _dirof(c)
    old = mk("call", "fs:mkdir", (p,), (("exist_ok", FALSE),))
    if old.id in subterms(b):
        from .store import subst
        return subst(b, {old: mk("call", "fs:mkdir", (p,), (("exist_ok", TRUE),))})
    return b


def _assume(t, c, val, depth=6):
    if t.op == "ite" and depth:
        if t.a[0] is c:
            return _assume(t.a[1] if val else t.a[2], c, val, depth - 1)
        x = _assume(t.a[1], c, val, depth - 1)
        y = _assume(t.a[2], c, val, depth - 1)
        if x is not t.a[1] or y is not t.a[2]:
            return ite(t.a[0], x, y)
        return t
    if t is c and isbool(c):
        return TRUE if val else FALSE
    return t


def lt(a, b):
    if a.op == "ite" and is_const(b) and (is_const(a.a[1]) or is_const(a.a[2])):
        return ite(a.a[0], lt(a.a[1], b), lt(a.a[2], b))
    if b.op == "ite" and is_const(a) and (is_const(b.a[1]) or is_const(b.a[2])):
        return ite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
    na, nb = num(_numbool(a)), num(_numbool(b))
    if na is not None and nb is not None:
        return TRUE if na < nb else FALSE
    if is_const(a, "str") or is_const(b, "str"):
        return mk("lt", a, b)
    d = sub(b, a)       # a < b  <=>  0 < b - a
    p = to_poly(d)
    if not p:
        return FALSE
    # scale: leading coefficient +-1
    first = sorted(p.items(), key=lambda mc: (len(mc[0]), _mono_key(mc[0])))[-1]
    c = abs(first[1])
    if c != 1:
        d = from_poly({m: x / c for m, x in p.items()})
    return mk("lt", ZERO, d)


TYPES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "complex", "object", "type", "frozenset",
         "bytes", "range"}


def types(t):
    return t.op == "glob" and t.a[0] in TYPES


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        if a.a[0] == b.a[0]:
            return FALSE
        if {a.a[0], b.a[0]} == {"num", "bool"}:
            return TRUE if num(_numbool(a)) == num(_numbool(b)) else FALSE
        return FALSE
    if a.op == "ite" and b.op == "const":
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite" and a.op == "const":
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if is_const(b, "bool"):
        return truth(a) if cval(b) else not_(truth(a))
    if is_const(a, "bool"):
        return truth(b) if cval(a) else not_(truth(b))
    if is_const(a) and not is_const(b):
        a, b = b, a
    if a.op == "glob" and (b.op == "glob" or is_const(b, "none")) and types(a) and (types(b) or b.op == "const"):
        return FALSE
    if is_const(b, "none") or is_const(b, "str"):
        if a.op in ("poly", "list", "tuple", "dict", "ref", "map", "store", "new", "append", "concat") and is_const(b, "none"):
            return FALSE
        return mk("eq", a, b)
    if stry(a) or stry(b) or listy(a) or listy(b):
        if a.id > b.id and not is_const(b):
            a, b = b, a
        return mk("eq", a, b)
    if a.op not in ("poly",) and is_const(b, "num"):
        return mk("eq", a, b)
    d = sub(a, b)
    p = to_poly(d)
    if not p:
        return TRUE
    items = sorted(p.items(), key=lambda mc: (len(mc[0]), _mono_key(mc[0])))
    c = items[-1][1]
    d = from_poly({m: x / c for m, x in p.items()})
    # v + const == 0  ->  v == -const
    pp = to_poly(d)
    k = pp.get((), Fraction(0))
    rest = from_poly({m: x for m, x in pp.items() if m != ()})
    if rest.op != "poly":
        return mk("eq", rest, const(-k))
    return mk("eq", d, ZERO)


# ---------------------------------------------------------------- calls
def call(name, *args, **kw):
    return mk("call", name, tuple(args), tuple(sorted(kw.items())))


# ---------------------------------------------------------------- printing
def pretty(t, depth=5):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(pretty(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "const":
        if a[0] == "num":
            f = a[1]
            return str(f.numerator) if f.denominator == 1 else "%g" % float(f)
        return repr(a[1])
    if o == "in_":
        return a[0]
    if o == "in":
        return "%s in %s" % (pretty(a[0], d), pretty(a[1], d))
    if o == "attr":
        return pretty(a[0], d) + "." + a[1]
    if o == "item":
        return pretty(a[0], d) + "[" + pretty(a[1], d) + "]"
    if o == "poly":
        parts = []
        for m, c in a[0]:
            ms = "*".join(pretty(x, d) + ("" if e == 1 else "**%d" % e) for x, e in m)
            if not ms:
                parts.append("%g" % float(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append("%g*%s" % (float(c), ms))
        return "(" + " + ".join(parts[:12]) + (" + …" if len(parts) > 12 else "") + ")"
    if o == "ite":
        return "(%s ? %s : %s)" % (pretty(a[0], d), pretty(a[1], d), pretty(a[2], d))
    if o == "lt":
        return "%s < %s" % (pretty(a[0], d), pretty(a[1], d))
    if o == "eq":
        return "%s == %s" % (pretty(a[0], d), pretty(a[1], d))
    if o == "not":
        return "not(%s)" % pretty(a[0], d)
    if o in ("call", "draw"):
        s = [pretty(x, d) for x in a[1]] + ["%s=%s" % (k, pretty(v, d)) for k, v in a[2]]
        return "%s(%s)" % (a[0], ", ".join(s))
    if o in ("list", "tuple"):
        b = "[]" if o == "list" else "()"
        return b[0] + ", ".join(pretty(x, d) for x in a) + b[1]
    if o == "lv":
        return "L%s" % "_".join(str(x) for x in a)
    if o == "ix":
        return "i%s" % "_".join(str(x) for x in a)
    return "%s(%s)" % (o, ", ".join(pretty(x, d) for x in a))


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(x.a)
    return seen
