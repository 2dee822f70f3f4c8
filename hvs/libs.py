"""Meaning of the language's builtins and of the libraries, as terms.

Only identities that hold for every argument are applied; everything else
stays an uninterpreted application."""
import re
import string as _string
import builtins as _builtins
from fractions import Fraction

from .terms import *
from . import terms as tm
from .store import store, item, length, shape, ndim, rank, isint, subst, is_scalar_key

PI = mk("glob", "pi")
NAN = const(float("nan"))
PINF = const(float("inf"))
EMPTYD = mk("dict", (), ABSENT)
EMPTYL = mk("list")

CONST_NAMES = {}
for _m in ("numpy", "math", "libc.math", "scipy"):
    CONST_NAMES[_m + ".pi"] = PI
    CONST_NAMES[_m + ".M_PI"] = PI
    CONST_NAMES[_m + ".e"] = mk("call", "exp", (ONE,), ())
    CONST_NAMES[_m + ".nan"] = NAN
    CONST_NAMES[_m + ".NaN"] = NAN
    CONST_NAMES[_m + ".NAN"] = NAN
    CONST_NAMES[_m + ".inf"] = PINF
    CONST_NAMES[_m + ".INFINITY"] = PINF
CONST_NAMES["numpy.newaxis"] = NONE
CONST_NAMES["os.sep"] = const("/")

BUILTIN_TYPES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "complex", "object", "type",
                 "frozenset", "bytes", "range"}

IGNORED = {"print", "hyvr.utils.print_to_stdout", "warnings.warn", "warnings.simplefilter", "warnings.filterwarnings",
           "sys.stdout.write", "sys.stdout.flush", "sys.stderr.write", "logging.debug", "logging.info",
           "logging.warning", "logging.error"}


def canon_mod(q):
    if q == "os.path" or q.startswith("os.path."):
        return q
    for a, b in (("numpy.core.", "numpy."), ("cimport.", "")):
        if q.startswith(a):
            q = b + q[len(a):]
    return q


# ------------------------------------------------------------------ types
_T = {"numpy.float64": "float", "numpy.float": "float", "numpy.float_": "float", "numpy.double": "float",
      "numpy.float32": "float32",
      "numpy.int": "int", "numpy.int_": "int", "numpy.int64": "int", "numpy.int32": "int32",
      "numpy.intc": "int32", "numpy.bool_": "bool", "numpy.bool": "bool", "numpy.complex128": "complex"}
_STRT = {"float": "float", "float64": "float", "f8": "float", "d": "float", "int": "int", "int64": "int",
         "i4": "int32", "int32": "int32", "i": "int32", "bool": "bool", "complex": "complex"}


def typ(t):
    """type objects have one name"""
    if t.op == "glob":
        g = t.a[0]
        if g.startswith("ext:"):
            n = _T.get(g[4:])
            if n:
                return mk("glob", n)
    return t


def dtype(t):
    t = typ(t)
    if is_const(t, "str"):
        n = _STRT.get(cval(t))
        if n:
            return mk("glob", n)
    return t


# ------------------------------------------------------------------ strings and paths
def tostr(x):
    if is_const(x, "str"):
        return x
    if is_const(x, "num"):
        f = cval(x)
        if f.denominator == 1:
            return const(str(int(f)))
    if is_const(x, "none"):
        return const("None")
    if is_const(x, "bool"):
        return const(str(cval(x)))
    if x.op == "call" and x.a[0] in ("str", "Path") and len(x.a[1]) == 1:
        return tostr(x.a[1][0])
    return x


def fmt(x, spec):
    if spec in ("", "s") or (spec == "d" and isint(x)):
        return tostr(x)
    if is_const(x, "num") and spec:
        try:
            f = cval(x)
            return const(format(int(f) if f.denominator == 1 else float(f), spec))
        except Exception:
            pass
    return mk("call", "fmt", (x, const(spec)), ())


def percent(f, arg):
    args = list(arg.a) if arg.op in ("tuple",) else [arg]
    parts, i = [], 0
    for m in re.finditer(r"%(%|[-0-9.+# ]*[sdifeEgGr])|([^%]+)", f):
        if m.group(2) is not None:
            parts.append(const(m.group(2)))
        elif m.group(1) == "%":
            parts.append(const("%"))
        else:
            if i >= len(args):
                return mk("call", "fmtmod", (const(f), arg), ())
            s = m.group(1)
            a = args[i]
            i += 1
            if s == "s" or s in ("d", "i"):
                parts.append(tostr(a) if s == "s" or isint(a) else fmt(a, "d"))
            else:
                parts.append(fmt(a, s))
    return concat(parts)


def strformat(f, pos, kw):
    parts, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(f):
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        base = re.match(r"[^.\[]*", field).group(0)
        rest = field[len(base):]
        if base == "":
            if auto >= len(pos):
                return None
            v = pos[auto]
            auto += 1
        elif base.isdigit():
            if int(base) >= len(pos):
                return None
            v = pos[int(base)]
        else:
            if base not in kw:
                return None
            v = kw[base]
        if rest or (spec and "{" in spec):
            return None
        if conv == "r":
            v = mk("call", "repr", (v,), ())
        parts.append(fmt(v, spec or ""))
    return concat(parts)


def pathy(t):
    if t.op == "call" and t.a[0] in ("Path", "p:parent", "p:resolve"):
        return True
    if t.op == "attr" and t.a[1] in ("parent", "modeldir", "rundir"):
        return True
    if t.op == "item" and is_const(t.a[1], "str") and cval(t.a[1]) in ("modeldir", "rundir", "basedir"):
        return True
    if t.op == "in_" and t.a[0] in ("realization_dir", "inifile", "fname"):
        return True
    if t.op == "ite":
        return pathy(t.a[1]) or pathy(t.a[2])
    return t.op == "concat" and any(pathy(x) for x in t.a[:1])


def stripath(t):
    if t.op == "call" and t.a[0] == "Path":
        return stripath(t.a[1][0])
    return t


def join(parts):
    out = []
    for i, p in enumerate(parts):
        p = stripath(p)
        if i:
            out.append(const("/"))
        out.append(tostr(p))
    return mk("call", "Path", (concat(out),), ())


def path(t):
    return mk("call", "Path", (stripath(tostr(t)),), ())


# ------------------------------------------------------------------ arrays
WHOLE = mk("slice", NONE, NONE, NONE)


def flip(t, axis):
    """the values of an array in the opposite order along an axis, or None"""
    i = int(num(axis)) if axis is not None and num(axis) is not None else None
    r = rank(t)
    r = int(num(r)) if r is not None and num(r) is not None else None
    if i is not None and i < 0:
        i = i + r if r is not None else None
    back = mk("slice", NONE, NONE, const(-1))
    if i is not None:
        return item(t, mk("tuple", *((WHOLE,) * i + (back,))) if i else back)
    if axis is None and r is not None:
        return item(t, mk("tuple", *((back,) * r)))
    return None


def transpose(t, axes):
    if axes is not None and axes.op not in ("tuple", "list"):
        return mk("call", "np.transpose", (t, axes), ())
    if axes is not None and all(num(x) is not None for x in axes.a):
        ax = [int(num(x)) for x in axes.a]
        if ax == list(range(len(ax)))[::-1]:
            axes = None
        elif ax == list(range(len(ax))):
            return t
        else:
            axes = mk("tuple", *axes.a)
    if axes is None:
        if t.op == "call" and t.a[0] == "np.transpose" and len(t.a[1]) == 1:
            return t.a[1][0]
        if t.op == "item":
            # parts along the axes before turning them are parts along the turned axes
            ks = t.a[1].a if t.a[1].op == "tuple" else (t.a[1],)
            r = rank(t)
            if r is not None and num(r) is not None and all(k.op == "slice" for k in ks) and len(ks) <= num(r):
                ks += (WHOLE,) * (int(num(r)) - len(ks))
                return item(transpose(t.a[0], None), mk("tuple", *ks[::-1]))
        return mk("call", "np.transpose", (t,), ())
    return mk("call", "np.transpose", (t, axes), ())


SAMEFN = {}
for _n in ("sin", "cos", "tan", "exp", "log", "sqrt", "floor", "ceil"):
    for _m in ("numpy", "math", "libc.math"):
        SAMEFN["%s.%s" % (_m, _n)] = _n
for _a, _b in (("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan"), ("atan2", "arctan2"), ("hypot", "hypot")):
    SAMEFN["math." + _a] = _b
    SAMEFN["libc.math." + _a] = _b
    SAMEFN["numpy." + _b] = _b
for _q in ("numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs", "libc.math.fabs", "libc.stdlib.abs"):
    SAMEFN[_q] = "abs"
for _q in ("numpy.isnan", "math.isnan", "libc.math.isnan"):
    SAMEFN[_q] = "isnan"

# names of the positional parameters of the library functions used here
SIGS = {
    "numpy.linspace": ("start", "stop", "num"),
    "numpy.interp": ("x", "xp", "fp"),
    "numpy.arange": ("start", "stop", "step"),
    "numpy.sum": ("a", "axis"), "numpy.mean": ("a", "axis"), "numpy.max": ("a", "axis"), "numpy.min": ("a", "axis"),
    "numpy.amax": ("a", "axis"), "numpy.amin": ("a", "axis"), "numpy.std": ("a", "axis"),
    "numpy.argmin": ("a", "axis"), "numpy.argmax": ("a", "axis"),
    "numpy.any": ("a", "axis"), "numpy.all": ("a", "axis"),
    "numpy.zeros": ("shape", "dtype"), "numpy.ones": ("shape", "dtype"), "numpy.empty": ("shape", "dtype"),
    "numpy.full": ("shape", "fill_value", "dtype"),
    "numpy.zeros_like": ("a", "dtype"), "numpy.ones_like": ("a", "dtype"), "numpy.empty_like": ("a", "dtype"),
    "numpy.full_like": ("a", "fill_value", "dtype"),
    "numpy.array": ("a", "dtype"), "numpy.asarray": ("a", "dtype"), "numpy.copy": ("a",),
    "numpy.ascontiguousarray": ("a", "dtype"), "numpy.asfarray": ("a",),
    "numpy.random.uniform": ("low", "high", "size"), "numpy.random.normal": ("loc", "scale", "size"),
    "numpy.random.randint": ("low", "high", "size"), "numpy.random.choice": ("a", "size", "replace", "p"),
    "numpy.random.poisson": ("lam", "size"), "numpy.random.seed": ("seed",),
    "numpy.transpose": ("a", "axes"), "numpy.flip": ("m", "axis"), "numpy.dot": ("a", "b"), "numpy.where": ("condition", "x", "y"),
    "numpy.broadcast_to": ("array", "shape"), "numpy.savetxt": ("fname", "X", "fmt", "delimiter", "newline", "header"),
    "numpy.clip": ("a", "a_min", "a_max"), "numpy.round": ("a", "decimals"), "numpy.around": ("a", "decimals"),
    "pickle.dump": ("obj", "file", "protocol"), "scipy.io.savemat": ("file_name", "mdict"),
    "shutil.rmtree": ("path", "ignore_errors"), "shutil.copytree": ("src", "dst"), "shutil.copy": ("src", "dst"),
    "shutil.move": ("src", "dst"), "shutil.copyfile": ("src", "dst"), "shutil.copy2": ("src", "dst"),
    "os.rename": ("src", "dst"),
    "os.makedirs": ("name", "mode", "exist_ok"), "os.mkdir": ("name", "mode"),
    "os.remove": ("path",), "os.unlink": ("path",),
    "pkg_resources.resource_filename": ("package", "resource"),
}
DEFAULTS = {
    "numpy.random.uniform": {"low": ZERO, "high": ONE}, "numpy.random.normal": {"loc": ZERO, "scale": ONE},
    "numpy.linspace": {"num": const(50)},
}


def _norm(interp, q, pos, kw):
    """positional list in signature order (missing -> None), remaining keywords"""
    sig = SIGS[q]
    kw = dict(kw)
    vals = {}
    for n, v in zip(sig, pos):
        vals[n] = v
    extra = list(pos[len(sig):])
    for n in sig:
        if n in kw:
            vals[n] = kw.pop(n)
    for n, v in DEFAULTS.get(q, {}).items():
        vals.setdefault(n, v)
    return vals, extra, kw


def shp(interp, s):
    s = interp.num(s)
    if s.op == "list":
        s = mk("tuple", *s.a)
    if s.op == "tuple" and len(s.a) == 1:
        s = s.a[0]
    return s


def alloc(interp, what, s, dt):
    kw = ()
    dt = dtype(dt) if dt is not None else None
    if dt is not None and not (dt.op == "glob" and dt.a[0] == "float"):
        kw = (("dtype", dt),)
    if what == "empty":
        what = "zeros" if False else "empty"
    return mk("call", what, (s,), kw)


FSCH = "fs"
FS = {"os.makedirs": "mkdir", "os.mkdir": "mkdir", "os.remove": "unlink", "os.unlink": "unlink",
      "shutil.rmtree": "rmtree", "shutil.copytree": "copytree", "shutil.copy": "copy", "shutil.copyfile": "copy",
      "shutil.copy2": "copy", "shutil.move": "move", "os.rename": "move", "os.rmdir": "rmdir", "os.replace": "move",
      "os.system": "system", "subprocess.call": "system", "subprocess.run": "system", "os.chdir": "chdir",
      "tempfile.mkdtemp": "mkdtemp",
      "numpy.savetxt": "savetxt", "numpy.save": "save", "numpy.savez": "savez", "numpy.savez_compressed": "savez_compressed",
      "scipy.io.savemat": "savemat", "pickle.dump": "pickledump"}
PURE_EXT = ("numpy.", "math.", "libc.", "os.path.", "copy.", "itertools.", "functools.", "pathlib.", "re.",
            "time.", "sys.", "configparser.", "os.listdir", "os.getcwd", "os.walk", "argparse.", "pkg_resources.", "textwrap.", "ast.", "string.", "scipy.")


def message(interp, q, e):
    """messages are not compared, but that a warning is given is"""
    for a in e.args:
        interp.ev(getattr(a, "value", a) if type(a).__name__ == "Starred" else a)
    if q in ("warnings.warn", "sys.stderr.write", "logging.warning", "logging.error"):
        interp.effect("warn", const("warning"))
    for k in e.keywords:
        v = interp.ev(k.value)
        if k.arg == "file" and v.op == "glob" and v.a[0] == "ext:sys.stderr":
            interp.effect("warn", const("warning"))
    return NONE


def external(interp, q, e):
    q = canon_mod(q)
    if q in IGNORED:
        return message(interp, q, e)
    arity = {"numpy.random.uniform": 2, "numpy.random.normal": 2, "numpy.linspace": 3, "numpy.random.randint": 2}.get(q)
    if arity is not None:
        kws = {k.arg for k in e.keywords}
        if q == "numpy.linspace":
            arity = 3
        elif kws & {"size"}:
            arity += 1
    pos, kw = interp.args(e, arity)
    if q.startswith("numpy.") and "out" in kw and not is_const(interp.num(kw["out"]), "none"):
        # the result is written into an array
        o = kw.pop("out")
        if o.op == "tuple" and len(o.a) == 1:
            o = o.a[0]
        v = external_vals(interp, q, pos, kw)
        none = const(None)
        interp.setitem(o, mk("slice", none, none, none), interp.num(v))
        return o
    return external_vals(interp, q, pos, kw)


def external_vals(interp, q, pos, kw):
    S = lambda v: interp.num(v)
    if any(v.op == "star" for v in pos):
        return unknown(interp, q, pos, kw)
    star = kw.get(None)
    if q in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
        if not pos:
            return mk("call", "Path", (const("."),), ())
        if len(pos) == 1:
            return path(S(pos[0]))
        return join([S(p) for p in pos])
    if q == "os.path.join":
        return join([S(p) for p in pos])
    if q in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
        nm = {"exists": "m:exists", "isfile": "m:is_file", "isdir": "m:is_dir"}[q.split(".")[-1]]
        return mk("call", nm, (path(S(pos[0])),), ())
    if q == "os.path.dirname":
        return mk("call", "p:parent", (path(S(pos[0])),), ())
    if q == "os.path.basename":
        return mk("call", "p:name", (path(S(pos[0])),), ())
    if q in ("os.path.abspath", "os.path.realpath"):
        return mk("call", "p:resolve", (path(S(pos[0])),), ())
    if q in ("copy.deepcopy", "copy.copy"):
        v = pos[0]
        if interp.clsof.get(v) is not None:
            return unknown(interp, q, pos, kw)
        return interp.new_ref(interp.num(v))
    if q in FS:
        return fs(interp, q, pos, kw)
    if q == "sys.exit":
        return interp.exit(S(pos[0]) if pos else NONE)
    if q.startswith("numpy.random."):
        return random(interp, q, pos, kw)
    if q in ("time.time", "time.localtime", "time.strftime", "time.clock", "time.perf_counter", "datetime.datetime.now"):
        return mk("call", "x:" + q, tuple(S(p) for p in pos), ())
    if q in ("numpy.isfinite", "math.isfinite") and len(pos) == 1 and not kw:
        # nothing here is infinite
        return not_(fn("isnan", [S(pos[0])]))
    if q.startswith("numpy."):
        return numpy(interp, q, pos, kw)
    if q in SAMEFN and len(pos) <= 2 and not kw:
        return fn(SAMEFN[q], [S(p) for p in pos])
    if q in ("math.pow", "libc.math.pow"):
        return power(S(pos[0]), S(pos[1]))
    if q in ("math.radians",):
        return div(mul(S(pos[0]), PI), const(180))
    if q in ("math.degrees",):
        return div(mul(S(pos[0]), const(180)), PI)
    if q in ("libc.math.fmin", "libc.math.fmax"):
        return minmax(q[-3:], [S(p) for p in pos])
    return unknown(interp, q, pos, kw)


def interp_unsup(interp, msg):
    from .interp import Unsup
    return Unsup(msg)


def fn(name, args):
    a = args[0]
    n = num(a)
    if name == "abs":
        if n is not None:
            return const(abs(n))
        if a.op == "poly":
            # |x| = |-x|
            items = sorted(a.a[0], key=lambda mc: (len(mc[0]), tm._mono_key(mc[0])))
            if items[-1][1] < 0:
                a = neg(a)
        if a.op == "call" and a.a[0] in ("abs", "sqrt"):
            return a
        return mk("call", "abs", (a,), ())
    if n is not None and n == 0:
        if name in ("sin", "tan", "sqrt", "arcsin", "arctan"):
            return ZERO
        if name in ("cos", "exp"):
            return ONE
    if name in ("floor", "ceil") and isint(a):
        return a
    if name in ("sin", "cos", "tan", "arctan") and a.op == "poly":
        items = sorted(a.a[0], key=lambda mc: (len(mc[0]), tm._mono_key(mc[0])))
        if items[-1][1] < 0:
            r = mk("call", name, (neg(a),), ())
            return r if name == "cos" else neg(r)
    return mk("call", name, tuple(args), ())


def minmax(name, args):
    flat = []
    for a in args:
        if a.op == "call" and a.a[0] == name and not a.a[2]:
            flat.extend(a.a[1])
        else:
            flat.append(a)
    consts = [num(a) for a in flat if num(a) is not None]
    rest = []
    for a in flat:
        if num(a) is None and a not in rest:
            rest.append(a)
    if consts:
        rest.append(const(max(consts) if name == "max" else min(consts)))
    if len(rest) == 1:
        return rest[0]
    return mk("call", name, tuple(sorted(rest, key=lambda t: t.id)), ())


def reduce_(interp, name, v, axis, kw):
    kws = tuple(sorted((k, interp.num(x)) for k, x in kw.items() if k))
    a = [interp.num(v)]
    if axis is not None and interp.num(axis) is not NONE:
        kws = kws + (("axis", interp.num(axis)),)
    x = a[0]
    if not kws:
        if name == "any":
            return not_(mk("call", "all", (not_elem(x),), ())) if isbool(x) or x.op in ("map", "list") else mk("call", "any", (x,), ())
        if name == "all":
            if isbool(x) and x.op == "not" and False:
                pass
            return mk("call", "all", (x,), ())
        if name in ("np.max", "np.min"):
            # reductions commute with adding a constant
            pass
    return mk("call", name, tuple(a), kws)


def not_elem(x):
    if x.op == "map":
        return mk("map", x.a[0], not_(x.a[1]), x.a[2], x.a[3])
    if x.op == "list":
        return mk("list", *[not_(y) for y in x.a])
    return not_(x)


def random(interp, q, pos, kw):
    f = q.split("numpy.random.")[1]
    S = interp.num
    if f == "seed":
        interp.effect("rng", mk("call", "seed", tuple(S(p) for p in pos), ()))
        return NONE
    if f in ("rand", "randn", "random", "random_sample", "ranf", "standard_normal"):
        base = "normal" if f in ("randn", "standard_normal") else "uniform"
        if f in ("rand", "randn"):
            size = None if not pos else (pos[0] if len(pos) == 1 else mk("tuple", *pos))
        else:
            size = pos[0] if pos else kw.get("size")
        args = [ZERO, ONE]
        return rdraw(interp, base, args, size)
    if q not in SIGS:
        return interp.draw("np.random." + f, [S(p) for p in pos], [(k, S(v)) for k, v in kw.items() if k])
    vals, extra, rest = _norm(interp, q, pos, kw)
    size = vals.pop("size", None)
    if f == "randint":
        if "high" not in vals or S(vals["high"]) is NONE:
            vals = {"low": ZERO, "high": vals.get("low", UNDEF)}
    if f == "choice":
        a = S(vals["a"])
        if isint(a):
            a = mk("call", "arange", (a,), ())
        args = [a]
        kws = []
        if "p" in vals and S(vals["p"]) is not NONE:
            kws.append(("p", S(vals["p"])))
        if "replace" in vals:
            kws.append(("replace", S(vals["replace"])))
        return rdraw(interp, "choice", args, size, kws)
    order = [n for n in SIGS[q] if n in vals]
    args = [S(vals[n]) for n in order]
    return rdraw(interp, f, args, size, [(k, S(v)) for k, v in rest.items() if k])


def rdraw(interp, f, args, size, kws=()):
    kws = list(kws)
    if size is not None:
        s = shp(interp, size)
        if s is not NONE:
            kws.append(("size", s))
            return interp.new_ref(interp.draw("np.random." + f, args, kws))
    return interp.draw("np.random." + f, args, kws)


def numpy(interp, q, pos, kw):
    S = interp.num
    n = q[6:]
    if q in SAMEFN and not kw:
        return fn(SAMEFN[q], [S(p) for p in pos])
    if n in ("deg2rad", "radians"):
        return div(mul(S(pos[0]), PI), const(180))
    if n in ("rad2deg", "degrees"):
        return div(mul(S(pos[0]), const(180)), PI)
    if n in ("square",):
        return mul(S(pos[0]), S(pos[0]))
    if n == "power":
        return power(S(pos[0]), S(pos[1]))
    if n in ("add",) and len(pos) == 2:
        return add(S(pos[0]), S(pos[1]))
    if n == "subtract" and len(pos) == 2:
        return sub(S(pos[0]), S(pos[1]))
    if n == "multiply" and len(pos) == 2:
        return mul(S(pos[0]), S(pos[1]))
    if n in ("divide", "true_divide") and len(pos) == 2:
        return div(S(pos[0]), S(pos[1]))
    if n == "negative":
        return neg(S(pos[0]))
    if n in ("maximum", "fmax") and len(pos) == 2:
        return minmax("max", [S(p) for p in pos])
    if n in ("minimum", "fmin") and len(pos) == 2:
        return minmax("min", [S(p) for p in pos])
    if n == "clip" and len(pos) == 3 and not kw:
        x = S(pos[0])
        x = x if pos[1] is NONE else minmax("max", [x, S(pos[1])])
        return x if pos[2] is NONE else minmax("min", [x, S(pos[2])])
    if n in ("logical_and", "bitwise_and") and len(pos) == 2:
        return bitop("bitand", S(pos[0]), S(pos[1]))
    if n in ("logical_or", "bitwise_or") and len(pos) == 2:
        return bitop("bitor", S(pos[0]), S(pos[1]))
    if n in ("logical_not", "invert"):
        return invert(S(pos[0]))
    if n in ("equal", "not_equal", "less", "greater", "less_equal", "greater_equal") and len(pos) == 2:
        a, b = S(pos[0]), S(pos[1])
        return {"equal": lambda: eq(a, b), "not_equal": lambda: not_(eq(a, b)), "less": lambda: lt(a, b),
                "greater": lambda: lt(b, a), "less_equal": lambda: not_(lt(b, a)),
                "greater_equal": lambda: not_(lt(a, b))}[n]()
    if n in ("isscalar",):
        return mk("call", "np.isscalar", (S(pos[0]),), ())
    if n in ("float64", "float", "double", "float_"):
        return S(pos[0])
    if n in ("int", "int_", "int64", "int32", "intc"):
        return to_int(S(pos[0]))
    if n == "prod" and len(pos) == 1 and not kw:
        x = S(pos[0])
        if x.op in ("list", "tuple"):
            r = ONE
            for y in x.a:
                r = mul(r, y)
            return r
    if n == "size" and len(pos) == 1:
        return mk("call", "size", (S(pos[0]),), ())
    if n == "shape":
        return shape(interp.deref(pos[0]))
    if n in ("flipud", "fliplr") and len(pos) == 1:
        return flip(S(pos[0]), ZERO if n == "flipud" else ONE)
    if n == "ndim":
        return ndim(S(pos[0]))
    if q in SIGS:
        vals, extra, rest = _norm(interp, q, pos, kw)
        if extra:
            return unknown(interp, q, pos, kw)
        g = vals.get
        if n in ("zeros", "ones", "empty"):
            return interp.new_ref(alloc(interp, n, shp(interp, g("shape")), S(g("dtype")) if g("dtype") is not None else None))
        if n == "full":
            o = alloc(interp, "ones", shp(interp, g("shape")), S(g("dtype")) if g("dtype") is not None else None)
            return interp.new_ref(mul(S(g("fill_value")), o))
        if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            dt = S(g("dtype")) if g("dtype") is not None else None
            a = S(g("a"))
            kws = ()
            if dt is None:
                # the type of the model array
                c = a
                while c.op == "store":
                    c = c.a[0]
                if c.op == "call" and c.a[0] in ("zeros", "ones", "empty") and c.a[2]:
                    dt = dict(c.a[2])["dtype"]
            what = n.split("_")[0]
            if what == "full":
                return interp.new_ref(mul(S(g("fill_value")), alloc(interp, "ones", shape1(a), dt)))
            return interp.new_ref(alloc(interp, what, shape1(a), dt))
        if n in ("array", "asarray", "copy", "ascontiguousarray", "asfarray"):
            v = S(g("a"))
            if v.op == "tuple":
                v = mk("list", *v.a)
            dt = dtype(S(g("dtype"))) if g("dtype") is not None else None
            if dt is not None and not (dt.op == "glob" and dt.a[0] == "float"):
                if not (dt.op == "glob" and dt.a[0] in ("int", "int32") and isint(v)):
                    v = mk("call", "astype", (v, dt), ())
            if rest and set(rest) - {"copy", "order"}:
                return unknown(interp, q, pos, kw)
            return interp.new_ref(v)
        if n == "arange":
            a = [S(vals[k]) for k in ("start", "stop", "step") if k in vals]
            if len(a) >= 2 and a[0] is ZERO:
                if len(a) == 2 or a[2] is ONE:
                    a = [a[1]]
            if len(a) == 3 and a[2] is ONE:
                a = a[:2]
            return interp.new_ref(mk("call", "arange", tuple(a), tuple((k, S(v)) for k, v in rest.items() if k)))
        if n in ("sum", "mean", "std", "max", "min", "amax", "amin", "argmin", "argmax", "any", "all"):
            nm = {"amax": "np.max", "amin": "np.min", "any": "any", "all": "all"}.get(n, "np." + n)
            return reduce_(interp, nm, g("a"), g("axis"), rest)
        if n == "transpose":
            return transpose(S(g("a")), S(g("axes")) if g("axes") is not None else None)
        if n == "flip":
            ax = S(g("axis")) if g("axis") is not None else None
            v = flip(S(g("m")), ax if ax is not None and not is_const(ax, "none") else None)
            if v is not None:
                return v
        if n == "where" and "x" in vals:
            return mk("call", "where", (S(g("condition")), S(g("x")), S(g("y"))), ())
        if n in ("round", "around"):
            d = S(g("decimals")) if g("decimals") is not None else ZERO
            if d is ZERO:
                return mk("call", "np.round", (S(g("a")),), ())
            return mk("call", "np.round", (S(g("a")), d), ())
        order = [k for k in SIGS[q] if k in vals]
        t = mk("call", "np." + n, tuple(S(vals[k]) for k in order), tuple(sorted((k, S(v)) for k, v in rest.items() if k)))
        return t
    if n == "meshgrid" and len(pos) >= 2 and not set(kw) - {"indexing"} and not any(p.op == "star" for p in pos):
        ind = S(kw["indexing"]) if "indexing" in kw else const("xy")
        if is_const(ind, "str"):
            ax = [S(p) for p in pos]
            perm = list(range(len(ax)))
            if cval(ind) == "xy":
                ax[0], ax[1] = ax[1], ax[0]
                perm[0], perm[1] = 1, 0
            return mk("list", *[mk("call", "mesh", (mk("tuple", *ax), const(k)), ()) for k in perm])
    return mk("call", "np." + n, tuple(S(p) for p in pos), tuple(sorted((k, S(v)) for k, v in kw.items() if k)))


def shape1(a):
    s = shape(a)
    if s.op == "tuple" and len(s.a) == 1:
        return s.a[0]
    return s


def bitop(name, a, b):
    if isbool(a) and isbool(b):
        return and_(a, b) if name == "bitand" else or_(a, b)
    return mk("call", name, tuple(sorted((a, b), key=lambda t: t.id)), ())


def invert(a):
    return not_(a) if isbool(a) else mk("call", "invert", (a,), ())


def mkdir(interp, p, ok):
    """fs:mkdir with whether the directory may exist already"""
    t = mk("call", "fs:mkdir", (stripath(path(p)),), (("exist_ok", truth(ok)),))
    interp.effect(FSCH, t)
    interp.may_raise(t)
    return NONE


def fs(interp, q, pos, kw):
    S = interp.num
    op = FS[q]
    if op == "mkdir":
        vals, extra, rest = _norm(interp, q, pos, kw)
        ok = vals.get("exist_ok")
        return mkdir(interp, S(vals["name"]), FALSE if ok is None else S(ok)) if "name" in vals else NONE
    if q in SIGS:
        vals, extra, rest = _norm(interp, q, pos, kw)
        args = [S(vals[k]) for k in SIGS[q] if k in vals and k not in ("mode", "exist_ok", "ignore_errors", "protocol")] + \
               [S(x) for x in extra]
        if op == "rmtree":
            rest = {}
    else:
        args, rest = [S(p) for p in pos], kw
    if op == "rmtree" and q.startswith("shutil"):
        rest = {}
    if args and op in ("mkdir", "unlink", "rmtree", "rmdir", "move", "copy", "copytree"):
        args = [stripath(a) for a in args]
    else:
        args = [tostr(stripath(a)) if i == 0 and pathy(a) else a for i, a in enumerate(args)]
    t = mk("call", "fs:" + op, tuple(args), tuple(sorted((k or "**", S(v)) for k, v in rest.items())))
    interp.effect(FSCH, t)
    interp.may_raise(t)
    return t if op in ("mkdtemp",) else NONE


TEXTS = ("help", "description", "epilog", "metavar", "prog", "usage", "formatter_class")


def unknown(interp, q, pos, kw):
    """a library call whose meaning is not known"""
    kw = {k: v for k, v in kw.items() if not (q.startswith("argparse.") and k in TEXTS)}
    S = interp.num
    pure = any(q.startswith(p) for p in PURE_EXT)
    name = "x:%s" % q if pure else "x:%s/%d" % (q, len(pos))
    t = mk("call", name, tuple(S(p) for p in pos), tuple(sorted((k if k else "**", S(v)) for k, v in kw.items())))
    if not pure:
        interp.effect("x:" + q, t)
    interp.may_raise(t)
    return t


# ------------------------------------------------------------------ builtins
def to_int(v):
    if isint(v):
        return v
    n = num(v)
    if n is not None:
        return const(int(n))
    if v.op == "call" and v.a[0] == "float" and len(v.a[1]) == 1:
        pass
    return mk("call", "int", (v,), ())


def builtin(interp, name, e):
    if name in IGNORED:
        return message(interp, name, e)
    if name in ("exit", "quit"):
        return external(interp, "sys.exit", e)
    if name in ("range", "enumerate", "zip", "reversed", "map", "filter"):
        return seq(interp, e)
    if name == "isinstance":
        x = interp.ev(e.args[0])
        return isinst(interp, x, e.args[1])
    pos, kw = interp.args(e)
    return builtin_vals(interp, name, pos, kw)


def isinst(interp, x, ty):
    import ast
    ts = ty.elts if isinstance(ty, ast.Tuple) else [ty]
    names = []
    for t in ts:
        v = typ(interp.ev(t))
        names.append(v.a[0] if v.op == "glob" else pretty(v))
    names = [n.split(".")[-1] if n.startswith("cls:") else n for n in names]
    c = interp.deref(x)
    kinds = set(names)
    if c.op in ("list", "append", "map", "lcat") and x.op == "ref":
        return TRUE if "list" in kinds else FALSE
    if c.op == "tuple":
        return TRUE if "tuple" in kinds else FALSE
    if is_const(c, "str") or c.op == "concat":
        return TRUE if "str" in kinds else FALSE
    if is_const(c, "none"):
        return FALSE
    if is_const(c, "bool"):
        return TRUE if kinds & {"bool", "int"} else FALSE
    if is_const(c, "num"):
        if cval(c).denominator == 1 and kinds & {"int"} and not kinds & {"float"}:
            return mk("isinstance", c, "|".join(sorted(kinds)))
        return TRUE if kinds >= {"int", "float"} else FALSE if not kinds & {"int", "float"} else mk("isinstance", c, "|".join(sorted(kinds)))
    s = interp.snap(c)
    r = FALSE
    for n in sorted(kinds):
        r = or_(r, mk("isinstance", s, n))
    return r


def seq(interp, e):
    """range(...) and friends as list values"""
    it = interp.iterate(e)
    if it[0] == "lit":
        return interp.new_ref(mk("list", *it[1]))
    _, n, el = it
    from .store import height
    uid = interp.fresh()
    ix = mk("ix", uid)
    v = interp.snap(el(ix))
    h = 1 + height(v)
    return mk("map", n, subst(v, {ix: mk("ix", h)}), TRUE, h)


def builtin_vals(interp, name, pos, kw):
    S = interp.num
    if any(v.op == "star" for v in pos):
        return unknown(interp, name, pos, kw)
    if name == "len" and len(pos) == 1:
        return length(interp.deref(pos[0]))
    if name == "abs":
        return fn("abs", [S(pos[0])])
    if name == "sum" and len(pos) == 1:
        x = S(pos[0])
        if x.op in ("list", "tuple"):
            r = ZERO
            for y in x.a:
                r = add(r, y)
            return r
        return mk("call", "np.sum", (x,), ())
    if name in ("max", "min"):
        if len(pos) == 1 and not kw:
            x = S(pos[0])
            if x.op in ("list", "tuple") and x.a:
                return minmax(name, list(x.a))
            return mk("call", "np." + name, (x,), ())
        if not kw:
            return minmax(name, [S(p) for p in pos])
    if name == "pow" and len(pos) == 2:
        return power(S(pos[0]), S(pos[1]))
    if name == "int" and len(pos) == 1:
        return to_int(S(pos[0]))
    if name == "float" and len(pos) == 1:
        x = S(pos[0])
        if is_const(x, "str"):
            try:
                return const(float(cval(x)))
            except ValueError:
                return mk("call", "float", (x,), ())
        if num(x) is not None or x.op == "poly" or isint(x):
            return x
        return mk("call", "float", (x,), ())
    if name == "bool" and len(pos) == 1:
        return truth(interp.deref(pos[0]))
    if name == "str":
        if not pos:
            return const("")
        x = S(pos[0])
        y = tostr(x)
        if y is not x or stry(y):
            return y
        return mk("call", "str", (x,), ())
    if name == "repr":
        return mk("call", "repr", (S(pos[0]),), ())
    if name in ("list", "tuple", "set", "frozenset", "sorted", "iter"):
        if not pos:
            if name == "list":
                return interp.new_ref(EMPTYL)
            if name == "tuple":
                return mk("tuple")
            return interp.new_ref(mk("call", "set", (EMPTYL,), ()))
        v = interp.deref(pos[0])
        keys = interp.known_keys(v) if v.op in ("dict", "store") else None
        if keys is not None:
            v = mk("list", *keys)
        if name == "list":
            if v.op == "tuple":
                v = mk("list", *v.a)
            return interp.new_ref(v)
        if name == "tuple":
            return mk("tuple", *v.a) if v.op == "list" else interp.snap(v)
        if name == "iter":
            return pos[0]
        v = interp.snap(v)
        if name in ("set", "frozenset"):
            if v.op in ("list", "tuple"):
                v = mk("list", *sorted(set(v.a), key=lambda t: t.id))
            return interp.new_ref(mk("call", "set", (v,), ())) if name == "set" else mk("call", "set", (v,), ())
        if name == "sorted":
            if v.op == "call" and v.a[0].split("/")[0] in ("x:os.listdir", "m:iterdir", "m:glob", "x:glob.glob"):
                return interp.new_ref(v)        # a directory is listed in no particular order
            kws = sortkeys(interp, kw)
            if v.op in ("list", "tuple") and all(is_const(x, "str") for x in v.a) and not kws:
                return interp.new_ref(mk("list", *sorted(v.a, key=cval)))
            return interp.new_ref(mk("call", "sorted", (v,), kws))
    if name == "dict":
        c = EMPTYD
        star = kw.pop(None, None) if None in kw else None
        if pos:
            v = interp.deref(pos[0])
            if v.op in ("list", "tuple") and all(x.op in ("tuple", "list") and len(x.a) == 2 for x in v.a):
                for x in v.a:
                    c = store(c, x.a[0], x.a[1])
            else:
                c = v
        elif star is not None:
            c = interp.deref(star)
        for k, v in kw.items():
            c = store(c, const(k), v)
        return interp.new_ref(c)
    if name in ("all", "any") and len(pos) == 1:
        x = S(pos[0])
        if x.op in ("list", "tuple"):
            r = TRUE if name == "all" else FALSE
            for y in x.a:
                r = and_(r, y) if name == "all" else or_(r, y)
            return r
        if name == "any":
            if x.op == "map" and x.a[2] is TRUE:
                return not_(mk("call", "all", (mk("map", x.a[0], not_(truth(x.a[1])), TRUE, x.a[3]),), ()))
            return mk("call", "any", (x,), ())
        if x.op == "map" and x.a[2] is TRUE:
            x = mk("map", x.a[0], truth(x.a[1]), TRUE, x.a[3])
        return mk("call", "all", (x,), ())
    if name == "type" and len(pos) == 1:
        c = interp.deref(pos[0])
        if c.op in ("list", "append", "map", "lcat"):
            return mk("glob", "list")
        if c.op == "tuple":
            return mk("glob", "tuple")
        if is_const(c, "str"):
            return mk("glob", "str")
        if is_const(c, "bool"):
            return mk("glob", "bool")
        return mk("call", "type", (S(pos[0]),), ())
    if name == "callable":
        return mk("call", "callable", (S(pos[0]),), ())
    if name == "round":
        if len(pos) == 1 or S(pos[1]) is ZERO:
            return mk("call", "np.round", (S(pos[0]),), ())
        return mk("call", "np.round", (S(pos[0]), S(pos[1])), ())
    if name == "divmod":
        a, b = S(pos[0]), S(pos[1])
        return mk("tuple", floordiv(a, b), mod(a, b))
    if name == "getattr":
        k = S(pos[1])
        if is_const(k, "str"):
            if len(pos) == 3:
                return unknown(interp, "getattr", pos, kw)
            return interp.getattr(pos[0], cval(k))
        return mk("call", "getattr", tuple(S(p) for p in pos), ())
    if name == "setattr":
        k = S(pos[1])
        if is_const(k, "str"):
            interp.setattr(pos[0], cval(k), pos[2])
            return NONE
        raise interp_unsup(interp, "setattr with computed name")
    if name == "hasattr":
        return mk("call", "hasattr", tuple(S(p) for p in pos), ())
    if name == "input":
        t = interp.draw("input", [], [])
        return t
    if name == "open":
        f = tostr(stripath(S(pos[0])))
        mode = S(pos[1]) if len(pos) > 1 else S(kw["mode"]) if "mode" in kw else const("r")
        t = mk("call", "fs:open", (f, mode), ())
        if not (is_const(mode, "str") and not set(cval(mode)) & set("wax+")):
            interp.effect(FSCH, t)
        interp.may_raise(t)
        return t
    if name in ("exit", "quit"):
        raise interp_unsup(interp, "exit")
    if name in vars(_builtins) and isinstance(getattr(_builtins, name), type) and \
            issubclass(getattr(_builtins, name), BaseException):
        return mk("excval", name)
    if name == "slice" and not kw and 1 <= len(pos) <= 3:
        a = [S(p) for p in pos]
        a = [const(None)] + a if len(a) == 1 else a
        return mk("slice", *(a + [const(None)] * (3 - len(a))))
    if name == "super":
        raise interp_unsup(interp, "super object")
    if name in vars(_builtins):
        return unknown(interp, "builtins." + name, pos, kw)
    t = mk("call", "undef:" + name, tuple(S(p) for p in pos), ())
    return t


# ------------------------------------------------------------------ methods
KNOWN_METHODS = {"append", "extend", "insert", "remove", "pop", "index", "sort", "reverse", "count", "copy", "clear",
                 "get", "keys", "values", "items", "update", "setdefault",
                 "lower", "upper", "strip", "split", "join", "format", "replace", "startswith", "endswith", "isdigit",
                 "lstrip", "rstrip", "splitlines", "title", "capitalize", "find",
                 "max", "min", "sum", "mean", "std", "any", "all", "flatten", "ravel", "reshape", "transpose", "astype",
                 "tolist", "fill", "argmin", "argmax", "round", "dot", "squeeze", "item",
                 "resolve", "exists", "is_file", "is_dir", "mkdir", "unlink", "rmdir", "absolute", "joinpath", "touch",
                 "write_text", "expanduser", "iterdir", "glob", "with_suffix", "rename",
                 "read", "write", "close", "flush", "sections", "has_option", "has_section", "issubset", "add", "union"}

PURE_M = {"split", "strip", "replace", "find", "lstrip", "rstrip", "splitlines", "title", "capitalize", "count",
          "startswith", "endswith", "isdigit", "reshape", "squeeze", "tolist", "sections", "issubset", "union",
          "has_option", "has_section", "is_file", "is_dir", "exists", "upper", "lower", "cumsum", "cumprod", "iterdir", "glob",
          "difference", "intersection", "options", "expanduser", "with_suffix", "relative_to", "isnumeric", "isdecimal",
          "partition", "rpartition", "rsplit", "casefold", "swapcase", "rfind", "removeprefix", "removesuffix", "isalpha",
          "isalnum", "isspace", "islower", "isupper", "zfill", "ljust", "rjust", "nonzero", "item", "repeat", "clip", "take",
          "parse_args"}


def method(interp, o, name, e):
    if name == "format" and (is_const(o, "str")):
        pos, kw = interp.args(e)
        r = strformat(cval(o), [interp.num(p) for p in pos], {k: interp.num(v) for k, v in kw.items()})
        if r is not None:
            return r
        return mk("call", "m:format", (o,) + tuple(interp.num(p) for p in pos),
                  tuple(sorted((k or "**", interp.num(v)) for k, v in kw.items())))
    pos, kw = interp.args(e)
    return method_vals(interp, o, name, pos, kw)


def sortkeys(interp, kw):
    """falling by f is the same as rising by -f (up to the order of equal elements)"""
    kw = {k: interp.num(x) for k, x in kw.items() if k}
    f, rev = kw.get("key"), kw.get("reverse", FALSE)
    if f is not None and f.op == "lam" and f.a[-1].op == "poly" and is_const(rev, "bool") and \
            all(c < 0 for m, c in f.a[-1].a[0]):
        kw["key"] = mk("lam", *f.a[:-1], neg(f.a[-1]))
        rev = FALSE if rev is TRUE else TRUE
    kw["reverse"] = rev
    return tuple(sorted((k, x) for k, x in kw.items() if not (k == "reverse" and x is FALSE)))


def subset(interp, small, big):
    """{a, b} <= X for a written-out set: a in X and b in X (the order of membership tests does not matter)"""
    c = interp.deref(small)
    if c.op == "call" and c.a[0] == "set" and len(c.a[1]) == 1:
        c = interp.deref(c.a[1][0])
    if c.op not in ("list", "tuple") or len(c.a) > 12:
        return None
    big = interp.deref(big)
    r = TRUE
    for x in c.a:
        r = and_(r, interp.contains(interp.num(x), big))
    return r


def method_vals(interp, o, name, pos, kw):
    S = interp.num
    if any(v.op == "star" for v in pos):
        return unknown_method(interp, o, name, pos, kw)
    c = interp.deref(o)
    islist = c.op in ("list", "append", "map", "lcat", "repeat")
    if name in ("issubset", "issuperset") and len(pos) == 1 and not kw:
        small, big = (o, pos[0]) if name == "issubset" else (pos[0], o)
        r = subset(interp, small, big)
        if r is not None:
            return r
    # --- lists
    if name == "append" and len(pos) == 1 and not kw:
        interp.write(o, push(c, pos[0]))
        return NONE
    if name == "extend" and len(pos) == 1:
        v = interp.deref(pos[0])
        if v.op in ("list", "tuple"):
            for x in v.a:
                c = push(c, x)
            interp.write(o, c)
        else:
            interp.write(o, v if c is EMPTYL else mk("lcat", c, v))
        return NONE
    if name in ("insert", "remove", "sort", "reverse", "clear") and (islist or o.op in ("ref", "attr", "in_", "item", "lv")) :
        if name == "insert" and len(pos) == 2 and c.op == "list" and num(S(pos[0])) == 0:
            interp.write(o, mk("list", *((pos[1],) + c.a)))
            return NONE
        if name == "reverse" and c.op == "list":
            interp.write(o, mk("list", *c.a[::-1]))
            return NONE
        if name == "remove" and len(pos) == 1:
            i = method_vals(interp, o, "index", list(pos), {})
            interp.write(o, mk("call", "del", (interp.snap(c), i), ()))
            return NONE
        if name == "sort":
            kws = sortkeys(interp, kw)
            interp.write(o, mk("call", "sorted", (interp.snap(c),), kws))
            return NONE
        if name == "clear" and islist:
            interp.write(o, EMPTYL)
            return NONE
        interp.write(o, mk("call", "l:" + name, (interp.snap(c),) + tuple(S(p) for p in pos), ()))
        return NONE
    if name == "index" and len(pos) == 1:
        l = interp.snap(c)
        x = S(pos[0])
        if l.op in ("list", "tuple") and all(y.op == "const" for y in l.a) and x.op == "const":
            if x in l.a:
                return const(l.a.index(x))
        interp.may_raise(mk("call", "index_", (l, x), ()))
        if l.op in ("list", "tuple") and len(l.a) <= 12 and all(y.op == "const" for y in l.a):
            r = UNDEF
            for i in reversed(range(len(l.a))):
                r = ite(eq(x, l.a[i]), const(i), r)
            return r
        return mk("call", "m:index", (l, x), ())
    if name == "pop":
        keys = [S(p) for p in pos]
        if keys and is_const(keys[0], "str"):
            cur = item(c, keys[0])
            interp.write(o, store(c, keys[0], ABSENT))
            if len(keys) > 1:
                return ite(interp.contains(keys[0], c), cur, keys[1])
            return cur
        if not keys and c.op == "append":
            interp.write(o, c.a[0])
            return c.a[1]
        if c.op == "list" and c.a and (not keys or num(keys[0]) is not None):
            i = int(num(keys[0])) if keys else -1
            if -len(c.a) <= i < len(c.a):
                l = list(c.a)
                v = l.pop(i)
                interp.write(o, mk("list", *l))
                return v
        t = mk("call", "l:popped", (interp.snap(c),) + tuple(keys), ())
        interp.write(o, mk("call", "del", (interp.snap(c), keys[0]), ()) if keys else
                     mk("call", "l:pop", (interp.snap(c),), ()))
        return t
    # --- dictionaries
    if name == "get" and 1 <= len(pos) <= 2:
        k = S(pos[0])
        d = pos[1] if len(pos) > 1 else NONE
        return ite(interp.contains(k, c), interp.getitem(o, k), d)
    if name == "keys" and not pos:
        keys = interp.known_keys(c)
        if keys is not None:
            return mk("list", *keys)
        return mk("call", "keys_", (interp.snap(c),), ())
    if name == "values" and not pos:
        keys = interp.known_keys(c)
        if keys is not None:
            return mk("list", *[item(c, k) for k in keys])
        return mk("call", "values_", (interp.snap(c),), ())
    if name == "items" and not pos:
        keys = interp.known_keys(c)
        if keys is not None:
            return mk("list", *[mk("tuple", k, item(c, k)) for k in keys])
        return mk("call", "items_", (interp.snap(c),), ())
    if name == "setdefault" and len(pos) == 2:
        k = S(pos[0])
        has = interp.contains(k, c)
        v = ite(has, item(c, k), pos[1])
        interp.write(o, store(c, k, v))
        return v
    if name == "update":
        new = c
        if pos:
            d = interp.deref(pos[0])
            keys = interp.known_keys(d)
            if keys is None:
                interp.write(o, mk("call", "d:update", (interp.snap(c), interp.snap(d)), ()))
                return NONE
            for k in keys:
                new = store(new, k, item(d, k))
        for k, v in kw.items():
            if k is None:
                raise interp_unsup(interp, "update(**)")
            new = store(new, const(k), v)
        interp.write(o, new)
        return NONE
    if name == "copy" and not pos:
        return interp.new_ref(interp.snap(c))
    if name == "add" and len(pos) == 1 and o.op == "ref":
        interp.write(o, mk("call", "setadd", (interp.snap(c), S(pos[0])), ()))
        return NONE
    x = S(o)
    # --- strings
    if name in ("lower", "upper", "strip") and not pos:
        if is_const(x, "str"):
            return const(getattr(cval(x), name)())
        if x.op == "call" and x.a[0] == "m:" + name:
            return x
        return mk("call", "m:" + name, (x,), ())
    if name in ("startswith", "endswith", "isdigit", "replace", "split", "strip") and is_const(x, "str") and \
            all(is_const(S(p), "str") for p in pos) and not kw:
        r = getattr(cval(x), name)(*[cval(S(p)) for p in pos])
        if isinstance(r, list):
            return interp.new_ref(mk("list", *[const(y) for y in r]))
        return const(r)
    if name == "join" and len(pos) == 1:
        l = S(pos[0])
        if l.op in ("list", "tuple"):
            parts = []
            for i, y in enumerate(l.a):
                if i:
                    parts.append(x)
                parts.append(tostr(y))
            return concat(parts)
        return mk("call", "m:join", (x, l), ())
    if name == "joinpath":
        return join([x] + [S(p) for p in pos])
    # --- numbers / arrays
    if name in ("max", "min", "sum", "mean", "std", "any", "all", "argmin", "argmax"):
        ax = pos[0] if pos else kw.pop("axis", None)
        nm = name if name in ("any", "all") else "np." + name
        return reduce_(interp, nm, o, ax, kw)
    if name == "transpose":
        if not pos:
            return transpose(x, None)
        return transpose(x, S(pos[0]) if len(pos) == 1 else mk("tuple", *[S(p) for p in pos]))
    if name in ("flatten", "ravel"):
        order = pos[0] if pos else kw.get("order")
        od = S(order) if order is not None else const("C")
        return interp.new_ref(mk("call", "flatten", (x, od), ()))
    if name == "reshape":
        s = mk("tuple", *[S(p) for p in pos]) if len(pos) > 1 else S(pos[0])
        if s.op in ("tuple", "list") and not kw and rank(x) is ONE and \
                sorted(num(y) or 0 for y in s.a) == [-1] + [1] * (len(s.a) - 1):
            i = [num(y) for y in s.a].index(-1)
            return item(x, mk("tuple", *([mk("newaxis")] * i + [mk("slice", NONE, NONE, NONE)] +
                                         [mk("newaxis")] * (len(s.a) - 1 - i))))
        return mk("call", "reshape", (x, s), tuple(sorted((k, S(v)) for k, v in kw.items())))
    if name == "astype" and len(pos) == 1:
        dt = dtype(S(pos[0]))
        if dt.op == "glob" and dt.a[0] == "float":
            return interp.new_ref(x)
        return interp.new_ref(mk("call", "astype", (x, dt), ()))
    if name == "fill" and len(pos) == 1:
        interp.write(o, mul(S(pos[0]), mk("call", "ones", (shape1(x),), ())))
        return NONE
    if name == "dot":
        return mk("call", "np.dot", (x, S(pos[0])), ())
    if name == "round" and not pos:
        return mk("call", "np.round", (x,), ())
    # --- paths and files
    if name in ("exists", "is_file", "is_dir") and not pos:
        return mk("call", "m:" + name, (path(x),), ())
    if name in ("resolve", "absolute"):
        return mk("call", "p:resolve", (path(x),), ())
    if name == "mkdir" and (pathy(x) or o.op != "ref"):
        ok = kw.get("exist_ok", pos[2] if len(pos) > 2 else None)
        return mkdir(interp, x, FALSE if ok is None else S(ok))
    if name in ("unlink", "rmdir", "touch") and (pathy(x) or o.op != "ref"):
        t = mk("call", "fs:" + name, (stripath(x),), ())
        interp.effect(FSCH, t)
        interp.may_raise(t)
        return NONE
    if name == "rename" and len(pos) == 1:
        t = mk("call", "fs:move", (stripath(x), stripath(S(pos[0]))), ())
        interp.effect(FSCH, t)
        return NONE
    if name == "write" and len(pos) == 1:
        k = ("eff", FSCH)
        old = interp.hget(k)
        s = S(pos[0])
        if old.op == "append" and old.a[1].op == "call" and old.a[1].a[0] == "fs:write" and old.a[1].a[1][0] is x:
            interp.st.heap[k] = mk("append", old.a[0], mk("call", "fs:write", (x, concat([old.a[1].a[1][1], s])), ()))
        else:
            interp.effect(FSCH, mk("call", "fs:write", (x, s), ()))
        return NONE
    if name in ("close", "flush"):
        return NONE
    if name == "read":
        t = mk("call", "fs:read", (x,) + tuple(stripath(S(p)) for p in pos), ())
        interp.effect("read", t)
        interp.may_raise(t)
        return t
    if name in PURE_M:
        t = mk("call", "m:" + name, (x,) + tuple(S(p) for p in pos),
               tuple(sorted((k or "**", S(v)) for k, v in kw.items())))
        interp.may_raise(t)
        if name in ("sections", "split", "options", "tolist"):
            return interp.new_ref(t)
        return t
    return unknown_method(interp, o, name, pos, kw)


def push(c, v):
    if c.op == "list":
        return mk("list", *(c.a + (v,)))
    return mk("append", c, v)


def unknown_method(interp, o, name, pos, kw):
    S = interp.num
    x = S(o)
    if name == "add_argument":
        kw = {k: v for k, v in kw.items() if k not in TEXTS}
    t = mk("call", "x:.%s/%d" % (name, len(pos)), (x,) + tuple(S(p) for p in pos),
           tuple(sorted((k or "**", S(v)) for k, v in kw.items())))
    interp.effect("x:." + name, t)
    interp.may_raise(t)
    return t
