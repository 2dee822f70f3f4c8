"""Decide whether two value graphs (code, reference) denote the same function.

  PROVED     same normal form (hash-consed identity)
  EQUAL      different normal form, indistinguishable under random interpretation
  DIFF       a valuation separates them and the graphs are comparable
  UNDECIDED  a valuation separates them, but the code uses operations or loop
             structure the reference does not have, so that the difference may
             come from an identity this analysis does not know
"""
import ast
import os
import pathlib
import random as _random
import time

from .terms import *
from . import terms as tm
from .rnd import Sample, root_env, collect_pools, enumerated, same, key, Discard, UNARY, BINARY
from .unroll import Endless, Outside, MANY, Unroll, UnrollBare, UnrollShaped, shape_of, UnrollNoCount, UnrollNoCtx, int_terms, kinds_differ
from .store import height, subst, isint

SPEC = pathlib.Path(__file__).resolve().parent.parent / "spec" / "hyvr"
NSAMP = 260
NDIR = 260
NGUIDE = 20000

STRUCT = {"const", "poly", "ite", "not", "truth", "lt", "eq", "list", "tuple", "concat", "opq", "undef", "absent", "inf",
          "lv", "ix", "dict", "store", "append", "item", "cyc", "isinstance", "objst", "star", "newaxis"}


def heads_of(x):
    """uninterpreted operations of one node"""
    o = x.op
    if o == "item" and x.a[1].op == "poly":
        ms = x.a[1].a[0]
        if all(k < 0 for _, k in ms):
            yield ("from the end",)
        if any(k > 0 and any(y.op == "call" and y.a[0] == "len" for y, _ in m) for m, k in ms):
            yield ("from the length",)
    if o in STRUCT:
        return
    if o == "call":
        if not (x.a[0] in UNARY or x.a[0] in BINARY or x.a[0] in ("len",)):
            yield ("call", x.a[0])
    elif o in ("draw", "new"):
        yield (o, x.a[0])
    elif o == "attr":
        yield ("attr", x.a[1])
    elif o == "in_":
        yield ("in", x.a[0])
    elif o == "glob":
        yield ("glob", x.a[0])
    elif o == "exc":
        yield ("exc", x.a[0])
    else:
        yield (o,)


def heads(t):
    """uninterpreted operations of a graph"""
    return {h for x in subterms(t).values() for h in heads_of(x)}


DTYPES = {"float32", "float16", "int8", "int16", "uint8", "uint16", "uint32", "uint64", "int32", "int64"}


def loops(t):
    sig = []
    for x in subterms(t).values():
        if x.op == "lout":
            sig.append(("lout", x.a[0].op == "inf", x.a[1] is not FALSE, len(x.a[2])))
        elif x.op == "map":
            sig.append(("map", x.a[2] is not TRUE))
    # the same loop seen through several observables counts once per distinct shape
    return tuple(sorted(sig))


def loopset(t):
    return set(loops(t))


def bounds(t):
    return sorted(x.a[0].id for x in subterms(t).values() if x.op in ("lout", "map"))


def outer_bounds(t):
    """bounds of loops from the outside in, along the deepest nest"""
    out = []
    top = max((x for x in subterms(t).values() if x.op == "lout"), key=lambda x: x.a[-1], default=None)
    while top is not None:
        out.append(top.a[0].id)
        inner = [x for s in top.a[1:5] for x in subterms(mk("tuple", *_flat(s))).values() if x.op == "lout"]
        top = max(inner, key=lambda x: x.a[-1], default=None)
        if top is not None and len(out) > 8:
            break
    return out


def _flat(s):
    if isinstance(s, T):
        return (s,)
    if isinstance(s, tuple):
        r = ()
        for x in s:
            r += _flat(x)
        return r
    return ()


def exc_atoms(t):
    out = set()
    for x in subterms(t).values():
        if x.op == "exc":
            out.add((x.a[0], tuple(sorted((y.a[0] if y.op in ("call", "draw", "new") else y.op) for y in x.a[1]))))
    return out


class NoCount(Sample):
    """draws are told apart by what is drawn and where, not by their order"""

    def _ev(self, t, env):
        if t.op == "draw":
            a = t.a
            k = ("draw", a[0], tuple(key(x) for x in self.vals(a[1], env)),
                 tuple((n, key(self.ev(v, env))) for n, v in a[2]),
                 tuple(key(self.ev(x, env)) for x in a[4]))
            return self.app(("draw", a[0]), k, t)
        return Sample._ev(self, t, env)


def cvalue(c):
    k, v = c.a
    if k == "num":
        return int(v) if v.denominator == 1 else float(v)
    if k == "none":
        return None
    if k in ("bool", "str"):
        return v
    return None


def directed(t, rng, forced):
    """random walk through the conditionals of a graph, forcing what it passes"""
    depth = 0
    while depth < 80:
        depth += 1
        if t.op == "ite":
            b = rng.random() < 0.5
            force(t.a[0], b, rng, forced)
            t = t.a[1] if b else t.a[2]
            continue
        kids = [x for x in _flat(t.a) if x.op not in ("const", "in_", "lv", "ix")]
        if not kids:
            return
        ites = [x for x in kids if x.op == "ite"]
        t = rng.choice(ites) if ites and rng.random() < 0.7 else rng.choice(kids)


def force(c, b, rng, forced):
    if c.op == "not":
        return force(c.a[0], not b, rng, forced)
    if c.op == "ite":
        if c.a[2] is FALSE and b:
            force(c.a[0], True, rng, forced)
            force(c.a[1], True, rng, forced)
        elif c.a[1] is TRUE and not b:
            force(c.a[0], False, rng, forced)
            force(c.a[2], False, rng, forced)
        else:
            x = rng.random() < 0.5
            force(c.a[0], x, rng, forced)
            force(c.a[1] if x else c.a[2], b, rng, forced)
        return
    if c.op == "eq":
        l, r = c.a
        if b and r.op == "const" and l.op not in ("poly", "const", "ite", "concat"):
            forced.setdefault(l, cvalue(r))
        elif b and l.op == "poly":
            solve0(l, rng, forced)
        return
    if c.op == "truth":
        if c.a[0].op in ("in_", "attr", "item", "call", "draw"):
            forced.setdefault(c.a[0], b)
        return
    if c.op in ("in", "exc", "isinstance") or (c.op == "call"):
        forced.setdefault(c, b)
        return


def solve0(p, rng, forced):
    """x - y + k == 0 with two plain inputs"""
    items = [(m, c) for m, c in p.a[0] if m != ()]
    k = dict(p.a[0]).get((), 0)
    if len(items) == 1 and len(items[0][0]) == 1:
        (x, e), = items[0][0]
        if e == 1 and x.op in ("in_", "attr", "item", "call"):
            v = -k / items[0][1]
            forced.setdefault(x, int(v) if v.denominator == 1 else float(v))
    elif len(items) == 2 and all(len(m) == 1 and m[0][1] == 1 for m, _ in items):
        (x, cx), (y, cy) = (items[0][0][0][0], items[0][1]), (items[1][0][0][0], items[1][1])
        if x.op in ("in_", "attr", "item", "call") and y.op in ("in_", "attr", "item", "call") and \
                not x.fv and not y.fv and x not in forced and y not in forced:
            vy = rng.choice([1, 2, 3])
            vx = (-k - cy * vy) / cx
            forced[y] = vy
            forced[x] = int(vx) if vx.denominator == 1 else float(vx)


class Result:
    __slots__ = ("verdict", "why", "samples", "differ", "where")

    def __init__(self, verdict, why="", samples=0, differ=0, where=None):
        self.verdict = verdict
        self.why = why
        self.samples = samples
        self.differ = differ
        self.where = where


LEAF = ("in_", "attr", "item", "draw", "rd", "lv", "mod", "call")


def cond_leaves(x, cache):
    """uninterpreted values a condition depends on"""
    r = cache.get(x.id)
    if r is None:
        r = []
        for y in subterms(x).values():
            if y.op in LEAF and not (y.op == "call" and (y.a[0] in UNARY or y.a[0] in BINARY)):
                r.append(y)
            elif y.op in ("exc", "in", "isinstance"):
                r.append(y)
        r.sort(key=lambda y: y.id)
        cache[x.id] = r
    return r


def linear(c, leaf):
    """coefficient-like monomials: [(poly side sign, poly, other atoms)] where leaf occurs linearly"""
    if c.op == "not":
        return linear(c.a[0], leaf)
    if c.op not in ("lt", "eq"):
        return None
    for sgn, side in ((1, c.a[1]), (-1, c.a[0])):
        if side is leaf:
            return c, sgn, None
        if side.op == "poly":
            ms = [(m, k) for m, k in side.a[0] if any(y is leaf for y, _ in m)]
            if len(ms) == 1 and dict((y.id, e) for y, e in ms[0][0])[leaf.id] == 1:
                return c, sgn, ms[0]
    return None


def numbers(v):
    if isinstance(v, tuple):
        return [y for x in v for y in numbers(x)]
    return [v] if isinstance(v, (int, float)) and not isinstance(v, bool) else []


class Search:
    """valuations of a pair of graphs, guided towards branches not yet taken"""

    def __init__(self, c, s, cls, salt=0, limit=25.0, guards=(), extra=()):
        self.guards = guards
        # operations the reference does not have, and how often the two differ without any of them playing a part
        self.extra = {x.id for x in subterms(c).values() if any(h in extra for h in heads_of(x))} if extra else ()
        if extra:
            # nor the recursive functions that only the reference calls
            lost = {h for h in heads(s) - heads(c) if h[0] == "call" and h[1].startswith("fn:")}
            self.extra |= {x.id for x in subterms(s).values() if any(h in lost for h in heads_of(x))} if lost else set()
        self.slices = ("slice",) in extra
        self.clean = self.plain = 0
        self.cleanwit = None
        self.c, self.s, self.cls, self.salt = c, s, cls, salt
        self.pools = collect_pools([c, s] + list(guards))
        self.rng = _random.Random(77 + salt)
        self.limit = limit
        self.n = self.d = 0
        self.wit = None
        self.near = []
        self.rich = []
        self.seen = {}
        self.corpus = []
        self.conds = {}
        self.leafcache = {}
        self.watch = {}
        for x, y in explain(c, s):
            self.watch[x.id] = x
            self.watch[y.id] = y
        self.reach = {}
        self.scale = max([k for k in levels(c) ^ levels(s) if 5 < k < 1e6], default=0)
        self.deep = max(depth(c), depth(s)) >= 5
        self.wits = []
        self.endless = 0
        self.hot = []
        self.full = False
        self.enum = enumerated(s)
        self.ints = int_terms([c, s]) if issubclass(cls, Unroll) else None
        self.mixed = 0
        for t in (c, s) + tuple(guards):
            for x in subterms(t).values():
                if x.op == "ite":
                    self.conds[x.id] = x.a[0]
                elif x.op == "lout" and x.a[1] is not FALSE:
                    self.conds[-x.id] = x.a[1]

    def run(self, seed, fkeys=None, forced=None):
        cov = {}
        sm = self.cls(seed + self.salt * 100003, pools=self.pools, forced=forced, fkeys=fkeys, cover=cov)
        sm.watch, sm.enum = self.watch, self.enum
        sm.extra, sm.slices, sm.deep = self.extra, self.slices, self.deep
        sm.scale = self.scale
        if self.ints is not None:
            sm.ints, sm.objs, sm.names, sm.arrays = self.ints
        try:
            env = root_env()
            if self.slices and any(sm.ev(g, env) != "returns" for g in self.guards):
                return False        # lengths are checked first
            try:
                a = sm.ev(self.c, env)
            except Endless:
                if self.endless >= 12:
                    return False
                self.endless += 1
                a = ("endless",)
            except Outside:
                a = ("raises an error",)
            b = sm.ev(self.s, env)
            if a == ("endless",):
                # the reference ends soon; does the code at all?
                if sm.longest > 4:
                    return False
                sm.most, sm.budget = MANY, sm.budget + 20000
                try:
                    a = sm.ev(self.c, env)
                except Endless:
                    pass
        except (Discard, RecursionError):
            return False
        eq_ = same(a, b)
        if not eq_ and self.guards:
            # no value where the function raises
            try:
                if any(sm.ev(g, env) != "returns" for g in self.guards):
                    if not forced:
                        self.near.append((seed, dict(fkeys or {}), cov, sm))
                        del self.near[:-60]
                    return False
            except (Discard, RecursionError):
                return False
        if not eq_ and self.ints is not None and a not in (("endless",), ("raises an error",)) and kinds_differ(a, b):
            self.mixed += 1
            return False
        if self.cls is UnrollShaped and ("'A', ('L'" in repr(a) or "'A', ('L'" in repr(b)):
            self.mixed += 1         # a store that is not known here
            return False
        self.n += 1
        if self.ints is not None and self.deep:
            # runs with rich results are worth looking around
            r = len(set(numbers(b)))
            if r > 1 and r >= self.rich[0][0] if self.rich else r > 1:
                self.rich.append((r, seed, dict(fkeys or {}), sm, set(numbers(b)) - {0, 1, -1}))
                self.rich.sort(key=lambda x: x[0])
                del self.rich[:-30]
        for k in cov:
            if type(k) is tuple:
                self.reach[k[1]] = self.reach.get(k[1], 0) + 1
        if not eq_:
            self.d += 1
            if not whole_array(a) and not whole_array(b):
                self.plain += 1
            if not sm.dirty and not (sm.summed and any(k[0] == "item" and k[1] in sm.summed for k in sm.table)):
                self.clean += 1
                self.cleanwit = self.cleanwit or (seed, a, b, sm)
            self.wits.append((seed, {k: v[0] for k, v in sm.table.items()}))
            if self.wit is None:
                self.wit, self.wsm = (seed, a, b), sm
                if not forced and any(type(k) is tuple for k in cov):
                    # look around the first separating valuation
                    self.hot = [(seed, dict(fkeys or {}), cov, sm)]
                    self.full = True
        new = False
        for k, v in cov.items():
            o = self.seen.get(k, 0)
            if v & ~o:
                self.seen[k] = o | v
                new = True
        if not forced and not self.full and len(self.hot) < 60 and any(type(k) is tuple for k in cov):
            self.hot.append((seed, dict(fkeys or {}), cov, sm))
        if new and not forced:
            self.corpus.append((seed, dict(fkeys or {}), cov, sm))
            if len(self.corpus) > 400:
                self.corpus[0:100] = []
        return new

    def exercised(self):
        """were the differing operations reached often enough to believe that they make no difference"""
        return self.n >= 100 and max(self.reach.values(), default=0) >= 20

    def late(self):
        return time.time() - self.t0 > self.limit or time.time() > SOFT

    def done(self, stop):
        return self.d >= stop and (not self.extra or self.clean >= 2 or self.d >= 25) or self.late()

    def mutate(self):
        rng = self.rng
        if self.rich and rng.random() < 0.4:
            _, seed, fk, sm, out = rng.choice(self.rich)
            ks = [k for k, v in sm.table.items() if type(v[0]) in (int, float)]
            if rng.random() < 0.6:
                ks = [k for k in ks if sm.table[k][0] in out] or ks     # what is seen in the result
            if ks:
                fk = dict(fk)
                for _ in range(rng.choice((1, 1, 2, 4))):
                    k = ks[max(rng.randrange(len(ks)), rng.randrange(len(ks)))]
                    v = sm.table[k][0]
                    fk[k] = v + rng.choice((-1, 1)) if type(v) is int else \
                        rng.choice((-v, v * 2, v + rng.uniform(-3, 3), (self.scale or 5) * rng.uniform(-2, 2)))
                return seed, fk
        if self.hot and rng.random() < 0.4:
            # the differing operations are reached: vary what they depend on
            seed, fk, cov, sm = rng.choice(self.hot)
            x = self.watch[rng.choice([k for k in cov if type(k) is tuple])[1]]
            return self.vary(seed, fk, sm, x)
        if self.near and rng.random() < 0.35:
            # they differ, but the function raises: turn the conditions that lead there
            seed, fk, cov, sm = rng.choice(self.near)
            ks = [i for i in cov if type(i) is int and i in self.conds]
            if ks:
                return self.vary(seed, fk, sm, self.conds[ks[-1] if rng.random() < 0.5 else rng.choice(ks[-6:])])
        # a condition one branch of which was never taken
        k = len(self.corpus)
        if not k:
            return None
        seed, fk, cov, sm = self.corpus[max(rng.randrange(k), rng.randrange(k))]
        open_ = [i for i in cov if type(i) is int and self.seen.get(i, 0) != 3 and i in self.conds]
        if open_ and rng.random() < 0.8:
            c = self.conds[rng.choice(open_)]
        else:
            c = self.conds[rng.choice([i for i in cov if i in self.conds] or list(self.conds))]
        return self.vary(seed, fk, sm, c)

    def vary(self, seed, fk, sm, c):
        rng = self.rng
        leaves = [y for y in cond_leaves(c, self.leafcache) if y.op == "lv" or y.id in sm.keys_of]
        if not leaves:
            return None
        fk = dict(fk)
        for _ in range(1 if rng.random() < 0.7 else 2):
            y = rng.choice(leaves)
            if y.op == "lv":
                key_ = ("slot", y.a[0], y.a[1], rng.randrange(2))
                cur = None
            else:
                key_ = rng.choice(sm.keys_of[y.id])
                cur = sm.table.get(key_, (None,))[0]
            fk[key_] = self.value(y, c, cur, sm)
        return seed, fk

    def value(self, y, c, cur, sm):
        rng = self.rng
        if y.op in ("exc", "in", "isinstance") or isinstance(cur, bool) and rng.random() < 0.8:
            return not cur
        from .rnd import pool_sig
        p = self.pools.get(pool_sig(y))
        if p and rng.random() < 0.6:
            return rng.choice(p)
        if isinstance(cur, (int, float)) and rng.random() < 0.5 and not y.fv:
            li = linear(c, y)
            if li is not None:
                cc, sgn, m = li
                try:
                    env = root_env()
                    l, r = sm.ev(cc.a[0], env), sm.ev(cc.a[1], env)
                    co = sgn
                    if m is not None:
                        co = sgn * float(m[1])
                        for z, e in m[0]:
                            if z is not y:
                                co *= sm.ev(z, env) ** e
                    d = r - l
                    tgt = 0 if cc.op == "eq" else rng.choice([-1, 1]) * rng.choice([0.01, 0.3, 1, 2.5])
                    v = cur + (tgt - d) / co
                    if abs(v) < 1e6:
                        return v
                except Exception:
                    pass
        x = cur if isinstance(cur, (int, float)) and not isinstance(cur, bool) else 1
        return rng.choice([0, 1, -1, 2, 3, 0.5, x + 1, x - 1, x * 0.1, x * 10, -x, x / 2, rng.uniform(-5, 5),
                           rng.uniform(0, 1), rng.randrange(0, 6)])

    def go(self, nsamp, ndir, nguide, stop=3):
        self.t0 = time.time()
        rng = self.rng
        for i in range(nsamp):
            self.run(i + 1)
            if self.done(stop):
                return
        for i in range(ndir):
            forced = {}
            directed(self.c if i % 2 else self.s, rng, forced)
            self.run(nsamp + i + 1, forced=forced)
            if self.done(stop):
                return
        if not self.conds or not (self.corpus or self.near):
            return
        dry = 0
        for i in range(nguide):
            m = self.mutate()
            if m is None:
                continue
            self.run(*m)
            if self.done(stop):
                return


    def more(self, seconds):
        """go on in several processes at a time"""
        global SPENT
        seconds = min(seconds, WIDE - SPENT, SOFT - time.time())
        jobs = int(os.environ.get("HV_JOBS", os.cpu_count() or 1))
        if seconds < 5 or jobs < 2 or not hasattr(os, "fork"):
            return
        t0 = time.time()
        pipes = []
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    b = self.counts()
                    self.salt += 1000 * (j + 1)
                    self.rng.seed(self.salt)
                    self.limit = seconds
                    self.go(120, 60, 100000, self.d + 3)
                    a = self.counts()
                    os.write(w, repr([x - y for x, y in zip(a[:5], b[:5])] +
                                     [max(a[5] - b[5], 0)]).encode())
                finally:
                    os._exit(0)
            os.close(w)
            pipes.append((pid, r))
        for pid, r in pipes:
            out = b""
            while True:
                x = os.read(r, 4096)
                if not x:
                    break
                out += x
            os.close(r)
            os.waitpid(pid, 0)
            if out:
                n, d, clean, plain, mixed, reach = ast.literal_eval(out.decode())
                self.n, self.d, self.clean, self.plain, self.mixed = \
                    self.n + n, self.d + d, self.clean + clean, self.plain + plain, self.mixed + mixed
                if self.reach:
                    k = max(self.reach, key=self.reach.get)
                    self.reach[k] += reach
                elif reach:
                    self.reach[0] = reach
        SPENT += time.time() - t0

    def counts(self):
        return self.n, self.d, self.clean, self.plain, self.mixed, max(self.reach.values(), default=0)


SOFT = float("inf")             # when to come to an end
WIDE, SPENT = 240.0, 0.0       # seconds for going on, in all
SALT = 0        # from VERIF_SEED: other valuations for another seed


def separate(c, s, cls, nsamp=NSAMP, ndir=NDIR, nguide=NGUIDE, stop=3, salt=0, guards=()):
    q = Search(c, s, cls, salt + 7 * SALT, guards=guards)
    q.go(nsamp, ndir, nguide, stop)
    return q.n, q.d, q.wits


ENOUGH = 20     # usable valuations with unrolled loops


def unrolled(c, s, cls=Unroll, salt=0, limit=20.0, guards=(), wits=(), extra=()):
    q = Search(c, s, cls, salt + 7 * SALT, limit, guards, extra)
    for seed, table in wits:
        q.run(seed, fkeys=table)            # what separates the two with loops taken as they are
    q.go(120, 120, 5000)
    return q


def shaped(c, s, guards, strict, extra=()):
    """the verdict with the arrays over the grid taken element by element, if that tells anything"""
    if not any(shape_of(x) for t in (c, s) for x in subterms(t).values()):
        return None
    q = unrolled(c, s, UnrollShaped, 9, guards=guards, extra=extra)
    if q.n < ENOUGH and q.d < 3 or q.mixed:
        return None
    if q.d == 0:
        return "EQUAL" if q.n >= 100 else None
    return "DIFF" if q.clean >= 3 or q.d >= 3 and not strict else None


def element_types(t):
    """element types of the arrays made in t"""
    out = []
    for x in subterms(t).values():
        if x.op == "call" and x.a[0] in ("zeros", "ones", "empty"):
            dt = dict(x.a[2]).get("dtype")
            g = dt.a[0] if dt is not None and dt.op == "glob" else "float" if dt is None else "?"
            out.append("int" if g.startswith(("int", "uint")) else "float" if g.startswith("float") else g)
    return sorted(out)


def retyped(c, s):
    """as many arrays, but of other element types"""
    x, y = element_types(c), element_types(s)
    return x != y and len(x) == len(y)


SHORT = {"float": {"float32", "float16"}, "float32": {"float16"}, "int": {"int8", "int16", "uint8", "uint16"},
         "int32": {"int8", "int16", "uint8", "uint16"}}
HALF = ("float32", "float16", "f4", "<f4", "f2", "<f2", "single", "half")


def typename(t):
    n = t.a[0] if t.op == "glob" else t.a[1] if is_const(t, "str") else "?"
    return str(n).replace("ext:", "").replace("numpy.", "").replace("np.", "")


def types_made(t):
    out = {}
    for x in subterms(t).values():
        if x.op == "call" and x.a[0] in ("zeros", "ones", "empty"):
            dt = dict(x.a[2]).get("dtype")
            n = "float" if dt is None else typename(dt)
            out[n] = out.get(n, 0) + 1
    return out


def halved(t):
    """is something turned into numbers of less than double precision"""
    for x in subterms(t).values():
        if x.op == "call" and (x.a[0] in ("np.float32", "np.float16", "np.single", "np.half") or
                               x.a[0] == "astype" and len(x.a[1]) > 1 and typename(x.a[1][1]) in HALF or
                               typename(dict(x.a[2]).get("dtype", NONE)) in HALF):
            return True
    return False


def narrowed(c, s):
    """the values are kept in shorter numbers than in the reference"""
    if halved(c) and not halved(s):
        return True
    x, y = types_made(c), types_made(s)
    if sum(x.values()) != sum(y.values()):
        return False
    more = {k for k in x if x[k] > y.get(k, 0)}
    less = {k for k in y if y[k] > x.get(k, 0)}
    whole = any(v.op == "store" and not isint(v.a[2]) and not (v.a[2].op == "call" and v.a[2].a[0] in ("zeros", "ones"))
                for v in subterms(c).values())
    return bool(more) and all(any(m in SHORT.get(l, ()) or l == "float" and whole and m in ("int", "int32", "int64")
                                  for l in less) for m in more)


FLAT = {("call", n) for n in ("any", "all", "len", "list", "fs:rmdir", "fs:unlink", "fs:remove", "m:iterdir", "os.listdir", "m:is_dir",
                              "m:exists", "m:is_file", "m:is_symlink", "os.path.isdir", "os.path.isfile", "os.path.exists")}


def leaves_tree(c, s):
    """a directory tree that the reference removes is never walked"""
    hc, hs = heads(c), heads(s)
    return ("call", "fs:rmtree") in hs - hc and all(h in FLAT or h[0] not in ("call", "new", "m") for h in hc - hs)


def levels(t):
    """numbers something is compared with"""
    out = set()
    for x in subterms(t).values():
        if x.op in ("lt", "eq") or x.op == "call" and (x.a[0] in BINARY or x.a[0] in ("mod", "floordiv", "min", "max")):
            for y in (x.a if x.op != "call" else x.a[1]):
                if isinstance(y, T):
                    out |= {abs(k) for k in ([y.a[1]] if y.op == "const" and y.a[0] == "num" else
                                             [k for m, k in y.a[0] if not m] if y.op == "poly" else [])}
    return out


def beyond(t):
    """numbers that the index of a round is compared with or divided by, and that the unrolled rounds do not reach"""
    out = set()
    for x in subterms(t).values():
        if x.op in ("lt", "eq") or x.op == "call" and x.a[0] in ("mod", "floordiv", "min", "max"):
            ys = x.a if x.op != "call" else x.a[1]
            sub = {k: v for y in ys for k, v in subterms(y).items()}
            if len(sub) > 12 or not any(y.op == "ix" for y in sub.values()):
                continue
            for y in sub.values():
                cs = [y.a[1]] if y.op == "const" and y.a[0] == "num" else [k for m, k in y.a[0] if not m] if y.op == "poly" else []
                out |= {abs(k) for k in cs if abs(k) > 5}
    return out


def made(t):
    """the places where objects are made"""
    return {(x.a[0], x.a[2].id, len(x.a[3])) for x in subterms(t).values() if x.op == "new"}


def sized(c, s):
    """where one side asks for the length of something and the other whether it is empty, ask for the length"""
    lens, truths = set(), {}
    for t in (c, s):
        for x in subterms(t).values():
            if x.op == "call" and x.a[0] == "len" and len(x.a[1]) == 1:
                lens.add(x.a[1][0].id)
            elif x.op == "truth":
                truths[x] = x.a[0]
    m = {x: not_(eq(mk("call", "len", (y,), ()), ZERO)) for x, y in truths.items() if y.id in lens}
    return (subst(c, m), subst(s, m)) if m else (c, s)


def compare(c, s, known_attrs=None, initial=None, kept=None, guards=(), vocab=()):
    if c is s:
        return Result("PROVED")
    c, s = sized(c, s)
    if c is s:
        return Result("EQUAL", "empty means of length 0")
    n, d, wits = separate(c, s, Sample, guards=guards)
    if d == 0:
        if n < 40:
            return Result("UNDECIDED", "too few usable valuations (%d)" % n, n, d)
        if loopset(c) == loopset(s) and beyond(c) - beyond(s) and not comparable(c, s, known_attrs, initial, kept, vocab=vocab):
            return Result("DIFF", "", n, d, explain(c, s))
        return Result("EQUAL", "", n, d)
    if d < 2:
        return Result("UNDECIDED", "one separating valuation only", n, d)
    if narrowed(c, s) or leaves_tree(c, s):
        return Result("DIFF", "", n, d, explain(c, s))
    if depth(s) >= 4 and s.id in subterms(c) and ("call", "astype") not in heads(c):
        # the reference's array, and the code goes on with it
        x = mk("attr", mk("in_", "the array"), "X")
        r = shaped(subst(c, {s: x}), x, (), True, extras(c, s, known_attrs, vocab))
        if r is not None:
            return Result(r, "the array is changed further" if r == "DIFF" else "element by element", n, d,
                          explain(c, s) if r == "DIFF" else None)
    q = unrolled(c, s, guards=guards, wits=wits, extra=extras(c, s, known_attrs, vocab))
    if q.late() and q.d < 3 and (q.n or q.mixed):
        q.more(60)
    usable = q.n >= ENOUGH or q.d >= 3
    n += q.n
    fresh = initial is not None and initial.id in subterms(c) and initial.id not in subterms(s)
    fresh = fresh or any(x.op == "undefname" for x in subterms(c).values()) and \
        not any(x.op == "undefname" for x in subterms(s).values())
    strict = comparable(c, s, known_attrs, initial, kept, vocab=vocab)
    if q.d == 0 and q.mixed >= ENOUGH:
        r = shaped(c, s, guards, strict, extras(c, s, known_attrs, vocab))
        if r is not None:
            return Result(r, "element by element", n, d, explain(c, s) if r == "DIFF" else None)
        if strict and not fresh:
            return Result("UNDECIDED", "an array as a whole against its elements", n, d)
    elif usable and q.d == 0 and (q.exercised() or strict):
        if not retyped(c, s):
            if not strict and loopset(c) == loopset(s) and beyond(c) - beyond(s):
                return Result("DIFF", "", n, d, explain(c, s))
            return Result("EQUAL", "with loops unrolled", n, d)
        if strict:
            return Result("UNDECIDED", "arrays of other element types", n, d)
    elif usable and q.d == 0 and q.late():
        return Result("UNDECIDED", "too few valuations in time", n, d)
    if usable and q.d == 1:
        return Result("UNDECIDED", "one separating valuation only", n, d)
    r = shaped(c, s, guards, strict, extras(c, s, known_attrs, vocab)) if strict and not strict.startswith("loops over") else None
    if r is not None:
        return Result(r, "element by element", n, d, explain(c, s) if r == "DIFF" else None)
    why = comparable(c, s, known_attrs, initial, kept, usable,
                     usable and q.d >= 3 and q.n <= 2 * q.d and not q.mixed, vocab, usable and q.clean >= 2,
                     usable and q.plain >= 3)
    if why:
        return Result("UNDECIDED", why, n, d)
    if usable and q.d and made(c) != made(s):
        q = unrolled(c, s, UnrollBare, 5, guards=guards)
        if q.d < 2:
            return Result("UNDECIDED", "differs only in where objects are made", n, d)
    if any(x.op == "draw" for x in subterms(c).values()):
        n2, d2, _ = separate(c, s, NoCount, salt=3, guards=guards)
        if d2 < 2:
            return Result("UNDECIDED", "differs only in the order of random draws", n, d)
        if usable and q.d:
            q = unrolled(c, s, UnrollNoCtx if loopset(c) != loopset(s) else UnrollNoCount, 3,
                         guards=guards)
            if q.d < 2:
                return Result("UNDECIDED", "differs only in the order of random draws", n, d)
    return Result("DIFF", "", n, d, explain(c, s))


def entry_value(c, s):
    """c is what s has before one of its loops: the loop was removed"""
    for x in subterms(s).values():
        if x.op == "lout" and any(i is c for i, _ in x.a[2]):
            return True
    return False


def kept_loops(c, s, kept):
    """are all loops of s that c lacks still part of another observable"""
    sc, ss = subterms(c), subterms(s)
    miss = [x for i, x in ss.items() if x.op in ("lout", "map") and i not in sc]
    inner = {i for x in miss for i in subterms(x) if i != x.id}
    top = [x for x in miss if x.id not in inner]
    return bool(top) and all(x.id in kept for x in top)


def bound_atoms(t):
    out = set()
    for x in subterms(t).values():
        if x.op in ("lout", "map"):
            for y in atoms(x.a[0]):
                out.add(anon(y))
    return out


def atoms(n):
    """what a number of rounds is computed from"""
    if n.op == "poly":
        return [y for m, _ in n.a[0] for z, _ in m for y in atoms(z)]
    if n.op == "call" and n.a[0] in ("min", "max", "ceil", "floor", "int"):
        return [y for z in n.a[1] for y in atoms(z)]
    return [] if n.op in ("const", "inf", "undefname") else [n]


def anon(y):
    """kind of a bound"""
    return ("o", y.op, y.a[0] if y.op == "call" else (y.a[1] if y.op == "attr" else None))


GRIDN = {("o", "attr", n) for n in ("nx", "ny", "nz")}


def depth(t, memo=None):
    """how deep loops are nested"""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        r = max([depth(x, memo) for x in _flat(t.a)] or [0])
        r = memo[t.id] = r + (t.op in ("lout", "map"))
    return r


FAMILY = {"uniform": "u", "random": "u", "rand": "u", "random_sample": "u", "ranf": "u", "sample": "u", "choice": "u",
          "normal": "n", "randn": "n", "standard_normal": "n", "lognormal": "ln", "multivariate_normal": "n",
          "randint": "i", "integers": "i", "random_integers": "i", "permutation": "i", "shuffle": "i",
          "exponential": "e", "standard_exponential": "e", "gamma": "g", "poisson": "p", "multinomial": "b",
          "binomial": "b", "beta": "be", "triangular": "t", "laplace": "l", "weibull": "w", "vonmises": "v"}


def family(h):
    return FAMILY.get(str(h[1]).split(".")[-1]) if h[0] == "draw" and "random." in str(h[1]) else None


_DRAWN = {}


def drawn_by(name):
    """families of the distributions the reference draws from in a function"""
    f = family(("draw", name))
    if f:
        return {f}
    if not _DRAWN:
        uses = {}
        for p in SPEC.rglob("*.py"):
            for fn in ast.walk(ast.parse(p.read_text())):
                if isinstance(fn, (ast.FunctionDef, ast.ClassDef)):
                    u = uses.setdefault(fn.name, set())
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Attribute):
                            u.add(x.attr)
                        elif isinstance(x, ast.Name):
                            u.add(x.id)
        for n in uses:
            todo, seen = [n], {n}
            while todo:
                for u in uses.get(todo.pop(), ()):
                    if u not in seen:
                        seen.add(u)
                        todo.append(u)
            _DRAWN[n] = {FAMILY[u] for u in seen if u in FAMILY}
    n = str(name).split("!")[0].split(".")[-1].split(":")[-1].split(" ")[-1]
    return _DRAWN.get(n, set())


def extras(c, s, known_attrs, vocab=()):
    """operations the code uses and the reference does not"""
    extra = set()
    known = set()
    for h in set(vocab) | heads(s):
        if h[0] in ("draw", "new", "call"):
            known |= drawn_by(h[1])
    if any(x.op == "call" and x.a[0] == "exp" for x in subterms(s).values()):
        known.add("ln")
    for h in heads(c) - heads(s):
        if h in vocab or h[0] == "attr" and known_attrs is not None and h[1] in known_attrs:
            continue
        if h[0] in ("in", "from the length"):
            continue
        if h == ("glob", "dict"):
            continue
        if h[0] == "exc" and all(n.startswith("fn:") for e, ns in exc_atoms(c) if e == h[1] for n in ns) and not exc_atoms(s):
            continue            # an error inside a function of the package is no longer reported
        if h[0] == "draw" and family(h) not in known and not (family(h) in "ui" and known & {"u", "i", "b"}):
            continue            # numbers drawn from another distribution than any the reference draws from
        if h[0] == "glob" and (h[1] == "pi" or h[1] in DTYPES):
            continue
        if h[0] == "undefname":
            continue            # raises a NameError when it is reached
        extra.add(h)
    return extra


def whole_array(v):
    return isinstance(v, tuple) and v[:1] in (("A",), ("L",), ("F",), ("X",), ("lcat",), ("st",))


def whole(c, s):
    """c uses arrays as a whole whose elements s takes one by one"""
    one = {x.a[0].id for x in subterms(s).values() if x.op == "item" and not is_const(x.a[1])}
    for x in subterms(c).values():
        if x.op not in ("item", "len"):
            todo = list(x.a)
            while todo:
                y = todo.pop()
                if isinstance(y, tuple):
                    todo.extend(y)
                elif isinstance(y, T) and y.id in one:
                    return True
    return False


def comparable(c, s, known_attrs, initial, kept=None, unrolled=False, plain=False, vocab=(), clean=False, scalar=False):
    hc, hs = heads(c), heads(s)
    extra = () if clean else extras(c, s, known_attrs, vocab)
    if ("from the end",) in hs - hc and ("from the length",) in hc - hs:
        return "indices counted from the end against indices counted from the length"
    if extra:
        return "operations the reference does not have: " + ", ".join(sorted(map(str, extra))[:6])
    if initial is not None and c is initial:
        return ""
    lc, ls = loopset(c), loopset(s)
    if lc != ls and not lc and entry_value(c, s):
        return ""
    if ("undefname" in {h[0] for h in hc - hs}):
        return ""
    if lc < ls and all(x[0] == "lout" and x[2] for x in ls - lc):
        return ""               # a search over elements was dropped
    if kept and lc < ls and kept_loops(c, s, kept):
        return ""               # the loop is still there, but does not reach this observable
    if ls and not lc and scalar and not extras(c, s, known_attrs, vocab) and not whole(c, s):
        return ""               # a single value, computed without looking at all elements
    bc, bs = bound_atoms(c), bound_atoms(s)
    if not bc <= bs and (not bc - bs <= GRIDN or lc != ls or not bs & GRIDN):
        return "loops over something the reference does not loop over"
    if lc != ls and unrolled and bc == bs and depth(c) == depth(s):
        return ""
    if lc != ls and lc and plain and depth(c) <= depth(s):
        return ""               # less than the reference does, and nearly always something else
    if lc != ls:
        return "different loop structure: %s / %s" % (sorted(lc - ls), sorted(ls - lc))
    ob1, ob2 = outer_bounds(c), outer_bounds(s)
    if ob1 != ob2 and sorted(ob1) == sorted(ob2):
        return "loops nested in another order"
    if exc_atoms(c) != exc_atoms(s):
        ea, es = exc_atoms(c), exc_atoms(s)
        if {x[1] for x in ea} != {x[1] for x in es} and (es or any(not n.startswith("fn:") for x in ea for n in x[1])):
            return "different operations guarded by an exception handler"
    return ""


def explain(c, s, seen=None):
    """smallest differing pairs of operations; list of (code term, reference term)"""
    seen = set() if seen is None else seen
    if c is s or (c.id, s.id) in seen or len(seen) > 4000:
        return []
    seen.add((c.id, s.id))
    for x, y, turn in ((c, s, False), (s, c, True)):
        # one side is the other, unless some condition holds
        if x.op == "ite" and (x.a[1] is y) != (x.a[2] is y):
            z = x.a[2] if x.a[1] is y else x.a[1]
            return explain(y, z, seen) if turn else explain(z, y, seen)
    if c.op != s.op or len(c.a) != len(s.a) or c.op in ("const", "in_"):
        return [(c, s)]
    if c.op in ("call", "draw", "new", "attr", "isinstance") and not isinstance(c.a[0], T) and c.a[0] != s.a[0]:
        return [(c, s)]
    if c.op == "attr" and c.a[1] != s.a[1]:
        return [(c, s)]
    fc, fs = _flat(c.a), _flat(s.a)
    if len(fc) != len(fs):
        return [(c, s)]
    dif = [(x, y) for x, y in zip(fc, fs) if x is not y]
    if c.op in ("poly", "lt", "eq") and not (len(dif) == 1 and c.op != "poly"):
        return [(c, s)]
    if not dif:
        return [(c, s)]
    out = []
    for x, y in dif:
        for p in explain(x, y, seen):
            if p not in out:
                out.append(p)
        if len(out) >= 6:
            break
    return out[:6]
