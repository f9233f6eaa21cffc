"""Abstract values and abstract states of the MIR interpreter."""
from terms import *


class Agg:
    """struct / enum variant / tuple / closure / box"""
    __slots__ = ("name", "v", "fs", "ty")

    def __init__(self, name, fs, v=0, ty=None):
        self.name, self.fs, self.v, self.ty = name, tuple(fs), v, ty

    def __repr__(self):
        return f"{self.name.split('::')[-1]}#{self.v}{self.fs!r}"

    def with_field(self, i, x):
        fs = list(self.fs)
        while len(fs) <= i:
            fs.append(None)
        fs[i] = x
        return Agg(self.name, fs, self.v, self.ty)


def tup(*a):
    return Agg("()", a)


UNIT = tup()


def some(x):
    return Agg("Option", (x,), 1)


NONE = Agg("Option", (), 0)


def ok(x):
    return Agg("Result", (x,), 0)


def err(x):
    return Agg("Result", (x,), 1)


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return f"&{self.cell}{list(self.path)}"


class MView:
    """mutable rectangular window of a matrix in memory"""
    __slots__ = ("ref", "i0", "j0", "nr", "nc", "vec")

    def __init__(self, ref, i0, j0, nr, nc, vec):
        self.ref, self.i0, self.j0, self.nr, self.nc, self.vec = ref, i0, j0, nr, nc, vec

    def __repr__(self):
        return f"view({self.ref},{self.i0},{self.j0};{self.nr}x{self.nc})"


class Arr:
    """dense matrix of reals, extensional: dimensions and an element function"""
    __slots__ = ("nr", "nc", "fn", "memo", "vec")

    def __init__(self, nr, nc, fn, vec=False):
        self.nr, self.nc, self.fn, self.vec = Lin.of(nr), Lin.of(nc), fn, vec
        self.memo = {}

    def el(self, i, j=0):
        i, j = Lin.of(i), Lin.of(j)
        k = (i, j)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.fn(i, j)
        return r

    def __repr__(self):
        return f"[{self.nr}x{self.nc}: {show(self.el('λi', 'λj'))}]"


def avec(n, fn):
    return Arr(n, 1, lambda i, j: fn(i), True)


class VVec:
    """Vec<T> of non-scalar or scalar values: contiguous segments (lo, hi, fn) plus point updates"""
    __slots__ = ("len", "segs", "upd", "gen")

    def __init__(self, ln, segs, upd=(), gen=None):
        self.len, self.segs, self.upd = Lin.of(ln), tuple(segs), tuple(upd)
        self.gen = gen          # candidate loop invariant: number of iterations -> vector

    def __repr__(self):
        return f"Vec(len={self.len},{len(self.segs)} segs,{len(self.upd)} upd)"

    def push(self, x):
        l = self.len
        return VVec(l + 1, self.segs + ((l, l + 1, lambda k, x=x: x),), self.upd)


class Iter:
    """abstract iterator: position, number of items, item function (state, position) -> value"""
    __slots__ = ("pos", "count", "fn", "kind")

    def __init__(self, pos, count, fn, kind="it"):
        self.pos, self.count, self.fn, self.kind = Lin.of(pos), Lin.of(count), fn, kind

    def __repr__(self):
        return f"Iter({self.kind},{self.pos}/{self.count})"


class PredIter:
    """filter / take_while over an iterator: predicate kept symbolic; only consumers that count make sense"""
    __slots__ = ("mode", "it", "pred", "limit")

    def __init__(self, mode, it, pred, limit=None):
        self.mode, self.it, self.pred, self.limit = mode, it, pred, limit


class FnV:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return f"fn{self.ty}"


class Unk:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"Unk({self.why})"


class Svd:
    __slots__ = ("a", "u", "v")

    def __init__(self, a, u, v):
        self.a, self.u, self.v = a, u, v


class OrdV:
    """Ordering of two reals"""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class Opt:
    """Option<f64>-like comparison key: minimum/maximum item of an array"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


# ---------------------------------------------------------------- boolean formulas (values of type bool)
# True | False | ("lit", l) | ("not", f) | ("and", f, g) | ("or", f, g) | ("all", var, lo, hi, f)
def f_lit(l):
    v = lit_const(l)
    return v if v is not None else ("lit", l)


def f_not(f):
    if f is True or f is False:
        return not f
    if f[0] == "not":
        return f[1]
    return ("not", f)


def f_and(f, g):
    if f is False or g is False:
        return False
    if f is True:
        return g
    if g is True:
        return f
    return ("and", f, g)


def f_or(f, g):
    return f_not(f_and(f_not(f), f_not(g)))


def dnf(f, pol=True):
    """list of literal conjunctions; mutually exclusive"""
    if f is True or f is False:
        return [[]] if f == pol else []
    k = f[0]
    if k == "lit":
        l = f[1] if pol else lit_neg(f[1])
        return [[l]]
    if k == "not":
        return dnf(f[1], not pol)
    if k in ("and", "or"):
        conj = (k == "and") == pol
        a, b = dnf(f[1], pol), dnf(f[2], pol)
        if conj:
            return [x + y for x in a for y in b]
        na = dnf(f[1], not pol)
        return a + [x + y for x in na for y in b]
    if k == "all":
        _, v, lo, hi, g = f
        pos = dnf(g, True)
        if pol:
            if len(pos) == 1:
                return [[("forall", v, lo, hi) + (tuple(pos[0]),)]]
            return [[("b", f, True)]]
        w = fresh("w")
        out = []
        for c in dnf(g, False):
            out.append([("le", lo - w), ("le", Lin.of(w) - hi)] + [subst(l, {v: Lin.of(w)}) for l in c])
        return out
    raise ValueError(f)


# ---------------------------------------------------------------- states
class St:
    __slots__ = ("ctx", "mem", "path")

    def __init__(self, ctx, mem=None, path=()):
        self.ctx, self.mem, self.path = ctx, mem if mem is not None else {}, path

    def fork(self):
        return St(self.ctx, dict(self.mem), self.path)

    def assume(self, *lits):
        """new state with the literals assumed, or None"""
        c = self.ctx.assume(*lits)
        if c is None:
            return None
        new = tuple(l for l in lits if l not in self.path and lit_const_safe(l) is None)
        return St(c, dict(self.mem), self.path + new)

    def with_ctx(self, *lits):
        """assume facts (not recorded as branch decisions)"""
        c = self.ctx.assume(*lits)
        return None if c is None else St(c, dict(self.mem), self.path)


def lit_const_safe(l):
    return lit_const(l) if l[0] in ("le", "eq", "ne", "fr") else None


def map_terms(v, f, lf=None):
    """apply f to every term (and lf to every Lin) inside a value"""
    lf = lf or (lambda x: x)
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Lin):
        return lf(v)
    if isinstance(v, Agg):
        return Agg(v.name, [map_terms(x, f, lf) for x in v.fs], v.v, v.ty)
    if isinstance(v, Arr):
        return Arr(lf(v.nr), lf(v.nc), lambda i, j: f(v.el(i, j)), v.vec)
    if isinstance(v, VVec):
        return VVec(lf(v.len), [(lf(a), lf(b), lambda k, g=g: map_terms(g(k), f, lf)) for a, b, g in v.segs],
                    [(lf(i), map_terms(x, f, lf)) for i, x in v.upd])
    if isinstance(v, Iter):
        return Iter(lf(v.pos), lf(v.count), v.fn, v.kind)
    return v


def subst_val(v, m):
    """substitute integer symbols in a value"""
    def f(t):
        return subst(t, m)

    def go(v):
        if isinstance(v, T):
            return subst(v, m)
        if isinstance(v, Lin):
            return v.subst(m)
        if isinstance(v, Agg):
            return Agg(v.name, [go(x) for x in v.fs], v.v, v.ty)
        if isinstance(v, Arr):
            # element functions are closed over the symbols: evaluate at fresh indices, then substitute
            gen = []

            def el(i, j, v=v):
                if not gen:
                    a, b = fresh("x"), fresh("y")
                    gen.append((a, b, subst(v.el(Lin.of(a), Lin.of(b)), m)))
                a, b, t = gen[0]
                return subst(t, {a: i, b: j})
            return Arr(v.nr.subst(m), v.nc.subst(m), el, v.vec)
        if isinstance(v, VVec):
            def mkfn(g):
                def fn(k):
                    a = fresh("x")
                    return subst_val(subst_val(g(Lin.of(a)), m), {a: k})
                return fn
            return VVec(v.len.subst(m), [(a.subst(m), b.subst(m), mkfn(g)) for a, b, g in v.segs],
                        [(i.subst(m), go(x)) for i, x in v.upd])
        if isinstance(v, Iter):
            return Iter(v.pos.subst(m), v.count.subst(m), v.fn, v.kind)
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            return subst(v, m)
        if isinstance(v, Ref):
            return Ref(v.cell, tuple(tuple(x.subst(m) if isinstance(x, Lin) else x for x in p) for p in v.path))
        if isinstance(v, Svd):
            return Svd(go(v.a), v.u, v.v)
        return v
    return go(v)
