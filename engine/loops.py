"""Loop summaries: induction variables, accumulators, parametric array writes, pushed vectors.  Every closed form is
re-checked to be inductive (state at the head with t iterations done -> state at the back edge == form at t+1)."""
from values import *
from compare import compare, EQ_, tainted, TAINT

MAXR = 9


class Unsupported_(Exception):
    pass


class G:
    """guess for one leaf"""
    solved = True
    tries = 0


class LinG(G):
    def __init__(self, init, c):
        self.init, self.c = init, c

    def at(self, t):
        return self.init + Lin.of(t) * self.c


class HavocG(G):
    def __init__(self, init, t0):
        self.init = init
        self.id = fresh("h")

    def at(self, t):
        i = self.init
        if isinstance(i, Lin):
            return Lin.of(keyed_sym("havoc", (self.id, Lin.of(t)), self.id, Lin.of(t)))
        if isinstance(i, T):
            return unk("loop " + self.id)
        if isinstance(i, Arr):
            t = Lin.of(t)
            return Arr(i.nr, i.nc, lambda a, b: sel("havoc" + self.id, t, Lin.of(a), Lin.of(b)), i.vec)
        return Unk("loop-carried " + self.id)


class PhiG(G):
    solved = False

    def __init__(self, init):
        self.init = init
        self.id = fresh("phi")

    def at(self, t):
        i = self.init
        if isinstance(i, T):
            return mk("var", self.id)
        if isinstance(i, Arr):
            return Arr(i.nr, i.nc, lambda a, b: sel(self.id, a, b), i.vec)
        raise TypeError


class RefG(G):
    """a reference whose index components move linearly"""

    def __init__(self, init, steps):
        self.init, self.steps = init, steps

    def at(self, t):
        t = Lin.of(t)
        k = 0
        path = []
        for e in self.init.path:
            ne = []
            for x in e:
                if isinstance(x, Lin):
                    x = x + t * self.steps[k]
                    k += 1
                ne.append(x)
            path.append(tuple(ne))
        return Ref(self.init.cell, path)


def ref_steps(a, b, ctx):
    """constant steps of the index components from a to b, or None"""
    if a.cell != b.cell or len(a.path) != len(b.path):
        return None
    out = []
    for x, y in zip(a.path, b.path):
        if len(x) != len(y):
            return None
        for p, q in zip(x, y):
            if isinstance(p, Lin) and isinstance(q, Lin):
                d = ctx.canon(q - p)
                if not d.is_const():
                    return None
                out.append(d.c)
            elif p != q:
                return None
    return tuple(out)


class BoolG(G):
    def __init__(self, init, v):
        self.init, self.v = init, v

    def at(self, t):
        z = f_lit(("eq", Lin.of(t)))
        return f_or(f_and(z, self.init), f_and(f_not(z), self.v))


def path_formula(s, common, own):
    """condition of one way through the body, or None if it depends on more than the iteration"""
    f = True
    for l in s.path:
        if l in common:
            continue
        if l[0] not in ("le", "eq", "ne", "fr") or tainted(l[1:]) or any(symnum(y) > own for y in lit_vars(l)):
            return None
        f = f_and(f, f_lit(l))
    return f


class CountG(G):
    """number of iterations in which a condition held"""

    def __init__(self, init, f, t):
        self.init, self.f, self.t = init, f, t

    def args(self, T):
        return (Lin(0), Lin.of(T), self.f)

    def at(self, T):
        import models
        T = Lin.of(T)
        if T.is_const() and T.c == 0:
            return self.init
        return self.init + models.count_sym("filter", self.t, Lin(0), T, self.f)

    def kept(self, h, b, ctx):
        """the value after one iteration is right"""
        d = ctx.canon(b - h)
        if not d.is_const() or d.c not in (0, 1):
            return False
        return holds(self.f if d.c else f_not(self.f), ctx)


class AllG(G):
    """a flag that stays up while a condition holds in each iteration (dual: goes up once one holds)"""

    def __init__(self, c, t, up):
        self.c, self.t, self.up = c, t, up
        self.v = fresh("w")

    def at(self, T):
        T = Lin.of(T)
        if T.is_const() and T.c == 0:
            return self.up
        c = self.c if self.up else f_not(self.c)
        f = ("all", self.v, Lin(0), T - 1, f_sub(c, {self.t: Lin.of(self.v)}))
        return f if self.up else f_not(f)

    def kept(self, h, b, ctx):
        if b == (f_and(h, self.c) if self.up else f_or(h, self.c)) or b == (f_and(self.c, h) if self.up else f_or(self.c, h)):
            return True
        if b == h:
            return holds(self.c if self.up else f_not(self.c), ctx)
        if b == (not self.up):
            return holds(f_not(self.c) if self.up else self.c, ctx)
        return False


def f_sub(f, m):
    return f if f is True or f is False else subst(f, m)


def holds(f, ctx):
    if f is True or f is False:
        return f
    return any(all(ctx.entails(l) for l in c) for c in dnf(f))


class TermG(G):
    """at(t) given by a python function of the iteration count"""

    def __init__(self, init, f):
        self.init, self.f = init, f

    def at(self, t):
        return self.f(Lin.of(t))


class PendG(G):
    """vector modified in a way not understood yet: re-examined in the next round"""
    solved = False

    def __init__(self, init):
        self.init = init

    def at(self, t):
        return self.init


class PushG(G):
    solved = False

    def __init__(self, init, sample):
        self.init, self.sample = init, sample
        self.id = fresh("phi")
        self.fn = None

    def elem(self, s):
        if self.fn is not None:
            return self.fn(s)
        x = self.sample
        if isinstance(x, Arr):
            nr = phidim("phinr", self.id, s)
            nc = x.nc if x.vec else phidim("phinc", self.id, s)
            return Arr(nr, nc, lambda a, b: sel(self.id, s, a, b), x.vec)
        if isinstance(x, T):
            return sel(self.id, s)
        return Unk("pushed")

    def at(self, t):
        b, t = self.init, Lin.of(t)
        return VVec(b.len + t, b.segs + ((b.len, b.len + t, lambda k: self.elem(k - b.len)),), b.upd)


class UpdG(G):
    def __init__(self, init, sgn, c0, fn, ctx):
        self.init, self.sgn, self.c0, self.fn, self.ctx = init, sgn, c0, fn, ctx

    def at(self, t):
        t = Lin.of(t)
        b, c0 = self.init, self.c0
        lo, hi = (c0, c0 + t) if self.sgn > 0 else (c0 - t + 1, c0 + 1)
        if self.sgn > 0:
            def f(k):
                return self.fn(k - c0)
        else:
            def f(k):
                return self.fn(c0 - k)
        segs = []
        for (x, y, g) in b.segs:
            segs.append((x, y, g))
        if len(segs) == 1 and not b.upd:
            x, y, g = segs[0]
            return VVec(b.len, [(x, lo, g), (lo, hi, f), (hi, y, g)])
        # several segments: written window must lie in one of them
        out = []
        done = False
        for (x, y, g) in segs:
            if not done and self.ctx.prove_le(x - c0) and self.ctx.prove_le(c0 + 1 - y) and not b.upd:
                out += [(x, lo, g), (lo, hi, f), (hi, y, g)]
                done = True
            else:
                out.append((x, y, g))
        return VVec(b.len, out) if done else Unk("window")


def phidim(kind, id_, s):
    return Lin.of(keyed_sym(kind, (id_, s), id_, s))


for _k in ("phinr", "phinc", "havoc"):
    REBUILD[_k] = lambda key, p, k=_k: Lin.of(keyed_sym(k, (p[0], p[1]), p[0], p[1]))


def lits_subst(lits, m):
    return [subst(l, m) for l in lits]


UNFOLD = {}      # recurrences: name of an uninterpreted function -> (application, context) -> its defining term or None


def unfold(x, ctx):
    """applications of recurrences replaced by their definitions, as far as the context decides the case"""
    def f(y):
        if y.op == "app" and y.a[0] in UNFOLD:
            return UNFOLD[y.a[0]](y, ctx)
        return None
    return replace_atoms(x, f)


def same_t(a, b, ctx):
    if compare(a, b, ctx).k == EQ_:
        return True
    if UNFOLD:
        c = unfold(a, ctx)
        if c is not a:
            return compare(c, b, ctx).k == EQ_ or compare(unfold(c, ctx), b, ctx).k == EQ_
    return False


def same(a, b, ctx):
    if a is b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return ctx.prove_eq(a - b)
    if isinstance(a, T) and isinstance(b, T):
        return same_t(a, b, ctx)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if not (ctx.prove_eq(a.nr - b.nr) and ctx.prove_eq(a.nc - b.nc)):
            return False
        i, j = fresh("x"), fresh("y")
        c = ctx.assume(("le", -Lin.of(i)), ("le", Lin.of(i) + 1 - a.nr), ("le", -Lin.of(j)), ("le", Lin.of(j) + 1 - a.nc))
        if c is None:
            return True
        return same_t(a.el(i, j), b.el(i, j), c)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(
            x[0] == y[0] and all((ctx.prove_eq(p - q) if isinstance(p, Lin) else p == q) for p, q in zip(x[1:], y[1:]))
            for x, y in zip(a.path, b.path))
    if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
        return a == b
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.name == b.name and a.v == b.v and len(a.fs) == len(b.fs) and all(
            same(x, y, ctx) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Iter) and isinstance(b, Iter):
        return a.fn is b.fn and same(a.pos, b.pos, ctx) and same(a.count, b.count, ctx)
    if isinstance(a, MView) and isinstance(b, MView):
        return same(a.ref, b.ref, ctx) and all(same(getattr(a, f), getattr(b, f), ctx) for f in ("i0", "j0", "nr", "nc"))
    if isinstance(a, FnV) and isinstance(b, FnV):
        return a.ty == b.ty
    if a is None and b is None:
        return True
    return False


def vv_same(a, b, ctx):
    """two vectors: same length, same elements on every overlap of their segments"""
    if a is b:
        return True
    if not ctx.prove_eq(a.len - b.len):
        return False
    pa, pb = vv_pieces(a, ctx), vv_pieces(b, ctx)
    if pa is None or pb is None:
        return False
    for (x, y, f) in pa:
        for (z, w, g) in pb:
            k = fresh("k")
            K = Lin.of(k)
            c = ctx.assume(("le", x - k), ("le", K + 1 - y), ("le", z - k), ("le", K + 1 - w))
            if c is None or f is g:
                continue
            if not same_any(f(K), g(K), c):
                return False
    return True


def same_any(a, b, ctx):
    if isinstance(a, VVec) and isinstance(b, VVec):
        return vv_same(a, b, ctx)
    return same(a, b, ctx)


def seg_same(x, y, ctx):
    """two segments hold the same elements"""
    if x[2] is y[2]:
        return True
    if not (ctx.prove_eq(x[0] - y[0]) and ctx.prove_eq(x[1] - y[1])):
        return False
    k = Lin.of(fresh("k"))
    c = ctx.assume(("le", x[0] - k), ("le", k + 1 - x[1]))
    return c is None or same_any(x[2](k), y[2](k), c)


def vv_pieces(v, ctx):
    """segments with updates folded in as singleton pieces (needs decided order); None if not possible"""
    out = list(v.segs)
    for i, x in v.upd:
        nx = []
        for (a, b, f) in out:
            if ctx.prove_le(a - i) and ctx.prove_le(i + 1 - b):
                nx += [(a, i, f), (i, i + 1, lambda k, x=x: x), (i + 1, b, f)]
            elif ctx.prove_le(i + 1 - a) or ctx.prove_le(b - i):
                nx.append((a, b, f))
            else:
                return None
        out = nx
    return out


def diffs(h, b, path, ctx, guesses, out, t):
    """collect leaves where the back-edge value b differs from the head value h (or from the guess at t+1)"""
    g = guesses.get(path)
    if isinstance(g, HavocG):
        return
    if g is not None:
        if isinstance(g, PendG) and isinstance(h, VVec) and isinstance(b, VVec):
            e = focus(h, b, ctx, t)
            x, y = (vlook(h, e, ctx), vlook(b, e, ctx)) if e is not None else (None, None)
            if x is not None and y is not None:
                del guesses[path]
                diffs(x, y, (path[0], path[1] + (("at", e),)), ctx, guesses, out, t)
                return
        if isinstance(g, (CountG, AllG)):
            if not (isinstance(b, Lin) if isinstance(g, CountG) else isinstance(b, (bool, tuple))) or not g.kept(h, b, ctx):
                out.setdefault(path, None)
            return
        want = g.at(Lin.of(t) + 1)
        if isinstance(g, (PhiG, PendG)) or (isinstance(g, PushG) and not g.solved):
            out.setdefault(path, None)
            return
        if not same_any(want, b, ctx):
            out.setdefault(path, None)
        return
    if h is b:
        return
    if isinstance(h, Agg) and isinstance(b, Agg) and h.name == b.name and h.v == b.v and len(h.fs) == len(b.fs):
        for i, (x, y) in enumerate(zip(h.fs, b.fs)):
            diffs(x, y, (path[0], path[1] + (("f", i),)), ctx, guesses, out, t)
        return
    if isinstance(h, Iter) and isinstance(b, Iter) and h.fn is b.fn:
        diffs(h.pos, b.pos, (path[0], path[1] + (("pos",),)), ctx, guesses, out, t)
        return
    if isinstance(h, VVec) and isinstance(b, VVec) and any(q[0] == path[0] and q[1][:len(path[1])] == path[1] for q in list(guesses) + list(out)):
        e = focus(h, b, ctx, t)
        if e is not None:
            x, y = vlook(h, e, ctx), vlook(b, e, ctx)
            if x is not None and y is not None:
                diffs(x, y, (path[0], path[1] + (("at", e),)), ctx, guesses, out, t)
                return
    if not same_any(h, b, ctx):
        out.setdefault(path, None)


def focus(h, b, ctx, t):
    """the one index, fixed during the loop, at which the elements of two vectors differ"""
    if len(h.segs) != len(b.segs) or any(x[2] is not y[2] for x, y in zip(h.segs, b.segs)) or not ctx.prove_eq(h.len - b.len):
        return None
    new = [u for u in b.upd if not any(u[0] == w[0] and u[1] is w[1] for w in h.upd)]
    if not new:
        return None
    e = new[0][0]
    if any(symnum(s) >= symnum(t) for s in e.syms()) or any(not ctx.prove_eq(u[0] - e) for u in new[1:]):
        return None
    return e


def vlook(v, e, ctx):
    for k, x in reversed(v.upd):
        if ctx.prove_eq(e - k):
            return x
        if not ctx.prove_ne(e - k):
            return None
    for a, b, fn in v.segs:
        if ctx.prove_le(a - e) and ctx.prove_le(e + 1 - b):
            return fn(e)
    return None


def leaf_get(mem, path, ctx=None):
    v = mem.get(path[0])
    for e in path[1]:
        if v is None:
            return None
        if e[0] == "f":
            v = v.fs[e[1]] if isinstance(v, Agg) and e[1] < len(v.fs) else None
        elif e[0] == "pos":
            v = v.pos if isinstance(v, Iter) else None
        elif e[0] == "at":
            v = vlook(v, e[1], ctx) if isinstance(v, VVec) and ctx is not None else None
    return v


def leaf_set(mem, path, x, ctx=None):
    def go(v, p):
        if not p:
            return x
        e = p[0]
        if e[0] == "f":
            return v.with_field(e[1], go(v.fs[e[1]], p[1:]))
        if e[0] == "pos":
            return Iter(go(v.pos, p[1:]), v.count, v.fn, v.kind)
        if e[0] == "at":
            y = go(vlook(v, e[1], ctx) if len(p) > 1 else None, p[1:])
            return VVec(v.len, v.segs, tuple(u for u in v.upd if u[0] != e[1]) + ((e[1], y),))
    mem[path[0]] = go(mem[path[0]], path[1])


def analyse(I, body, st0, where):
    t = fresh("t")
    T_ = Lin.of(t)
    guesses = {}
    np0 = len(I.panics)
    cont = []          # literals that hold at every iteration that completes (in terms of t)
    st0 = St(st0.ctx, dict(st0.mem), st0.path)
    basepath = st0.path
    for rnd in range(MAXR):
        del I.panics[np0:]
        head = mkhead(st0, guesses, t, cont)
        outs = body(head)
        backs = [s for tag, s, x in outs if tag == "back"]
        if not backs:
            # never iterates: re-run without the iteration symbol
            del I.panics[np0:]
            h = St(st0.ctx, dict(st0.mem), ())
            outs = body(h)
            return [(tag, St(s.ctx, s.mem, basepath + s.path), x) for tag, s, x in outs]
        common = [l for l in backs[0].path if all(l in s.path for s in backs[1:]) and l[0] in ("le", "eq", "ne", "fr")]
        common = [l for l in common if not tainted(l[1:]) and not any(symnum(y) > symnum(t) for y in lit_vars(l))]
        mods = {}
        for s in backs:
            for c in st0.mem:
                if c in s.mem:
                    diffs(head.mem[c], s.mem[c], (c, ()), s.ctx, guesses, mods, t)
                elif (c, ()) in guesses:
                    pass
                else:
                    mods[(c, ())] = None
        stable = not mods and common == cont
        cont = common
        if stable:
            break
        if not mods:
            continue
        progress = False
        lc = head.ctx.assume(*common) or head.ctx
        for p in sorted(mods, key=repr):
            vals = [(s, settle(leaf_get(s.mem, p, s.ctx), s.ctx, t)) for s in backs]
            g = guesses.get(p)
            init = leaf_get(st0.mem, p, st0.ctx)
            # a shape change above existing guesses swallows them
            for q in list(guesses):
                if q != p and q[0] == p[0] and q[1][:len(p[1])] == p[1]:
                    del guesses[q]
            n = update(I, g, p, init, vals, t, lc, common, rnd)
            if n is not g:
                guesses[p] = n
                if n.solved and not isinstance(n, HavocG):
                    progress = True
                if g is None:
                    progress = True
        if not progress or rnd >= MAXR - 3:
            for p in mods:
                g = guesses.get(p)
                if (g is None or not g.solved or rnd >= MAXR - 3) and not isinstance(g, HavocG):
                    I.notes.append(f"havoc {p} in {where}")
                    guesses[p] = HavocG(leaf_get(st0.mem, p, st0.ctx), t)
    else:
        # last resort: everything that moves is unknown
        cont = []
        I.notes.append("loop summary did not stabilise in " + where)
        for rnd in range(40):
            del I.panics[np0:]
            head = mkhead(st0, guesses, t, cont)
            outs = body(head)
            mods = {}
            for s in [s for tag, s, x in outs if tag == "back"]:
                for c in st0.mem:
                    if c in s.mem:
                        diffs(head.mem[c], s.mem[c], (c, ()), s.ctx, guesses, mods, t)
                    elif (c, ()) not in guesses:
                        mods[(c, ())] = None
            bad = [p for p in mods if not isinstance(guesses.get(p), HavocG)]
            if not bad:
                break
            for p in bad:
                for q in list(guesses):
                    if q != p and q[0] == p[0] and q[1][:len(p[1])] == p[1]:
                        del guesses[q]
                guesses[p] = HavocG(leaf_get(st0.mem, p, st0.ctx), t)
        else:
            raise Unsupported_("loop in " + where)
    # final: forked heads when the continue facts of the previous iteration are not invariants
    unc = [l for l in cont if not covered(st0, l, t)]
    res = []
    if unc:
        del I.panics[np0:]
        outs = []
        h0 = mkhead(st0, guesses, t, cont)
        for ls in ([("eq", T_)], [("le", 1 - T_)] + lits_subst(unc, {t: T_ - 1})):
            h = St(h0.ctx, dict(h0.mem), ())
            ok = [h]
            for l in ls:
                ok = [y for x in ok for y in I.assume_lits(x, [l])]
            for x in ok:
                outs += body(St(x.ctx, x.mem, x.path))
    for tag, s, x in outs:
        if tag == "back":
            continue
        fr = [l for l in cont if l[0] == "fr" and t in lit_vars(l)]
        if len(backs) > 1:
            alts = [tuple(l for l in s_.path if l[0] == "fr" and t in lit_vars(l) and l not in cont and not tainted(l[1:]))
                    for s_ in backs]
            if all(alts):
                fr = fr + [("or",) + tuple(alts)]
        if fr:
            v = fresh("s")
            s2 = s.with_ctx(("forall", v, Lin(0), T_ - 1, tuple(lits_subst(fr, {t: Lin.of(v)}))))
            if s2 is None or s2.ctx is None:
                continue
        else:
            s2 = s
        todo = [(s2, x)]
        if I.count_hook:
            for g in guesses.values():
                if isinstance(g, CountG):
                    todo = [z for y, x_ in todo for z in counted(I, y, x_, g, T_)]
        res += [(tag, St(y.ctx, y.mem, basepath + s.path), x_) for y, x_ in todo]
    return res


def counted(I, st, x, g, T):
    """what the setting knows about the number of iterations in which the condition held"""
    lo, hi, f = g.args(T)
    k = fresh("pk")
    r = I.count_hook(I, st, "filter", k, lo, hi, f_sub(f, {g.t: Lin.of(k)}))
    if r is None:
        return [(st, x)]
    q = g.at(T) - g.init
    out = []
    for z, v in r:
        z = z.with_ctx(("eq", q - v))
        if z is None or z.ctx is None:
            continue
        if len(q.syms()) == 1 and not q.is_const():
            m = {next(iter(q.syms())): v}
            z = St(z.ctx, {k_: subst_val(y, m) for k_, y in z.mem.items()}, z.path)
            out.append((z, subst_val(x, m) if x is not None else None))
        else:
            out.append((z, x))
    return out


def lit_vars(l):
    from terms import _vars
    vs = set()
    _vars(l, vs)
    return vs


def covered(st0, l, t):
    if t not in lit_vars(l):
        return True
    if l[0] != "le":
        return False
    return st0.ctx.entails(subst(l, {t: Lin(-1)}))


def mkhead(st0, guesses, t, cont):
    T_ = Lin.of(t)
    lits = [("le", -T_)]
    for l in cont:
        if l[0] == "le" and t in lit_vars(l) and covered(st0, l, t):
            lits.append(subst(l, {t: T_ - 1}))
    ctx = st0.ctx.assume(*lits)
    h = St(ctx if ctx is not None else st0.ctx, dict(st0.mem), ())
    for p in sorted(guesses, key=lambda q: (len(q[1]), repr(q))):
        leaf_set(h.mem, p, guesses[p].at(T_), h.ctx)
    return h


def combine(vals, el):
    """gated value over the back paths: (guard literals, value) chain; el maps value -> term"""
    if len(vals) == 1:
        return el(vals[0][1])
    paths = [list(s.path) for s, _ in vals]
    common = [l for l in paths[0] if all(l in p for p in paths[1:])]
    terms = [el(v) for _, v in vals]
    if all(x is terms[0] for x in terms):
        return terms[0]
    r = terms[-1]
    for (s, v), x, p in reversed(list(zip(vals, terms, paths))[:-1]):
        ls = [l for l in p if l not in common]
        if any(l[0] not in ("le", "eq", "ne", "fr") for l in ls) or not ls:
            return unk("guard")
        r = ite(ls, x, r)
    return r


def phis(x, own=None):
    out = set()
    for a in atoms_of(x, lambda y: (y.op == "sel" and str(y.a[0]).startswith("phi#")) or (y.op == "var" and y.a[0].startswith("phi#"))):
        out.add(a.a[0])
    return out


def phis_deep(x):
    return phis(x)


def delta(v, phi):
    """v - phi pushed below the guards"""
    if v is phi:
        return ZERO
    if v.op == "ite":
        return ite(v.a[0], delta(v.a[1], phi), delta(v.a[2], phi))
    n = Norm(Ctx())
    return p_term(p_add(n.poly(v), n.poly(phi), -1))


def counting(init, before, vals, t, common):
    f = False
    for s, v in vals:
        d = s.ctx.canon(v - before)
        if not d.is_const() or d.c not in (0, 1):
            return HavocG(init, t)
        if d.c == 1:
            x = path_formula(s, common, symnum(t))
            if x is None:
                return HavocG(init, t)
            f = f_or(f, x)
    return CountG(init, f, t)


def update(I, g, p, init, vals, t, lc, common, rnd):
    T_ = Lin.of(t)
    vs = [v for _, v in vals]
    if isinstance(g, HavocG):
        return g
    if init is None or any(v is None for v in vs) or any(isinstance(v, Unk) for v in vs):
        return HavocG(init, t)
    if isinstance(init, Lin):
        if not all(isinstance(v, Lin) for v in vs):
            return HavocG(init, t)
        if g is None:
            ds = {vals[i][0].ctx.canon(v - init) for i, v in enumerate(vs)}
            if len(ds) == 1 and next(iter(ds)).is_const():
                return LinG(init, next(iter(ds)).c)
            return counting(init, init, vals, t, common)
        if isinstance(g, LinG):
            ds = {vals[i][0].ctx.canon(v - g.at(T_)) for i, v in enumerate(vs)}
            if len(ds) == 1 and next(iter(ds)).is_const() and g.tries < 2:
                n = LinG(init, next(iter(ds)).c)
                n.tries = g.tries + 1
                return n
            return counting(init, g.at(T_), vals, t, common)
        return HavocG(init, t)
    if isinstance(init, (bool, tuple)):
        if all(v is vs[0] or v == vs[0] for v in vs) and isinstance(vs[0], bool) and g is None:
            return BoolG(init, vs[0])
        if g is None and (init is True or init is False):
            f = False
            for s, v in vals:
                x = path_formula(s, common, symnum(t))
                if x is None or any(symnum(y) > symnum(t) for y in lit_vars(("b", v))) or tainted((v,)):
                    return HavocG(init, t)
                f = f_or(f, f_and(x, v))
            return AllG(f, t, init) if f is not True and f is not False else HavocG(init, t)
        return HavocG(init, t)
    if isinstance(init, T):
        if not all(isinstance(v, T) for v in vs):
            return HavocG(init, t)
        if g is None or (not isinstance(g, PhiG)):
            n = PhiG(init)
            n.tries = (g.tries if g else 0) + 1
            return n if n.tries < 3 else HavocG(init, t)
        V = combine(vals, lambda v: v)
        if phis(V) - {g.id}:
            return g
        X = delta(V, mk("var", g.id))
        if not phis(X):
            if has_unknown(X):
                return HavocG(init, t)
            r = fresh("r")
            Xr = subst(X, {t: Lin.of(r)})
            n = TermG(init, lambda T: add(init, tsum(r, 0, T - 1, Xr)))
            n.tries = g.tries
            return n
        if not phis(V):
            n = TermG(init, lambda T: ite([("eq", T)], init, subst(V, {t: T - 1})))
            n.tries = g.tries
            return n
        return HavocG(init, t)
    if isinstance(init, Arr):
        if not all(isinstance(v, Arr) for v in vs):
            return HavocG(init, t)
        for s, v in vals:
            if not (s.ctx.prove_eq(v.nr - init.nr) and s.ctx.prove_eq(v.nc - init.nc)):
                return HavocG(init, t)
        if g is None or not isinstance(g, PhiG):
            n = PhiG(init)
            n.tries = (g.tries if g else 0) + 1
            return n if n.tries < 3 else HavocG(init, t)
        n = solve_arr(I, g, init, vals, t, lc)
        if n is not None:
            n.tries = g.tries
            return n
        return g
    if isinstance(init, Ref):
        if g is None and all(isinstance(v, Ref) for v in vs):
            ds = {ref_steps(init, v, s.ctx) for s, v in vals}
            if len(ds) == 1 and None not in ds:
                return RefG(init, next(iter(ds)))
        return HavocG(init, t)
    if isinstance(init, VVec):
        if not all(isinstance(v, VVec) for v in vs):
            return HavocG(init, t)
        if g is None:
            for gen in [vs[0].gen] + [h(init, lc) for h in I.hints]:
                if gen is not None and vv_same(gen(Lin(0)), init, lc):
                    return TermG(init, gen)
        return update_vec(I, g, init, vals, t, lc)
    return HavocG(init, t)


def settle(v, ctx, t):
    """iteration counts of finished inner loops replaced by the values their exit conditions fix"""
    if not ctx.eqs:
        return v
    if isinstance(v, (T, Lin)):
        m = {}
        for y in (v.vs if isinstance(v, T) else v.syms()):
            if y.startswith("t#") and y != t and y in ctx.eqs:
                e = ctx.eqs[y]
                if not any(z.startswith("t#") and symnum(z) > symnum(t) for z in e.syms()):
                    m[y] = e
        return subst(v, m) if m else v
    if isinstance(v, Arr):
        return Arr(settle(v.nr, ctx, t), settle(v.nc, ctx, t), lambda i, j: settle(v.el(i, j), ctx, t), v.vec)
    if isinstance(v, VVec) and v.upd:
        return VVec(v.len, v.segs, tuple((settle(i, ctx, t), settle(x, ctx, t)) for i, x in v.upd), v.gen)
    return v


def flatten(V, ctx, lits=()):
    """guard tree -> [(literals, term)], infeasible cases dropped"""
    if V.op == "ite":
        out = []
        c = ctx.assume(*V.a[0])
        if c is not None:
            out += flatten(V.a[1], c, lits + tuple(V.a[0]))
        pre = []
        for l in V.a[0]:
            ls = pre + [lit_neg(l)]
            c = ctx.assume(*ls)
            if c is not None:
                out += flatten(V.a[2], c, lits + tuple(ls))
            pre.append(l)
        return out
    return [(lits, V)]


def solve_arr(I, g, init, vals, t, lc):
    T_ = Lin.of(t)
    a, b = fresh("ga"), fresh("gb")
    A, B = Lin.of(a), (Lin(0) if init.vec else Lin.of(b))
    rng = [("le", -A), ("le", A + 1 - init.nr)] + ([] if init.vec else [("le", -B), ("le", B + 1 - init.nc)])
    V = combine(vals, lambda v: v.el(A, B))
    if phis(V) - {g.id}:
        return None
    phi = sel(g.id, A, B)
    ctx = lc.assume(*rng)
    if ctx is None:
        return TermG(init, lambda T: init)
    from interp import simp
    V = simp(ctx, V)
    lv = flatten(V, ctx)
    if len(lv) > 40:
        return HavocG(init, t)
    writes = [(ls, w) for ls, w in lv if w is not phi]
    if not writes:
        return TermG(init, lambda T: init)
    # parametric writes
    cand = []
    okA = True
    for ls, w in writes:
        c = ctx.assume(*ls)
        if c is None:
            continue
        s = None
        for l in ls:
            if l[0] == "eq" and l[1].coef(t) in (1, -1) and (l[1].coef(a) or l[1].coef(b)):
                k = l[1].coef(t)
                s = (l[1] - Lin(0, ((t, k),))) * (-k)
                break
        if s is None:
            if any(t in lit_vars(l) for l in ls):
                okA = False
                break
            cand.append((ls, None, w))
        else:
            cand.append((ls, s, w))
    if okA:
        r = resolve_writes(I, g, init, cand, t, a, b, A, B, lc, rng)
        if r is not None:
            return r
    # accumulation
    X = delta(V, phi)
    if not phis(X):
        if has_unknown(X):
            return HavocG(init, t)
        r = fresh("r")
        Xr = subst(X, {t: Lin.of(r)})

        def at(T):
            def el(i, j):
                m = {a: i} if init.vec else {a: i, b: j}
                return add(init.el(i, j), tsum(r, 0, T - 1, subst(Xr, m)))
            return Arr(init.nr, init.nc, el, init.vec)
        return TermG(init, at)
    return HavocG(init, t)


def resolve_writes(I, g, init, cand, t, a, b, A, B, lc, rng):
    T_ = Lin.of(t)
    out = []
    for ls, s, w in cand:
        ids = phis(w)
        if ids:
            c0 = lc.assume(*rng)
            c0 = c0.assume(*ls) if c0 is not None else None
            if c0 is None:
                continue
            reads = atoms_of(w, lambda y: y.op == "sel" and y.a[0] == g.id)
            rep = {}
            rec = None
            for rd in reads:
                x, y = rd.a[1], rd.a[2]
                hit = []
                for ls2, s2, w2 in cand:
                    sp = fresh("q")
                    m = {t: Lin.of(sp), a: x}
                    if not init.vec:
                        m[b] = y
                    l2 = lits_subst(ls2, m) + [("le", -Lin.of(sp)), ("le", Lin.of(sp) + 1 - T_)]
                    c = c0.assume(*l2)
                    if c is not None:
                        hit.append((c, sp, ls2, s2, w2))
                if not hit:
                    rep[rd] = init.el(x, y)
                elif len(hit) == 1 and len(cand) == 1 and hit[0][0].prove_eq(T_ - 1 - hit[0][1]):
                    rec = rd
                else:
                    return None
            if rec is not None:
                # prefix recurrence  R(t) = R(t-1) + X(t),  R(-1) = base at the first read position
                if len(reads) != 1 or s is None:
                    return None
                X = delta(w, rec)
                if phis(X):
                    return None
                # the read position of iteration t is the write position of iteration t-1 for every t >= 1
                x, y = rec.a[1], rec.a[2]
                c1 = c0.assume(("le", 1 - T_))
                if c1 is not None:
                    m = {t: T_ - 1, a: x}
                    if not init.vec:
                        m[b] = y
                    for l in lits_subst(ls, m):
                        if not c1.entails(l):
                            return None
                r = fresh("r")
                # positions as functions of t alone
                pos = {}
                for l in ls:
                    pass
                # express a (and b) by t through the guards
                cx = c0
                xa = cx.canon(x)
                # first read position: solve guard at t = 0
                a0 = solve_at(ls, t, a, Lin(0))
                b0 = solve_at(ls, t, b, Lin(0)) if not init.vec else Lin(0)
                if a0 is None:
                    return None
                if b0 is None:
                    b0 = Lin.of(b)
                x0 = x.subst({t: Lin(0), a: a0, b: b0})
                y0 = y.subst({t: Lin(0), a: a0, b: b0})
                ar = solve_at(ls, t, a, Lin.of(r))
                br = (solve_at(ls, t, b, Lin.of(r)) if not init.vec else Lin(0))
                mm = {t: Lin.of(r), a: ar}
                if not init.vec and br is not None:
                    mm[b] = br
                Xr = subst(X, mm)
                w = add(init.el(x0, y0), tsum(r, 0, T_, Xr))
            else:
                w = replace_atoms(w, lambda q: rep.get(q))
        if has_unknown(w):
            w = unk("array write")
        out.append((tuple(ls), s, w))
    # overlap between different write sites at different iterations
    over = {}
    for i in range(len(out)):
        for j in range(i):
            q1, q2 = fresh("q"), fresh("q")
            l1 = lits_subst(out[i][0], {t: Lin.of(q1)})
            l2 = lits_subst(out[j][0], {t: Lin.of(q2)})
            base = [("le", -Lin.of(q1)), ("le", -Lin.of(q2))] + rng
            for o in (("le", Lin.of(q1) - q2 + 1), ("le", Lin.of(q2) - q1 + 1)):
                if lc.assume(*(base + l1 + l2 + [o])) is not None:
                    over[(i, j)] = over[(j, i)] = True
    # the same site must not hit one position twice unless the location is invariant (last iteration wins)
    for i, (ls, s, w) in enumerate(out):
        if s is None and any((i, j) in over for j in range(len(out)) if j != i):
            return None

    def at(T):
        def el(i, j):
            m = {a: i} if init.vec else {a: i, b: j}
            r = init.el(i, j)

            def inst(k):
                ls, s, w = out[k]
                sv = (s if s is not None else T - 1)
                sv = sv.subst(m)
                mm = dict(m)
                mm[t] = sv
                gl = lits_subst(ls, mm) + [("le", -sv), ("le", sv + 1 - T)]
                return sv, gl, subst(w, mm)
            for k in range(len(out)):
                sv, gl, w = inst(k)
                for l in range(len(out)):
                    if l != k and (k, l) in over:
                        sv2, gl2, w2 = inst(l)
                        w = ite(gl2 + [("le", sv + 1 - sv2)], w2, w)
                r = ite(gl, w, r)
            return r
        return Arr(init.nr, init.nc, el, init.vec)
    return TermG(init, at)


def solve_at(ls, t, a, tv):
    """value of index symbol a at iteration tv according to the equality guards"""
    for l in ls:
        if l[0] == "eq" and l[1].coef(a) in (1, -1):
            k = l[1].coef(a)
            return ((l[1] - Lin(0, ((a, k),))) * (-k)).subst({t: tv})
    return None


def lin_in(v, t):
    return v.coef(t), v - Lin(0, ((t, v.coef(t)),)) if v.coef(t) else v


def update_vec(I, g, init, vals, t, lc):
    T_ = Lin.of(t)
    hv = g.at(T_) if g is not None else init
    if not isinstance(hv, VVec):
        return HavocG(init, t)
    pushes, upds = [], []
    for s, v in vals:
        d = s.ctx.canon(v.len - hv.len)
        if not d.is_const() or d.c < 0:
            return HavocG(init, t)
        nseg = len(hv.segs)
        if len(v.segs) < nseg or g is None and not all(seg_same(x, y, s.ctx) for x, y in zip(v.segs, hv.segs)):
            return HavocG(init, t)
        extra = v.segs[nseg:]
        nu = v.upd[len(hv.upd):]
        if d.c == 1 and len(extra) == 1 and not nu:
            pushes.append((s, settle(extra[0][2](hv.len), s.ctx, t)))
        elif d.c == 0 and not extra and len(nu) == 1:
            upds.append((s, nu[0][0], nu[0][1]))
        elif d.c == 0 and not extra and not nu:
            pass
        else:
            return HavocG(init, t)
    tries = (g.tries if g else 0) + 1
    if tries > 6:
        return HavocG(init, t)
    if pushes and len(pushes) == len(vals):
        if not isinstance(g, PushG):
            n = PushG(init, pushes[0][1])
            n.tries = tries
            return n
        # solve
        X = [(s, x) for s, x in pushes]
        free = [(s, x) for s, x in X if not val_phis(x)]
        dep = [(s, x) for s, x in X if val_phis(x)]
        n = PushG(init, g.sample)
        n.tries = tries
        n.solved = True
        if not dep and len(free) == 1:
            x = free[0][1]
            n.fn = lambda s: subst_val(x, {t: s})
            return n
        if len(free) == 1 and len(dep) == 1 and isinstance(free[0][1], Arr):
            x0, x = free[0][1], dep[0][1]
            if any(q != g.id for q in val_phis(x)):
                return g
            i, j = fresh("x"), fresh("y")
            e = x.el(i, j)
            prev = T_ - 1
            cx = dep[0][0].ctx
            pn = phidim("phinr", g.id, prev)
            pc = phidim("phinc", g.id, prev)
            dn = x.nr - pn
            dc = x.nc - pc if not x.vec else Lin(0)
            if e.op == "sel" and e.a[0] == g.id and cx.prove_eq(e.a[1] - prev) and dn.is_const() and dc.is_const():
                ci, cj = e.a[2] - i, e.a[3] - j
                if ci.is_const() and cj.is_const() and free[0][0].ctx.prove_eq(T_):
                    x0 = subst_val(x0, {t: Lin(0)})

                    def fn(s):
                        return Arr(x0.nr + s * dn.c, x0.nc + s * dc.c,
                                   lambda p, q: x0.el(p + s * ci.c, q + s * cj.c), x0.vec)
                    n.fn = fn
                    return n
        if not dep and len(free) > 1:
            # same value on every path?
            x = free[0][1]
            n.fn = lambda s: subst_val(x, {t: s})
            return n
        return HavocG(init, t)
    if upds and len(upds) == len(vals):
        # a position may be written differently where a path fixes an outer counter
        e = next((w[1] for w in upds if all(u[0].ctx.prove_eq(u[1] - w[1]) for u in upds)), None)
        if e is None:
            return HavocG(init, t)
        k, rest = e.coef(t), None
        if k not in (1, -1):
            if g is None:
                n = PendG(init)
                n.tries = tries
                return n
            return HavocG(init, t)
        c0 = e - Lin(0, ((t, k),))
        x = upds[0][2]
        if len(upds) > 1:
            if all(isinstance(u[2], Arr) for u in upds):
                sts = [(u[0], u[2]) for u in upds]
                x0 = x
                x = Arr(x0.nr, x0.nc, lambda i, j: combine(sts, lambda v: v.el(i, j)), x0.vec)
            elif all(isinstance(u[2], T) for u in upds):
                x = combine([(u[0], u[2]) for u in upds], lambda v: v)
            else:
                return HavocG(init, t)
        # a window that moved out of the segment it began in: segments joined, elements by case
        base = joined(init, lc) if isinstance(g, UpdG) else init
        n = UpdG(base, k, c0, lambda s, x=x: subst_val(x, {t: s}), lc)
        n.tries = tries
        return n
    n = PendG(init)
    n.tries = tries
    return n if tries < 3 else HavocG(init, t)


def joined(v, ctx):
    """the vector as one segment whose elements are gated by position, if all elements have one shape"""
    pcs = vv_pieces(v, ctx)
    if pcs is None or len(pcs) < 2:
        return v
    k = Lin.of(fresh("k"))
    es = [f(k) for _, _, f in pcs]
    if all(isinstance(e, T) for e in es):
        def fn(i):
            r = pcs[-1][2](i)
            for a, b, f in reversed(pcs[:-1]):
                r = ite([("le", i + 1 - b)], f(i), r)
            return r
        return VVec(v.len, [(Lin(0), v.len, fn)])
    if all(isinstance(e, Arr) and e.vec == es[0].vec and ctx.prove_eq(e.nr - es[0].nr) and ctx.prove_eq(e.nc - es[0].nc) for e in es) \
            and not any(str(s) == str(k) for e in es for s in e.nr.syms() + e.nc.syms()):
        def fn(i):
            xs = [(b, f(i)) for _, b, f in pcs]

            def el(p, q):
                r = xs[-1][1].el(p, q)
                for b, x in reversed(xs[:-1]):
                    r = ite([("le", i + 1 - b)], x.el(p, q), r)
                return r
            return Arr(xs[0][1].nr, xs[0][1].nc, el, xs[0][1].vec)
        return VVec(v.len, [(Lin(0), v.len, fn)])
    return v


def val_phis(v):
    if isinstance(v, T):
        return phis(v)
    if isinstance(v, Arr):
        r = phis(v.el(fresh("x"), fresh("y")))
        for s in v.nr.syms() + v.nc.syms():
            d = SYMDEF.get(s)
            if d and d[0] in ("phinr", "phinc"):
                r = r | {d[1][0]}
        return r
    if isinstance(v, VVec):
        r = set()
        for a, b, f in v.segs:
            r |= val_phis(f(Lin.of(fresh("k"))))
        for i, x in v.upd:
            r |= val_phis(x)
        return r
    return set()
