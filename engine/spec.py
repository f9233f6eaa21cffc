"""Worlds (symbolic inputs with their facts) and contracts of the crate's functions."""
from contracts import *

p, n, m, d, k = map(Lin.of, "pnmdk")


def le(a, b):
    """a <= b"""
    return ("le", Lin.of(a) - Lin.of(b))


def lt(a, b):
    return ("le", Lin.of(a) - Lin.of(b) + 1)


def fr(a, rel, b):
    return ("fr", a, b, {"<": LT, "<=": LT | EQ, "==": EQ, ">": GT, ">=": GT | EQ, "!=": LT | GT | UN}[rel])


# -------------------------------------------------------------------------------- knot vector axioms
def sorted_axiom(name):
    def ax(ctx, terms):
        es = [t for t in terms if t.op == "sel" and t.a[0] == name and len(t.a) == 2]
        out = []
        for i, a in enumerate(es):
            for b in es[i + 1:]:
                e = a.a[1] - b.a[1]
                if ctx.prove_le(e):
                    out.append((a, b, LT | EQ))
                elif ctx.prove_le(-e):
                    out.append((b, a, LT | EQ))
        return out
    return ax


def clamped_axiom(name, p, n, strict=True):
    """clamped, normed, sorted knots; interior knots inside (0,1) with multiplicity at most p + 1"""
    srt = sorted_axiom(name)

    def ax(ctx, terms):
        out = srt(ctx, terms)
        es = [t for t in terms if t.op == "sel" and t.a[0] == name and len(t.a) == 2]
        for t in es:
            e = t.a[1]
            if ctx.prove_le(e - p):
                out.append((t, ZERO, EQ))
            elif ctx.prove_le(n + 1 - e):
                out.append((t, ONE, EQ))
            else:
                out.append((t, ZERO, GT if strict and ctx.prove_le(p + 1 - e) else GT | EQ))
                out.append((t, ONE, LT if strict and ctx.prove_le(e - n) else LT | EQ))
        if strict:
            for a in es:
                for b in es:
                    if a is not b and ctx.prove_le(p + 1 - (b.a[1] - a.a[1])) and ctx.prove_le(1 - a.a[1]) \
                            and ctx.prove_le(b.a[1] - n - p):
                        out.append((a, b, LT))
        return out
    return ax


def ends_axiom(name, p, n):
    """clamped knots, nothing known about the interior ones"""
    def ax(ctx, terms):
        return [(t, ZERO if ctx.prove_le(t.a[1] - p) else ONE, EQ) for t in terms if t.op == "sel" and t.a[0] == name
                and len(t.a) == 2 and (ctx.prove_le(t.a[1] - p) or ctx.prove_le(n + 1 - t.a[1]))]
    return ax


class Pos:
    """where the parameter u lies relative to the knots U (indices of the full knot vector).
    first..last is the run of knots equal to u among the domain knots; span is the true span index"""

    def __init__(self, label, name="U"):
        self.label, self.u, self.name = label, fvar("u"), name
        self.s, self.r = Lin.of("s"), Lin.of("r")
        s, r, u = self.s, self.r, self.u
        U = lambda i: sel(name, i)
        self.lits, self.ax = [], []
        if label == "between knots":
            self.lits = [le(p, s), le(s, n), fr(u, ">", ZERO), fr(u, "<", ONE), fr(U(s), "<", u), fr(u, "<", U(s + 1))]
            self.span, self.first, self.last = s, s, s
            self.cmp = {"Left": s, "LeftOrEqual": s, "Right": s + 1, "RightOrEqual": s + 1}
        elif label == "on an interior knot":
            # run s .. s+r, r+1 knots
            self.lits = [le(p + 1, s), le(0, r), le(s + r, n), fr(u, ">", ZERO), fr(u, "<", ONE), fr(U(s), "==", u),
                         fr(U(s + r), "==", u), fr(U(s - 1), "<", u), fr(u, "<", U(s + r + 1)), le(r, p)]
            self.span, self.first, self.last = s + r, s, s + r
            self.cmp = {"Left": s - 1, "LeftOrEqual": s, "Right": s + r + 1, "RightOrEqual": s + r}
        elif label == "at the start":
            self.lits = [fr(u, "==", ZERO), fr(U(p), "==", u), fr(u, "<", U(p + 1))]
            self.span, self.first, self.last = p, Lin(0), p
            self.cmp = {"Left": p, "LeftOrEqual": p, "Right": p + 1, "RightOrEqual": p}
        elif label == "at the end":
            self.lits = [fr(u, "==", ONE), fr(U(n), "<", u), fr(U(n + 1), "==", u)]
            self.span, self.first, self.last = n, n + 1, n + p + 1
            self.cmp = {"Left": n, "LeftOrEqual": n, "Right": n + 1, "RightOrEqual": n + 1}
        else:
            raise ValueError(label)
        self.multiplicity = {"between knots": Lin(0), "on an interior knot": r + 1, "at the start": Lin(1),
                             "at the end": Lin(1)}[label]
        self.room = [le(r + 1, p)] if label == "on an interior knot" else []   # one more copy of u fits
        self.interior = label in ("between knots", "on an interior knot")

    def axioms(self):
        return (clamped_axiom(self.name, p, n), self.run_axiom)

    def run_axiom(self, ctx, terms):
        if self.label != "on an interior knot":
            return []
        out = []
        for t in terms:
            if t.op == "sel" and t.a[0] == self.name and len(t.a) == 2:
                e = t.a[1]
                if ctx.prove_le(self.s - e) and ctx.prove_le(e - self.s - self.r):
                    out.append((t, self.u, EQ))
        return out

    def is_u(self, st, v):
        return isinstance(v, T) and (v is self.u or Norm(st.ctx).canon(v) is self.u)

    def count(self, I, st, mode, k, lo, hi, f):
        """number of knots equal to u among the positions lo..hi of a scan"""
        if not (isinstance(f, tuple) and f[0] == "lit" and f[1][0] == "fr" and f[1][3] == EQ):
            return self.stray(I, st, mode, k, lo, hi, f)
        nrm = Norm(st.ctx)
        x, y = nrm.canon(f[1][1]), nrm.canon(f[1][2])
        if y is not self.u:
            x, y = y, x
        if y is not self.u or x.op != "sel" or x.a[0] != self.name or len(x.a) != 2:
            return None
        off = x.a[1] - Lin.of(k)
        if k in off.syms():
            return None
        lo, hi = lo + off, hi + off
        if self.label == "between knots":
            return [(st, Lin(0))]
        a, b = {"on an interior knot": (self.s, self.s + self.r + 1), "at the start": (Lin(0), p + 1),
                "at the end": (n + 1, n + p + 2)}[self.label]
        out = []
        if mode == "take_while":
            for s, v in models.split2(I, st, ("le", a - lo)):
                for s2, w in models.split2(I, s, ("le", lo - b + 1)):
                    if v and w:
                        out += [(s3, b - lo if z else hi - lo) for s3, z in models.split2(I, s2, ("le", b - hi))]
                    else:
                        out.append((s2, Lin(0)))
            return out
        for s, v in models.split2(I, st, ("le", a - lo)):
            x = lo if v else a
            for s2, w in models.split2(I, s, ("le", b - hi)):
                y = b if w else hi
                out += [(s3, y - x if z else Lin(0)) for s3, z in models.split2(I, s2, ("le", x - y))]
        return out

    def stray(self, I, st, mode, k, lo, hi, f):
        """a count by another criterion than equality while no knot equals u: the number is at least one if the knot
        before u fulfils the criterion"""
        if mode != "filter" or not isinstance(f, tuple) or self.label != "between knots":
            return None
        off = {t.a[1] - Lin.of(k) for c in dnf(f) for l in c if l[0] == "fr" for x in l[1:3]
               for t in atoms_of(x, lambda t: t.op == "sel" and t.a[0] == self.name and len(t.a) == 2)}
        if len(off) != 1 or any(k in o.syms() for o in off):
            return None
        j = self.s - off.pop()
        out = []
        q = models.count_sym(mode, k, lo, hi, f)
        inside = [le(lo, j), le(j + 1, hi)]
        for g, v in ((f, True), (f_not(f), False)):
            for c in dnf(models.f_subst(g, {k: j})):
                for s in I.assume_lits(st, list(c) + inside):
                    x = Lin.of(fresh("c")) if v else q
                    out.append((s.with_ctx(("le", 1 - x)) if v else s, x))
        for l in (le(j + 1, lo), le(hi, j)):
            out += [(s, q) for s in I.assume_lits(st, [l])]
        return out

    # ------------------------------------------------------------------------- boundaries
    def window(self, I, st, x):
        """offset o with x == U[o ..], and its length, if x is a window of the knot vector"""
        x = models.val(I, st, x)
        if not isinstance(x, Arr):
            return None
        i = Lin.of(fresh("w"))
        e = Norm(st.ctx).canon(x.el(i, 0))
        if e.op == "sel" and e.a[0] == self.name and len(e.a) == 2 and i.syms()[0] not in (e.a[1] - i).syms():
            return e.a[1] - i, x.nr
        return None

    def find_idx(self, W):
        def b(I, st, args):
            kn = models.val(I, st, args[0])
            u, k, c = args[1], args[2], args[3]
            if not (self.is_u(st, u) and isinstance(kn, Agg) and isinstance(k, Lin) and isinstance(c, Agg)):
                return None
            try:
                v = I.vget(st.ctx, W.field(kn, "Knots", "Uk"), k)
            except Missing:
                return None
            w = self.window(I, st, v) if isinstance(v, Arr) else None
            if w is None or not st.ctx.prove_eq(w[0] - k):
                return None
            st = I.require(st, [le(k, p)], "derivative order above the degree", "precondition")
            if st is None:
                return []
            return [(st, self.cmp[variant_name(c, W)] - k)]
        return b

    def basis_val(self, o, i, q, N, u, exact=True):
        """the basis function with its support resolved: window offset o, order q, index i, last index N"""
        a = app("basis", mk("win", self.name, o), i, q, N, u)
        if not exact:
            return a
        S, F = self.span - o, self.first - o
        if self.label == "at the start":
            return ite([("eq", i)], ONE, ZERO)
        if self.label == "at the end":
            return ite([("eq", i - N)], ONE, ZERO)
        right = ite([le(i, S - q)], ONE if self.label == "on an interior knot" else a, ZERO)
        mid = ite([le(i, S - q), lt(F, i)], ONE, ite([le(i, F)], a, ZERO)) if self.label == "on an interior knot" else \
            ite([le(i, S)], a, ZERO)
        return ite([le(S - q, i)], mid, ZERO)

    def basis(self, exact=True):
        def b(I, st, args):
            w = self.window(I, st, args[0])
            i, q, kk, nn, u = args[1:6]
            if w is None or not all(isinstance(x, Lin) for x in (i, q, kk, nn)) or not self.is_u(st, u):
                return generic_basis(I, st, args)
            o, ln = w
            st = I.require(st, [lt(i + q + 1, ln), le(kk, nn), lt(nn - kk + 1, ln)], "basis function index", "index")
            if st is None:
                return []
            N = nn - kk
            ok = exact and st.ctx.prove_eq(q - (p - o)) and st.ctx.prove_eq(N - (n - o))
            return [(st, self.basis_val(o, i, q, N, u, ok))]
        return b


def generic_basis(I, st, args):
    """the basis function as an uninterpreted function of the knots, order, index, closing index and parameter"""
    x = models.val(I, st, args[0])
    i, q, kk, nn, u = args[1:6]
    u = models.val(I, st, u)
    if not isinstance(x, Arr) or not all(isinstance(y, Lin) for y in (i, q, kk, nn)) or not isinstance(u, T):
        return None
    st = I.require(st, [le(i + q + 1, x.nr - 1), le(kk, nn)], "basis function index", "index")
    if st is None:
        return []
    return [(st, app("basis", win_of(st, x), i, q, nn - kk, u))]


def win_of(st, x):
    """name of a knot vector: a window of a named vector, or the extensional literal"""
    i = Lin.of("λi")
    e = Norm(st.ctx).canon(x.el(i, Lin(0)))
    if e.op == "sel" and len(e.a) == 2:
        o = e.a[1] - i
        if "λi" not in o.syms():
            return mk("win", e.a[0], o)
    return models.lam_of(x)


def win_of_lam(x):
    e, i = x.a[3], Lin.of("λi")
    if e.op == "sel" and len(e.a) == 2 and "λi" not in (e.a[1] - i).syms():
        return mk("win", e.a[0], e.a[1] - i)
    return x


POSITIONS = ("between knots", "on an interior knot", "at the start", "at the end")
