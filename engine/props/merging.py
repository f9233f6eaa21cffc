"""Merging two curves."""
from spec import *
from . import prop
from .points import curve_of, pb, mat_of, dp_app
from .knots import uk_windows

o, ca, cb, q2, d2 = map(Lin.of, ("o", "ca", "cb", "q2", "d2"))
V = lambda i: sel("V", i)
W_ = lambda i: sel("W", i)
S_ = lambda r, i: sel("S", Lin(0), r, i)
T_ = lambda r, i: sel("T", Lin(0), r, i)
EPS = models.svd_eps(app("sqrt", const(2.0 ** -52)))


def pref(win, p, n, i, i0, k):
    """coefficient of the control point i0 in the derivative point i of order k"""
    return app("prefactor", win, Lin.of(p), Lin.of(n), Lin.of(i), Lin.of(i0), Lin.of(k))


def prefactor_boundary(I, st, args):
    p, i, i0, k = args[:4]
    P, U = models.val(I, st, args[4]), models.val(I, st, args[5])
    if not all(isinstance(x, Lin) for x in (p, i, i0, k)) or not isinstance(P, Arr) or not isinstance(U, Arr):
        return None
    return [(st, pref(win_of(st, U), p, P.nc - 1, i, i0, k))]


def prefactor_rules(R):
    W = R.w
    key = R.find("merge::prefactor", optional=True)
    i, i0 = Lin.of("i"), Lin.of("i0")
    pre = nat("p", "n", "i", "i0", "k", "d") + [le(p, n), le(k, p)]
    U = lambda j: sel("U", j)
    args = lambda I, st: [p, i, i0, k, I.cell(st, Arr(d, n + 1, lambda r, c: sel("P", r, c))), I.cell(st, avec(n + p + 2, U))]
    win = mk("win", "U", Lin(0))
    dif = sub(U(i + p + 1), U(i + k))
    val = ite([fr(U(i + p + 1), "==", U(i + k))], ZERO, mul(div(i2f(p + 1 - k), dif), sub(
        pref(win, p, n, i + 1, i0, k - 1), pref(win, p, n, i, i0, k - 1))))
    R.contract("derivative points in terms of control points", key, args, pre, lambda a, st: [
        ("no such point", [lt(n - k, i)], ZERO),
        ("order zero", [le(i, n), ("eq", k)], ite([("eq", i - i0)], ONE, ZERO)),
        ("higher order", [le(1, k), le(i, n - k)], val)],
        boundary={key: prefactor_boundary}, self_cut=True, optional=True)


def coefs(name, p, n, at):
    """derivative of order k at the joint as a function of control point i: the coefficient"""
    def left(k, i):
        a = fresh("a")
        A = Lin.of(a)
        k, i = Lin.of(k), Lin.of(i)
        w = mk("win", name, Lin(0))
        lo, hi, u = (n - p, n - k, sel(name, n + 1)) if at == "end" else (Lin(0), p - k, sel(name, p))
        return tsum(a, lo, hi, mul(pref(w, p, n, A, i, k), app("basis", mk("win", name, k), A, p - k, n - k, u)))
    return left


def system(ca, cb, ga, gb):
    """stationarity and constraint equations of the smallest displacement that makes all derivatives meet"""
    A, B = coefs("V", p, m, "end"), coefs("W", p, o, "start")
    h = const(0.5)
    wv, ww = mk("win", "V", Lin(0)), mk("win", "W", Lin(0))
    Nv = lambda i, g: app("basis", wv, i, p, m, ga(g))
    Nw = lambda i, g: app("basis", ww, i, p, o, gb(g))

    def el(r, c):
        one = ite([("eq", r - c)], ONE, ZERO)
        top = ite([le(c, p * 2 - 1)], one, ite([le(c, p * 3 - 1)], ite(
            [le(r, p - 1)], mul(h, A(c - p * 2, m - p + 1 + r)), neg(mul(h, B(c - p * 2, r - p)))), ite(
            [le(r, p - 1), le(c, p * 3 + ca - 1)], neg(mul(h, Nv(m - p + 1 + r, c - p * 3))), ite(
                [le(p, r), le(p * 3 + ca, c)], neg(mul(h, Nw(r - p, c - p * 3 - ca))), ZERO))))
        mid = ite([le(c, p - 1)], A(r - p * 2, m - p + 1 + c), ite([le(c, p * 2 - 1)], neg(B(r - p * 2, c - p)), ZERO))
        bot = ite([le(r, p * 3 + ca - 1)], ite([le(c, p - 1)], Nv(m - p + 1 + c, r - p * 3), ZERO),
                  ite([le(p, c), le(c, p * 2 - 1)], Nw(c - p, r - p * 3 - ca), ZERO))
        return ite([le(r, p * 2 - 1)], top, ite([le(r, p * 3 - 1)], mid, bot))
    i, j = fresh("i"), fresh("j")

    def rhs(r, x):
        k = r - p * 2
        gap = sub(tsum(i, m - p, m, mul(A(k, Lin.of(i)), S_(x, Lin.of(i)))), tsum(j, 0, p, mul(B(k, Lin.of(j)), T_(x, Lin.of(j)))))
        return ite([le(p * 2, r), le(r, p * 3 - 1)], neg(gap), ZERO)
    nn = p * 3 + ca + cb
    return Arr(nn, nn, el), Arr(nn, d, rhs)


def shifted(ca, cb, ga, gb):
    A, B = system(ca, cb, ga, gb)
    la, lb = models.lam_of(A), models.lam_of(B)
    x = lambda q, r: app("svdsolve", la, lb, EPS, Lin.of(q), Lin.of(r))
    S = lambda r, i: ite([le(m - p + 1, i)], add(S_(r, i), x(i - (m - p + 1), r)), S_(r, i))
    T = lambda r, j: ite([le(j, p - 1)], add(T_(r, j), x(p + j, r)), T_(r, j))
    return S, T


def two(R, ca, cb, ga, gb, pb_=None, db=None):
    W = R.w

    def cc(I, st, c, cnt, g):
        return I.cell(st, W.make("ConstrainedCurve", curve=I.cell(st, c), constraints=W.make("Constraints", params=VVec(cnt, [(
            Lin(0), Lin.of(cnt), lambda k: g(k))]))))
    return lambda I, st: [cc(I, st, W.curve("V", "S", p, m, d), ca, ga),
                          cc(I, st, W.curve("W", "T", p if pb_ is None else pb_, o, d if db is None else db), cb, gb)]


def bounds(R):
    return {R.find("basis::basis", optional=True): generic_basis, R.find("merge::prefactor", optional=True): prefactor_boundary}


ga, gb = lambda g: sel("ga", g), lambda g: sel("gb", g)
PRE = nat("p", "m", "o", "d", "ca", "cb") + [le(1, p), le(p, m), le(p, o)]


def system_rules(R):
    A, B = system(ca, cb, ga, gb)
    pre = PRE + [lt(ca + cb, p)]
    R.contract("system of the merge", "merge::solve_linear_equation_system", two(R, ca, cb, ga, gb), pre, lambda a, st: [
        ("all", [], Arr(d, p * 3 + ca + cb, lambda r, q: app("svdsolve", models.lam_of(A), models.lam_of(B), EPS, q, r)))],
        boundary=bounds(R), optional=True)


# --------------------------------------------------------------------------------------------- the result
def adj(lam, u0, ua, p, n, i, k, r):
    """point i of derivative order k on the adjusted knots"""
    return app("adjusted", lam, u0, ua, *map(Lin.of, (p, n, i, k, r)))


def adjusted_el(P, u0, ua, p, n, lam):
    """control point c after the knots were replaced: untouched up to n-p+1, recurrence beyond"""
    return lambda r, c: ite([le(c, n - p + 1)], P(r, c), adj(lam, u0, ua, p, n, c, 0, r))


def adjust_boundary(I, st, args):
    P, U0, Ua = (models.val(I, st, x) for x in args[:3])
    q, nn, dim = args[3:6]
    if not all(isinstance(x, Arr) for x in (P, U0, Ua)) or not all(isinstance(x, Lin) for x in (q, nn, dim)):
        return None
    return [(st, Arr(dim, nn + 1, adjusted_el(P.el, models.lam_of(U0), models.lam_of(Ua), q, nn, models.lam_of(P))))]


def merged(W, ca, cb, ga, gb):
    S, T = shifted(ca, cb, ga, gb)
    end = add(W_(o + p + 1), ONE)
    U = lambda i: div(ite([le(i, m + 1)], V(i), add(W_(i - m - 2 + p + 1), ONE)), end)
    Va = avec(m + p + 2, lambda i: ite([le(i, m + 1)], V(i), add(W_(i - m - 2 + p + 1), ONE)))
    Sm = Arr(d, m + 1, S)
    A = adjusted_el(S, models.lam_of(avec(m + p + 2, V)), models.lam_of(Va), p, m, models.lam_of(Sm))
    P = lambda r, c: ite([le(c, m - 1)], A(r, c), T(r, c - m + p - 1))
    return curve_of(W, U, P, p, m + o + 1 - p, d)


def operands(W, I, st, args, ca, cb, ga, gb):
    """the two references are the two curves with their constraints"""
    import loops
    try:
        for x, (kn, pn, nn, cnt, g) in zip(args, (("V", "S", m, ca, ga), ("W", "T", o, cb, gb))):
            c = models.val(I, st, x)
            cur = models.val(I, st, W.field(c, "ConstrainedCurve", "curve"))
            prm = W.field(W.field(c, "ConstrainedCurve", "constraints"), "Constraints", "params")
            U = I.vget(st.ctx, W.field(W.field(cur, "Curve", "knots"), "Knots", "Uk"), Lin(0))
            P = I.vget(st.ctx, W.field(W.field(cur, "Curve", "points"), "ControlPoints", "Pk"), Lin(0))
            ok = loops.same(U, avec(nn + p + 2, lambda i: sel(kn, i)), st.ctx) \
                and loops.same(P, Arr(d, nn + 1, lambda r, c: sel(pn, Lin(0), r, c)), st.ctx) \
                and loops.vv_same(prm, VVec(Lin.of(cnt), [(Lin(0), Lin.of(cnt), g)]), st.ctx)
            if not ok:
                return False
    except Missing:
        return False
    return True


def system_boundary(W, ca, cb, ga, gb):
    """the shifts as the solution of the system, provided the operands are the two curves with their constraints"""
    def b(I, st, args):
        if not operands(W, I, st, args, ca, cb, ga, gb):
            return None
        A, B = system(ca, cb, ga, gb)
        la, lb = models.lam_of(A), models.lam_of(B)
        return [(st, Arr(d, p * 3 + ca + cb, lambda r, q: app("svdsolve", la, lb, EPS, q, r)))]
    return b


def merge_boundary(W, ca, cb, ga, gb):
    """the merge of the two curves, by its contract"""
    def b(I, st, args):
        if not operands(W, I, st, args, ca, cb, ga, gb):
            return None
        return [(st, models.ok(merged(W, ca, cb, ga, gb)))]
    return b


def normed_axiom(name, ln):
    """the extremes of the knot vector are zero and one"""
    want, el = {"min": ZERO, "max": ONE}, sel(name, Lin.of("λi"))

    def ax(ctx, terms):
        return [(t, want[t.a[0]], EQ) for t in terms if t.op == "app" and t.a[0] in want and t.a[1].op == "lam"
                and t.a[1].a[3] is el and ctx.prove_eq(t.a[1].a[1] - ln)]
    return ax


MERGE = "merge::merge_with_constraints"
AX = (clamped_axiom("V", p, m, strict=False), clamped_axiom("W", p, o, strict=False),
      normed_axiom("V", m + p + 2), normed_axiom("W", o + p + 2))


def merge_rules(R, exact=True):
    W = R.w
    bd = dict(pb(R))
    bd.update(bounds(R))
    bd[R.find("merge::adjust_shifted_control_points", optional=True)] = adjust_boundary
    bd[R.find("merge::solve_linear_equation_system", optional=True)] = system_boundary(W, ca, cb, ga, gb)
    R.contract("merged curve", MERGE, two(R, ca, cb, ga, gb), PRE + [lt(ca + cb, p)], lambda a, st: [
        ("accepted", [], OK(merged(W, ca, cb, ga, gb) if exact else ANY))], boundary=bd, axioms=AX)


ONE_AT, NO = (lambda g: ONE), (lambda g: ZERO)
WRAPPERS = (("merge::merge", Lin(0), Lin(0), NO, NO, Lin(0)), ("merge::merge_from", Lin(1), Lin(0), ONE_AT, NO, Lin(1)),
            ("merge::merge_to", Lin(0), Lin(1), NO, lambda g: ZERO, Lin(1)))


def plain(R, swap=False):
    W = R.w

    def f(I, st):
        x = [I.cell(st, W.curve("V", "S", p, m, d)), I.cell(st, W.curve("W", "T", p, o, d))]
        return x[::-1] if swap else x
    return f


def plain2(R, pb_, db):
    W = R.w
    return lambda I, st: [I.cell(st, W.curve("V", "S", p, m, d)), I.cell(st, W.curve("W", "T", pb_, o, db))]


def wrapper_rules(R):
    """every entry point merges its operands in their order, with the constraints it promises"""
    W = R.w
    key = R.find(MERGE)
    pre = nat("p", "m", "o", "d", "ca", "cb") + [le(1, p), le(p, m), le(p, o)]
    bd = dict(pb(R))
    bd.update(bounds(R))
    bd[R.find("merge::adjust_shifted_control_points", optional=True)] = adjust_boundary
    for fn, x, y, gx, gy, least in WRAPPERS:
        R.contract("operands and constraints", fn, plain(R), pre + [lt(least, p)], lambda a, st: [
            ("all", [], OK(merged(W, x, y, gx, gy)))], boundary={**bd, key: merge_boundary(W, x, y, gx, gy)}, axioms=AX)
    z = Lin(0)
    for fn, swap in (("Curve::append", False), ("Curve::prepend", True)):
        R.contract("operands and constraints", fn, plain(R, swap), pre, lambda a, st: [
            ("all", [], ANY, [(a[0], merged(W, z, z, NO, NO), "curve")])], boundary={**bd, key: merge_boundary(W, z, z, NO, NO)}, axioms=AX)

        def cargs(I, st):
            x = plain(R, swap)(I, st)
            c = [W.make("Constraints", params=VVec(n_, [(z, n_, g)])) for n_, g in ((ca, ga), (cb, gb))]
            c = c[::-1] if swap else c
            return [x[0], c[0], x[1], c[1]]
        R.contract("operands and constraints", fn + "_constrained", cargs, pre + [lt(ca + cb, p)], lambda a, st: [
            ("all", [], ANY, [(a[0], merged(W, ca, cb, ga, gb), "curve")])], boundary={**bd, key: merge_boundary(W, ca, cb, ga, gb)}, axioms=AX)


def refusing(R, ca, cb):
    """whether operands are refused does not depend on the shifts: any matrix of their shape stands for them"""
    bd = dict(pb(R))
    bd.update(bounds(R))
    bd[R.find("merge::adjust_shifted_control_points", optional=True)] = adjust_boundary
    bd[R.find("merge::solve_linear_equation_system", optional=True)] = lambda I, st, args: [
        (st, Arr(d, p * 3 + ca + cb, lambda r, q: app("shift", Lin.of(q), Lin.of(r))))]
    return bd


def refusal_rules(R):
    W = R.w
    E = lambda v, **k: ERR(W.make("MergeError", v, **k))
    NE = lambda a, b: ("fr", a, b, LT | GT | UN)
    bd = refusing(R, ca, cb)
    base = nat("p", "q", "m", "o", "d", "d2", "ca", "cb")
    ok = [le(p, m), le(p, o)]
    R.contract("different degrees are refused", MERGE, two(R, ca, cb, ga, gb, pb_=q2), base + nat("q2") + [("ne", p - q2), le(p, m), le(q2, o)],
               lambda a, st: [("degrees", [], E("DegreeMismatch", left=p, right=q2))], boundary=bd)
    R.contract("different dimensions are refused", MERGE, two(R, ca, cb, ga, gb, db=d2), base + ok + [("ne", d - d2)],
               lambda a, st: [("dimensions", [], E("DimensionMismatch", left=d, right=d2))], boundary=bd)
    w = Lin.of("w")
    for nm, f, nn in (("left", V, m), ("right", W_, o)):
        for label, lits in ((f"{nm} curve, head knot", [le(0, w), le(w, p), NE(f(w), ZERO)]),
                            (f"{nm} curve, tail knot", [le(nn + 1, w), le(w, nn + p + 1), NE(f(w), ONE)])):
            R.contract("unclamped curves are refused", MERGE, two(R, ca, cb, ga, gb), base + ok + lits,
                       lambda a, st: [(label, [], E("UnclampedCurve"))], boundary=bd)
    for nm, name, nn in (("left", "V", m), ("right", "W", o)):
        vec = models.lam_of(avec(nn + p + 2, lambda i: sel(name, i)))
        ax = sum(((ends_axiom(x, p, y),) if x == name else (clamped_axiom(x, p, y, strict=False), normed_axiom(x, y + p + 2))
                  for x, y in (("V", m), ("W", o))), ())
        for label, a_, b_ in (("smallest", app("min", vec), ZERO), ("largest", app("max", vec), ONE)):
            R.contract("curves that are not normed are refused", MERGE, two(R, ca, cb, ga, gb), base + ok + [NE(a_, b_)],
                       lambda a, st: [(f"{label} knot of the {nm} curve", [], E("UnnormedCurve"))], axioms=ax, boundary=bd)
    R.contract("too many constraints are refused", MERGE, two(R, ca, cb, ga, gb), base + ok + [le(p, ca + cb)],
               lambda a, st: [("constraints", [], E("TooManyConstraints", totalConstraints=ca + cb, degree=p))], axioms=AX, boundary=bd)
    for fn, x, y, gx, gy, least in WRAPPERS:
        bd = refusing(R, x, y)
        R.contract("different degrees are refused", fn, plain2(R, q2, d), base + nat("q2") + [("ne", p - q2), le(p, m), le(q2, o)],
                   lambda a, st: [("degrees", [], E("DegreeMismatch", left=p, right=q2))], boundary=bd)
        R.contract("different dimensions are refused", fn, plain2(R, p, d2), base + ok + [("ne", d - d2)],
                   lambda a, st: [("dimensions", [], E("DimensionMismatch", left=d, right=d2))], boundary=bd)
        R.contract("too many constraints are refused", fn, plain2(R, p, d), base + ok + [le(p, least)],
                   lambda a, st: [("constraints", [], E("TooManyConstraints", totalConstraints=least, degree=p))], axioms=AX, boundary=bd)


def adjust_rules(R):
    """the recurrence that carries the points over to the adjusted knots: the derivative points Q(i, k) of the last p
    points follow from those of their left neighbour,
        Q(i, k) = (A[i+p] - A[i+k]) / (p-k) * Q(i-1, k+1) + Q(i-1, k),
    starting from the derivatives Q(n-p+1, k) on the original knots"""
    import loops
    W = R.w
    A, U = (lambda j: sel("A", j)), (lambda j: sel("U", j))
    P = lambda r, c: sel("P", r, c)
    base = Arr(d, n + 1, P)
    lam, u0, ua = models.lam_of(base), models.lam_of(avec(n + p + 2, U)), models.lam_of(avec(n + p + 2, A))
    B = n - p + 1
    win = mk("win", "U", Lin(0))

    def first(k, r):
        z = fresh("z")
        return tsum(z, 0, n, mul(pref(win, p, n, B, z, k), P(r, Lin.of(z))))

    def define(y, ctx):
        pts, old, new, p, n, i, k, r = y.a[1:9]
        at = lambda lm, i, j=Lin(0): subst(lm.a[3], {"λi": i, "λj": j})
        B = n - p + 1
        P, A = (lambda r, c: at(pts, r, c)), (lambda i: at(new, i))

        def first(k, r):
            z = fresh("z")
            return tsum(z, 0, n, mul(pref(win_of_lam(old), p, n, B, z, k), P(r, Lin.of(z))))
        if ctx.prove_eq(i - B):
            return ite([("eq", k)], P(r, B), first(k, r))
        if ctx.prove_le(B - i) and not ctx.prove_le(B + 1 - i):
            return ite([("eq", i - B)], ite([("eq", k)], P(r, B), first(k, r)), y)
        if ctx.prove_le(B + 1 - i):
            Q = lambda i, k: app("adjusted", pts, old, new, p, n, i, k, r)
            return add(mul(div(sub(A(i + p), A(i + k)), i2f(p - k)), Q(i - 1, k + 1)), Q(i - 1, k))
        return None

    def hint(init, ctx):
        vec = lambda el: Arr(d, 1, lambda r, _: el(r), True)
        one = lambda i: VVec(1, [(Lin(0), Lin(1), lambda k: vec(lambda r: P(r, i)))])
        start = VVec(p, [(Lin(0), Lin(1), lambda k: vec(lambda r: P(r, B))), (Lin(1), p, lambda k: vec(lambda r: first(k, r)))])
        row = lambda i: VVec(n - i + 1, [(Lin(0), n - i + 1, lambda k: vec(lambda r: adj(lam, u0, ua, p, n, i, k, r)))])
        return lambda t: VVec(n + 1, [(Lin(0), B, one), (B, B + 1, lambda i: start), (B + 1, B + 1 + t, row), (B + 1 + t, n + 1, one)])
    pre = nat("p", "n", "d") + [le(1, p), le(p, n)]
    args = lambda I, st: [I.cell(st, base), I.cell(st, avec(n + p + 2, U)), I.cell(st, avec(n + p + 2, A)), p, n, d]
    loops.UNFOLD["adjusted"] = define
    try:
        R.contract("adjusted points", "merge::adjust_shifted_control_points", args, pre, lambda a, st: [
            ("all", [], Arr(d, n + 1, adjusted_el(P, u0, ua, p, n, lam)))], boundary=bounds(R), optional=True, hints=[hint])
    finally:
        del loops.UNFOLD["adjusted"]


REALM = "both knot vectors are clamped, normed and ascending; parameter lists of constraints are arbitrary"


@prop("P14", assumptions=[REALM])
def p14(R):
    """merge_with_constraints and the entry points are interpreted for curves that violate exactly one requirement (degree,
    dimension, a head or tail knot at a symbolic position, smallest or largest knot, number of constraints): each must
    return its error with its data; for curves that meet all of them every path must return Ok without panic."""
    refusal_rules(R)
    merge_rules(R, False)


@prop("P15", assumptions=[REALM])
def p15(R):
    """merge_with_constraints is interpreted for symbolic degree, counts, dimension, knots, points and constraints; knots
    and points of the result must equal the construction, the recurrence for the points at the joint is proved by an
    invariant of its loops, every entry point must hand over its operands in their order with its own constraints."""
    merge_rules(R)
    adjust_rules(R)
    wrapper_rules(R)
    prefactor_rules(R)


@prop("P16", assumptions=[REALM])
def p16(R):
    """every entry of the matrix and of the right hand side of the linear system is compared with the stationarity and
    constraint equations, for symbolic degree, counts and constraints; the prefactors of the derivative points follow
    their recurrence."""
    prefactor_rules(R)
    system_rules(R)
