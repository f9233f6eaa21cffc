"""Control points: derivatives, reversal; construction of curves and the coherence of their cached derivatives."""
from spec import *
from . import prop
from .knots import derive_rules, knots_of, uk_windows

i_, r_ = Lin.of("i"), Lin.of("r")


def mat_of(x):
    """name of a matrix of control points: element (0, row, column) of a named family, or the extensional literal"""
    return models.lam_of(x)


def dp_app(win, lamP, p, k, i, r):
    return app("dpoint", win, lamP, Lin.of(p), Lin.of(k), Lin.of(i), Lin.of(r))


def dp(st, P, win, lamP, p, k, i, r):
    """the derivative point, order zero being the control point itself"""
    if st.ctx.prove_le(1 - Lin.of(k)):
        return dp_app(win, lamP, p, k, i, r)
    return ite([("eq", Lin.of(k))], P.el(r, i), dp_app(win, lamP, p, k, i, r))


def points_boundary(W):
    """derive_single_point as an uninterpreted function of its arguments"""
    def b(I, st, args):
        pts, i, k, kn = models.val(I, st, args[0]), args[1], args[2], models.val(I, st, args[3])
        if not (isinstance(pts, Agg) and isinstance(kn, Agg) and isinstance(i, Lin) and isinstance(k, Lin)):
            return None
        P = I.vget(st.ctx, W.field(pts, "ControlPoints", "Pk"), Lin(0))
        U = I.vget(st.ctx, W.field(kn, "Knots", "Uk"), Lin(0))
        p = W.field(kn, "Knots", "p")
        if not (isinstance(P, Arr) and isinstance(U, Arr) and isinstance(p, Lin)):
            return None
        st = I.require(st, [le(i + k + 1, P.nc), le(k, p), lt(i + p + 1, U.nr)], "control point index", "index")
        if st is None:
            return []
        w, l = win_of(st, U), mat_of(P)
        return [(st, Arr(P.nr, 1, lambda r, c: dp(st, P, w, l, p, k, i, r), True))]
    return b


def points_of(W, P, p, n, d, win=None, U=None):
    """control points with all derivatives up to p, P(r, i) being the coordinates, U the knot vector"""
    p, n, d = map(Lin.of, (p, n, d))
    w = win if win is not None else win_of(St(Ctx()), avec(n + p + 2, U))
    base = Arr(d, n + 1, P)
    l = mat_of(base)
    return W.make("ControlPoints", Pk=VVec(p + 1, [(Lin(0), Lin(1), lambda k: base), (
        Lin(1), p + 1, lambda k: Arr(d, n + 1 - k, lambda r, i: dp_app(w, l, p, k, i, r)))]), k_max=p)


def curve_of(W, U, P, p, n, d):
    return W.make("Curve", knots=knots_of(W, U, p, Lin.of(n) + p + 2), points=points_of(W, P, p, n, d, U=U))


def U_(i):
    return sel("U", i)


def P0(r, i):
    return sel("P", Lin(0), r, i)


def coherent(W, p, n, d, U=U_, P=P0):
    return curve_of(W, U, P, p, n, d)


def raw_points(W, P, d, n):
    return W.make("ControlPoints", Pk=VVec(1, [(Lin(0), Lin(1), lambda k: Arr(d, Lin.of(n) + 1, P))]), k_max=Lin(0))


def single_point_rules(R):
    W = R.w
    key = R.find("ControlPoints::derive_single_point", optional=True)
    pre = nat("p", "n", "d", "k", "i") + [le(p, n), le(k, p), le(i_ + k, n)]
    fresh_ = lambda I, st: [I.cell(st, raw_points(W, P0, d, n)), i_, k, I.cell(st, W.knots("U", p, n))]
    stale_ = lambda I, st: [I.cell(st, W.points("P", d, n, "old")), i_, k, I.cell(st, W.knots("U", p, n))]
    R.contract("derivative points of order zero", key, fresh_, pre + [("eq", k)],
               lambda a, st: [("all", [], Arr(d, 1, lambda r, c: P0(r, i_), True))], optional=True, helper=True)

    def step(a, st):
        w, l = mk("win", "U", Lin(0)), mat_of(Arr(d, n + 1, P0))
        dif = sub(U_(i_ + p + 1), U_(i_ + k))

        def low(j, r):
            return ite([("eq", k - 1)], P0(r, j), dp_app(w, l, p, k - 1, j, r))
        val = lambda r, c: ite([fr(U_(i_ + p + 1), "==", U_(i_ + k))], ZERO, mul(
            div(i2f(p - k + 1), dif), sub(low(i_ + 1, r), low(i_, r))))
        return [("all", [], Arr(d, 1, val, True))]
    for args, more in ((fresh_, []), (stale_, nat("old"))):
        R.contract("recurrence of the derivative points", key, args, pre + more + [le(1, k)], step,
                   boundary={key: points_boundary(W)}, self_cut=True, optional=True, helper=True)


def pb(R):
    return {R.find("ControlPoints::derive_single_point", optional=True): points_boundary(R.w)}


def derive_all_rules(R):
    W = R.w
    pre = nat("p", "n", "d") + [le(p, n)]
    stale = W.points("P", d, n, "old")
    for label, pts in (("first derivation", raw_points(W, P0, d, n)), ("renewed derivation", stale)):
        R.contract("derivative points", "ControlPoints::derive", lambda I, st: [I.cell(st, pts), I.cell(st, W.knots("U", p, n))],
                   pre + nat("old"), lambda a, st: [(label, [], ANY, [(a[0], points_of(W, P0, p, n, d, U=U_), "points")])],
                   boundary=pb(R))
    for label, kn in (("first derivation", W.knots_raw("U", p, n + p + 2)), ("renewed derivation", stale_knots(W, p, n + p + 2))):
        R.contract("derivative knot vectors", "Knots::derive", lambda I, st: [I.cell(st, kn)], pre,
                   lambda a, st: [(label, [], ANY, [(a[0], knots_of(W, U_, p, n + p + 2), "knots")])])
    for fn in ("Curve::calculate_derivatives",):
        R.contract("derivative data of a curve", fn, lambda I, st: [
            I.cell(st, W.make("Curve", knots=stale_knots(W, p, n + p + 2), points=stale))], pre + nat("old"),
            lambda a, st: [("all", [], ANY, [(a[0], coherent(W, p, n, d), "curve")])], boundary=pb(R), optional=True)


def stale_knots(W, p, ln):
    """knots whose derivative vectors belong to something else"""
    p, ln = Lin.of(p), Lin.of(ln)
    return W.make("Knots", Uk=VVec(p + 1, [(Lin(0), Lin(1), lambda k: avec(ln, U_)), (
        Lin(1), p + 1, lambda k: avec(ln - k * 2, lambda i: sel("V", k, i)))]), p=p, k_max=p)


def new_rules(R):
    W = R.w
    q, c = Lin.of("len"), Lin.of("c")
    pre = nat("p", "d", "len", "old") + [le(1, c), le("old", c - 1)]
    given = lambda I, st: [stale_knots(W, p, q), W.points("P", d, c - 1, "old")]
    R.contract("construction of a curve from parts in use", "Curve::new", given, pre, lambda a, st: [
        ("matching counts", [le(p, c - 1), ("eq", q - c - p - 1)], OK(coherent(W, p, c - 1, d)))], boundary=pb(R), total=False)
    args = lambda I, st: [knots_of(W, U_, p, q), raw_points(W, P0, d, c - 1)]
    R.contract("construction of a curve", "Curve::new", args, pre, lambda a, st: [
        ("fewer segments than the degree", [lt(c - 1, p)], ERR(W.make("CurveError", "DegreeAndSegmentsMismatch", p=p, n=c - 1))),
        ("too many knots", [le(p, c - 1), lt(c + p + 1, q)], ERR(W.make("CurveError", "KnotAndControlPointCountMismatch", knots=q, points=c, p=p))),
        ("too few knots", [le(p, c - 1), lt(q, c + p + 1)], ERR(W.make("CurveError", "KnotAndControlPointCountMismatch", knots=q, points=c, p=p))),
        ("matching counts", [le(p, c - 1), ("eq", q - c - p - 1)], OK(coherent(W, p, c - 1, d)))], boundary=pb(R))


def derivative_curve_rules(R):
    W = R.w
    pre = nat("p", "n", "d", "k") + [le(p, n), le(k, p)]
    spec = lambda a, st: [("all", [], curve_of(W, lambda i: U_(i + k), lambda r, i: sel("P", k, r, i), p - k, n - k, d),
                           [(a[0], W.curve("U", "P", p, n, d), "the curve itself")])]
    R.contract("derivative as a curve of its own", "Curve::get_derivative_curve", lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d)), k], pre, spec, boundary=pb(R))


def reverse_rules(R):
    W = R.w
    pre = nat("p", "n", "d") + [le(p, n)]

    def rev(kk):
        sgn = lambda x: ite([even(kk)], x, neg(x))
        return W.make("ControlPoints", Pk=VVec(kk + 1, [(Lin(0), kk + 1, lambda k: Arr(d, n + 1 - k, lambda r, i: mul(
            parity(k), sel("P", k, r, n - k - i))))]), k_max=kk)
    kn = lambda: knots_of(W, lambda i: sub(ONE, U_(n + p + 1 - i)), p, n + p + 2)
    cur = lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d))]
    target = lambda: W.make("Curve", knots=kn(), points=rev(p))
    for fn in ("Curve::reverse", "manipulation::reverse::reverse"):
        R.contract("reversal", fn, cur, pre, lambda a, st: [("all", [], ANY, [(a[0], target(), "curve")])])
    R.contract("reversed copy", "manipulation::reverse::reversed", cur, pre, lambda a, st: [
        ("all", [], target(), [(a[0], W.curve("U", "P", p, n, d), "the curve itself")])])
    R.contract("reversal of control points", "ControlPoints::reverse", lambda I, st: [I.cell(st, W.points("P", d, n, "K"))],
               nat("n", "d", "K") + [le("K", n)], lambda a, st: [("all", [], ANY, [(a[0], rev(Lin.of("K")), "points")])])
    D = lambda I, st: [I.cell(st, W.data("D", d, m))]
    R.contract("reversal of data points", "DataPoints::reverse", D, nat("m", "d"), lambda a, st: [
        ("all", [], ANY, [(a[0], W.make("DataPoints", matrix=Arr(d, m + 1, lambda r, i: sel("D", r, m - i))), "points")])])


def even(k):
    """k is even"""
    h = div_sym(Lin.of(k), 2)
    return ("eq", h * 2 - k)


def parity(k):
    return ite([even(k)], ONE, const(-1))


@prop("P05")
def p05(R):
    """derive_single_point is interpreted for symbolic degree, order and index, its recursive calls being the
    induction hypothesis, and must equal the recurrence with 0/0 = 0; ControlPoints::derive, Knots::derive and
    Knots::new must fill every order with it, from fresh and from stale caches."""
    derive_rules(R)
    single_point_rules(R)
    derive_all_rules(R)


@prop("P06")
def p06(R):
    """Curve::new is interpreted for symbolic counts: each rejection is compared with its error and the accepted curve
    with knots and points carrying the derivative data of every order; get_derivative_curve must return the inner
    knots and derivative points, themselves coherent, and leave the curve unchanged."""
    single_point_rules(R)
    derive_all_rules(R)
    new_rules(R)
    derivative_curve_rules(R)


@prop("P13")
def p13(R):
    """reverse and reversed are interpreted for symbolic counts and orders; every knot vector and point matrix left in
    memory must equal the mirrored one."""
    reverse_rules(R)
