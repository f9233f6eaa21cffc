"""Interpolation, least-squares fits, generation of curves."""
import math
from spec import *
from lin import keyed_sym, REBUILD
from . import prop
from .params import parameter_rules
from .points import curve_of, dp, mat_of, derive_all_rules
from .knots import clamped, knots_of, uniform_inner, averaged_inner, deboor_inner

i_, j_, g_ = Lin.of("i"), Lin.of("j"), Lin.of("g")
kap, lam_ = Lin.of("kappa"), fvar("lambda")
EPS = models.svd_eps(app("sqrt", const(2.0 ** -52)))


def D_(r, i):
    return sel("D", r, i)


def U_(i):
    return sel("U", i)


def diffop(i, j, k):
    """entry (i, j) of the matrix of finite differences of order k"""
    i, j, k = Lin.of(i), Lin.of(j), Lin.of(k)
    if i.is_const() and j.is_const() and k.is_const():
        r = j.c - i.c
        return Lin((-1) ** (k.c - r) * math.comb(k.c, r) if k.c > 0 and 0 <= r <= k.c else 0)
    return Lin.of(keyed_sym("diffop", (Lin.of(i), Lin.of(j), Lin.of(k)), Lin.of(i), Lin.of(j), Lin.of(k)))


REBUILD["diffop"] = lambda key, p: diffop(*p)


def diffop_boundary(I, st, args):
    if not all(isinstance(x, Lin) for x in args[:3]):
        return None
    st = I.require(st, [le(0, args[0]), le(0, args[1]), le(0, args[2])], "arguments of the difference operator", "precondition")
    return [] if st is None else [(st, diffop(*args[:3]))]


def bounds(R):
    return {R.find("basis::basis", optional=True): generic_basis,
            R.find("fit::difference_operator", optional=True): diffop_boundary}


def basis_at(win, p, n, u):
    """N(g, i): the value of the basis function i at the parameter g"""
    return lambda g, i: app("basis", win, Lin.of(i), p, n, u(Lin.of(g)))


W0 = mk("win", "U", Lin(0))
ub = lambda g: sel("u", g)


def solution(A, na, B, nb, i, j):
    """element (i, j) of the solution of A X = B by the singular value decomposition"""
    return app("svdsolve", models.lam_of(A), models.lam_of(B), EPS, Lin.of(i), Lin.of(j))


def interpolation_points(win, p, m, d, u, D):
    N = basis_at(win, p, m, u)
    A, B = Arr(m + 1, m + 1, N), Arr(m + 1, d, lambda g, r: D(r, g))
    return lambda r, i: solution(A, m + 1, B, d, i, r)


def penalty(nn, pen):
    """lambda times the product of the finite differences of order kappa over nn control points with themselves"""
    if pen is None:
        return lambda a, b: ZERO
    l, k = pen
    h = fresh("h")
    df = lambda q, a: i2f(diffop(q, a, k))
    return lambda a, b: mul(l, tsum(h, 0, nn - 1 - k, mul(df(Lin.of(h), a), df(Lin.of(h), b))))


def loose_points(win, p, n, m, d, u, D, pen):
    N = basis_at(win, p, n, u)
    g, e = fresh("g"), fresh("e")
    pn = penalty(n + 1, pen)
    A = Arr(n + 1, n + 1, lambda a, b: add(tsum(g, 0, m, mul(N(g, a), N(g, b))), pn(a, b)))
    B = Arr(n + 1, d, lambda a, r: tsum(e, 0, m, mul(N(e, a), D(r, Lin.of(e)))))
    return lambda r, i: solution(A, n + 1, B, d, i, r)


def fixed_points(win, p, n, m, d, u, D, pen):
    N = basis_at(win, p, n, u)
    g, e = fresh("g"), fresh("e")
    pn = penalty(n - 1, pen)
    A = Arr(n - 1, n - 1, lambda a, b: add(tsum(g, 1, m - 1, mul(N(g, a + 1), N(g, b + 1))), pn(a, b)))
    Q = lambda r, h: sub(sub(D(r, Lin.of(h)), mul(N(h, 0), D(r, Lin(0)))), mul(N(h, n), D(r, m)))
    B = Arr(n - 1, d, lambda a, r: tsum(e, 1, m - 1, mul(N(e, a + 1), Q(r, e))))
    return lambda r, i: ite([("eq", Lin.of(i))], D(r, Lin(0)), ite([("eq", i - n)], D(r, m), solution(A, n - 1, B, d, i - 1, r)))


def fit_args(R, pen, mp=m, dat=D_):
    W = R.w

    def f(I, st):
        x = models.NONE if pen is None else models.some(W.make("Penalization", **{"lambda": pen[0], "kappa": pen[1]}))
        return [I.cell(st, W.knots("U", p, n)), I.cell(st, W.data("D", d, m)), I.cell(st, W.params("u", mp)), x]
    return f


def uniform_knots():
    """the knots are the uniform ones"""
    q = "q!"
    uni = clamped(p, n, lambda j: div(i2f(j), i2f(n - p + 1)))
    return ("forall", q, Lin(0), n + p + 1, (fr(U_(Lin.of(q)), "==", uni(Lin.of(q))),))


BASE = nat("p", "n", "m", "d") + [le(1, p), le(p, n), le(n, m)]


def pens(tail):
    """penalisations that a fit accepts"""
    zero = [("eq", kap * 0)]
    return (("no penalisation", None, []),
            ("lambda zero", (lam_, kap), [fr(lam_, "==", ZERO), le(0, kap), le(kap, n - tail)]),
            ("lambda positive", (lam_, kap), [fr(lam_, ">", ZERO), le(0, kap), le(kap, n - tail), uniform_knots()]))


def loose_rules(R):
    for label, pen, lits in pens(1):
        R.contract("least-squares fit with loose ends", "loose::fit", fit_args(R, pen), BASE + lits,
                   lambda a, st: [(label, [], OK(Arr(d, n + 1, loose_points(W0, p, n, m, d, ub, D_, pen))))], boundary=bounds(R))


def fixed_rules(R):
    for label, pen, lits in pens(2):
        R.contract("least-squares fit with fixed ends", "fixed::fit", fit_args(R, pen), BASE + lits,
                   lambda a, st: [(label, [le(2, n)], OK(Arr(d, n + 1, fixed_points(W0, p, n, m, d, ub, D_, pen)))),
                                  (label + ", a single segment", [("eq", n - 1)], OK(Arr(
                                      d, 2, lambda r, i: ite([("eq", i)], D_(r, Lin(0)), D_(r, m)))))], boundary=bounds(R))


def refusals(R):
    W = R.w
    E = lambda v, **k: ERR(W.make("FitError", v, **k))
    mp = Lin.of("mp")
    NE = lambda a, b: ("fr", a, b, LT | GT | UN)
    w = Lin.of("w")
    uni = clamped(p, n, lambda j: div(i2f(j), i2f(n - p + 1)))
    neg = ("fr", lam_, ZERO, LT | UN)
    for fn, off in (("loose::fit", 1), ("fixed::fit", 2)):
        pre = nat("p", "n", "m", "mp", "d", "kappa") + [le(1, p), le(1, n), le(p, n + 1), le(1, m)]
        cases = lambda: [
            ("more segments than data segments", [lt(m, n)],
             E("RequestedPolynomialSegmentAndDataSegementMismatch", n=n, m=m)),
            ("other number of parameters", [le(n, m), ("ne", m - mp)], E("DataSegmentsAndParameterSegmentsMismatch", m=m, mp=mp)),
            ("fewer segments than the degree", [le(n, m), ("eq", m - mp), lt(n, p)],
             E("RequestedPolynomialSegmentAndSplineDegreeMismatch", n=n, p=p))]
        kcase = [("order of the penalisation too high", [le(n, m), ("eq", m - mp), le(p, n), lt(n, kap + off)],
                  E("RequestedPolynomialSegmentAndPenalizationKappaMismatch", n=n, kappa=kap))]
        for pen in (None, (lam_, kap)):
            R.contract("refusals of a fit", fn, fit_args(R, pen, mp), pre, lambda a, st: cases() + (kcase if pen else []),
                       boundary=bounds(R))
        good = BASE + nat("kappa") + [le(kap, n - off)] + ([le(2, n)] if off == 2 else [])
        R.contract("negative weights are refused", fn, fit_args(R, (lam_, kap)), good + [neg], lambda a, st: [
            ("negative or not a number", [], E("NegativeLambda", **{"lambda": lam_}))], boundary=bounds(R))
        R.contract("penalisation needs uniform knots", fn, fit_args(R, (lam_, kap)),
                   good + [fr(lam_, ">", ZERO), le(0, w), le(w, n + p + 1), NE(U_(w), uni(w))], lambda a, st: [
                       ("a knot is not uniform", [], E("NonUniformKnots"))], boundary=bounds(R))


def difference_rules(R):
    key = R.find("fit::difference_operator", optional=True)
    pre = nat("i", "j", "kappa")
    args = lambda I, st: [i_, j_, kap]
    R.contract("finite differences of the first order", key, args, pre + [("eq", kap - 1)], lambda a, st: [
        ("diagonal", [("eq", i_ - j_)], Lin(-1)), ("above the diagonal", [("eq", i_ + 1 - j_)], Lin(1)),
        ("elsewhere", [("ne", i_ - j_), ("ne", i_ + 1 - j_)], Lin(0))], optional=True)
    R.contract("finite differences of higher order", key, args, pre + [le(2, kap)], lambda a, st: [
        ("all", [], diffop(i_ + 1, j_, kap - 1) - diffop(i_, j_, kap - 1))], boundary={key: diffop_boundary}, self_cut=True,
        optional=True)


def interpolation_rules(R):
    W = R.w
    R.contract("interpolation", "interpolation::interpolate", lambda I, st: [
        I.cell(st, W.knots("U", p, m)), I.cell(st, W.data("D", d, m)), I.cell(st, W.params("u", m))],
        nat("p", "m", "d") + [le(p, m), le(1, p)], lambda a, st: [
            ("all", [], Arr(d, m + 1, interpolation_points(W0, p, m, d, ub, D_)))], boundary=bounds(R))


@prop("P19")
def p19(R):
    """interpolate is interpreted for symbolic counts, data, parameters and knots; the solution must be that of the
    collocation matrix N(g, i) and the transposed data, element for element."""
    interpolation_rules(R)


@prop("P20")
def p20(R):
    """fit is interpreted without and with a penalisation of symbolic weight and order; matrix and right-hand side handed to
    the solver must equal the normal equations, the finite differences their recursion."""
    loose_rules(R)
    difference_rules(R)


@prop("P21")
def p21(R):
    """as for loose ends, for the interior control points; the columns of both ends must be the data points."""
    difference_rules(R)
    fixed_rules(R)


@prop("P22")
def p22(R):
    """each refusal is compared with its error for symbolic counts, weights and knots (universally quantified uniformity,
    symbolic position of a deviating knot)."""
    refusals(R)


def params_boundary(W, meth):
    """parameters as an uninterpreted function of the data"""
    def b(I, st, args):
        x = args[0]
        if meth == "equally_spaced":
            if not isinstance(x, Lin):
                return None
            mm, key = x, x
        else:
            x = models.val(I, st, x)
            a = W.field(x, "DataPoints", "matrix") if isinstance(x, Agg) else None
            if not isinstance(a, Arr):
                return None
            mm, key = a.nc - 1, mat_of(a)
        return [(st, W.make("Parameters", vector=avec(mm + 1, lambda g: app("params", meth, key, g)), segments=mm))]
    return b


def knots_params(W, st, I, args):
    """what a fit sees: knots, degree, data, parameters"""
    out = []
    for a, (ty, fs) in zip(args, (("Knots", ("Uk", "p")), ("DataPoints", ("matrix",)), ("Parameters", ("vector",)))):
        a = models.val(I, st, a)
        if not isinstance(a, Agg):
            return None
        out += [W.field(a, ty, f) for f in fs]
    uk, deg, dat, par = out
    if not isinstance(uk, VVec) or not isinstance(deg, Lin) or not isinstance(dat, Arr) or not isinstance(par, Arr):
        return None
    U = I.vget(st.ctx, uk, Lin(0))
    if not isinstance(U, Arr):
        return None
    return [win_of(st, U), deg, mat_of(dat), mat_of(par)], dat.nr, U.nr - deg - 1


def part(R, key, kind):
    """the points a fit or interpolation returns, as an uninterpreted function of its arguments; what it refuses, and
    whether it panics, is its own"""
    W = R.w

    def b(I, st, args):
        x = knots_params(W, st, I, args)
        if x is None:
            return None
        what, dd, cols = x
        if kind != "interpolated":
            pen = args[3]
            if not isinstance(pen, Agg) or pen.name != "Option":
                return None
            pen = models.val(I, st, pen.fs[0]) if pen.v else None
            what = what + pen_args(pen and (W.field(pen, "Penalization", "lambda"), W.field(pen, "Penalization", "kappa")))
        el = lambda r, i: app(kind, *what, Lin.of(i), Lin.of(r))
        I.stack.append("@self:" + key)
        try:
            res = I.call_fn(key, args, st)
        finally:
            I.stack.pop()
        out = []
        for s, v in res:
            if isinstance(v, Arr):
                v = Arr(v.nr, v.nc, el)
            elif isinstance(v, Agg) and v.name == "Result" and v.v == 0 and isinstance(v.fs[0], Arr):
                v = Agg("Result", [Arr(v.fs[0].nr, v.fs[0].nc, el)], 0, v.ty)
            out.append((s, v))
        return out
    return b


def pen_args(pen):
    return ["none", ZERO, Lin(0)] if pen is None else ["some", pen[0], pen[1]]


def generation_rules(R):
    from .points import raw_points, P0, pb
    W = R.w
    bd = dict(bounds(R), **pb(R))
    parts = {}
    for kind, fn in (("interpolated", "interpolation::interpolate"), ("fitted with loose ends", "loose::fit"),
                     ("fitted with fixed ends", "fixed::fit")):
        key = R.find(fn, optional=True)
        if key:
            parts[kind] = key
            bd[key] = part(R, key, kind)

    def of_parts(kind, deg, nn, pen=()):
        el = lambda r, i: app(kind, win(deg, nn), Lin.of(deg), mat_of(Arr(d, m + 1, D_)), mat_of(avec(m + 1, eq)), *pen, Lin.of(i), Lin.of(r))
        return el if kind in parts else None
    for meth in ("equally_spaced", "chord_length", "centripetal"):
        bd[R.find("parameters::methods::" + meth, optional=True)] = params_boundary(W, meth)
    uni = lambda deg, nn: clamped(deg, nn, lambda j: div(i2f(j), i2f(nn - deg + 1)))
    err = lambda v, **k: ERR(W.make("CurveError", v, **k))
    low = [("degree zero", [("eq", p)], err("DegreeTooLow", p=Lin(0), limit=Lin(0)))]

    def manual(knots):
        return lambda I, st: [W.make("generation::Generation", "Manual", degree=p, points=raw_points(W, P0, d, n), knots=knots)]
    few = ("fewer segments than the degree", [lt(n, p)], err("DegreeAndSegmentsMismatch", p=p, n=n))
    pre = nat("p", "n", "d")
    R.contract("manual points, uniform knots", "generation::generate", manual(W.make("knots::Generation", "Uniform")), pre,
               lambda a, st: [few] + [("degree zero", [("eq", p)], low[0][2]),
                                      ("valid", [le(1, p), le(p, n)], OK(curve_of(W, uni(p, n), P0, p, n, d)))], boundary=bd)
    R.contract("manual points and knots", "generation::generate", manual(W.make("knots::Generation", "Manual", knots=knots_of(
        W, U_, p, n + p + 2))), pre, lambda a, st: [few, ("valid", [le(p, n)], OK(curve_of(W, U_, P0, p, n, d)))], boundary=bd)
    # knots from the parameters of the control points
    lamP = mat_of(Arr(d, n + 1, P0))
    par = lambda meth, x: lambda g: app("params", meth, x, Lin.of(g))
    for pm, val in (("EquallySpaced", par("equally_spaced", n)), ("ChordLength", par("chord_length", lamP)),
                    ("Centripetal", par("centripetal", lamP))):
        for km, inner in (("Uniform", uniform_inner(p, n)), ("Averaging", averaged_inner(p, val)),
                          ("DeBoor", deboor_inner(p, n, n, val))):
            kn = W.make("knots::Generation", "Method", parameter_method=W.make("parameters::Method", pm),
                        knot_method=W.make("knots::Method", km))
            R.contract("manual points, knots from parameters", "generation::generate", manual(kn), pre, lambda a, st: [
                few, low[0], (pm + ", " + km, [le(1, p), le(p, n)], OK(curve_of(W, clamped(p, n, inner), P0, p, n, d)))],
                boundary=bd)
    # interpolation
    eq = par("equally_spaced", m)

    def win(deg, nn):
        return win_of(St(Ctx()), avec(nn + deg + 2, uni(deg, nn)))
    gen = lambda v, **k: lambda I, st: [W.make("generation::Generation", v, degree=p, points=I.cell(st, W.data("D", d, m)), **k)]
    R.contract("interpolation of data", "generation::generate", gen("Interpolation"), nat("p", "m", "d"), lambda a, st: [
        low[0], ("fewer segments than the degree", [le(1, p), lt(m, p)], err("DegreeAndSegmentsMismatch", p=p, n=m)),
        ("valid", [le(1, p), le(p, m)], OK(curve_of(W, uni(p, m), of_parts("interpolated", p, m) or interpolation_points(win(p, m), p, m, d, eq, D_), p, m, d)))],
        boundary=bd)
    # least squares
    for meth, points, off in (("LooseEnds", loose_points, 1), ("FixedEnds", fixed_points, 2)):
        kind = "fitted with " + ("loose" if off == 1 else "fixed") + " ends"
        for label, pen, lits in (("no penalisation", None, []), ("penalised", (lam_, kap), [fr(lam_, ">=", ZERO)] + nat("kappa"))):
            x = models.NONE if pen is None else models.some(W.make("Penalization", **{"lambda": lam_, "kappa": kap}))
            pk = [le(kap, n - off)] if pen else []
            fe = lambda v, **k: err("FitError", err=W.make("FitError", v, **k))
            cases = lambda: [
                low[0], ("fewer segments than the degree", [le(1, p), lt(n, p)], err("DegreeAndSegmentsMismatch", p=p, n=n)),
                ("more segments than data", [le(1, p), le(p, n), lt(m, n)],
                 fe("RequestedPolynomialSegmentAndDataSegementMismatch", n=n, m=m)),
                ("valid", [le(1, p), le(p, n), le(n, m), le(1 if pen is None and kind in parts else off, n)] + pk,
                 OK(curve_of(W, uni(p, n), of_parts(kind, p, n, pen_args(pen)) or points(
                     win(p, n), p, n, m, d, eq, D_, pen), p, n, d)))]
            R.contract("least-squares fit of data, " + label, "generation::generate", gen(
                "LeastSquaresFit", intended_segments=n, method=W.make("fit::Method", meth), penalization=x),
                nat("p", "n", "m", "d") + lits, lambda a, st: cases(), boundary=bd)
        neg = ("fr", lam_, ZERO, LT | UN)
        pn = models.some(W.make("Penalization", **{"lambda": lam_, "kappa": kap}))
        R.contract("least-squares fit of data, penalised", "generation::generate", gen(
            "LeastSquaresFit", intended_segments=n, method=W.make("fit::Method", meth), penalization=pn),
            nat("p", "n", "m", "d", "kappa") + [le(1, p), le(p, n), le(n, m), le(off, n)], lambda a, st: [
                ("negative weight", [neg, le(kap, n - off)], err("FitError", err=W.make("FitError", "NegativeLambda", **{"lambda": lam_}))),
                ("order too high", [lt(n - off, kap)], err("FitError", err=W.make(
                    "FitError", "RequestedPolynomialSegmentAndPenalizationKappaMismatch", n=n, kappa=kap)))], boundary=bd)


@prop("P24")
def p24(R):
    """generate is interpreted for each kind of generation and all methods; the returned curve must be that of the knots and
    points the arguments name, each refusal the error of its part."""
    generation_rules(R)
    parameter_rules(R)
