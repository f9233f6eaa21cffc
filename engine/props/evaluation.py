"""Evaluation of curves, basis functions, knot spans."""
from spec import *
from . import prop

REAL = "the knot vector is clamped, normed and ascending, interior knots repeat at most once more often than the degree"


def find_idx_rules(R):
    W = R.w
    for pos in POSITIONS:
        Q = Pos(pos)
        for c in ("Left", "LeftOrEqual", "Right", "RightOrEqual"):
            pre = nat("p", "n", "k") + [le(p, n), le(k, p)] + Q.lits
            R.contract("span lookup, " + c, "Knots::find_idx",
                       lambda I, st: [I.cell(st, W.knots("U", p, n)), Q.u, k, W.make("DomainKnotComparatorType", c)],
                       pre, lambda a, st: [(pos, [], Q.cmp[c] - k)], axioms=Q.axioms())


OUTSIDE = (("below the domain", [fr(fvar("u"), "<", ZERO)]), ("above the domain", [fr(fvar("u"), ">", ONE)]),
           ("not a number", [("fr", fvar("u"), ZERO, UN)]))


def evaluation_guard(R):
    W, u = R.w, fvar("u")
    for fn, args in (("Curve::evaluate_derivative", lambda k: [u, k]), ("Curve::evaluate", lambda k: [u])):
        for label, lits in OUTSIDE:
            R.contract("parameters outside the domain are refused", fn,
                       lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d))] + args(k),
                       nat("p", "n", "k", "d") + [le(p, n)] + lits,
                       lambda a, st: [(label, [], ERR(W.make("CurveError", "ParameterOutOfBounds", u=u, lower_bound=ZERO,
                                                             upper_bound=ONE)))],
                       boundary={R.find("basis::basis", optional=True): generic_basis})
    for pos in POSITIONS:
        Q = Pos(pos)
        R.contract("parameters inside the domain are accepted", "Curve::evaluate_derivative",
                   lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d)), Q.u, k],
                   nat("p", "n", "k", "d") + [le(p, n)] + Q.lits, lambda a, st: [(pos, [], OK())],
                   boundary={R.find("Knots::find_idx", optional=True): Q.find_idx(W),
                             R.find("basis::basis", optional=True): Q.basis()}, axioms=Q.axioms())


def evaluation_total(R):
    W = R.w
    for pos in POSITIONS:
        Q = Pos(pos)
        zero = Arr(d, 1, lambda r, c: ZERO, True)
        R.contract("orders above the degree give the zero vector", "Curve::evaluate_derivative",
                   lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d)), Q.u, k],
                   nat("p", "n", "k", "d") + [le(p, n), le(p + 1, k)] + Q.lits, lambda a, st: [(pos, [], OK(zero))],
                   axioms=Q.axioms())
        R.contract("evaluation returns a point of the dimension of the curve", "Curve::evaluate_derivative",
                   lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d)), Q.u, k],
                   nat("p", "n", "k", "d") + [le(p, n)] + Q.lits,
                   lambda a, st: [(pos, [], OK(Where(lambda v, c: [("dimension", cmp_lin(v.nr, d, c))]
                                                    if isinstance(v, Arr) else [("dimension", Verdict(UNK_))])))],
                   boundary={R.find("basis::basis", optional=True): generic_basis}, axioms=Q.axioms())


def evaluation_sum(R):
    W = R.w
    for pos in POSITIONS:
        Q = Pos(pos)
        pre = nat("p", "n", "k", "d") + [le(p, n), le(k, p)] + Q.lits

        def spec_(a, st):
            i = fresh("i")
            val = Arr(d, 1, lambda r, c: tsum(i, 0, n - k, mul(Q.basis_val(k, Lin.of(i), p - k, n - k, Q.u), sel("P", k, r, i))), True)
            return [(pos, [], OK(val))]
        R.contract("evaluation is the sum of basis functions times derivative points", "Curve::evaluate_derivative",
                   lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d)), Q.u, k], pre, spec_,
                   boundary={R.find("Knots::find_idx", optional=True): Q.find_idx(W),
                             R.find("basis::basis", optional=True): Q.basis()}, axioms=Q.axioms())


@prop("P10", assumptions=[REAL])
def p10(R):
    """find_idx is interpreted over symbolic knots for a parameter between knots, on a knot of any multiplicity, at the
    start and at the end; each comparator must return the index its definition gives, shifted by the derivative order."""
    find_idx_rules(R)


@prop("P03", assumptions=[REAL])
def p03(R):
    """evaluate_derivative is interpreted for symbolic degree, counts, dimension, order and parameter position; the result
    must equal the sum over all control points of the basis functions (support resolved) times the derivative points."""
    evaluation_sum(R)
    find_idx_rules(R)
    basis_rules(R)


@prop("P01", assumptions=[REAL])
def p01(R):
    """evaluate and evaluate_derivative are interpreted for a parameter below zero, above one and not a number: every path
    must return ParameterOutOfBounds with the parameter and the bounds; inside the domain every path must return Ok."""
    evaluation_guard(R)


@prop("P02", assumptions=[REAL])
def p02(R):
    """every path of evaluate_derivative for a parameter in the domain returns without panic a vector of the dimension of
    the curve, for every order; orders above the degree give the zero vector."""
    evaluation_total(R)
    basis_rules(R)


def basis_rules(R):
    """Cox - de Boor recursion"""
    W, u = R.w, fvar("u")
    i, q, ln = Lin.of("i"), Lin.of("q"), Lin.of("len")
    U = lambda j: sel("U", j)
    N = n - k
    key = R.find("basis::basis")
    pre = nat("i", "q", "n", "k", "len") + [le(k, n), le(i + q + 2, ln), le(N + 2, ln)]
    args = lambda I, st: [I.cell(st, avec(ln, U)), i, q, k, n, u]

    def base(a, st):
        v = ite([fr(U(i), "<=", u), fr(u, "<", U(i + 1))], ONE, ite([("eq", i - N), fr(u, "==", U(N + 1))], ONE, ZERO))
        return [("degree zero", [], v)]

    def step(a, st):
        b = lambda j: app("basis", mk("win", "U", Lin(0)), j, q - 1, N, u)
        l = ite([fr(U(i + q), "==", U(i))], ZERO, mul(div(sub(u, U(i)), sub(U(i + q), U(i))), b(i)))
        r = ite([fr(U(i + 1 + q), "==", U(i + 1))], ZERO,
                mul(div(sub(U(i + 1 + q), u), sub(U(i + 1 + q), U(i + 1))), b(i + 1)))
        return [("higher degree", [], add(l, r))]
    R.contract("basis function of degree zero", key, args, pre + [("eq", q)], base)
    R.contract("Cox - de Boor recursion", key, args, pre + [le(1, q)], step, boundary={key: generic_basis}, self_cut=True)


@prop("P04")
def p04(R):
    """basis is interpreted for symbolic knots, index, degree and closing index, recursive calls being the induction
    hypothesis; each path must return the right-hand side of the Cox - de Boor recursion with 0/0 = 0 and the closed last
    interval, without panic. Knots::evaluate must pass its own derivative vector, reduced degree and closing index."""
    basis_rules(R)
    W, u = R.w, fvar("u")
    i = Lin.of("i")
    R.contract("basis function of a knot vector", "Knots::evaluate", lambda I, st: [I.cell(st, W.knots("U", p, n)), k, i, p, u],
               nat("p", "n", "k", "i") + [le(p, n), le(k, p), le(i, n - k)],
               lambda a, st: [("all", [], app("basis", mk("win", "U", k), i, p - k, n - k, u))],
               boundary={R.find("basis::basis", optional=True): generic_basis})


@prop("P30", assumptions=[REAL])
def p30(R):
    """evaluate and evaluate_derivative are interpreted at both ends of the domain for symbolic degree, counts, dimension
    and order; the result must be the first or last derivative point itself. Basis functions and span lookup enter by
    their contracts, which the same check proves."""
    W = R.w
    for pos, at in (("at the start", lambda k: Lin(0)), ("at the end", lambda k: n - k)):
        Q = Pos(pos)
        for fn, args, kk in (("Curve::evaluate_derivative", [Q.u, k], k), ("Curve::evaluate", [Q.u], Lin(0))):
            for deg, lits in (("", [le(1, p)]), (", degree zero", [("eq", p)])):
                pre = nat("p", "n", "k", "d") + [le(p, n), le(k, p)] + lits + Q.lits
                R.contract("a curve starts and ends at its control polygon", fn, lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d))] + args,
                           pre, lambda a, st: [(pos + deg, [], OK(Arr(d, 1, lambda r, c: sel("P", kk, r, at(kk)), True)))],
                           boundary={R.find("Knots::find_idx", optional=True): Q.find_idx(W),
                                     R.find("basis::basis", optional=True): Q.basis()}, axioms=Q.axioms())
        for c in ("Left", "LeftOrEqual", "Right", "RightOrEqual"):
            R.contract("span lookup, " + c, "Knots::find_idx",
                       lambda I, st: [I.cell(st, W.knots("U", p, n)), Q.u, k, W.make("DomainKnotComparatorType", c)],
                       nat("p", "n", "k") + [le(p, n), le(k, p)] + Q.lits, lambda a, st: [(pos, [], Q.cmp[c] - k)], axioms=Q.axioms())
    basis_rules(R)
