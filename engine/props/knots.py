"""Knot vectors: generation, queries, predicates, normalisation."""
from spec import *
from . import prop

i_, j_ = Lin.of("i"), Lin.of("j")


def uk_windows(name, p, ln):
    """derivative knot vectors: the inner windows of the knot vector"""
    return VVec(Lin.of(p) + 1, [(Lin(0), Lin.of(p) + 1, lambda k: avec(Lin.of(ln) - k * 2, lambda i: name(i + k)))])


def knots_of(W, f, p, ln):
    return W.make("Knots", Uk=uk_windows(f, p, ln), p=Lin.of(p), k_max=Lin.of(p))


def clamped(p, n, inner):
    return lambda i: ite([le(i, p)], ZERO, ite([le(n + 1, i)], ONE, inner(i - p)))


def uniform_inner(p, n):
    return lambda j: div(i2f(j), i2f(n - p + 1))


def averaged_inner(p, ubar):
    def avg(j):
        x = fresh("x")
        return div(tsum(x, j, j + p - 1, ubar(Lin.of(x))), i2f(p))
    return avg


def deboor_inner(p, n, m, ubar):
    def deboor(j):
        x = mul(i2f(j), div(i2f(m + 1), i2f(n - p + 1)))
        i = trunc_sym(Norm(Ctx()).canon(x))
        a = sub(x, i2f(i))
        return add(mul(sub(ONE, a), ubar(i - 1)), mul(a, ubar(i)))
    return deboor


def generator_rules(R):
    W = R.w
    ubar = lambda i: sel("u", i)
    params = lambda I, st: I.cell(st, W.params("u", m))
    low = [("degree zero", [("eq", p)], ERR(W.make("CurveError", "DegreeTooLow", p=Lin(0), limit=Lin(0)))),
           ("degree above the number of segments", [le(1, p), le(n + 1, p)],
            ERR(W.make("CurveError", "DegreeAndSegmentsMismatch", p=p, n=n)))]
    fit = [le(1, p), le(p, n)]

    uni, avg, deboor = uniform_inner(p, n), averaged_inner(p, ubar), deboor_inner(p, n, m, ubar)
    R.contract("uniform knots", "knots::methods::uniform", lambda I, st: [p, n], nat("p", "n"),
               lambda a, st: low + [("valid", fit, OK(knots_of(W, clamped(p, n, uni), p, n + p + 2)))])

    R.contract("averaged knots", "knots::methods::averaging", lambda I, st: [p, n, params(I, st)],
               nat("p", "n", "m") + [le(n, m)],
               lambda a, st: low + [("valid", fit, OK(knots_of(W, clamped(p, n, avg), p, n + p + 2)))])
    R.contract("de Boor knots", "knots::methods::de_boor", lambda I, st: [p, n, params(I, st)],
               nat("p", "n", "m") + [le(n, m)],
               lambda a, st: low + [("valid", fit, OK(knots_of(W, clamped(p, n, deboor), p, n + p + 2)))])
    for meth, val in (("Uniform", uni), ("Averaging", avg), ("DeBoor", deboor)):
        R.contract("choice of the knot method", "knots::generate", lambda I, st: [p, n, params(I, st), W.make("knots::Method", meth)],
                   nat("p", "n", "m") + [le(n, m)],
                   lambda a, st: low + [(meth, fit, OK(knots_of(W, clamped(p, n, val), p, n + p + 2)))])


@prop("P17")
def p17(R):
    """each generator and the dispatcher are interpreted for symbolic degree, segments and parameters; the returned
    vector must equal the defining formula in each index range, the refusals their errors."""
    generator_rules(R)


def query_rules(R):
    W, u = R.w, fvar("u")
    K = lambda I, st: I.cell(st, W.knots("U", p, n))
    pre = nat("p", "n", "k") + [le(p, n), le(k, p)]
    U = lambda i: sel("U", i)
    R.contract("number of knots", "Knots::len", lambda I, st: [K(I, st), k], pre, lambda a, st: [("all", [], n + p + 2 - k * 2)])
    R.contract("degree", "Knots::degree", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], p)])
    R.contract("number of segments", "Knots::segments", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], n)])
    R.contract("number of segments", "Knots::segments_derivative", lambda I, st: [K(I, st), k], pre, lambda a, st: [("all", [], n)])
    R.contract("number of inner knots", "Knots::internal_count", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], n - p)])
    R.contract("number of domain knots", "Knots::domain_count", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], n - p + 2)])
    R.contract("inner knots", "Knots::internal", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], avec(n - p, lambda i: U(p + 1 + i)))])
    R.contract("domain knots", "Knots::domain", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], avec(n - p + 2, lambda i: U(p + i)))])
    R.contract("domain knots of a derivative", "Knots::domain_derivative", lambda I, st: [K(I, st), k], pre, lambda a, st: [("all", [], avec(n - p + 2, lambda i: U(p + i)))])
    R.contract("inner knot", "Knots::internal_knot", lambda I, st: [K(I, st), i_], pre + nat("i"), lambda a, st: [
        ("inside", [lt(i_, n - p)], U(p + 1 + i_)), ("outside", [le(n - p, i_)], "panic")])
    R.contract("domain knot", "Knots::domain_knot", lambda I, st: [K(I, st), i_], pre + nat("i"), lambda a, st: [
        ("inside", [lt(i_, n - p + 2)], U(p + i_)), ("outside", [le(n - p + 2, i_)], "panic")])
    R.contract("knot vector", "Knots::vector", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], avec(n + p + 2, U))])
    R.contract("derivative knot vector", "Knots::vector_derivative", lambda I, st: [K(I, st), k], pre, lambda a, st: [("all", [], avec(n + p + 2 - k * 2, lambda i: U(i + k)))])
    R.contract("highest derivative", "Knots::max_derivative", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], p)])
    for pos in POSITIONS:
        Q = Pos(pos)
        R.contract("multiplicity", "Knots::multiplicity", lambda I, st: [K(I, st), Q.u], nat("p", "n") + [le(p, n)] + Q.lits,
                   lambda a, st: [(pos, [], Q.multiplicity)], axioms=Q.axioms(), count=Q.count)


@prop("P28")
def p28(R):
    """each query is interpreted for symbolic knots; counts, sections and entries must equal their definition; the
    multiplicity is counted for each parameter position."""
    query_rules(R)


def predicate_rules(R):
    W = R.w
    K = lambda I, st: I.cell(st, W.knots("U", p, n))
    pre = nat("p", "n") + [le(p, n)]
    U = lambda i: sel("U", i)
    w = Lin.of("w")
    q = "q!"
    every = lambda lo, hi, *ls: ("forall", q, Lin.of(lo), Lin.of(hi), tuple(ls))
    at = Lin.of(q)
    NE = lambda a, b: ("fr", a, b, LT | GT | UN)
    NLE = lambda a, b: ("fr", a, b, GT | UN)
    R.contract("clamped", "knots::is_clamped", lambda I, st: [K(I, st)], pre, lambda a, st: [
        ("clamped", [every(0, p, fr(U(at), "==", ZERO)), every(n + 1, n + p + 1, fr(U(at), "==", ONE))], True),
        ("a head knot is not zero", [le(0, w), le(w, p), NE(U(w), ZERO)], False),
        ("a tail knot is not one", [le(n + 1, w), le(w, n + p + 1), NE(U(w), ONE)], False)])
    R.contract("sorted", "knots::is_sorted", lambda I, st: [K(I, st)], pre, lambda a, st: [
        ("ascending", [every(0, n + p, fr(U(at), "<=", U(at + 1)))], True),
        ("a descent", [le(0, w), le(w, n + p), NLE(U(w), U(w + 1))], False)])
    vec = models.lam_of(avec(n + p + 2, U))
    lo, hi = app("min", vec), app("max", vec)
    R.contract("normed", "knots::is_normed", lambda I, st: [K(I, st)], pre, lambda a, st: [
        ("normed", [fr(lo, "==", ZERO), fr(hi, "==", ONE)], True),
        ("smallest knot is not zero", [NE(lo, ZERO)], False), ("largest knot is not one", [NE(hi, ONE)], False)])
    uni = clamped(p, n, lambda j: div(i2f(j), i2f(n - p + 1)))
    R.contract("uniform", "knots::is_uniform", lambda I, st: [K(I, st)], pre + [le(1, p)], lambda a, st: [
        ("uniform", [every(0, n + p + 1, fr(U(at), "==", uni(at)))], OK(True)),
        ("a knot deviates", [le(0, w), le(w, n + p + 1), NE(U(w), uni(w))], OK(False))])
    R.contract("uniform", "knots::is_uniform", lambda I, st: [K(I, st)], pre + [("eq", p)], lambda a, st: [
        ("degree zero", [], ERR(W.make("CurveError", "DegreeTooLow", p=Lin(0), limit=Lin(0))))])


@prop("P27")
def p27(R):
    """each predicate is interpreted for symbolic knots under the universally quantified definition (must return true)
    and under a symbolic counterexample position (must return false)."""
    predicate_rules(R)


def scale_rules(R):
    W = R.w
    K = lambda I, st: I.cell(st, W.knots("U", p, n))
    pre = nat("p", "n") + [le(p, n)]
    a0, a1, b0, b1 = map(fvar, ("a0", "a1", "b0", "b1"))
    U = lambda i: sel("U", i)

    def resc(x):
        return add(mul(div(sub(x, a0), sub(a1, a0)), sub(b1, b0)), b0)
    R.contract("rescaling", "Knots::rescale", lambda I, st: [K(I, st), tup(a0, a1), tup(b0, b1)], pre,
               lambda a, st: [("all", [], ANY, [(a[0], knots_of(W, lambda i: resc(U(i)), p, n + p + 2), "knots")])])
    def unit(v, ln):
        l = models.lam_of(avec(ln, v))
        return avec(ln, lambda i: div(sub(v(i), app("min", l)), sub(app("max", l), app("min", l))))
    R.contract("normalisation", "Knots::normalize", lambda I, st: [K(I, st)], pre,
               lambda a, st: [("all", [], ANY, [(a[0], W.make("Knots", Uk=VVec(p + 1, [(Lin(0), p + 1, lambda k: unit(
                   lambda i: U(i + k), n + p + 2 - k * 2))]), p=p, k_max=p), "knots")])])
    R.contract("reverse", "Knots::reverse", lambda I, st: [K(I, st)], pre,
               lambda a, st: [("all", [], ANY, [(a[0], knots_of(W, lambda i: sub(ONE, U(n + p + 1 - i)), p, n + p + 2), "knots")])])
    vec = lambda I, st: [I.cell(st, avec(n, U))]
    R.contract("normalisation", "knots::normalize", vec, nat("n") + [le(1, n)],
               lambda a, st: [("all", [], ANY, [(a[0], unit(U, n), "knots")])])
    R.contract("normalisation", "knots::normalized", vec, nat("n") + [le(1, n)],
               lambda a, st: [("all", [], unit(U, n), [(a[0], avec(n, U), "argument")])])


@prop("P26")
def p26(R):
    """each operation is interpreted for symbolic knots; every entry of every derivative vector left in memory must
    equal the affine image."""
    scale_rules(R)


def derive_rules(R):
    W = R.w
    U = lambda i: sel("U", i)
    R.contract("derivative knot vectors", "Knots::new", lambda I, st: [p, avec(n + p + 2, U)], nat("p", "n") + [le(p, n)],
               lambda a, st: [("all", [], knots_of(W, U, p, n + p + 2))])


