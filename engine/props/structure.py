"""Constructors, queries and views of curves, points, parameters and vectors."""
from spec import *
from . import prop
from .points import P0, curve_of, U_


def find_re(R, pat):
    import re
    c = [k for k, f in R.p.fns.items() if re.search(pat + "$", f["name"])]
    if len(c) != 1:
        raise Missing("function " + pat)
    return c[0]


def of_trait(R, ty, meth):
    """method of the trait of points, as the type provides it"""
    for pat in (r"::%s as [\w:]*::Points>::%s" % (ty, meth),):
        return find_re(R, pat)


def curve_queries(R):
    W = R.w
    C = lambda I, st: [I.cell(st, W.curve("U", "P", p, n, d))]
    pre = nat("p", "n", "d") + [le(p, n)]
    same = lambda a: [(a[0], W.curve("U", "P", p, n, d), "the curve itself")]
    for fn, v in (("degree", p), ("segments", n), ("dimension", d), ("max_derivative", p)):
        R.contract("query of a curve", "Curve::" + fn, C, pre, lambda a, st: [(fn, [], v, same(a))])
    K = Lin.of("K")
    P = lambda I, st: I.cell(st, W.points("P", d, n, K))
    ppre = nat("n", "d", "k", "K") + [le(K, n)]
    mat = lambda j: Arr(d, n + 1 - j, lambda r, i: sel("P", j, r, i))
    for fn, v in (("segments", n), ("count", n + 1), ("max_derivative", K)):
        R.contract("query of control points", "ControlPoints::" + fn, lambda I, st: [P(I, st)], ppre, lambda a, st: [(fn, [], v)])
    R.contract("number of derivative points", "ControlPoints::count_derivative", lambda I, st: [P(I, st), k], ppre, lambda a, st: [
        ("calculated order", [le(k, K)], n + 1 - k), ("order not calculated", [lt(K, k)], "panic")])
    for fn in ("matrix_derivative", "matrix_derivative_mut"):
        R.contract("derivative points", "ControlPoints::" + fn, lambda I, st: [P(I, st), k], ppre, lambda a, st: [
            ("calculated order", [le(k, K)], mat(k), [(a[0], W.points("P", d, n, K), "points")]), ("order not calculated", [lt(K, k)], "panic")])
    for fn in ("new", "new_with_capacity"):
        R.contract("new control points", "ControlPoints::" + fn, lambda I, st: [Arr(d, n + 1, P0)] + ([Lin.of("cap")] if fn != "new" else []),
                   nat("n", "d", "cap"), lambda a, st: [("all", [], W.make("ControlPoints", Pk=VVec(1, [(Lin(0), Lin(1), lambda j: Arr(d, n + 1, P0))]), k_max=Lin(0)))])


def point_queries(R):
    W = R.w
    i = Lin.of("i")
    D0 = lambda r, c: sel("D", r, c)
    for ty, obj, el in (("DataPoints", lambda: W.data("D", d, n), D0), ("ControlPoints", lambda: W.points("P", d, n, k), P0)):
        args = lambda I, st: [I.cell(st, obj())]
        pre = nat("n", "d", "k", "i") + [le(k, n)]
        same = lambda a: [(a[0], obj(), "the points themselves")]
        for fn, v in (("dimension", d), ("count", n + 1), ("matrix", Arr(d, n + 1, el)), ("matrix_mut", Arr(d, n + 1, el))):
            R.contract("query of points", of_trait(R, ty, fn), args, pre, lambda a, st: [(fn, [], v, same(a))])
        R.contract("query of points", of_trait(R, ty, "is_empty"), args, pre, lambda a, st: [
            ("of positive dimension", [le(1, d)], False, same(a)), ("of dimension zero", [("eq", d)], True)])
        for fn in ("get", "get_mut"):
            R.contract("single point", of_trait(R, ty, fn), lambda I, st: args(I, st) + [i], pre, lambda a, st: [
                ("index in range", [le(i, n)], Arr(d, 1, lambda r, c: el(r, i), True), same(a)), ("index out of range", [lt(n, i)], "panic")])
    R.contract("new data points", "DataPoints::new", lambda I, st: [Arr(d, n + 1, D0)], nat("n", "d"), lambda a, st: [("all", [], W.data("D", d, n))])
    R.contract("data segments", "DataPoints::segments", lambda I, st: [I.cell(st, W.data("D", d, n))], nat("n", "d"), lambda a, st: [("all", [], n)])
    u = lambda x: avec(n + 1, lambda j: sel("u", j))
    q = Lin.of("q")
    R.contract("new parameters", "Parameters::new", lambda I, st: [u(0), q], nat("n", "q"), lambda a, st: [("all", [], W.make("Parameters", vector=u(0), segments=q))])
    R.contract("parameter vector", "Parameters::vector", lambda I, st: [I.cell(st, W.params("u", n))], nat("n"), lambda a, st: [("all", [], u(0))])
    R.contract("parameter segments", "Parameters::segments", lambda I, st: [I.cell(st, W.params("u", n))], nat("n"), lambda a, st: [("all", [], n)])


def clone_rules(R):
    W = R.w
    for ty, obj in (("Curve", lambda: W.curve("U", "P", p, n, d)), ("Knots", lambda: W.knots("U", p, n)), ("ControlPoints", lambda: W.points("P", d, n, p)),
                    ("DataPoints", lambda: W.data("D", d, n)), ("Parameters", lambda: W.params("u", n))):
        R.contract("copy", find_re(R, r"::%s as [\w:]*::Clone>::clone" % ty), lambda I, st: [I.cell(st, obj())], nat("p", "n", "d") + [le(p, n)],
                   lambda a, st: [("all", [], obj(), [(a[0], obj(), "the original")])])


def mutable_rules(R):
    W = R.w
    pre = nat("p", "n", "k") + [le(p, n)]
    K = lambda I, st: I.cell(st, W.knots("U", p, n))
    same = lambda a: [(a[0], W.knots("U", p, n), "the knots")]
    R.contract("mutable knot vector", "Knots::vector_mut", lambda I, st: [K(I, st)], pre, lambda a, st: [("all", [], avec(n + p + 2, U_), same(a))])
    R.contract("mutable knot vector", "Knots::vector_derivative_mut", lambda I, st: [K(I, st), k], pre, lambda a, st: [
        ("calculated order", [le(k, p)], avec(n + p + 2 - k * 2, lambda i: U_(i + k)), same(a)), ("order not calculated", [lt(p, k)], "panic")])


@prop("P07")
def p07(R):
    """each constructor, query, accessor and clone is interpreted for symbolic counts, orders and indices; results must
    equal the stored data, indices out of range be refused, and the object stay as it was."""
    curve_queries(R)
    point_queries(R)
    clone_rules(R)
    mutable_rules(R)


@prop("P29")
def p29(R):
    """head, segment and tail are interpreted for symbolic lengths; the view must read the named window of the vector,
    and a window that does not fit must be refused."""
    L, i, w = Lin.of("L"), Lin.of("i"), Lin.of("w")
    V = lambda j: sel("V", j)
    vec = lambda I, st: I.cell(st, avec(L, V))
    view = lambda o: avec(w, lambda j: V(o + j))
    pre = nat("L", "i", "w")
    for mut in ("", "_mut"):
        same = lambda a: [(a[0], avec(L, V), "the vector")]
        one = lambda I, st: [vec(I, st), w]
        R.contract("first entries", find_re(R, "VecHelpers>::head" + mut), one, pre, lambda a, st: [
            ("fits", [le(w, L)], view(0), same(a)), ("too long", [lt(L, w)], "panic")])
        R.contract("last entries", find_re(R, "VecHelpers>::tail" + mut), one, pre, lambda a, st: [
            ("fits", [le(w, L)], view(L - w), same(a)), ("too long", [lt(L, w)], "panic")])
        R.contract("entries from an index on", find_re(R, "VecHelpers>::segment" + mut), lambda I, st: [vec(I, st), i, w], pre, lambda a, st: [
            ("fits", [le(i + w, L)], view(i), same(a)), ("does not fit", [lt(L, i + w)], "panic")])
