"""Knot insertion (Boehm) and splitting."""
from spec import *
from . import prop
from .points import coherent, curve_of, pb, single_point_rules, U_, P0
from .evaluation import find_idx_rules, OUTSIDE, REAL

r_ = Lin.of("r")


class Overfull(Pos):
    """on an interior knot that is repeated more often than the degree"""

    def __init__(self, name="U"):
        Pos.__init__(self, "on an interior knot", name)
        r = self.r
        self.lits = [l for l in self.lits if l != le(r + 1, p)] + [le(p, r)]

    def axioms(self):
        return (clamped_axiom(self.name, p, n, strict=False), self.run_axiom)


def inserted_knots(Q):
    """knot vector with u once more, behind the knots that do not exceed it"""
    j = Q.last
    return lambda i: ite([le(i, j)], U_(i), ite([("eq", i - j - 1)], Q.u, U_(i - 1)))


def boehm(Q):
    """control points after the insertion: P_i while U[i+p] <= u, P_{i-1} from U[i] >= u on, in between the mix"""
    f = Q.first if Q.label == "on an interior knot" else Q.s + 1

    def v(r, i):
        a = div(sub(Q.u, U_(i)), sub(U_(i + p), U_(i)))
        mix = add(mul(a, P0(r, i)), mul(sub(ONE, a), P0(r, i - 1)))
        return ite([le(i + p, Q.last)], P0(r, i), ite([le(f, i)], P0(r, i - 1), mix))
    return v


def ferr(W, variant, **kw):
    return W.make("InsertError", variant, **kw)


INS = ("manipulation::insert::insert", "Curve::insert")


def insert_guard(R):
    W, u = R.w, fvar("u")
    same = lambda a: [(a[0], coherent(W, p, n, d), "the curve itself")]
    args = lambda I, st: [I.cell(st, coherent(W, p, n, d)), u]
    out = (("at or below the start", [fr(u, "<=", ZERO)]), ("at or above the end", [fr(u, ">=", ONE)]), OUTSIDE[2])
    for fn in INS:
        for label, lits in out:
            R.contract("insertion outside the open domain is refused and changes nothing", fn, args,
                       nat("p", "n", "d") + [le(p, n)] + lits, lambda a, st: [
                           (label, [], ERR(ferr(W, "OutOfBounds", u=u, lower_bound=ZERO, upper_bound=ONE)), same(a))],
                       boundary=pb(R))
        Q = Overfull()
        R.contract("insertion beyond the multiplicity limit is refused and changes nothing", fn, args,
                   nat("p", "n", "d") + [le(p, n)] + Q.lits, lambda a, st: [
                       ("full", [], ERR(ferr(W, "MultiplicityError", u=u, m=Q.r + 1, p=p)), same(a))],
                   axioms=Q.axioms(), count=Q.count, boundary=pb(R))


def insert_rules(R, exact=True):
    W = R.w
    for fn in INS:
        for pos in POSITIONS[:2]:
            Q = Pos(pos)
            bd = dict(pb(R))
            bd[R.find("Knots::find_idx", optional=True)] = Q.find_idx(W)
            target = curve_of(W, inserted_knots(Q), boehm(Q), p, n + 1, d) if exact else ANY
            R.contract("knot insertion", fn, lambda I, st: [I.cell(st, coherent(W, p, n, d)), Q.u],
                       nat("p", "n", "d") + [le(p, n)] + Q.lits + Q.room, lambda a, st: [
                           (pos, [], OK(), [(a[0], target, "curve")])], axioms=Q.axioms(), count=Q.count, boundary=bd)


@prop("P08", assumptions=[REAL])
def p08(R):
    """insert is interpreted for a parameter at or beyond either end, not a number, and on a knot of more than full
    multiplicity: it must return the error with its data and leave every part of the curve as it was; everywhere else in
    the open domain every path must return Ok without panic."""
    insert_guard(R)
    insert_rules(R, False)


@prop("P09", assumptions=[REAL])
def p09(R):
    """insert is interpreted for symbolic degree, counts, dimension, parameter position and multiplicity; knots and points
    left in memory must equal Boehm's, every cached derivative must be the derivative of the new points on the new knots."""
    single_point_rules(R)
    insert_rules(R)
    repeated_rules(R)
    find_idx_rules(R)


# ------------------------------------------------------------------------------------------- splitting
def ins_knots(Q, t):
    """knot vector after t insertions of u"""
    j = Q.last
    return lambda i: ite([le(i, j)], U_(i), ite([le(i, j + t)], Q.u, U_(i - t)))


def ins_points(t):
    """points after t insertions of u: t-fold Boehm, an uninterpreted function of t"""
    return lambda r, i: ite([("eq", Lin.of(t))], P0(r, i), app("inserted", Lin.of(t), Lin.of(r), Lin.of(i)))


def ins_curve(W, Q, t):
    """the curve after t insertions; its vectors name themselves as candidates for loop invariants"""
    def state(t):
        return curve_of(W, ins_knots(Q, t), ins_points(t), p, n + t, d)
    c = state(t)
    kn, pt = W.field(c, "Curve", "knots"), W.field(c, "Curve", "points")

    def g(get):
        v = get(c)
        return VVec(v.len, v.segs, v.upd, gen=lambda s: get(state(s)))
    uk = lambda c: W.field(W.field(c, "Curve", "knots"), "Knots", "Uk")
    pk = lambda c: W.field(W.field(c, "Curve", "points"), "ControlPoints", "Pk")
    kn = W.make("Knots", Uk=g(uk), p=p, k_max=p)
    return W.make("Curve", knots=kn, points=W.make("ControlPoints", Pk=g(pk), k_max=p))


def insertion(W, Q):
    """insert as one more application of Boehm's step (the contract of insertion)"""
    def b(I, st, args):
        u = models.val(I, st, args[1])
        if not isinstance(args[0], Ref) or not Q.is_u(st, u):
            return None
        c = I.load(st, args[0])
        try:
            U = I.vget(st.ctx, W.field(W.field(c, "Curve", "knots"), "Knots", "Uk"), Lin(0))
            P = I.vget(st.ctx, W.field(W.field(c, "Curve", "points"), "ControlPoints", "Pk"), Lin(0))
        except Exception:
            return None
        if not (isinstance(U, Arr) and isinstance(P, Arr)):
            return None
        t = st.ctx.canon(U.nr - n - p - 2)
        if not st.ctx.prove_le(-t):
            return None
        want = ins_curve(W, Q, t)
        import loops
        Ut = I.vget(st.ctx, W.field(W.field(want, "Curve", "knots"), "Knots", "Uk"), Lin(0))
        Pt = I.vget(st.ctx, W.field(W.field(want, "Curve", "points"), "ControlPoints", "Pk"), Lin(0))
        if not (loops.same(U, Ut, st.ctx) and loops.same(P, Pt, st.ctx)):
            return None
        out = []
        for s, full in models.split2(I, st, le(p + 1, Q.multiplicity + t)):
            if full:
                out.append((s, models.err(ferr(W, "MultiplicityError", u=Q.u, m=Q.multiplicity + t, p=p))))
            else:
                s = s.fork()
                I.store(s, args[0], ins_curve(W, Q, t + 1))
                out.append((s, models.ok(models.UNIT)))
        return out
    return b


def repeated_rules(R):
    """x insertions in one call"""
    W, u = R.w, fvar("u")
    x = Lin.of("x")
    pre = nat("p", "n", "d", "x") + [le(p, n)]
    key = R.find("manipulation::insert::insert")
    for pos in POSITIONS[:2]:
        Q = Pos(pos)
        bd = {key: insertion(W, Q)}
        fits = le(Q.multiplicity + x, p + 1)
        R.contract("repeated insertion", "Curve::insert_times", lambda I, st: [I.cell(st, ins_curve(W, Q, Lin(0))), u, x],
                   pre + Q.lits, lambda a, st: [
                       (pos, [fits], OK(), [(a[0], ins_curve(W, Q, x), "curve")]),
                       (pos + ", more often than the limit", [lit_neg(fits)], ERR(ferr(W, "MultiplicityError", u=u, m=p + 1, p=p)))],
                   axioms=Q.axioms(), boundary=bd)
    for label, lits in (("at or below the start", [fr(u, "<=", ZERO)]), ("at or above the end", [fr(u, ">=", ONE)]), OUTSIDE[2]):
        R.contract("repeated insertion outside the open domain", "Curve::insert_times",
                   lambda I, st: [I.cell(st, coherent(W, p, n, d)), u, x], pre + lits, lambda a, st: [
                       (label, [le(1, x)], ERR(ferr(W, "OutOfBounds", u=u, lower_bound=ZERO, upper_bound=ONE)),
                        [(a[0], coherent(W, p, n, d), "the curve itself")]),
                       (label + ", no repetition", [("eq", x)], OK(), [(a[0], coherent(W, p, n, d), "the curve itself")])],
                   boundary=pb(R))


def split_guard(R):
    W, u = R.w, fvar("u")
    args = lambda I, st: [I.cell(st, coherent(W, p, n, d)), u]
    out = (("at or below the start", [fr(u, "<=", ZERO)]), ("at or above the end", [fr(u, ">=", ONE)]), OUTSIDE[2])
    flags = tup(("lit", ("b", "f0", True)), ("lit", ("b", "f1", True)))
    for fn, more in (("manipulation::split::split", []), ("Curve::split", []), ("manipulation::split::split_and_normalize", [flags])):
        for label, lits in out:
            R.contract("splitting outside the open domain is refused", fn, lambda I, st: args(I, st) + more,
                       nat("p", "n", "d") + [le(p, n)] + lits, lambda a, st: [
                           (label, [], ERR(W.make("SplitError", "OutOfBounds", u=u, lower_bound=ZERO, upper_bound=ONE)))])
        Q = Overfull()
        bd = {R.find("Knots::find_idx", optional=True): Q.find_idx(W)}
        R.contract("splitting where the curve is disconnected already is refused", fn, lambda I, st: args(I, st) + more,
                   nat("p", "n", "d") + [le(p, n)] + Q.lits, lambda a, st: [
                       ("full", [], ERR(W.make("SplitError", "MultiplicityTooHigh", u=u, p=p, multiplicity=Q.r + 1)))],
                   axioms=Q.axioms(), count=Q.count, boundary=bd)


def halves(W, Q, norm):
    t = p - Q.multiplicity
    L, u = Q.last, Q.u
    cut = L + t - p       # index of the common end point
    Ut, Pt = ins_knots(Q, t), ins_points(t)
    lk = lambda i: ite([le(i, L + t)], Ut(i), u)
    rk = lambda i: ite([("eq", Lin.of(i))], u, Ut(cut + i))
    left = lambda i: div(lk(i), u) if norm[0] else lk(i)
    right = lambda i: div(sub(rk(i), u), sub(ONE, u)) if norm[1] else rk(i)
    return (curve_of(W, left, Pt, p, cut, d),
            curve_of(W, right, lambda r, i: Pt(r, cut + i), p, n + t - cut, d))


def split_rules(R, exact=True):
    W = R.w
    B = (True, False)
    for fn, flags in [("manipulation::split::split", None), ("Curve::split", None)] + [
            ("manipulation::split::split_and_normalize", (x, y)) for x in B for y in B]:
        for pos in POSITIONS[:2]:
            Q = Pos(pos)
            bd = dict(pb(R))
            bd[R.find("Knots::find_idx", optional=True)] = Q.find_idx(W)
            bd[R.find("manipulation::insert::insert")] = insertion(W, Q)
            target = tup(*halves(W, Q, flags or (True, True))) if exact else ANY
            R.contract("splitting", fn, lambda I, st: [I.cell(st, ins_curve(W, Q, Lin(0))), Q.u] + ([tup(*flags)] if flags else []),
                       nat("p", "n", "d") + [le(p, n)] + Q.lits + Q.room, lambda a, st: [
                           (pos + (f", normalised: {flags[0]}, {flags[1]}" if flags else ""), [], OK(target))],
                       axioms=Q.axioms(), count=Q.count, boundary=bd)


@prop("P11", assumptions=[REAL])
def p11(R):
    """split is interpreted for a parameter at or beyond either end, not a number, and on a knot of more than full
    multiplicity: it must return the error with its data; everywhere else in the open domain every path must return Ok
    without panic, in particular every knot insertion it makes must succeed."""
    split_guard(R)
    split_rules(R, False)


@prop("P12", assumptions=[REAL])
def p12(R):
    """split is interpreted for symbolic degree, counts, dimension, parameter position, multiplicity and both flags, knot
    insertion being its contract; both halves must be the two sections of the curve with u inserted up to full
    multiplicity, sharing the cut point, closed by one more knot, normalised as asked, with derivative data of their own."""
    single_point_rules(R)
    split_rules(R)
    insert_rules(R)
    find_idx_rules(R)
