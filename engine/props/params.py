"""Parameters of the data points."""
from spec import *
from . import prop


def D_(r, i):
    return sel("D", r, i)


def dist(g, D=D_):
    """Euclidean distance between the data points g - 1 and g"""
    r = fresh("r")
    R_ = Lin.of(r)
    df = sub(D(R_, g), D(R_, Lin.of(g) - 1))
    return app("sqrt", tsum(r, 0, d - 1, mul(df, df)))


def prefix(f, g):
    h = fresh("h")
    return tsum(h, 1, g, f(Lin.of(h)))


def params_of(W, f):
    return W.make("Parameters", vector=avec(m + 1, f), segments=m)


def equally(g, m=m):
    return ite([("eq", g - m)], ONE, div(i2f(g), i2f(m)))


def relative(f, m=m):
    def v(g):
        h, x = fresh("h"), fresh("x")
        part = tsum(h, 1, g, div(f(Lin.of(h)), tsum(x, 1, m, f(Lin.of(x)))))
        return ite([("eq", g - m)], ONE, part)
    return v


def parameter_rules(R):
    W = R.w
    D = lambda I, st: I.cell(st, W.data("D", d, m))
    pre = nat("m", "d")
    cen = lambda g: app("sqrt", dist(g))
    enough = [fr(prefix(cen, m), ">=", app("sqrt", const(2.0 ** -52)))]
    table = (("EquallySpaced", "equally_spaced", equally, []), ("ChordLength", "chord_length", relative(dist), []),
             ("Centripetal", "centripetal", relative(cen), enough))
    for meth, fn, val, lits in table:
        spec = lambda a, st: [("all", lits, params_of(W, val))]
        R.contract("parameters, " + meth, "parameters::methods::" + fn,
                   lambda I, st: [m] if meth == "EquallySpaced" else [D(I, st)], pre, spec)
        R.contract("choice of the parameter method", "parameters::generate",
                   lambda I, st: [D(I, st), W.make("parameters::Method", meth)], pre, spec)


@prop("P18")
def p18(R):
    """each generator and the dispatcher are interpreted for symbolic data; prefix sums are summarised and re-checked
    to be inductive; each entry must equal its defining formula."""
    parameter_rules(R)
