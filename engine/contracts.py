"""Obligations: a function of the crate, abstractly interpreted on symbolic inputs, against a specification.

A specification is a list of cases (label, literals, expectation).  For every abstract path of the function and every case
whose literals are compatible with the path, the expectation is compared with what the path returns and leaves in memory.
Verdicts: equal (proved), different (a definite difference with a satisfiable context), undecided.
"""
import json
import os
import signal
import time
from compare import *
from interp import *
from loops import Unsupported_
from world import *
import models
import numeric


PROBE = bool(os.environ.get("VERIF_PROBE"))      # self test: every contract also at fixed sizes
DEBUG = bool(os.environ.get("VERIF_DEBUG"))


class Any_:
    def __repr__(self):
        return "_"


ANY = Any_()


class Var:
    """an enum variant (or struct) by name, with optional fields by position"""
    __slots__ = ("name", "fs")

    def __init__(self, name, *fs):
        self.name, self.fs = name, fs

    def __repr__(self):
        return self.name + repr(self.fs)


class Where:
    """expectation by predicate: f(code value, ctx) -> list of verdicts"""

    def __init__(self, f):
        self.f = f


def OK(x=ANY):
    return Var("Ok", x)


def ERR(x=ANY):
    return Var("Err", x)


def worst(vs):
    r = Verdict(EQ_)
    for v in vs:
        if v.k == DIFF_:
            return v
        if v.k == UNK_:
            r = v
    return r


def float_classes(ctx, *xs):
    """representatives of float terms that the context forces to be equal; elements mentioned by xs take part"""
    if xs and (ctx.axioms or ctx.foralls):
        new = [t for x in xs for t in atoms_of(x, lambda t: t.op == "sel" and not any(v.startswith(("λ", "β")) for v in t.vs))]
        if new:
            c = ctx.copy()
            c.rel = c.rel + tuple((t, t, ALLM) for t in dict.fromkeys(new))
            ctx = c
    ok, mat, terms, n = ctx.closure()
    rep = {}
    if not ok:
        return rep
    order = sorted(terms, key=lambda t: (t.op != "c", t.op != "var", t.id))
    for i, a in enumerate(order):
        if a in rep:
            continue
        for b in order[i + 1:]:
            if b not in rep and mat.get((a, b), ALLM) == EQ:
                rep[b] = a
    return rep


def cmp_t(a, b, ctx):
    """equality of reals; what the normal forms leave open or call different is evaluated at valuations of the context"""
    v = structural(a, b, ctx)
    if v.k == EQ_:
        return v
    c = v.ctx if v.ctx is not None else ctx
    r = numeric.refute(a, b, c)
    if r is None:
        if v.k == DIFF_ and numeric.defined_heads(a) != numeric.defined_heads(b):
            return Verdict(UNK_, c, a, b, "a definition is written out on one side only and could not be evaluated")
        return v
    if r[0] == "different" and v.k == UNK_:
        return Verdict(DIFF_, r[1], a, b, f"different values, e.g. at {show_model(r[2])}")
    if r[0] == "same" and v.k == DIFF_ and r[1] >= 2:
        return Verdict(UNK_, c, a, b, "different normal forms, but equal where evaluated")
    return v


def structural(a, b, ctx, depth=0):
    v = compare(a, b, ctx)
    if v.k == EQ_:
        return v
    # equalities between reals that the (possibly split) context implies
    c = v.ctx if v.ctx is not None else ctx
    if depth < 3 and c.rel:
        rep = float_classes(c, v.a if v.a is not None else a, v.b if v.b is not None else b)
        if rep:
            n = Norm(c)

            def f(t):
                if t.op in ("sel", "var", "app"):
                    return rep.get(n.canon(t))
                return None
            a2, b2 = replace_atoms(v.a if v.a is not None else a, f), replace_atoms(v.b if v.b is not None else b, f)
            v2 = compare(a2, b2, c)
            if v2.k == EQ_ and c is ctx:
                return v2
            if v2.k == EQ_:
                # this branch of the case split is equal: look at the others by excluding it
                return recompare(a, b, ctx)
            if v2.k == DIFF_ and v.k == DIFF_:
                return v2
    return v


import compare as _compare
_compare.DEEP = lambda a, b, ctx: cmp_t(a, b, ctx)


def recompare(a, b, ctx, budget=None):
    """compare with explicit case splits, each leaf modulo float equalities"""
    budget = budget if budget is not None else [200]
    budget[0] -= 1
    if budget[0] < 0:
        return Verdict(UNK_, why="case-split budget")
    n = Norm(ctx, True)
    try:
        n.poly(a), n.poly(b)
    except NeedSplit as e:
        r = Verdict(EQ_)
        for l in (e.lit, lit_neg(e.lit)):
            c = ctx.assume(l)
            if c is None:
                continue
            v = recompare(a, b, c, budget)
            if v.k == DIFF_:
                return v
            if v.k == UNK_:
                r = v
        return r
    rep = float_classes(ctx, a, b)
    if rep:
        nn = Norm(ctx)

        def f(t):
            if t.op in ("sel", "var", "app"):
                return rep.get(nn.canon(t))
            return None
        a, b = replace_atoms(p_term(nn.poly(a)), f), replace_atoms(p_term(nn.poly(b)), f)
    return compare(a, b, ctx)


def keyed_syms(x):
    s = set()
    if isinstance(x, Lin):
        todo = list(x.syms())
    else:
        todo = list(x)
    for y in todo:
        if y in SYMVARS:
            s.add(y)
    return s


EXACT_KINDS = {"div"}     # kinds of keyed symbols whose facts characterise them completely


def exact_sym(s):
    return any(s.startswith(k) for k in EXACT_KINDS)


def cmp_lin(a, b, ctx):
    if ctx.prove_eq(a - b):
        return Verdict(EQ_)
    cs = [c for c in (ctx.assume(("le", a - b + 1)), ctx.assume(("le", b - a + 1))) if c is not None]
    if not cs:
        return Verdict(EQ_)
    if tainted(a) or tainted(b):
        return Verdict(UNK_, ctx, a, b, "unmodelled integer")
    odd = [s for s in keyed_syms(ctx.canon(a)) - keyed_syms(ctx.canon(b)) if not exact_sym(s)]
    if odd:
        return Verdict(UNK_, ctx, a, b, f"vocabulary {odd}")
    for c in cs:
        m = feasible(c)
        if m is not None:
            return Verdict(DIFF_, c, a, b, f"integers differ, e.g. {show_model(m)}")
    return Verdict(UNK_, ctx, a, b, "no witness")


def show_model(m):
    return ", ".join(f"{k}={v}" for k, v in sorted(m.items()) if "#" not in k and "@" not in k and len(k) < 12)


def fr_lits(ls, ctx):
    """contexts (with literals) in which no guard inside the compared reals is open; None if out of budget"""
    todo, out, budget = [ctx], [], 200
    while todo:
        c = todo.pop()
        budget -= 1
        if budget < 0:
            return None
        n = Norm(c, True)
        try:
            new = [("fr", p_term(n.poly(l[1])), p_term(n.poly(l[2])), l[3]) if l[0] == "fr" else l for l in ls]
        except NeedSplit as e:
            todo += [x for x in (c.assume(e.lit), c.assume(lit_neg(e.lit))) if x is not None]
            continue
        x = c.assume(*new)
        if x is None:
            continue
        # quantified facts that may or may not reach the elements in question
        _, _, terms, nn = x.closure()
        und = []
        if x.foralls:
            x._instances(nn, list(terms), und)
        und = [l for l in und if not x.entails(l) and not x.refutes(l)]
        if und:
            todo += [y for y in (c.assume(und[0]), c.assume(lit_neg(und[0]))) if y is not None]
            continue
        if x.foralls:
            nx = Norm(x, True)
            try:
                for a, b, _ in x._instances(nn, list(terms))[0]:
                    nx.poly(a), nx.poly(b)
            except NeedSplit as e:
                todo += [y for y in (c.assume(e.lit), c.assume(lit_neg(e.lit))) if y is not None]
                continue
        out.append(x)
    return out


def cmp_bool(a, b, ctx):
    """formulas"""
    if a is b and a in (True, False):
        return Verdict(EQ_)
    r = Verdict(EQ_)
    for pol in (True, False):
        for x in dnf(a, pol):
            for y in dnf(b, not pol):
                c = ctx.assume(*[l for l in x + y if l[0] != "fr"])
                cs = fr_lits([l for l in x + y if l[0] == "fr"], c) if c is not None else []
                if cs is None:
                    r = Verdict(UNK_, c, a, b, "case-split budget")
                    continue
                for c in cs:
                    if any(l[0] == "b" for l in x + y) or feasible(c) is None:
                        if vacuous(c):
                            continue
                        r = Verdict(UNK_, c, a, b, "truth values")
                        continue
                    return Verdict(DIFF_, c, a, b, f"truth values differ ({pol} against {not pol})")
    return r


def unfolded(t, ctx):
    """at fixed sizes, recurrences in the specification are followed to their end"""
    import loops
    for _ in range(40 if EXPAND[0] and loops.UNFOLD else 0):
        x = loops.unfold(t, ctx)
        if x is t:
            break
        t = x
    return t


def cmp_val(code, spec, ctx, W, what="value"):
    """list of (what, verdict)"""
    if isinstance(spec, Any_):
        return []
    if isinstance(spec, Where):
        return spec.f(code, ctx)
    if isinstance(code, Unk) or code is None:
        return [(what, Verdict(UNK_, ctx, why=f"unmodelled: {code}"))]
    if isinstance(spec, Var):
        if not isinstance(code, Agg):
            return [(what, Verdict(UNK_, ctx, why=f"not an aggregate: {code!r:.60}"))]
        nm = variant_name(code, W)
        if nm is None:
            return [(what, Verdict(UNK_, ctx, why=f"unknown variant of {code.name}"))]
        if nm != spec.name:
            m = feasible(ctx)
            if m is None and vacuous(ctx):
                return []
            return [(what, Verdict(DIFF_ if m is not None else UNK_, ctx, nm, spec.name,
                                   f"returns {nm}{payload(code, W)} where {spec.name} is due"))]
        out = []
        for i, f in enumerate(spec.fs):
            out += cmp_val(code.fs[i], f, ctx, W, f"{what}.{nm}.{i}")
        return out
    if isinstance(spec, Agg):
        if not isinstance(code, Agg):
            return [(what, Verdict(UNK_, ctx, why=f"not an aggregate: {code!r:.60}"))]
        if code.v != spec.v:
            m = feasible(ctx)
            return [(what, Verdict(DIFF_ if m is not None else UNK_, ctx, variant_name(code, W), variant_name(spec, W),
                                   "other variant"))]
        out = []
        names = field_names(spec, W)
        for i, f in enumerate(spec.fs):
            out += cmp_val(code.fs[i] if i < len(code.fs) else None, f, ctx, W,
                           f"{what}.{names[i] if names and i < len(names) else i}")
        return out
    if isinstance(spec, (bool,)) or (isinstance(spec, tuple) and spec and spec[0] in ("lit", "not", "and", "or", "all")):
        if not (isinstance(code, (bool, tuple))):
            return [(what, Verdict(UNK_, ctx, why=f"not a truth value: {code!r:.60}"))]
        return [(what, cmp_bool(code, spec, ctx))]
    if isinstance(spec, int):
        spec = Lin.of(spec)
    if isinstance(spec, Lin):
        if not isinstance(code, Lin):
            return [(what, Verdict(UNK_, ctx, why=f"not an integer: {code!r:.60}"))]
        return [(what, cmp_lin(code, spec, ctx))]
    if isinstance(spec, T):
        if not isinstance(code, T):
            return [(what, Verdict(UNK_, ctx, why=f"not a real: {code!r:.60}"))]
        return [(what, cmp_t(code, unfolded(spec, ctx), ctx))]
    if isinstance(spec, Arr):
        if not isinstance(code, Arr):
            return [(what, Verdict(UNK_, ctx, why=f"not a matrix: {code!r:.60}"))]
        out = [(what + ".rows", cmp_lin(code.nr, spec.nr, ctx)), (what + ".columns", cmp_lin(code.nc, spec.nc, ctx))]
        if any(v.k != EQ_ for _, v in out):
            return out
        if EXPAND[0] and spec.nr.is_const() and spec.nc.is_const() and spec.nr.c * spec.nc.c <= 400:
            return out + [(what + f"[{i}]" if spec.vec else what + f"[{i},{j}]", cmp_t(
                code.el(Lin(i), Lin(j)), unfolded(spec.el(Lin(i), Lin(j)), ctx), ctx)) for i in range(spec.nr.c) for j in range(spec.nc.c)]
        i, j = Lin.of(fresh("x")), Lin.of(0) if spec.vec else Lin.of(fresh("y"))
        c = ctx.assume(("le", -i), ("le", i + 1 - spec.nr))
        if c is not None and not spec.vec:
            c = c.assume(("le", -j), ("le", j + 1 - spec.nc))
        if c is None:
            return out
        return out + [(what + f"[{i}]" if spec.vec else what + f"[{i},{j}]", cmp_t(code.el(i, j), spec.el(i, j), c))]
    if isinstance(spec, VVec):
        if not isinstance(code, VVec):
            return [(what, Verdict(UNK_, ctx, why=f"not a vector: {code!r:.60}"))]
        out = [(what + ".len", cmp_lin(code.len, spec.len, ctx))]
        if out[0][1].k != EQ_:
            return out
        k = Lin.of(fresh("k"))
        base = ctx.assume(("le", -k), ("le", k + 1 - spec.len))
        if base is None:
            return out
        for c in vcells(code, spec, k, base):
            x, y = vat(code, k, c), vat(spec, k, c)
            if x is None:
                out.append((what + f"[{k}]", Verdict(UNK_, c, why="ambiguous element")))
            else:
                out += cmp_val(x, y, c, W, what + f"[{k}]")
        return out
    raise ValueError(f"specification {spec!r}")


def vat(v, k, ctx):
    for i, x in reversed(v.upd):
        if ctx.prove_eq(i - k):
            return x
        if not ctx.prove_ne(i - k):
            return None
    for a, b, fn in v.segs:
        if ctx.prove_le(a - k) and ctx.prove_le(k + 1 - b):
            return fn(k)
    return None


def vcells(code, spec, k, ctx):
    """contexts in which the position k is decided against all pieces of both vectors"""
    out = [ctx]
    for v in (code, spec):
        for i, _ in v.upd:
            out = [c for x in out for c in (x.assume(("eq", i - k)), x.assume(("ne", i - k))) if c is not None]
        for a, b, _ in v.segs:
            for l in (("le", a - k), ("le", b - k)):
                nx = []
                for x in out:
                    if x.entails(l) or x.entails(lit_neg(l)):
                        nx.append(x)
                    else:
                        nx += [c for c in (x.assume(l), x.assume(lit_neg(l))) if c is not None]
                out = nx
    return out


BUILTIN = {"Option": ("None", "Some"), "Result": ("Ok", "Err"), "ControlFlow": ("Continue", "Break")}


def variant_name(v, W):
    s = v.name.split("::")[-1].split("<")[0]
    if s in BUILTIN:
        return BUILTIN[s][v.v]
    if v.ty is not None:
        t = W.p.ty(v.ty)
        if t["k"] == "adt":
            return t["variants"][v.v]["name"]
    return W.variant(v)


def field_names(v, W):
    if v.ty is None:
        for i, t in W.p.types.items():
            if t["k"] == "adt" and t["name"] == v.name:
                return [f["name"] for f in t["variants"][v.v]["fields"]]
        return None
    t = W.p.ty(v.ty)
    if t["k"] != "adt":
        return None
    return [f["name"] for f in t["variants"][v.v]["fields"]]


def payload(v, W):
    if len(v.fs) == 1 and isinstance(v.fs[0], Agg):
        n = variant_name(v.fs[0], W)
        if n:
            return f"({n})"
    return ""


class Obl:
    __slots__ = ("id", "fn", "case", "what", "v", "path", "site")

    def __init__(self, id, fn, case, what, v, path="", site=""):
        self.id, self.fn, self.case, self.what, self.v, self.path, self.site = id, fn, case, what, v, path, site

    def key(self):
        """identity without symbol numbering"""
        import re
        w = re.sub(r"[#@]\d+|\d+", "", self.what)
        return f"{self.id}|{self.fn}|{self.case}|{w}"


SIZES = ({"p": 2, "n": 4, "m": 5, "o": 3, "d": 1, "old": 2}, {"p": 3, "n": 6, "m": 5, "o": 4, "d": 2, "old": 3}, {"p": 1, "n": 2, "m": 5, "o": 2, "d": 1, "old": 1})
PATIENCE = 240


PER_CONTRACT, TOTAL = 240, 620     # seconds; what does not finish is undecided
START = time.time()
AT_SIZE = 90


def thorough():
    """every contract also at fixed sizes, more of them, with time to finish"""
    global PROBE, PER_CONTRACT, TOTAL, PATIENCE, AT_SIZE, SIZES
    PROBE, PER_CONTRACT, TOTAL, PATIENCE, AT_SIZE = True, 1200, 10800, 10800, 300
    SIZES = SIZES + ({"p": 2, "n": 2, "m": 2, "o": 2, "d": 1}, {"p": 4, "n": 5, "m": 8, "o": 4, "d": 1}, {"p": 5, "n": 9, "m": 10, "o": 7, "d": 2},
                     {"p": 0, "n": 2, "m": 3, "o": 1, "d": 1}, {"p": 1, "n": 9, "m": 4, "o": 9, "d": 1})


class TimeUp(BaseException):
    """no handler of the analysis may swallow it"""


def too_long(*_):
    raise TimeUp()


class limit:
    """runs the body for at most so many seconds"""

    def __init__(self, s):
        self.s = max(0.05, min(s, START + TOTAL - time.time()))

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, too_long)
        signal.setitimer(signal.ITIMER_REAL, self.s, 5)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def compare_vs(l, vs):
    import compare
    compare._vs(l, vs)


def subst_exp(x, m):
    """substitute in an expectation"""
    if isinstance(x, Var):
        return Var(x.name, *[subst_exp(y, m) for y in x.fs])
    if isinstance(x, (Any_, Where)) or x == "panic":
        return x
    return subst_val(x, m)


def integers(x, prog, out):
    """integer constants of a body"""
    if isinstance(x, dict):
        v = x.get("v")
        if isinstance(v, dict) and "bytes" in v and "ty" in x:
            t = prog.ty(x["ty"])
            if t["k"] in ("uint", "int") and t["s"] in ("usize", "isize"):
                n = int.from_bytes(bytes(b or 0 for b in v["bytes"]), "little")
                if 3 <= n <= 64:
                    out.add(n)
        for k, y in x.items():
            if k != "v":
                integers(y, prog, out)
    elif isinstance(x, list):
        for y in x:
            integers(y, prog, out)


def beyond(prog, key):
    """sizes beyond the constants in the code: where a limit written into it takes effect"""
    out = set()
    for k in prog.reach(key):
        if prog.fns[k]["span"]["f"].startswith("src/"):
            integers(prog.fns[k]["blocks"], prog, out)
    sizes = []
    for n in sorted(out)[:3]:
        sizes += [{"p": 2, "n": n + 2, "m": n + 3, "o": 4, "d": 1, "old": 2}, {"p": n + 1, "n": n + 3, "m": n + 4, "o": n + 2, "d": 1, "old": n + 1}]
        if n > 6:
            sizes += [{"p": 2, "n": 2 * n + 2, "m": 2 * n + 3, "o": 2 * n + 2, "d": 1, "old": 2}]
    return tuple(sizes)


def fixed_boundary(f, m):
    def g(I, st, args):
        r = f(I, st, args)
        return r if r is None else [(s, subst_val(v, m)) for s, v in r]
    return g


SIGNATURES = None


def signature(prog, key):
    """parameter names and kinds of a function"""
    f = prog.fns[key]
    names = {i: n for n, i in reversed(f["dbg"]) if isinstance(i, int)}
    kinds = []
    for i in range(1, f["argc"] + 1):
        s = prog.ty(f["locals"][i])["s"]
        kinds.append([names.get(i, "_"), s if s in ("usize", "f64", "bool", "isize") else "&mut" if s.startswith("&") and "mut " in s[:8] else "."])
    return kinds


def readable(prog, key):
    """the function still takes what the contracts pass: same number and kinds of parameters, none exchanged"""
    global SIGNATURES
    if SIGNATURES is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")) as f:
            SIGNATURES = json.load(f)
    old = SIGNATURES.get(prog.fns[key]["name"])
    if old is None:
        return True
    new = signature(prog, key)
    if [k for _, k in old] != [k for _, k in new]:
        return False
    a, b = [n for n, _ in old], [n for n, _ in new]
    return all(x == y or x not in b and y not in a for x, y in zip(a, b))


class Run:
    """collects the obligations of one check"""

    def __init__(self, prog):
        self.p = prog
        self.w = World(prog)
        self.obls = []
        self.fns = set()
        self.calls = 0
        self.loops = 0
        self.asserts = 0
        self.paths = 0
        self.panics = 0
        self.models = set()
        self.notes = []
        self.boundaries = {}
        self.done = set()
        self.inlined = set()      # helpers that do not keep their own contract: their callers are read with their bodies
        self.extra = {}
        self.patience = None      # when to stop looking for differences at fixed sizes

    def find(self, name, sig=None, optional=False):
        k = self.p.find(name)
        if k is None and not optional:
            raise Missing("function " + name)
        return k

    def where(self, name):
        for k, f in self.p.fns.items():
            if f["name"] == name:
                return f"{f['span']['f']}:{f['span']['l']}"
        return "?"

    def add(self, *a, **k):
        self.obls.append(Obl(*a, **k))

    def contract(self, id, fn, args, pre, spec, boundary=None, axioms=(), optional=False, total=True, self_cut=False,
                 after=None, count=None, hints=(), helper=False):
        """args(I, st) -> list; spec(args, st) -> [(label, lits, expectation, mem expectations)]
        helper: a private function may do something else as long as its callers keep their contracts; they are then read
        with its body instead of its contract"""
        key = fn if fn is None or fn in self.p.fns else self.find(fn, optional=optional)
        if key is None:
            self.add(id, str(fn), "-", "anchor", Verdict(UNK_, why="the helper does not exist in this tree"))
            return None
        name = self.p.fns[key]["name"]
        if not readable(self.p, key):
            self.add(id, name, "-", "anchor", Verdict(UNK_, why="the parameters are others than the contract passes"))
            return None
        o0 = len(self.obls)
        r = self._guarded(id, key, name, args, pre, spec, boundary, axioms, total, self_cut, after, count, hints)
        new = self.obls[o0:]
        if helper and any(o.v.k != EQ_ for o in new):
            self.inlined.add(key)
            for o in new:
                if o.v.k == DIFF_:
                    o.v = Verdict(UNK_, o.v.ctx, o.v.a, o.v.b, "differs from what its callers used to rely on: they are read with its body")
            return r
        if PROBE or any(o.v.k == UNK_ for o in new) and not any(o.v.k == DIFF_ for o in new):
            self.at_fixed_sizes(id, key, name, args, pre, spec, boundary, axioms, self_cut, count)
        return r

    def at_fixed_sizes(self, id, key, name, args, pre, spec, boundary, axioms, self_cut, count):
        """a contract that stays undecided for all sizes may still be refuted at some: with the sizes constant, every
        loop is unrolled and no loop summary is needed.  Only definite differences are kept."""
        import terms
        vs = set()
        for l in pre:
            compare_vs(l, vs)
        for sizes in SIZES + beyond(self.p, key):
            fixed = {k: Lin(v) for k, v in sizes.items() if k in vs}
            c = Ctx().assume(*pre)
            for k in list(fixed):
                x = c.assume(("eq", Lin.of(k) - fixed[k])) if c is not None else None
                if x is None or x.model() is None:
                    del fixed[k]
                else:
                    c = x
            left = self.patience - time.time() if self.patience and not PROBE else PATIENCE
            if not fixed or left <= 1 or START + TOTAL - time.time() < 5:
                continue
            self.patience = time.time() + left
            keep, stats = self.obls, (set(self.fns), self.calls, self.loops, self.asserts, self.paths, self.panics, list(self.notes))
            self.obls = []
            terms.EXPAND[0] = True
            terms._sub_cache.clear()
            try:
                with limit(min(left, AT_SIZE)):
                    self._contract(id, key, name, args, pre, spec, boundary, axioms, False, self_cut, None, count, (), fixed)
            except (Missing, TimeUp):
                pass
            except Exception:
                if DEBUG:
                    raise
            finally:
                terms.EXPAND[0] = False
                terms._sub_cache.clear()
            got, self.obls = self.obls, keep
            self.fns, self.calls, self.loops, self.asserts, self.paths, self.panics, self.notes = stats
            if DEBUG:
                print("fixed sizes", id, name, fixed, len(got), [(o.what, o.v.k, o.v.why) for o in got if o.v.k != EQ_][:6])
            bad = [o for o in got if o.v.k == DIFF_]
            f = self.extra.setdefault("fixed_sizes", {"analyses": 0, "obligations": 0, "equal": 0, "different": 0})
            f["analyses"] += 1
            f["obligations"] += len(got)
            f["equal"] += sum(o.v.k == EQ_ for o in got)
            f["different"] += len(bad)
            if bad:
                for o in bad:
                    o.case = f"{o.case} (at {', '.join(f'{k}={v}' for k, v in sorted(fixed.items()))})"
                    self.obls.append(o)
                if not PROBE:
                    return

    def _guarded(self, id, key, name, args, pre, spec, boundary, axioms, total, self_cut, after, count, hints):
        try:
            with limit(PER_CONTRACT):
                return self._contract(id, key, name, args, pre, spec, boundary, axioms, total, self_cut, after, count, hints)
        except TimeUp:
            self.add(id, name, "-", "analysis", Verdict(UNK_, why="the time for this contract ran out"))
            return None
        except Layout as e:
            self.add(id, name, "-", "layout", Verdict(UNK_, why=str(e)))
            return None
        except Missing:
            raise
        except Exception as e:      # a comparison the engine cannot carry out is no verdict
            if DEBUG:
                raise
            self.add(id, name, "-", "analysis", Verdict(UNK_, why=f"unsupported: {type(e).__name__} {str(e)[:120]}"))
            return None

    def _contract(self, id, key, name, args, pre, spec, boundary, axioms, total, self_cut, after, count, hints, fixed=None):
        boundary = {k: v for k, v in (boundary or {}).items() if k is not None and k not in self.inlined and readable(self.p, k)}
        if fixed:
            boundary = {k: fixed_boundary(v, fixed) for k, v in boundary.items()}
        numeric.TOTAL[0] = 20.0
        I = Interp(self.p, boundary)
        I.count_hook = count
        I.hints = list(hints)
        c0 = Ctx()
        c0.axioms = tuple(axioms)
        c0 = c0.assume(*(subst(tuple(pre), fixed) if fixed else pre))
        st = St(c0)
        a = args(I, st)
        if fixed:
            big = max((v.c for v in fixed.values()), default=0)
            I.unroll = max(40, 3 * int(big))
            I.budget = 60000
            st = St(c0.assume(*[("eq", Lin.of(k) - v) for k, v in fixed.items()]), {k: subst_val(v, fixed) for k, v in st.mem.items()}, st.path)
            a = [subst_val(x, fixed) for x in a]
        cases = spec(a, st)
        if fixed:
            cases = [(c[0], subst(tuple(c[1]), fixed), subst_exp(c[2], fixed)) + (
                ([(r, subst_exp(e, fixed), nm) for r, e, nm in c[3]],) if len(c) > 3 else ()) for c in cases]
        st0 = st
        try:
            if self_cut:
                I.stack.append("@self:" + key)
            res = I.call_fn(key, a, st)
        except Missing:
            raise
        except (Unsupported, Unsupported_, RecursionError) as e:
            self.collect(I)
            self.add(id, name, "-", "analysis", Verdict(UNK_, why=f"unsupported: {e}"))
            return None
        except Exception as e:      # a shape of program the engine cannot read is no verdict
            if DEBUG:
                raise
            self.collect(I)
            self.add(id, name, "-", "analysis", Verdict(UNK_, why=f"unsupported: {type(e).__name__} {str(e)[:120]}"))
            return None
        self.collect(I)
        reached = {c[0]: 0 for c in cases}
        for s, v in res:
            for case in cases:
                label, lits, exp = case[:3]
                for c in assume_all(s, lits):
                    reached[label] += 1
                    if exp == "panic":
                        ok = feasible(c.ctx)
                        self.add(id, name, label, "rejection", Verdict(DIFF_ if ok is not None else UNK_, c.ctx,
                                 why="returns where it must refuse"), show_path(s))
                        continue
                    n0 = len(self.obls)
                    rv = models.val(I, c, v) if isinstance(v, (Ref, MView)) else v
                    for what, vd in cmp_val(rv, exp, c.ctx, self.w, "result"):
                        self.add(id, name, label, what, vd, show_path(s))
                    for ref, e, nm in (case[3] if len(case) > 3 else ()):
                        for what, vd in cmp_val(I.load(c, ref), e, c.ctx, self.w, nm):
                            self.add(id, name, label, what, vd, show_path(s))
                    if len(self.obls) == n0:
                        self.add(id, name, label, "reached", Verdict(EQ_), show_path(s))
        for p in I.panics:
            for case in cases:
                label, lits, exp = case[:3]
                if exp == "panic":
                    continue
                for c in assume_all(p.st, lits):
                    m = feasible(c.ctx)
                    if m is None and vacuous(c.ctx):
                        continue
                    self.add(id, name, label, "no panic: " + p.msg, Verdict(
                        DIFF_ if m is not None else UNK_, c.ctx, why=f"panics ({p.msg}) in {p.site}"
                        + (f", e.g. {show_model(m)}" if m else "")), show_path(p.st))
        if total:
            for case in cases:
                if reached[case[0]] == 0 and case[2] != "panic":
                    c = st0.ctx.assume(*case[1])
                    if c is not None and not any(o.case == case[0] and o.id == id and o.v.k != EQ_ for o in self.obls):
                        self.add(id, name, case[0], "returns", Verdict(UNK_, c, why="no abstract path returns"))
        if after:
            after(self, I, res, cases)
        return I, res

    def collect(self, I):
        self.fns |= I.stats["fns"]
        self.calls += I.stats["calls"]
        self.loops += I.stats["loops"]
        self.asserts += I.stats["asserts"]
        self.paths += I.stats["paths"]
        self.panics += len(I.panics)
        self.notes += I.notes


def assume_all(st, lits):
    """states refined by the literals; float literals may mention guarded terms"""
    c = st.ctx.assume(*lits)
    if c is None:
        return []
    return [St(c, st.mem, st.path)]


def show_path(s):
    return " ∧ ".join(show_lit(l) for l in s.path)[:400]
