"""Equality of real terms under a context: value-number equality, with case splits on undecided guards."""
from terms import *

EQ_, DIFF_, UNK_ = "equal", "different", "undecided"


class Verdict:
    __slots__ = ("k", "ctx", "a", "b", "why", "cases")

    def __init__(self, k, ctx=None, a=None, b=None, why="", cases=1):
        self.k, self.ctx, self.a, self.b, self.why, self.cases = k, ctx, a, b, why, cases


TAINT = ("havoc", "phi")
DEEP = None      # comparison modulo equalities between reals, set by contracts


def tainted(x):
    """does the term / literal mention anything the analysis does not model exactly?"""
    if has_unknown(x):
        return True
    vs = set()
    _vs(x, vs)
    if any(s.startswith(TAINT) for s in vs):
        return True
    return bool(atoms_of(x, lambda t: (t.op == "sel" and str(t.a[0]).startswith(("phi", "havoc"))) or t.op == "phi"
                         or (t.op == "var" and t.a[0].startswith("phi"))))


def _vs(x, vs):
    if isinstance(x, (T,)):
        vs |= x.vs
    elif isinstance(x, Lin):
        vs.update(x.syms())
    elif isinstance(x, tuple):
        for y in x:
            _vs(y, vs)


def ctx_tainted(c):
    for l in c.lits():
        if l[0] == "b":
            if isinstance(l[1], tuple) and l[1] and l[1][0] == "taint":
                return True
            continue
        if tainted(l[1:]):
            return True
    return False


def heads(x):
    """vocabulary of uninterpreted heads"""
    out = set()
    for t in atoms_of(x, lambda t: t.op in ("app", "mu", "nan", "inf", "lam")):
        out.add((t.op, t.a[0]) if t.op in ("app", "mu") else (t.op,))
    return out


def feasible(ctx, depth=0):
    """a definite witness: integer model found, float relations consistent, nothing tainted"""
    if ctx_tainted(ctx):
        return None
    if any(s.startswith("count#") for e in list(ctx.ineqs) + list(ctx.nes) for s in e.syms()):
        return None         # a number of hits that nothing has evaluated
    ok, mat, terms, n = ctx.closure()
    if not ok:
        return None
    if ctx.foralls:
        und = []
        ctx._instances(n, list(terms), und)
        if und:
            if depth > 5:
                return None
            for l in (und[0], lit_neg(und[0])):
                c = ctx.assume(l)
                m = feasible(c, depth + 1) if c is not None else None
                if m is not None:
                    return m
            return None
    if depth <= 6:
        cs = guard_cases(ctx, n, terms)
        if cs is not None:
            for c in cs:
                m = feasible(c, depth + 1)
                if m is not None:
                    return m
            return None
    return witness(ctx, terms)


def witness(ctx, terms, tries=12):
    """an integer model under which the relations between the elements stay consistent although elements coincide"""
    m = ctx.model()
    if m is None or not ctx.rel and not ctx.foralls:
        return m
    pairs = alias_pairs(ctx, terms)
    todo, n = [ctx], 0
    while todo and n < tries:
        c = todo.pop()
        n += 1
        m = c.model()
        if m is None:
            continue
        at = [(x, y) for x, y in pairs if all(ev(p - q, m) == 0 for p, q in zip(x, y))]
        d = c
        for x, y in pairs:
            if d is None:
                break
            if (x, y) in at:
                d = d.assume(*[("eq", p - q) for p, q in zip(x, y)])
            elif all(ev(p - q, m) is not None for p, q in zip(x, y)):
                k = next(i for i, (p, q) in enumerate(zip(x, y)) if ev(p - q, m) != 0)
                d = d.assume(("le", (x[k] - y[k]) * (1 if ev(x[k] - y[k], m) < 0 else -1) + 1))
        if d is not None and d.closure()[0] and d.model() is not None:
            return m
        # another valuation: one in which some of the coinciding elements differ
        for x, y in at:
            for p, q in zip(x, y):
                for l in (("le", p - q + 1), ("le", q - p + 1)):
                    e = c.assume(l)
                    if e is not None:
                        todo.append(e)
    return None


def ev(e, m):
    r = e.subst({k: v for k, v in m.items() if isinstance(v, int)}) if e.d else e
    return r.c if r.is_const() else None


def alias_pairs(ctx, terms):
    """index tuples of elements of one array that the integer facts leave equal or not"""
    by = {}
    for t in terms:
        for s in atoms_of(t, lambda u: u.op == "sel"):
            if not any(v.startswith(("λ", "β")) for v in s.vs):
                by.setdefault((s.a[0], len(s.a)), set()).add(tuple(s.a[1:]))
    out = []
    for (nm, _), xs in by.items():
        xs = sorted(xs, key=repr)
        for i, x in enumerate(xs):
            for y in xs[i + 1:]:
                if any(not isinstance(p, Lin) or not isinstance(q, Lin) for p, q in zip(x, y)):
                    continue
                if any(ctx.prove_ne(p - q) for p, q in zip(x, y)) or all(ctx.prove_eq(p - q) for p, q in zip(x, y)):
                    continue
                out.append((x, y))
                if len(out) > 60:
                    return out
    return out


def guard_cases(ctx, n, terms):
    """split on a guard inside the related reals that the integer facts leave open; None if there is none"""
    ts = [t for r in ctx.rel for t in r[:2]]
    if ctx.foralls:
        ts += [t for r in ctx._instances(n, list(terms))[0] for t in r[:2]]
    for t in ts:
        for g in atoms_of(t, lambda t: t.op == "ite"):
            for l in g.a[0]:
                if l[0] == "fr" or any(s.startswith("λ") or "@" in s for s in lit_syms(l)):
                    continue
                if ctx.entails(l) or ctx.entails(lit_neg(l)):
                    continue
                return [c for c in (ctx.assume(l), ctx.assume(lit_neg(l))) if c is not None]
    return None


def vacuous(ctx, depth=0):
    """no valuation satisfies the context (proved by cases on the guards)"""
    ok, _, terms, n = ctx.closure()
    if not ok:
        return True
    if depth > 6:
        return False
    if ctx.foralls:
        und = []
        ctx._instances(n, list(terms), und)
        und = [l for l in und if not ctx.entails(l) and not ctx.refutes(l)]
        if und:
            return all(vacuous(c, depth + 1) for c in (ctx.assume(und[0]), ctx.assume(lit_neg(und[0]))) if c is not None)
    cs = guard_cases(ctx, n, terms)
    return cs is not None and all(vacuous(c, depth + 1) for c in cs)


def lit_syms(l):
    vs = set()
    _vs(l, vs)
    return vs


def compare(a, b, ctx, vocab=None, depth=0, budget=None):
    """a: code term, b: specification term"""
    if budget is None:
        budget = [300]
    if a is b:
        return Verdict(EQ_)
    budget[0] -= 1
    if budget[0] < 0:
        return Verdict(UNK_, why="case-split budget")
    try:
        n = Norm(ctx, True)
        pa, pb = n.poly(a), n.poly(b)
        d = p_add(pa, pb, -1)
    except NeedSplit as e:
        worst = Verdict(EQ_)
        cases = 0
        for l in (e.lit, lit_neg(e.lit)):
            c = ctx.assume(l)
            if c is None:
                continue
            v = compare(a, b, c, vocab, depth + 1, budget)
            cases += v.cases
            if v.k == DIFF_:
                return v
            if v.k == UNK_:
                worst = v
        worst.cases = cases
        return worst
    if not d or pit(d, {}) == 0:
        return Verdict(EQ_)
    # unify opaque applications with extensionally equal arguments
    ua, ub = unify_apps(p_term(pa), p_term(pb), ctx, budget)
    if ua is not None:
        d = p_add(Norm(ctx).poly(ua), Norm(ctx).poly(ub), -1)
        if not d or pit(d, {}) == 0:
            return Verdict(EQ_)
    # undecided guards below binders: not a definite difference
    ta, tb = p_term(pa), p_term(pb)
    if tainted(ta) or tainted(tb):
        return Verdict(UNK_, ctx, ta, tb, "unmodelled value")
    shared = set(atoms_of(ta, lambda t: t.op == "lam")) & set(atoms_of(tb, lambda t: t.op == "lam"))
    if shared:      # matrices that both sides pass on are any matrices
        ta, tb = (replace_atoms(t, lambda u: mk("win", f"matrix {u.id}", Lin(0)) if u in shared else None) for t in (ta, tb))
    ites = atoms_of(ta, lambda t: t.op in ("ite", "S")) + atoms_of(tb, lambda t: t.op in ("ite", "S"))
    if ites:
        l = open_guard(ites, ctx) if depth < 8 else None
        if l is not None:
            worst = None
            for x in (l, lit_neg(l)):
                c = ctx.assume(x)
                if c is None:
                    continue
                v = compare(a, b, c, vocab, depth + 1, budget)
                if v.k == DIFF_:
                    return v
                if worst is None or v.k == UNK_:
                    worst = v
            return worst if worst is not None else Verdict(EQ_)
        v = generic_diff(ta, tb, ctx, budget)
        return v if v is not None else Verdict(UNK_, ctx, ta, tb, "guard below a binder")
    if (heads(ta) - heads(tb)) - (vocab or set()) - {("app", "f32"), ("app", "params")}:
        return Verdict(UNK_, ctx, ta, tb, f"vocabulary {sorted(map(str, heads(ta) - heads(tb)))}")
    odd = inexact(ta) - inexact(tb)
    if odd:
        return Verdict(UNK_, ctx, ta, tb, f"vocabulary {sorted(odd)}")
    m = feasible(ctx)
    if m is None:
        return Verdict(UNK_, ctx, ta, tb, "no witness for the context")
    return Verdict(DIFF_, ctx, ta, tb, "different value numbers")


def open_guard(ites, ctx):
    """a guard below a binder that does not depend on what is bound and that the context leaves open"""
    for t in ites:
        if t.op != "ite":
            continue
        for l in t.a[0]:
            vs = lit_syms(l)
            if any(s.startswith(("λ", "β")) or "@" in s for s in vs) or atoms_of(l, lambda u: u.op in ("ite", "S", "lam", "unk")):
                continue
            if tainted(l[1:]) or ctx.entails(l) or ctx.entails(lit_neg(l)):
                continue
            return l
    return None


def inexact(t):
    """integers in the term that stand for a function the analysis does not compute"""
    from lin import SYMDEF
    vs = set()
    _vs(t, vs)
    return {s for s in vs if s in SYMDEF and (SYMDEF[s][0] == "count" or SYMDEF[s][0] == "trunc" and atoms_of(
        SYMDEF[s][2], lambda u: u.op in ("app", "mu", "ite", "sel", "S")))}


GENERIC = {"svdsolve", "adjusted", "f32", "params", "interpolated", "fitted with loose ends", "fitted with fixed ends"}      # functions that tell arguments apart that differ


def generic_diff(ta, tb, ctx, budget):
    """a definite difference because the arguments of one application of a generic function differ"""
    sel_ = lambda t: t.op == "app" and t.a[0] in GENERIC
    aa, bb = atoms_of(ta, sel_, outermost=True), atoms_of(tb, sel_, outermost=True)
    xs, ys = [t for t in aa if t not in bb], [t for t in bb if t not in aa]
    # applications told apart by an index, or on one side only, are independent values
    cls = classes(aa + bb, ctx, budget)
    if cls is not None and len(set(cls[t] for t in xs + ys)) > 0 and len(xs) + len(ys) <= 6:
        tok = {t: fvar(f"generic {cls[t].id}") for t in cls}
        rx, ry = (replace_atoms(t, lambda u: tok.get(u)) for t in (ta, tb))
        if not any(atoms_of(t, lambda u: u.op in ("ite", "S")) for t in (rx, ry)) and not heads(rx) - heads(ry):
            v = compare(rx, ry, ctx, budget=budget)
            if v.k != UNK_:
                return v
    if len(xs) != 1 or len(ys) != 1:
        return None
    x, y = xs[0], ys[0]
    if x.a[0] != y.a[0] or len(x.a) != len(y.a):
        return None
    rx, ry = (replace_atoms(t, lambda u: fvar("generic!") if u in (x, y) else None) for t in (ta, tb))
    if any(atoms_of(t, lambda u: u.op in ("ite", "S")) for t in (rx, ry)):
        return None
    # the surroundings agree, so the results agree exactly if the applications do
    if compare(rx, ry, ctx, budget=budget).k != EQ_:
        return None
    for p, q in zip(x.a[1:], y.a[1:]):
        if p is q:
            continue
        v = None
        if isinstance(p, str) and isinstance(q, str):
            if p != q and feasible(ctx) is not None:
                v = Verdict(DIFF_, ctx, mk("c", 0), mk("c", 0), f"argument {p} of {x.a[0]} instead of {q}")
        elif isinstance(p, Lin) and isinstance(q, Lin):
            for l in (("le", p - q + 1), ("le", q - p + 1)):
                c = ctx.assume(l)
                if c is not None and feasible(c) is not None:
                    v = Verdict(DIFF_, c, mk("c", 0), mk("c", 0), f"argument {p} of {x.a[0]} instead of {q}")
        elif isinstance(p, T) and isinstance(q, T) and p.op == "lam" and q.op == "lam":
            v = lam_diff(p, q, ctx, budget, x.a[0])
        elif isinstance(p, T) and isinstance(q, T):
            v = compare(p, q, ctx, budget=budget)
        if v is not None and v.k == DIFF_:
            return v
    return None


def classes(apps, ctx, budget):
    """representatives of generic applications: equal, or different in an index; None if that is open for a pair"""
    import loops
    reps, out = [], {}
    for x in dict.fromkeys(apps):
        if x.a[0] in loops.UNFOLD:      # values of a recurrence depend on each other
            return None
        for y in reps:
            if x.a[0] != y.a[0] or len(x.a) != len(y.a):
                continue
            if any(isinstance(p, Lin) and isinstance(q, Lin) and ctx.prove_ne(p - q) for p, q in zip(x.a[1:], y.a[1:])):
                continue
            if args_equal(x.a[1:], y.a[1:], ctx, budget):
                out[x] = y
                break
            return None
        else:
            reps.append(x)
            out[x] = x
    return out


def lam_diff(x, y, ctx, budget, what):
    """an entry of a matrix literal that differs"""
    for p, q in ((x.a[1], y.a[1]), (x.a[2], y.a[2])):
        if not ctx.prove_eq(p - q):
            for l in (("le", p - q + 1), ("le", q - p + 1)):
                c = ctx.assume(l)
                if c is not None and feasible(c) is not None:
                    return Verdict(DIFF_, c, x, y, f"extent {p} instead of {q} in an argument of {what}")
            return None
    i, j = fresh("x"), fresh("y")
    c = ctx.assume(("le", -Lin.of(i)), ("le", Lin.of(i) - x.a[1] + 1), ("le", -Lin.of(j)), ("le", Lin.of(j) - x.a[2] + 1))
    if c is None:
        return None
    m = {"λi": Lin.of(i), "λj": Lin.of(j)}
    a, b = subst(x.a[3], m), subst(y.a[3], m)
    v = (DEEP or (lambda *z: compare(*z, budget=budget)))(a, b, c)
    if v.k == DIFF_:
        v.why = f"entry ({i}, {j}) of an argument of {what}: {v.why}"
    return v


def unify_apps(a, b, ctx, budget):
    """replace applications in a by extensionally equal ones of b"""
    aa = atoms_of(a, lambda t: t.op == "app" and t.vs is not None, outermost=True)
    bb = atoms_of(b, lambda t: t.op == "app", outermost=True)
    rep = {}
    for x in aa:
        for y in bb:
            if x is y:
                break
            if x.a[0] != y.a[0] or len(x.a) != len(y.a):
                continue
            if args_equal(x.a[1:], y.a[1:], ctx, budget):
                rep[x] = y
                break
    if not rep:
        return None, None
    return replace_atoms(a, lambda t: rep.get(t)), b


def args_equal(xs, ys, ctx, budget):
    for x, y in zip(xs, ys):
        if x is y:
            continue
        if isinstance(x, Lin) and isinstance(y, Lin):
            if not ctx.prove_eq(x - y):
                return False
        elif isinstance(x, T) and isinstance(y, T):
            if x.op == "lam" and y.op == "lam":
                if not lam_equal(x, y, ctx, budget):
                    return False
            elif compare(x, y, ctx, budget=budget).k != EQ_:
                return False
        elif x != y:
            return False
    return True


def lam_equal(x, y, ctx, budget):
    if not (ctx.prove_eq(x.a[1] - y.a[1]) and ctx.prove_eq(x.a[2] - y.a[2])):
        return False
    i, j = fresh("x"), fresh("y")
    c = ctx.assume(("le", -Lin.of(i)), ("le", Lin.of(i) - x.a[1] + 1), ("le", -Lin.of(j)), ("le", Lin.of(j) - x.a[2] + 1))
    if c is None:
        return True
    m = {"λi": Lin.of(i), "λj": Lin.of(j)}
    a, b = subst(x.a[3], m), subst(y.a[3], m)
    if compare(a, b, c, budget=budget).k == EQ_:
        return True
    return DEEP is not None and bool(c.rel) and DEEP(a, b, c).k == EQ_
