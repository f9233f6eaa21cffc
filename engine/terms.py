"""Hash-consed float terms, ring normal forms (value numbers), boolean formulas and contexts."""
from fractions import Fraction
import hashlib
from lin import *

# ------------------------------------------------------------------------------- float terms
_tab = {}


class T:
    __slots__ = ("op", "a", "id", "vs")
    n = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        T.n += 1
        t.id = T.n
        vs = set()
        for x in a:
            _vars(x, vs)
        if op == "lam":
            vs -= set(a[0])
        t.vs = frozenset(vs)
        _tab[k] = t
    return t


def _vars(x, vs):
    if isinstance(x, T):
        vs |= x.vs
    elif isinstance(x, Lin):
        for s, _ in x.d:
            vs.add(s)
            if s in SYMVARS:
                vs |= SYMVARS[s]
    elif isinstance(x, tuple):
        for y in x:
            _vars(y, vs)
    elif hasattr(x, "freevars"):
        vs |= x.freevars()


HOOK["vars"] = _vars


def const(v):
    if isinstance(v, float):
        if v != v:
            return mk("nan")
        if v in (float("inf"), float("-inf")):
            return mk("inf", 1 if v > 0 else -1)
        return mk("c", Fraction(v))
    return mk("c", Fraction(v))


ZERO, ONE = const(0), const(1)


def fvar(n):
    return mk("var", n)


def sel(name, *idx):
    return mk("sel", name, *[Lin.of(i) for i in idx])


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == "c" and b.op == "c":
        return mk("c", a.a[0] + b.a[0])
    return mk("+", a, b)


def neg(a):
    if a.op == "c":
        return mk("c", -a.a[0])
    return mk("neg", a)


def sub(a, b):
    if b is ZERO:
        return a
    if a.op == "c" and b.op == "c":
        return mk("c", a.a[0] - b.a[0])
    return mk("-", a, b)


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO          # real semantics (finite operands)
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == "c" and b.op == "c":
        return mk("c", a.a[0] * b.a[0])
    return mk("*", a, b)


def div(a, b):
    if b is ONE:
        return a
    return mk("/", a, b)


def i2f(l):
    l = Lin.of(l)
    if l.is_const():
        return mk("c", Fraction(l.c))
    return mk("i2f", l)


def app(name, *args):
    return mk("app", name, *args)


_unk = [0]


def unk(why=""):
    _unk[0] += 1
    return mk("unk", f"{why}@{_unk[0]}")


EXPAND = [False]     # sums with constant bounds are written out (contracts at fixed sizes)


def tsum(var, lo, hi, body):
    """sum of body for var in [lo, hi] inclusive; hi >= lo-1 is the creator's obligation"""
    lo, hi = Lin.of(lo), Lin.of(hi)
    if body is ZERO:
        return ZERO
    if EXPAND[0] and lo.is_const() and hi.is_const() and hi.c - lo.c <= 12:
        r = ZERO
        for k in range(lo.c, hi.c + 1):
            r = add(r, subst(body, {var: Lin(k)}))
        return r
    return mk("sum", var, lo, hi, body)


def lit_const(l):
    """truth value of a literal without context, or None"""
    k = l[0]
    if k in ("le", "eq", "ne") and not l[1].d:
        c = l[1].c
        return c <= 0 if k == "le" else (c == 0) == (k == "eq")
    if k == "fr":
        a, b, m = l[1:]
        if m == 15:
            return True
        if a.op == "c" and b.op == "c":
            r = 1 if a.a[0] < b.a[0] else 4 if a.a[0] > b.a[0] else 2
            return bool(m & r)
    return None


def ite(lits, a, b):
    if a is b:
        return a
    keep = []
    for l in lits:
        v = lit_const(l)
        if v is False:
            return b
        if v is None and l not in keep:
            keep.append(l)
    if not keep:
        return a
    if b.op == "ite" and b.a[0] == tuple(keep):
        b = b.a[2]
        if a is b:
            return a
    return mk("ite", tuple(keep), a, b)


def lam(nr, nc, f):
    """extensional matrix literal: rows, cols, element at the generic index (λi, λj)"""
    return mk("lam", ("λi", "λj"), Lin.of(nr), Lin.of(nc), f(Lin.of("λi"), Lin.of("λj")))


class NeedSplit(Exception):
    def __init__(self, lit):
        self.lit = lit


def show(t, d=0):
    if isinstance(t, Lin):
        return repr(t)
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        return str(t)
    o, a = t.op, t.a
    if o == "c":
        f = a[0]
        return str(f) if f.denominator < 10**6 else f"{float(f):g}"
    if o == "sel":
        return f"{a[0]}[{','.join(map(show, a[1:]))}]"
    if o == "var":
        return a[0]
    if o in "+-*/":
        return f"({show(a[0])} {o} {show(a[1])})"
    if o == "neg":
        return f"-{show(a[0])}"
    if o == "sum":
        return f"Σ[{a[0]}={a[1]}..{a[2]}]({show(a[3])})"
    return f"{o}({','.join(show(x) for x in a)})"


_sub_cache = {}


def subst(x, m):
    """substitute integer symbols (str -> Lin) in a term / Lin / tuple / literal"""
    if isinstance(x, Lin):
        return x.subst(m)
    if isinstance(x, T):
        if not x.vs or x.vs.isdisjoint(m):
            return x
        mk_ = (x.id, tuple(sorted(((k, v) for k, v in m.items() if k in x.vs), key=lambda kv: kv[0])))
        r = _sub_cache.get(mk_)
        if r is None:
            if x.op == "sum":
                v = x.a[0]
                mm = {k: w for k, w in m.items() if k != v}
                cap = any(v in Lin.of(w).syms() for k, w in mm.items() if k in x.vs)
                body = x.a[3]
                if cap:
                    nv = fresh("b")
                    body = subst(body, {v: Lin.of(nv)})
                    v = nv
                r = tsum(v, x.a[1].subst(m), x.a[2].subst(m), subst(body, mm))
            else:
                r = rebuild(x.op, [subst(y, m) for y in x.a])
            _sub_cache[mk_] = r
        return r
    if isinstance(x, tuple):
        return tuple(subst(y, m) for y in x)
    if hasattr(x, "subst"):
        return x.subst(m)
    return x


HOOK["subst"] = lambda x, m: subst(x, {k: Lin.of(v) for k, v in m.items()})


def rebuild(op, a):
    if op == "+":
        return add(*a)
    if op == "-":
        return sub(*a)
    if op == "*":
        return mul(*a)
    if op == "/":
        return div(*a)
    if op == "neg":
        return neg(*a)
    if op == "i2f":
        return i2f(a[0])
    if op == "ite":
        return ite(*a)
    return mk(op, *a)


def replace_atoms(x, f):
    """rebuild term replacing atoms where f(atom) is not None (f returns a term)"""
    memo = {}

    def go(y):
        if isinstance(y, T):
            if y in memo:
                return memo[y]
            r = f(y)
            if r is None:
                r = rebuild(y.op, [go(z) for z in y.a]) if y.a else y
            memo[y] = r
            return r
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y
    return go(x)


def atoms_of(x, pred, out=None, outermost=False):
    if out is None:
        out = []
    seen = set()

    def go(y):
        if isinstance(y, T):
            if y in seen:
                return
            seen.add(y)
            if pred(y):
                out.append(y)
                if outermost:
                    return
            for z in y.a:
                go(z)
        elif isinstance(y, tuple):
            for z in y:
                go(z)
        elif hasattr(y, "terms"):
            for z in y.terms():
                go(z)
    go(x)
    return out


def has_unknown(x):
    return bool(atoms_of(x, lambda t: t.op == "unk"))


# ------------------------------------------------------------------------------------ polys
# a poly is dict: monomial(tuple of (atom T, power) sorted by id) -> Fraction
P_MOD = (1 << 61) - 1


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * s
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    d = dict(m)
    for a, k in n:
        v = d.get(a, 0) + k
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_term(p):
    """canonical T for a poly (deterministic on its structure)"""
    t = ZERO
    for m, c in sorted(p.items(), key=lambda x: [(a.id, k) for a, k in x[0]]):
        u = const(c)
        for a, k in m:
            for _ in range(abs(k)):
                u = mul(u, a) if k > 0 else div(u, a)
        t = add(t, u)
    return t


def isolate(n, x, y, m):
    """(element, constant or element, relation, flipped?) for a relation that is linear in one element, or in the difference
    of two elements; None for relations between elements and constants themselves"""
    if all(t.op in ("sel", "var", "c") for t in (x, y)):
        return None
    try:
        p = p_add(n.poly(x), n.poly(y), -1)
    except NeedSplit:
        return None
    if m in (EQ, LT | GT) and p and () not in p:        # a quotient is zero when its numerator is
        for t, e in list(next(iter(p))):
            es = [dict(mn).get(t, 0) for mn in p]
            if min(es) < 0 or t.op == "inv" and min(es) > 0:
                p = {m_mul(mn, ((t, -min(es)),)): c for mn, c in p.items()}
    k = p.get((), 0)
    q = [(mn, c) for mn, c in p.items() if mn]
    if not q or len(q) > 2 or any(len(mn) != 1 or mn[0][1] != 1 or mn[0][0].op not in ("sel", "var", "app") for mn, _ in q):
        return None
    (mn, c), a = q[0], q[0][0][0][0]
    if len(q) == 1:
        return a, const(-k / c), m if c > 0 else flip(m), c < 0
    b, e = q[1][0][0][0], q[1][1]
    if k or c + e or "app" in (a.op, b.op) or a.op != "sel" and b.op != "sel":
        return None
    return a, b, m if c > 0 else flip(m), c < 0


def consequences(n, x, y, m):
    """(relations, alternatives) between elements and constants that a relation implies"""
    out, alts = [], []
    z = isolate(n, x, y, m)
    if z is not None:
        out.append(z[:3])
    for a, b, k in ((x, y, m), (y, x, flip(m))):
        if a.op == "app" and a.a[0] == "abs" and b.op == "c" and (not k & UN or not k & LT and b.a[0] > 0 or not k & GT and b.a[0] > 0):
            v, c = a.a[1], b.a[0]
            if c < 0 and not k & GT or c == 0 and not k & (GT | EQ):
                return [(ZERO, ZERO, 0)], []
            nans = [[(t, t, UN)] for t in atoms_of(v, lambda u: u.op in ("var", "app"))]
            if not k & GT and k & UN:
                if k & LT:
                    alts.append([[(v, b, k & ~UN), (neg(v), b, k & ~UN)]] + nans)
            elif not k & GT:
                k &= EQ | LT
                out += [(v, b, k if k != EQ else EQ | LT), (neg(v), b, k if k != EQ else EQ | LT)] if c else [(v, b, EQ)]
            elif not k & LT and (c > 0 or k == GT):
                alts.append([[(v, b, k & ~UN)], [(neg(v), b, k & ~UN)]])
                if k & UN:
                    alts[-1] += nans
    res = []
    for a, b, k in out:
        a, b = n.canon(a), n.canon(b)
        z = isolate(n, a, b, k)
        res.append((a, b, k))
        if z is not None:
            res.append(z[:3])
    r2 = []
    for alt in alts:
        r2.append([])
        for conj in alt:
            r2[-1].append([])
            for a, b, k in conj:
                z = isolate(n, n.canon(a), n.canon(b), k) if a is not b else None
                r2[-1][-1].append(z[:3] if z is not None else (n.canon(a), n.canon(b), k))
    return res, r2


def p_inv(p):
    """1/p as poly"""
    if not p:
        return {((unk("div0"), 1),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -k) for a, k in m): 1 / c}
    # leading coefficient normalised to one
    lead = min(p, key=lambda m: [(a.id, k) for a, k in m])
    c = p[lead]
    q = {m: v / c for m, v in p.items()}
    return {((mk("inv", p_term(q)), 1),): 1 / c}


class Norm:
    """normaliser under a context (integer equalities); with split=True an undecided guard raises NeedSplit"""

    def __init__(self, ctx, split=False, bound=()):
        self.ctx = ctx
        self.memo = {}
        self.split = split
        self.bound = frozenset(bound)

    def lin(self, l):
        return self.ctx.canon(l)

    def atom(self, t):
        return {((t, 1),): Fraction(1)}

    def poly(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._poly(t)
            self.memo[t] = r
        return r

    def canon(self, x):
        """canonical form of a term / Lin / tuple argument of an uninterpreted node"""
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, T):
            return p_term(self.poly(x))
        if isinstance(x, tuple):
            return tuple(self.canon(y) for y in x)
        return x

    def _poly(self, t):
        o, a = t.op, t.a
        if o == "c":
            return p_const(a[0])
        if o == "+":
            return p_add(self.poly(a[0]), self.poly(a[1]))
        if o == "-":
            return p_add(self.poly(a[0]), self.poly(a[1]), -1)
        if o == "neg":
            return p_add({}, self.poly(a[0]), -1)
        if o == "*":
            return p_mul(self.poly(a[0]), self.poly(a[1]))
        if o == "/":
            return p_mul(self.poly(a[0]), p_inv(self.poly(a[1])))
        if o == "inv":
            return p_inv(self.poly(a[0]))
        if o == "i2f":
            l = self.lin(a[0])
            r = p_const(l.c)
            for s, k in l.d:
                r = p_add(r, {((mk("i2f", Lin.of(s)), 1),): Fraction(k)})
            return r
        if o == "sel":
            return self.atom(mk("sel", a[0], *[self.canon(x) for x in a[1:]]))
        if o == "sum":
            return self._sum(a)
        if o == "ite":
            keep = []
            for l in a[0]:
                if self.ctx.entails(l):
                    continue
                if self.ctx.refutes(l):
                    return self.poly(a[2])
                keep.append(l)
            if not keep:
                return self.poly(a[1])
            if self.split:
                for l in keep:
                    vs = set()
                    _vars(l, vs)
                    if vs.isdisjoint(self.bound):
                        raise NeedSplit(l)
            return self.atom(mk("ite", tuple(self.canon(l) for l in keep), self.canon(a[1]), self.canon(a[2])))
        if o == "F":
            return self._F(a[0], self._body(a[0], a[1]), self.lin(a[2]))
        if o == "S":
            # range of unknown sign: decided by now?
            d, f, x, y = a[0], self._body(a[0], a[1]), self.lin(a[2]), self.lin(a[3])
            if self.ctx.entails(("le", y - x + 1)):
                return {}
            if self.ctx.entails(("le", x - y - 1)):
                return p_add(self._F(d, f, y + 1), self._F(d, f, x), -1)
            self._need(("le", x - y - 1))
            return {((mk("S", d, f, x, y), 1),): Fraction(1)}
        if o in ("app", "win"):
            return self.atom(mk(o, a[0], *[self.canon(x) for x in a[1:]]))
        return self.atom(t)

    def _body(self, d, f):
        """summand of an antiderivative under the present context"""
        return p_term(self.ctx.norm().poly(f)) if f.op != "c" else f

    def _need(self, lit):
        if self.split and not self.ctx.entails(lit) and not self.ctx.entails(lit_neg(lit)):
            vs = set()
            _vars(lit, vs)
            if vs.isdisjoint(self.bound):
                raise NeedSplit(lit)

    def _sum(self, a):
        var, lo, hi, body = a
        lo, hi = self.lin(lo), self.lin(hi)
        v = fresh("s")
        body = subst(body, {var: Lin.of(v)})
        n = hi - lo + 1
        ctx = self.ctx
        if ctx.entails(("le", n)):
            return {}
        ok = ctx.entails(("le", -n))
        if not ok:
            self._need(("le", -n))
        # cut the range at the affine guards of the body
        if ok:
            cuts = []
            inner = {t.a[0] for t in atoms_of(body, lambda t: t.op == "sum")}
            for t in atoms_of(body, lambda t: t.op == "ite" and v in t.vs):
                for l in t.a[0]:
                    if l[0] in ("le", "eq", "ne"):
                        e = self.lin(l[1])
                        k = e.coef(v)
                        if k not in (1, -1):
                            continue
                        b = (e - Lin(0, ((v, k),))) * (-k)     # v (<=|>=|==) b
                        if any(s in inner for s in b.syms()):
                            continue
                        if l[0] == "le":
                            cuts.append(b + 1 if k == 1 else b)
                        else:
                            cuts += [b, b + 1]
            for c in cuts:
                if ctx.entails(("le", c - lo)) or ctx.entails(("le", hi + 1 - c)):
                    continue
                g1, g2 = ("le", lo - c), ("le", c - hi - 1)
                if ctx.entails(g1) and ctx.entails(g2):
                    r = self._sum((v, lo, c - 1, body))
                    return p_add(r, self._sum((v, c, hi, body)))
                self._need(("le", c - lo))
                self._need(("le", hi + 1 - c))
        ctx2 = ctx.assume(("le", lo - v), ("le", Lin.of(v) - hi))
        if ctx2 is not None and not n.is_const() and v not in ctx2.canon(Lin.of(v)).syms():
            self._need(("le", n))        # zero or one item
            self._need(("le", 1 - n))
        nb = Norm(ctx2 if ctx2 is not None else ctx, self.split, self.bound | {v})
        pb = nb.poly(body)
        if not pb:
            return {}
        if ok and n.is_const() and 0 <= n.c <= 3:
            r = {}
            for i in range(n.c):
                r = p_add(r, self.poly(subst(body, {v: lo + i})))
            return r
        r = {}
        for m, c in pb.items():
            indep = tuple((x, k) for x, k in m if v not in x.vs)
            dep = tuple((x, k) for x, k in m if v in x.vs)
            if not dep:
                s = p_mul({indep: c}, self.poly(i2f(n)))
            else:
                s = p_mul({indep: c}, self._anti(dep, v, lo, hi, ok))
            r = p_add(r, s)
        return r

    def _anti(self, dep, v, lo, hi, ok):
        # canonical antiderivative: F_f(hi+1) - F_f(lo), f shifted so that its first index has no offset
        t = ONE
        for x, k in dep:
            for _ in range(abs(k)):
                t = mul(t, x) if k > 0 else div(t, x)
        d = 1 + max([x.a[0] for x in atoms_of(t, lambda y: y.op in ("F", "S"))], default=0)
        B = f"β{d}"
        key = _first_index(dep, v)
        sgn, off = 1, Lin(0)
        if key is not None:
            k = key.coef(v)
            if k in (1, -1):
                sgn, off = k, key - Lin(0, ((v, k),))
        # index = sgn*v + off ; new var w = index  => v = sgn*(w - off)
        f = subst(t, {v: (Lin.of(B) - off) * sgn})
        f = p_term(self.ctx.norm().poly(f)) if B in f.vs else f
        if sgn == 1:
            a, b = lo + off, hi + off
        else:
            a, b = off - hi, off - lo
        a, b = self.lin(a), self.lin(b)
        if ok:
            return p_add(self._F(d, f, b + 1), self._F(d, f, a), -1)
        return {((mk("S", d, f, a, b), 1),): Fraction(1)}

    def _F(self, d, f, b):
        """antiderivative at b, telescoped to an argument without constant part: F(b+1) = F(b) + f(b)"""
        c = b.c
        B = f"β{d}"
        x = mk("i2f", Lin.of(B))
        if f is x or f.op == "*" and all(y is x for y in f.a):
            # sums of powers in closed form
            v = i2f(b)
            if f is x:
                return self.poly(div(mul(v, sub(v, ONE)), const(2)))
            return self.poly(div(mul(mul(v, sub(v, ONE)), sub(add(v, v), ONE)), const(6)))
        if not -8 <= c <= 8:
            return {((mk("F", d, f, b), 1),): Fraction(1)}
        b0 = b - c
        r = {((mk("F", d, f, b0), 1),): Fraction(1)}
        B = f"β{d}"
        for j in range(min(c, 0), max(c, 0)):
            r = p_add(r, self.poly(subst(f, {B: b0 + j})), 1 if c > 0 else -1)
        return r


def _first_index(dep, v):
    best = None
    for x, _ in dep:
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, Lin):
                if y.coef(v):
                    k = (sorted((s, c) for s, c in y.d if s != v).__repr__(), y.c, repr(y))
                    nm = "i"
                    if best is None or k < best[0]:
                        best = (k, y)
            elif isinstance(y, T):
                # prefer selections: they carry the structure
                st.extend(y.a)
            elif isinstance(y, tuple):
                st.extend(y)
            elif hasattr(y, "lins"):
                st.extend(y.lins())
    return best[1] if best else None


def _rnd(t):
    h = hashlib.blake2b(repr(t.id).encode() + b"x", digest_size=8).digest()
    return int.from_bytes(h, "big") % P_MOD or 1


def pit(p, memo):
    """value number of a poly in F_p: independent atoms get independent values, inv() is the modular inverse"""
    r = 0
    for m, c in p.items():
        v = c.numerator % P_MOD * pow(c.denominator % P_MOD, P_MOD - 2, P_MOD) % P_MOD
        for a, k in m:
            x = memo.get(a)
            if x is None:
                if a.op == "inv":
                    q = pit(Norm(_NOCTX).poly(a.a[0]), memo)
                    x = pow(q, P_MOD - 2, P_MOD)
                else:
                    x = _rnd(a)
                memo[a] = x
            v = v * pow(x if k > 0 else pow(x, P_MOD - 2, P_MOD), abs(k), P_MOD) % P_MOD
        r = (r + v) % P_MOD
    return r


def equal(a, b, ctx, split=False):
    """True: same value number; False: different; None: contains unknowns"""
    if a is b:
        return True
    n = Norm(ctx, split)
    d = p_add(n.poly(a), n.poly(b), -1)
    if not d:
        return True
    if pit(d, {}) == 0:
        return True
    for m in d:
        for x, _ in m:
            if has_unknown(x):
                return None
    return False


# --------------------------------------------------------------------------------- contexts
LT, EQ, GT, UN = 1, 2, 4, 8
ALLM = 15
FLIP = {LT: GT, GT: LT, EQ: EQ, UN: UN}


def flip(mask):
    return (mask & (EQ | UN)) | (GT if mask & LT else 0) | (LT if mask & GT else 0)


_COMP = {}
for x in (LT, EQ, GT):
    for y in (LT, EQ, GT):
        if x == EQ:
            r = y
        elif y == EQ:
            r = x
        elif x == y:
            r = x
        else:
            r = LT | EQ | GT
        _COMP[(x, y)] = r


def comp(a, b):
    if (a | b) & UN:
        return ALLM
    r = 0
    for x in (LT, EQ, GT):
        if a & x:
            for y in (LT, EQ, GT):
                if b & y:
                    r |= _COMP[(x, y)]
    return r


def lit_neg(l):
    k = l[0]
    if k == "le":
        return ("le", 1 - l[1])
    if k == "eq":
        return ("ne", l[1])
    if k == "ne":
        return ("eq", l[1])
    if k == "fr":
        return ("fr", l[1], l[2], ALLM & ~l[3])
    if k == "b":
        return ("b", l[1], not l[2])
    raise ValueError(l)


def show_lit(l):
    k = l[0]
    if k == "le":
        return f"{l[1]} <= 0"
    if k == "eq":
        return f"{l[1]} == 0"
    if k == "ne":
        return f"{l[1]} != 0"
    if k == "fr":
        ms = "".join(c for c, b in (("<", LT), ("=", EQ), (">", GT), ("?", UN)) if l[3] & b)
        return f"{show(l[1])} {{{ms}}} {show(l[2])}"
    return ("" if l[2] else "!") + str(l[1])


def symnum(s):
    """age of a generated symbol; later ones are eliminated first"""
    _, h, k = s.partition("#")
    return int(k) if h and k.isdigit() else (0 if h else -1)


class Ctx:
    """conjunction of literals; immutable"""
    __slots__ = ("ineqs", "eqs", "nes", "rel", "bools", "foralls", "axioms", "_fc", "_closure", "_norm", "_own")

    def __init__(self):
        self.ineqs = ()
        self.eqs = {}
        self.nes = ()
        self.rel = ()          # list of (a, b, mask)
        self.bools = {}
        self.foralls = ()      # (var, lo, hi, lits)
        self.axioms = ()       # callables(ctx, termlist) -> extra float relations
        self._fc = None
        self._closure = None
        self._norm = None

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.ineqs, c.eqs, c.nes, c.rel = self.ineqs, self.eqs, self.nes, self.rel
        c.bools, c.foralls, c.axioms = self.bools, self.foralls, self.axioms
        c._fc = None
        c._closure = None
        c._norm = None
        return c

    # integers
    def canon(self, l):
        if not self.eqs or not l.d:
            return l
        return l.subst(self.eqs)

    def _with_eq(self, e):
        """add e == 0"""
        e = self.canon(e)
        if not e.d:
            return self if e.c == 0 else None
        g = 0
        for _, k in e.d:
            g = gcd(g, abs(k))
        if e.c % g:
            return None
        e = Lin(e.c // g, tuple((s, k // g) for s, k in e.d))
        c = self.copy()
        # prefer eliminating generated symbols, then long names
        cand = [(s, k) for s, k in e.d if k in (1, -1)
                and not any(s in SYMVARS.get(o, ()) for o, _ in e.d if o != s)]
        if not cand:
            c.ineqs = c.ineqs + (norm_ineq(e), norm_ineq(-e))
            return c if not c.int_unsat() else None
        s, k = max(cand, key=lambda x: (symnum(x[0]), x[0]))
        rhs = (e - Lin(0, ((s, k),))) * (-k)
        m = {s: rhs}
        c.eqs = {t: v.subst(m) for t, v in c.eqs.items()}
        c.eqs[s] = rhs
        c.ineqs = tuple(x for x in (norm_ineq(i.subst(m)) for i in c.ineqs) if x.d or x.c > 0)
        nes = c.nes
        c.nes = ()
        if any((not i.d and i.c > 0) for i in c.ineqs):
            return None
        for x in nes:
            c = c._with_ne(x)
            if c is None:
                return None
        if c.int_unsat():
            return None
        # substituted inequalities may have become equalities
        old = set(self.ineqs)
        for x in c.ineqs:
            if x.d and x not in old and unsat(c._relevant(x) + (x + 1,)):
                return c._with_eq(x)
        return c

    def _with_ne(self, e):
        e = self.canon(e)
        if not e.d:
            return None if e.c == 0 else self
        if self.prove_le(e):      # e <= 0, so e <= -1
            return self._with_le(e + 1)
        if self.prove_le(-e):
            return self._with_le(1 - e)
        c = self.copy()
        c.nes = c.nes + (e,)
        return c

    def _with_le(self, e):
        e = norm_ineq(self.canon(e))
        if not e.d:
            return None if e.c > 0 else self
        if e in self.ineqs:
            return self
        c = self.copy()
        c.ineqs = c.ineqs + (e,)
        if c.int_unsat():
            return None
        # implied equality?
        if unsat(c.ineqs + (e + 1,)):
            c2 = self._with_eq(e)
            return c2
        if c.nes:
            nes = c.nes
            c = c.copy()
            c.nes = ()
            for x in nes:
                c = c._with_ne(x)
                if c is None:
                    return None
        return c

    def int_unsat(self):
        return unsat(self.ineqs + self._facts())

    def _facts(self):
        out, done = [], set()
        todo = {s for i in self.ineqs for s, _ in i.d}
        while todo:
            s = todo.pop()
            if s in done:
                continue
            done.add(s)
            for f in SYMFACTS.get(s, ()):
                f = self.canon(f)
                if f.d:
                    out.append(f)
                    todo.update(f.syms())
        return tuple(out)

    def prove_le(self, e):
        e = norm_ineq(self.canon(e))
        if not e.d:
            return e.c <= 0
        rel = self._relevant(1 - e)
        return unsat(rel + (1 - e,))

    def _relevant(self, e):
        """constraints connected to e by shared symbols"""
        syms = set(e.syms())
        done = set()
        rest = list(self.ineqs)
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for i in rest:
                if any(s in syms for s, _ in i.d):
                    out.append(i)
                    syms.update(i.syms())
                    ch = True
                else:
                    nr.append(i)
            rest = nr
            for s in [s for s in syms if s in SYMFACTS and s not in done]:
                done.add(s)
                for f in SYMFACTS[s]:
                    f = self.canon(f)
                    if f.d:
                        out.append(f)
                        syms.update(f.syms())
                        ch = True
        return tuple(out)

    def prove_eq(self, e):
        e = self.canon(e)
        if not e.d:
            return e.c == 0
        return self.prove_le(e) and self.prove_le(-e)

    def prove_ne(self, e):
        e = self.canon(e)
        if not e.d:
            return e.c != 0
        if e in self.nes or -e in self.nes:
            return True
        return self._with_eq(e) is None

    def ints(self):
        """the integer facts alone"""
        if not (self.rel or self.foralls or self.axioms):
            return self
        c = self.copy()
        c.rel, c.foralls, c.axioms = (), (), ()
        return c

    # floats
    def norm(self):
        if self._norm is None:
            self._norm = Norm(self)
        return self._norm

    def closure(self):
        """path-consistent relation network over the terms mentioned by rel (+ constants + axioms)"""
        if self._closure is not None:
            return self._closure
        # only integer facts normalise the related terms: the float facts are what is being closed here
        n = Norm(self.ints())
        terms, mat = [], {}

        def tid(t):
            c = n.canon(t)
            if c not in terms:
                terms.append(c)
            return c

        own = {}        # relation of a term to itself: EQ a number, UN not a number

        def note(a, m):
            own[a] = own.get(a, EQ if self.nonnan(a) else EQ | UN) & m
            return own[a] != 0

        def put(a, b, m):
            if a is b:
                return note(a, m)
            if m & UN and self.nonnan(a) and self.nonnan(b):
                m &= ~UN
            if not m & UN:
                if not (note(a, EQ) and note(b, EQ)):
                    return False
            mat[(a, b)] = mat.get((a, b), ALLM) & m
            mat[(b, a)] = mat.get((b, a), ALLM) & flip(m)
            return mat[(a, b)] != 0

        ok = True
        for a, b, m in self.rel:
            x, y = tid(a), tid(b)
            ok = put(x, y, m) and ok
            for p, q, k in consequences(n, x, y, m)[0]:
                ok = put(tid(p), tid(q), k) and ok
        for c in [t for t in terms if t.op == "c"]:
            for d in [t for t in terms if t.op == "c"]:
                if c is not d:
                    ok = put(c, d, LT if c.a[0] < d.a[0] else GT) and ok
        for ax in self.axioms:
            for a, b, m in ax(self, terms):
                x, y = a, b
                if x not in terms:
                    terms.append(x)
                if y not in terms:
                    terms.append(y)
                ok = put(x, y, m) and ok
        ors = []
        for a, b, m in self.rel:
            for alt in consequences(n, n.canon(a), n.canon(b), m)[1]:
                ors.append([[(tid(x), tid(y), k) for x, y, k in c] for c in alt])
        if ok and self.foralls:
            rels, alts = self._instances(n, terms)
            for a, b, m in rels:
                x, y = tid(a), tid(b)
                ok = put(x, y, m) and ok
                for p, q, k in consequences(n, x, y, m)[0]:
                    ok = put(tid(p), tid(q), k) and ok
            for alt in alts:
                ors.append([[(tid(x), tid(y), m) for x, y, m in c] for c in alt])
            # consequences of the axioms for the new terms
            for ax in self.axioms:
                for a, b, m in ax(self, terms):
                    x, y = tid(a), tid(b)
                    ok = put(x, y, m) and ok
        outer = True
        while outer and ok:
            outer = False
            for (a, b), m in list(mat.items()):
                x, y = own.get(a, EQ | UN), own.get(b, EQ | UN)
                k = m & UN if UN in (x, y) else m & ~UN if x == y == EQ else m
                if k != m:
                    ok = put(a, b, k) and ok
            ch = True
            rounds = 0
            while ch and ok and rounds < 12:
                ch = False
                rounds += 1
                keys = [k for k, v in mat.items() if v != ALLM]
                by = {}
                for a, b in keys:
                    by.setdefault(a, []).append(b)
                for a in list(by):
                    for b in by[a]:
                        m1 = mat[(a, b)]
                        if m1 & UN:
                            continue
                        for c in by.get(b, ()):
                            if c is a:
                                continue
                            m2 = mat[(b, c)]
                            if m2 & UN:
                                continue
                            r = comp(m1, m2)
                            o = mat.get((a, c), ALLM)
                            if o & r != o:
                                mat[(a, c)] = o & r
                                mat[(c, a)] = flip(o & r)
                                ch = True
                                if not o & r:
                                    ok = False
            for o in ors:
                alive = [c for c in o if all((m & own.get(x, EQ | UN)) if x is y else (mat.get((x, y), ALLM) & m) for x, y, m in c)]
                if not alive:
                    ok = False
                elif len(alive) == 1:
                    for x, y, m in alive[0]:
                        if x is not y and mat.get((x, y), ALLM) & ~m:
                            ok = put(x, y, m) and ok
                            outer = True
        self._own = own
        self._closure = (ok, mat, terms, n)
        return self._closure

    def _instances(self, n, terms, undecided=None):
        """instances of the universally quantified facts at the indices of known elements and at the range ends;
        (relations, disjunctions)"""
        out, alts = [], []
        sels = [t for t in terms if t.op == "sel"]
        for var, lo, hi, lits in self.foralls:
            lo, hi = Lin.of(lo), Lin.of(hi)
            for l in lits:
                if l[0] not in ("fr", "or"):
                    continue
                cand = []
                for s in atoms_of(l[1:], lambda t: t.op == "sel" and var in t.vs):
                    for t in sels:
                        if t.a[0] != s.a[0] or len(t.a) != len(s.a):
                            continue
                        v = None
                        for x, y in zip(s.a[1:], t.a[1:]):
                            k = x.coef(var)
                            if k in (1, -1):
                                v = (y - (x - Lin(0, ((var, k),)))) * k
                                break
                        if v is None or var in v.syms():
                            continue
                        cand.append(self.canon(v))
                seen = set()
                for v in cand + [self.canon(lo), self.canon(hi)]:
                    if v in seen:
                        continue
                    seen.add(v)
                    if self.prove_le(lo - v) and self.prove_le(v - hi):
                        m = {var: v}
                        if l[0] == "fr":
                            out.append((subst(l[1], m), subst(l[2], m), l[3]))
                        else:
                            alts.append([[(subst(f[1], m), subst(f[2], m), f[3]) for f in c] for c in l[1:]])
                    elif undecided is not None:
                        for e in (lo - v, v - hi):
                            if not self.prove_le(e) and not self.prove_le(1 - e):
                                undecided.append(("le", e))
        return out, alts

    def frel(self, a, b):
        """possible relations between two float terms under the context"""
        ok, mat, terms, n = self.closure()
        x, y = n.canon(a), n.canon(b)
        m = ALLM
        if x is y:
            m = self._own.get(x, EQ | UN if not self.nonnan(x) else EQ)
        elif x.op == "c" and y.op == "c":
            m = LT if x.a[0] < y.a[0] else GT
        else:
            m = mat.get((x, y), ALLM)
            if (x, y) not in mat or True:
                # add the terms and re-close (axioms may relate them)
                c = self.copy()
                c.rel = c.rel + ((x, y, ALLM),)
                ok2, mat2, _, _ = c.closure()
                m = mat2.get((x, y), ALLM) if ok2 else 0
            z = isolate(n, x, y, ALLM)
            if z is not None:
                k = self.frel(z[0], z[1])
                m &= flip(k) if z[3] else k
        return m

    def nonnan(self, x):
        """x is a number: inputs, integers, and what is computed from them without a division by zero"""
        if x.op in ("c", "i2f", "sel"):
            return True
        if x.op in ("+", "-", "*", "neg"):
            return all(self.nonnan(y) for y in x.a)
        if x.op in ("/", "inv"):
            y = as_lin(x.a[-1])
            return (x.op == "inv" or self.nonnan(x.a[0])) and y is not None and self.prove_ne(y)
        return False

    def assume(self, *lits):
        c = self
        touched = False
        for l in lits:
            k = l[0]
            if k == "le":
                c = c._with_le(l[1])
            elif k == "eq":
                c = c._with_eq(l[1])
            elif k == "ne":
                c = c._with_ne(l[1])
            elif k == "fr":
                if l[3] == ALLM:
                    continue
                if l[3] == 0:
                    return None
                if (l[1], l[2], l[3]) in c.rel:
                    continue
                c = c.copy()
                c.rel = c.rel + ((l[1], l[2], l[3]),)
                touched = True
            elif k == "b":
                v = c.bools.get(l[1])
                if v is None:
                    c = c.copy()
                    c.bools = dict(c.bools)
                    c.bools[l[1]] = l[2]
                elif v != l[2]:
                    return None
            elif k == "forall":
                if l[1:] in c.foralls:
                    continue
                c = c.copy()
                c.foralls = c.foralls + (l[1:],)
                touched = touched or bool(c.rel)
            elif k == "false":
                return None
            else:
                raise ValueError(l)
            if c is None:
                return None
        if (touched or (c is not self and c.rel and c.eqs is not self.eqs)) and not c.closure()[0]:
            return None
        if c is not self and (c.rel) and not touched:
            # integer facts may have decided float relations through the axioms
            if (c.axioms or c.foralls) and not c.closure()[0]:
                return None
        return c

    def entails(self, l):
        k = l[0]
        if k == "le":
            return self.prove_le(l[1])
        if k == "eq":
            return self.prove_eq(l[1])
        if k == "ne":
            return self.prove_ne(l[1])
        if k == "b":
            return self.bools.get(l[1]) == l[2]
        if k == "fr":
            if l[3] == ALLM:
                return True
            m = self.frel(l[1], l[2])
            return m & ~l[3] == 0
        return False

    def refutes(self, l):
        return self.assume(l) is None

    def lits(self):
        out = [("eq", Lin.of(s) - v) for s, v in self.eqs.items()]
        out += [("le", e) for e in self.ineqs]
        out += [("ne", e) for e in self.nes]
        out += [("fr",) + r for r in self.rel]
        out += [("b", k, v) for k, v in self.bools.items()]
        return out

    def conj(self, other):
        c = self.assume(*other.lits())
        if c is not None and other.foralls:
            c = c.copy()
            c.foralls = c.foralls + tuple(f for f in other.foralls if f not in c.foralls)
        return c

    def model(self, budget=None):
        """integer model of the integer part (with disequalities honoured), or None"""
        odd, base = set(), set()
        for e in list(self.ineqs) + list(self.nes) + [Lin.of(x) - v for x, v in self.eqs.items()]:
            for y in e.syms():
                if y in SYMDEF:
                    if SYMDEF[y][0] in ("trunc", "mul", "diffop"):
                        odd.add(y)
                        base |= {z for z in SYMVARS.get(y, ()) if z not in SYMDEF}
        if odd and base:
            # products and truncations are exact only where their arguments are numbers: assign those first
            budget = budget if budget is not None else [300]
            y = min(base)
            for v in range(0, 9):
                budget[0] -= 1
                if budget[0] < 0:
                    return None
                c = self.assume(("eq", Lin.of(y) - v))
                m = c.model(budget) if c is not None else None
                if m is not None:
                    m = dict(m)
                    m[y] = v
                    return m
            return None
        if any(SYMDEF[y][0] in ("trunc", "diffop") for y in odd):
            return None         # the integer part of something that has no value in the model
        cs = list(self.ineqs)
        cs += list(self._facts())
        m = model(cs)
        if m is None:
            return None
        full = dict(m)
        for e in self.nes:
            v = e.subst(full)
            if not v.d and v.c == 0:
                # try both sides
                for alt in (e + 1, 1 - e):
                    m2 = model(cs + [alt])
                    if m2 is not None:
                        full = dict(m2)
                        break
                else:
                    return None
        for s, v in self.eqs.items():
            x = v.subst(full)
            x = x.subst({k: 0 for k in x.syms()})
            full[s] = x.c
        return full

    def show(self):
        return " ∧ ".join(show_lit(l) for l in self.lits())


def as_lin(t):
    """an integer-valued real as an integer expression (up to a positive constant factor), or None"""
    o, a = t.op, t.a
    if o == "c":
        return Lin(int(a[0])) if a[0].denominator == 1 else None
    if o == "i2f":
        return a[0]
    if o == "neg":
        x = as_lin(a[0])
        return None if x is None else -x
    if o in ("+", "-", "*"):
        x, y = as_lin(a[0]), as_lin(a[1])
        if x is None or y is None:
            return None
        if o == "*":
            if not x.is_const() and not y.is_const():
                return None
            return y * x.c if x.is_const() else x * y.c
        return x + y if o == "+" else x - y
    return None


_NOCTX = Ctx()
