"""Linear integer domain: affine expressions over symbols and a conjunction-of-inequalities
(convex polyhedra) domain with Fourier-Motzkin entailment.  No external solver."""
from math import gcd
from functools import lru_cache


class Lin:
    __slots__ = ("c", "d", "_h")

    def __init__(self, c=0, d=()):
        self.c = c
        self.d = d
        self._h = hash((c, d))

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, int):
            return Lin(x, ())
        return Lin(0, ((x, 1),))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.d == o.d

    def __add__(self, o):
        o = Lin.of(o)
        if not o.d:
            return Lin(self.c + o.c, self.d)
        if not self.d:
            return Lin(self.c + o.c, o.d)
        m = dict(self.d)
        for s, k in o.d:
            v = m.get(s, 0) + k
            if v:
                m[s] = v
            else:
                m.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(m.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.d))

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) - self

    def __mul__(self, k):
        if isinstance(k, Lin):
            if not k.d:
                k = k.c
            elif not self.d:
                return k * self.c
            else:
                return nonlin_mul(self, k)
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.d))

    __rmul__ = __mul__

    def coef(self, s):
        for t, k in self.d:
            if t == s:
                return k
        return 0

    def syms(self):
        return [s for s, _ in self.d]

    def is_const(self):
        return not self.d

    def subst(self, m):
        if not self.d:
            return self
        hit = False
        for s, _ in self.d:
            if s in m or (s in SYMVARS and not SYMVARS[s].isdisjoint(m)):
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c)
        keep = []
        for s, k in self.d:
            if s in m:
                r = r + Lin.of(m[s]) * k
            elif s in SYMVARS and not SYMVARS[s].isdisjoint(m):
                r = r + resubst(s, m) * k
            else:
                keep.append((s, k))
        return r + Lin(0, tuple(keep))

    def __repr__(self):
        out = ""
        for s, k in self.d:
            sign = "-" if k < 0 else "+"
            a = abs(k)
            out += f"{sign}{'' if a == 1 else a}{s}"
        if self.c or not out:
            out += f"{self.c:+d}"
        return out[1:] if out.startswith("+") else out


# keyed (opaque) integer symbols -------------------------------------------------------------
# a keyed symbol stands for a function value: its payload (integer / real terms) takes part in substitution and
# in the free variables of every expression that mentions the symbol
SYMDEF = {}      # sym -> description tuple (kind, key, payload...)
SYMVARS = {}     # sym -> free variables of the payload
SYMFACTS = {}    # sym -> intrinsic inequalities (e <= 0)
REBUILD = {}     # kind -> function(key, payload) -> Lin; default keyed_sym(kind, payload, *payload)
HOOK = {}        # "vars": collect free variables, "subst": substitution (installed by terms.py)
_KEY2SYM = {}
_fresh = [0]


def fresh(prefix):
    _fresh[0] += 1
    return f"{prefix}#{_fresh[0]}"


def keyed_sym(prefix, key, *payload, facts=None):
    k = (prefix, key)
    if k not in _KEY2SYM:
        s = fresh(prefix)
        _KEY2SYM[k] = s
        SYMDEF[s] = (prefix, key) + payload
        if payload:
            vs = set()
            HOOK["vars"](payload, vs)
            if vs:
                SYMVARS[s] = frozenset(vs)
        if facts:
            SYMFACTS[s] = facts(Lin(0, ((s, 1),)))
    return _KEY2SYM[k]


_resub = {}


def resubst(s, m):
    vs = SYMVARS[s]
    key = (s, tuple(sorted((k, v) for k, v in m.items() if k in vs) if all(isinstance(v, int) for v in m.values()) else
                    tuple((k, m[k]) for k in sorted(m) if k in vs)))
    r = _resub.get(key)
    if r is None:
        kind, k0, *payload = SYMDEF[s]
        payload = tuple(HOOK["subst"](x, m) for x in payload)
        r = _resub[key] = REBUILD[kind](k0, payload)
    return r


def _mul_rebuild(key, payload):
    return payload[0] * payload[1]


REBUILD["mul"] = _mul_rebuild


def nonlin_mul(a, b):
    # distribute over constants so that products stay canonical
    r = Lin(a.c * b.c)
    for s, k in a.d:
        r = r + Lin(0, ((s, k * b.c),)) if b.c else r
    for s, k in b.d:
        r = r + Lin(0, ((s, k * a.c),)) if a.c else r
    for s, k in a.d:
        for t, l in b.d:
            x, y = sorted((s, t))
            r = r + Lin(0, ((keyed_sym("mul", (x, y), Lin.of(x), Lin.of(y)), k * l),))
    return r


def norm_ineq(e):
    """e <= 0, tightened by gcd of the coefficients (integers)."""
    if not e.d:
        return e
    g = 0
    for _, k in e.d:
        g = gcd(g, abs(k))
    if g > 1:
        c = -((-e.c) // g)   # ceil(e.c/g)
        return Lin(c, tuple((s, k // g) for s, k in e.d))
    return e


def _prune(cs):
    best = {}
    for e in cs:
        if not e.d:
            if e.c > 0:
                return None
            continue
        o = best.get(e.d)
        if o is None or e.c > o:
            best[e.d] = e.c
    # contradiction of opposite pairs
    out = []
    for d, c in best.items():
        nd = tuple((s, -k) for s, k in d)
        if nd in best and c + best[nd] > 0:
            return None
        out.append(Lin(c, d))
    return out


_unsat_cache = {}


def unsat(cs):
    """True if the conjunction of (e <= 0) is proved to have no integer solution."""
    key = frozenset(cs)
    r = _unsat_cache.get(key)
    if r is None:
        r = _fm(list(key))[0] is None
        if len(_unsat_cache) > 300000:
            _unsat_cache.clear()
        _unsat_cache[key] = r
    return r


LIMIT = 1500


def _fm(cs):
    """Fourier-Motzkin; returns (None, []) if unsat, else (True, elimination stack) or (False, ..) if given up."""
    cs = _prune([norm_ineq(e) for e in cs])
    if cs is None:
        return None, []
    stack = []
    while True:
        occ = {}
        for e in cs:
            for s, k in e.d:
                o = occ.setdefault(s, [0, 0])
                o[0 if k > 0 else 1] += 1
        if not occ:
            return True, stack
        v = min(occ, key=lambda s: (occ[s][0] * occ[s][1] - occ[s][0] - occ[s][1], s))
        up, lo, rest = [], [], []
        for e in cs:
            k = e.coef(v)
            (up if k > 0 else lo if k < 0 else rest).append(e)
        stack.append((v, up, lo))
        if up and lo:
            if len(rest) + len(up) * len(lo) > LIMIT:
                return False, stack
            for a in up:
                ka = a.coef(v)
                for b in lo:
                    kb = -b.coef(v)
                    rest.append(norm_ineq(a * kb + b * ka))
        cs = _prune(rest)
        if cs is None:
            return None, []


def model(cs, tries=400):
    """Search an integer model by back-substitution through the elimination order."""
    r, stack = _fm(list(cs))
    if r is None or r is False:
        return None
    allc = list(cs)
    budget = [tries]

    def rec(i, m):
        if i < 0:
            for e in allc:
                v = e.subst(m)
                if v.d or v.c > 0:
                    return None
            return dict(m)
        v, up, lo = stack[i]
        lb, ub = None, None
        for e in up:
            k = e.coef(v)
            rest = (e - Lin(0, ((v, k),))).subst(m)
            if rest.d:
                rest = rest.subst({s: 0 for s in rest.syms()})
            b = (-rest.c) // k
            ub = b if ub is None else min(ub, b)
        for e in lo:
            k = -e.coef(v)
            rest = (e + Lin(0, ((v, k),))).subst(m)
            if rest.d:
                rest = rest.subst({s: 0 for s in rest.syms()})
            b = -((-rest.c) // k)
            lb = b if lb is None else max(lb, b)
        if lb is not None and ub is not None and lb > ub:
            return None
        if lb is None and ub is None:
            cand = [0, 1, 2]
        elif lb is None:
            cand = [ub, ub - 1, ub - 2, ub - 3]
        elif ub is None:
            cand = [lb, lb + 1, lb + 2, lb + 3]
        else:
            cand = list(range(lb, min(ub, lb + 6) + 1))
        for x in cand:
            budget[0] -= 1
            if budget[0] < 0:
                return None
            m2 = dict(m)
            m2[v] = x
            r = rec(i - 1, m2)
            if r is not None:
                return r
        return None

    return rec(len(stack) - 1, {})
