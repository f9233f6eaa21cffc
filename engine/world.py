"""Symbolic inputs built from the type-checked layout of the crate's public types."""
from values import *


class Missing(Exception):
    """an anchor of the analysis (type, field, function) does not exist in the current tree"""


class Layout(Missing):
    """the private layout of a type is not the one the analysis knows: undecided, not a violation"""


class World:
    fields = {"Knots": ("Uk", "p", "k_max"), "ControlPoints": ("Pk", "k_max"), "DataPoints": ("matrix",),
              "Parameters": ("vector", "segments"), "Curve": ("knots", "points")}

    def __init__(self, prog):
        self.p = prog
        self._adt = {}

    def adt(self, suffix):
        r = self._adt.get(suffix)
        if r is None:
            c = {(t["name"], i) for i, t in self.p.types.items() if t["k"] == "adt" and t["name"].endswith("::" + suffix)
                 and t["local"]}
            if not c:
                raise Missing("type " + suffix)
            names = {n for n, _ in c}
            if len(names) > 1:
                names = {min(names, key=len)}
            n = min(names)
            i = min((i for m, i in c if m == n), key=int)
            r = self._adt[suffix] = (n, i, self.p.ty(i))
        return r

    def make(self, suffix, variant=None, **fields):
        n, i, t = self.adt(suffix)
        vi = 0
        if variant is not None:
            for k, v in enumerate(t["variants"]):
                if v["name"] == variant:
                    vi = k
                    break
            else:
                raise Missing(f"variant {suffix}::{variant}")
        fs = []
        names = [f["name"] for f in t["variants"][vi]["fields"]]
        # a single renamed field keeps its role
        odd, new = [f for f in fields if f not in names], [f for f in names if f not in fields]
        if len(odd) == len(new) == 1:
            fields = {new[0] if k == odd[0] else k: v for k, v in fields.items()}
        for f in names:
            if f not in fields:
                raise Layout(f"{suffix}.{f} is not known to the analysis")
            fs.append(fields[f])
        for f in fields:
            if f not in names:
                raise Layout(f"field {suffix}.{f}")
        return Agg(n, fs, vi, int(i))

    def field(self, v, suffix, name):
        """field of a struct value by name"""
        n, i, t = self.adt(suffix)
        names = [f["name"] for f in t["variants"][v.v]["fields"]]
        if name not in names:
            new = [f for f in names if f not in self.fields.get(suffix, names)]
            if len(new) == 1:
                return v.fs[names.index(new[0])]
            raise Layout(f"field {suffix}.{name}")
        return v.fs[names.index(name)]

    def variant(self, v):
        """name of the variant of an enum value"""
        for i, t in self.p.types.items():
            if t["k"] == "adt" and t["name"] == v.name:
                return t["variants"][v.v]["name"]
        return None

    # ------------------------------------------------------------------------------ crate types
    def knots(self, name, p, n, coherent=True):
        """clamped shape is not assumed; derivative vectors are the inner windows of the knot vector"""
        p, n = Lin.of(p), Lin.of(n)

        def uk(k):
            return avec(n + p + 2 - k * 2, lambda i: sel(name, i + k))
        return self.make("Knots", Uk=VVec(p + 1, [(Lin(0), p + 1, uk)]), p=p, k_max=p)

    def knots_raw(self, name, p, ln):
        """knots as seen before any derivation: one vector of length ln"""
        return self.make("Knots", Uk=VVec(1, [(Lin(0), Lin(1), lambda k: avec(ln, lambda i: sel(name, i)))]), p=Lin.of(p),
                         k_max=Lin(0))

    def points(self, name, d, n, kmax):
        """control points with derivative matrices 0..kmax, named by order, row, column"""
        d, n, kmax = Lin.of(d), Lin.of(n), Lin.of(kmax)

        def pk(k):
            return Arr(d, n + 1 - k, lambda i, j: sel(name, k, i, j))
        return self.make("ControlPoints", Pk=VVec(kmax + 1, [(Lin(0), kmax + 1, pk)]), k_max=kmax)

    def data(self, name, d, m):
        return self.make("DataPoints", matrix=Arr(d, Lin.of(m) + 1, lambda i, j: sel(name, i, j)))

    def params(self, name, m):
        return self.make("Parameters", vector=avec(Lin.of(m) + 1, lambda i: sel(name, i)), segments=Lin.of(m))

    def curve(self, U, P, p, n, d):
        return self.make("Curve", knots=self.knots(U, p, n), points=self.points(P, d, n, p))


def nat(*syms):
    """the symbols are naturals"""
    return [("le", -Lin.of(s)) for s in syms]
