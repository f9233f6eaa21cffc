"""Abstract interpretation of monomorphised MIR: trace partitioning over branch literals, affine integers with a
polyhedral context, value-numbered reals, extensional arrays; loops are summarised by induction-variable / recurrence
closed forms that are checked to be inductive before they are used.  Nothing is unrolled and nothing is executed."""
import json, struct, sys
from values import *
from compare import compare, EQ_, DIFF_, UNK_
sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns, self.types = {k: f for k, f in d["fns"].items() if not f.get("nobody")}, d["types"]
        self.raw = d
        self.by_name = {}
        for k, f in self.fns.items():
            self.by_name.setdefault(f["name"], []).append(k)
        self._loops = {}
        self._rec = None

    def ty(self, i):
        return self.types[str(i)]

    def find(self, *suffixes, sig=None):
        """key of the unique function whose path ends with one of the suffixes"""
        for s in suffixes:
            c = [k for n, ks in self.by_name.items() if n == s or n.endswith("::" + s) for k in ks]
            if sig:
                c = [k for k in c if sig(self.fns[k])]
            if len(c) == 1:
                return c[0]
        return None

    def name(self, k):
        return self.fns[k]["name"]

    def field_names(self, adt):
        for t in self.types.values():
            if t["k"] == "adt" and t["name"] == adt and t["variants"]:
                return [[f["name"] for f in v["fields"]] for v in t["variants"]]
        return None

    # call graph -------------------------------------------------------------------------------
    def callees(self, k):
        out = []
        for b in self.fns[k]["blocks"]:
            t = b["t"]
            ops = []
            if t["t"] == "call":
                ops = [t["f"]] + t["a"]
            for s in b["s"]:
                r = s.get("r")
                if isinstance(r, dict):
                    for x in (r.get("a"), r.get("b")):
                        if isinstance(x, dict):
                            ops.append(x)
                        elif isinstance(x, list):
                            ops.extend(x)
            for o in ops:
                if o.get("o") == "const":
                    ty = self.ty(o["ty"])
                    if ty["k"] == "fn" and ty.get("inst"):
                        out.append(ty["inst"]["key"])
                    if ty["k"] == "closure":
                        out.append(ty["inst"]["key"])
            for l in self.fns[k]["locals"]:
                ty = self.ty(l)
                if ty["k"] == "closure" and ty.get("inst"):
                    out.append(ty["inst"]["key"])
        return set(out)

    def reach(self, k):
        seen, st = set(), [k]
        while st:
            x = st.pop()
            if x in seen or x not in self.fns:
                continue
            seen.add(x)
            st.extend(self.callees(x))
        return seen

    def recursive(self):
        if self._rec is None:
            self._rec = set()
            for k in self.fns:
                if any(k in self.reach(c) for c in self.callees(k) if c in self.fns):
                    self._rec.add(k)
        return self._rec

    # natural loops ----------------------------------------------------------------------------
    def succ(self, b):
        t = b["t"]
        k = t["t"]
        if k == "goto":
            return [t["to"]]
        if k == "switch":
            return [x[1] for x in t["br"]] + ([t["else"]] if t.get("else") is not None else [])
        if k in ("drop", "call", "assert"):
            return [t["to"]] if t.get("to") is not None else []
        return []

    def loops(self, k):
        """header -> set of blocks of the natural loop"""
        r = self._loops.get(k)
        if r is not None:
            return r
        bl = self.fns[k]["blocks"]
        n = len(bl)
        succ = [self.succ(b) for b in bl]
        pred = [[] for _ in bl]
        for i, s in enumerate(succ):
            for j in s:
                pred[j].append(i)
        # reverse postorder
        seen, order = set(), []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in dom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = dom[x]
                        while idx[y] > idx[x]:
                            y = dom[y]
                    d = x
                if dom.get(b) != d:
                    dom[b] = d
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(p for p in pred[x] if p in idx)
        self._loops[k] = loops
        return loops


class NeedCase(Exception):
    """a value of the program differs between cases"""

    def __init__(self, *lits):
        self.lits = lits


class NeedBool(Exception):
    """the integer value of a condition"""

    def __init__(self, f):
        self.f = f


def single(a, ctx):
    """rounding to single precision; exact for small integers"""
    n = Norm(ctx).canon(a)
    if n.op == "i2f" or n.op == "c" and float(n.a[0]) == struct.unpack("f", struct.pack("f", float(n.a[0])))[0]:
        return a
    return app("f32", a)


def div_sym(a, k):
    return Lin.of(keyed_sym("div", (a, k), a, k, facts=lambda q: [q * k - a, a - q * k - (k - 1), -q]))


def trunc_sym(n):
    return Lin.of(keyed_sym("trunc", n, n, facts=lambda q: [-q]))


def as_ratio(t):
    """c * product of linear forms / product of linear forms, or None"""
    if t.op == "c":
        return t.a[0], [], []
    if t.op == "i2f":
        return 1, [t.a[0]], []
    if t.op in ("*", "mul"):
        x, y = as_ratio(t.a[0]), as_ratio(t.a[1])
        return (x[0] * y[0], x[1] + y[1], x[2] + y[2]) if x and y else None
    if t.op in ("/", "div"):
        x, y = as_ratio(t.a[0]), as_ratio(t.a[1])
        return (x[0] / y[0], x[1] + y[2], x[2] + y[1]) if x and y and y[0] else None
    if t.op == "inv":
        y = as_ratio(t.a[0])
        return (1 / y[0], y[2], y[1]) if y and y[0] else None
    if t.op in ("+", "-", "add", "sub", "neg"):
        l = as_lin(t)
        return (1, [l], []) if l is not None else None
    return None


def as_lin(t):
    if t.op == "i2f":
        return t.a[0]
    if t.op == "c":
        return Lin(int(t.a[0])) if t.a[0] == int(t.a[0]) else None
    if t.op in ("+", "-", "add", "sub", "neg"):
        xs = [as_lin(x) for x in t.a]
        if any(x is None for x in xs):
            return None
        if len(xs) == 1:
            return -xs[0]
        return xs[0] + xs[1] if t.op in ("+", "add") else xs[0] - xs[1]
    return None


def trunc_facts(t, q, ctx):
    """bounds of the integer part of A*B/C that follow from linear bounds of the factors"""
    r = as_ratio(t)
    if not r or r[0] != 1 or len(r[1]) != 2 or len(r[2]) != 1:
        return []
    C = r[2][0]
    if not ctx.prove_le(1 - C):
        return []
    out = []
    for A, B in (r[1], r[1][::-1]):
        if ctx.prove_le(1 - A) and ctx.prove_le(C - B):
            out.append(("le", 1 - q))
        if ctx.prove_le(1 - B) and ctx.prove_le(A + 1 - C):
            out.append(("le", q + 1 - B))
    return out


def floor_of(a, ctx):
    """floor of a quotient of integers that is not negative, as an integer"""
    r = as_ratio(a)
    if not r or r[0] < 0 or not all(ctx.prove_le(-x) for x in r[1]) or not all(ctx.prove_le(1 - x) for x in r[2]):
        return None
    n = Norm(ctx).canon(a)
    return Lin(int(n.a[0])) if n.op == "c" else trunc_sym(n)


def _div_rebuild(key, p):
    a, k = p
    if a.is_const():
        return Lin(a.c // k)
    if all(c % k == 0 for _, c in a.d) and a.c % k == 0:
        return Lin(a.c // k, tuple((s, c // k) for s, c in a.d))
    return div_sym(a, k)


def _trunc_rebuild(key, p):
    n = Norm(Ctx()).canon(p[0])
    if n.op == "c":
        return Lin(int(n.a[0]))
    return trunc_sym(n)


REBUILD["div"] = _div_rebuild
REBUILD["trunc"] = _trunc_rebuild


class Frame:
    n = 0

    def __init__(self, key, fn):
        Frame.n += 1
        self.id = Frame.n
        self.key, self.fn = key, fn


class Panic:
    def __init__(self, st, msg, site, kind):
        self.st, self.msg, self.site, self.kind = st, msg, site, kind

    def __repr__(self):
        return f"panic[{self.kind}] {self.msg} at {self.site}"


class Interp:
    def __init__(self, prog, boundary=None):
        self.p = prog
        self.panics = []
        self.boundary = dict(boundary or {})      # fn key -> callable(interp, st, args, frame) -> [(st, val)]
        self.stack = []
        self.notes = []
        self.stats = {"calls": 0, "loops": 0, "asserts": 0, "paths": 0, "models": set(), "fns": set(), "unk": []}
        self.ncell = 0
        self.consts, self.constmem = {}, {}
        self.depth = 0
        self.budget = 400000
        self.count_hook = None
        self.unroll = 0           # follow every loop through for this many rounds (sizes are constants)
        self.hints = []           # candidate loop invariants of vectors: (vector at entry, context) -> (iterations -> vector) or None

    # memory -----------------------------------------------------------------------------------
    def cell(self, st, v):
        self.ncell += 1
        c = ("h", self.ncell)
        st.mem[c] = v
        return Ref(c)

    def unk(self, why):
        self.stats["unk"].append(why)
        return Unk(why)

    def walk(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if isinstance(v, Unk):
            return v
        if k == "f":
            if isinstance(v, Ref):
                return v                      # a box and the pointers inside it
            if isinstance(v, Agg):
                return v.fs[e[1]] if e[1] < len(v.fs) and v.fs[e[1]] is not None else self.unk("uninit field")
            return self.unk(f"field {e[1]} of {v!r:.80}")
        if k == "idx":
            if isinstance(v, VVec):
                return self.vget(st.ctx, v, e[1])
            if isinstance(v, Agg) and e[1].is_const() and 0 <= e[1].c < len(v.fs):
                return v.fs[e[1].c]
            if isinstance(v, Arr):
                return v.el(e[1])
            return self.unk("index of " + repr(v)[:60])
        if k == "el":
            if isinstance(v, Arr):
                return v.el(e[1], e[2])
            return self.unk("element of " + repr(v)[:60])
        return self.unk("proj " + k)

    def vget(self, ctx, v, i):
        for k, x in reversed(v.upd):
            if ctx.prove_eq(i - k):
                return x
            if not ctx.prove_ne(i - k):
                return self.unk(f"ambiguous index {i} against update {k}")
        for a, b, fn in v.segs:
            if ctx.prove_le(a - i) and ctx.prove_le(i + 1 - b):
                return fn(i)
        return self.unk(f"ambiguous index {i} in {[(a, b) for a, b, _ in v.segs]}")

    def vcases(self, ctx, v, i):
        """literals that make vget decidable: list of literal conjunctions (partition)"""
        out = [[]]
        for k, x in reversed(v.upd):
            if ctx.prove_ne(i - k):
                continue
            if ctx.prove_eq(i - k):
                return out
            return [[("eq", i - k)]] + [[("ne", i - k)]]
        for a, b, fn in v.segs:
            if ctx.prove_le(a - i) and ctx.prove_le(i + 1 - b):
                return [[]]
        out = []
        for a, b, fn in v.segs:
            out.append([("le", a - i), ("le", i + 1 - b)])
        return out

    def load(self, st, ref):
        if isinstance(ref, MView):
            return self.view_val(st, ref)
        if not isinstance(ref, Ref):
            return self.unk("load through " + repr(ref)[:60])
        if ref.cell not in st.mem:
            if ref.cell in self.constmem:
                return self.walk(st, self.constmem[ref.cell], ref.path)
            return self.unk(f"uninit {ref.cell}")
        return self.walk(st, st.mem[ref.cell], ref.path)

    def view_val(self, st, w):
        b = self.load(st, w.ref)
        if not isinstance(b, Arr):
            return self.unk("view of " + repr(b)[:60])
        return Arr(w.nr, w.nc, lambda i, j: b.el(i + w.i0, j + w.j0), w.vec)

    def store(self, st, ref, val):
        """in-place on st.mem (st must be owned by the caller)"""
        if not isinstance(ref, Ref):
            raise Unsupported("store through " + repr(ref)[:60])
        if not ref.path:
            st.mem[ref.cell] = val
            return
        st.mem[ref.cell] = self.upd(st, st.mem.get(ref.cell), ref.path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = e[0]
        if isinstance(v, Unk):
            if v.why != "uninit":
                return v
            v = None
        if k == "f":
            if v is None:
                v = Agg("?", ())
            if not isinstance(v, Agg):
                return self.unk("field store into " + repr(v)[:60])
            old = v.fs[e[1]] if e[1] < len(v.fs) else None
            return v.with_field(e[1], self.upd(st, old, rest, val))
        if k == "idx":
            if isinstance(v, VVec):
                old = self.vget(st.ctx, v, e[1]) if rest else None
                new = self.upd(st, old, rest, val)
                u = tuple((i, x) for i, x in v.upd if not st.ctx.prove_eq(i - e[1]))
                return VVec(v.len, v.segs, u + ((e[1], new),))
            if isinstance(v, Agg) and e[1].is_const():
                return v.with_field(e[1].c, self.upd(st, v.fs[e[1].c], rest, val))
            if isinstance(v, Arr):
                k, e = "el", ("el", e[1], Lin(0))
        if k == "el" and isinstance(v, Arr) and not rest:
            i0, j0 = e[1], e[2]
            if not isinstance(val, T):
                val = unk("stored " + repr(val)[:40])

            def f(i, j):
                l = [("eq", i - i0)] + ([] if v.vec else [("eq", j - j0)])
                return ite(l, val, v.el(i, j))
            return Arr(v.nr, v.nc, f, v.vec)
        return self.unk("store " + k + " into " + repr(v)[:60])

    # places & operands ------------------------------------------------------------------------
    def place(self, st, fr, p):
        ref = Ref((fr.id, p["l"]))
        for e in p["p"]:
            if e == "*":
                v = self.load(st, ref)
                if isinstance(v, Ref):
                    ref = v
                elif isinstance(v, MView):
                    ref = v
                elif isinstance(v, Agg) and v.name == "box":
                    ref = Ref(ref.cell, ref.path + (("f", 0),))
                elif isinstance(v, Unk):
                    ref = self.cell(st, v)
                else:
                    # reference to an immediate
                    ref = self.cell(st, v)
            elif "f" in e:
                ref = Ref(ref.cell, ref.path + (("f", e["f"]),))
            elif "d" in e:
                pass
            elif "i" in e:
                k = st.mem.get((fr.id, e["i"]))
                ref = Ref(ref.ref.cell, ref.ref.path + (("el", k + ref.i0, ref.j0),)) if isinstance(ref, MView) and ref.vec else Ref(ref.cell, ref.path + (("idx", k),))
            elif "ci" in e:
                c = e["ci"]
                c = Lin(c if isinstance(c, int) else c[0])
                ref = Ref(ref.ref.cell, ref.ref.path + (("el", c + ref.i0, ref.j0),)) if isinstance(ref, MView) and ref.vec else Ref(ref.cell, ref.path + (("idx", c),))
            else:
                raise Unsupported("projection " + json.dumps(e))
        return ref

    def const(self, o):
        return self.const_val(o["ty"], o["v"])

    def const_val(self, tyid, v):
        t = self.p.ty(tyid)
        k = t["k"]
        if isinstance(v, dict):
            if "bytes" in v and k in ("bool", "int", "uint", "float"):
                b = bytes(x or 0 for x in v["bytes"])
                if k == "bool":
                    return bool(b[0])
                if k == "uint":
                    return Lin(int.from_bytes(b, "little"))
                if k == "int":
                    return Lin(int.from_bytes(b, "little", signed=True))
                return const(struct.unpack("<d" if len(b) == 8 else "<f", b)[0])
            if "usize" in v:
                return Lin(int(v["usize"]))
            if "str" in v:
                return Agg("str", (v["str"],))
            if "ref" in v:
                key = json.dumps(v["ref"], sort_keys=True)
                if key not in self.consts:
                    c = ("c", len(self.consts))
                    self.consts[key] = c
                    self.constmem[c] = self.const_val(v["ref"]["ty"], v["ref"]["v"])
                return Ref(self.consts[key])
            if "fields" in v:
                fs = [self.const_val(f["ty"], f["v"]) for f in v["fields"]]
                if k == "tuple":
                    return tup(*fs)
                if k in ("array", "slice"):
                    return Agg("[]", fs)
                n = t["name"]
                for s in ("Option", "Result"):
                    if n.endswith("::" + s):
                        n = s
                return Agg(n, fs, v["variant"], tyid)
        if k in ("fn", "closure"):
            return FnV(tyid)
        if k == "tuple" and v == "zst":
            return UNIT
        if k == "adt" and v == "zst":
            return Agg(t["name"], (), 0)
        return Unk("const " + t["s"][:60])

    def operand(self, st, fr, o):
        if o["o"] == "const":
            return self.const(o)
        ref = self.place(st, fr, o["p"])
        v = self.load(st, ref)
        return v

    # conditions -------------------------------------------------------------------------------
    def resolve(self, st, t):
        """partition the state so that t is free of undecided guards: [(st, term)]"""
        out = []
        todo = [(st, t)]
        while todo:
            s, x = todo.pop()
            x = simp(s.ctx, x)
            g = first_guard(x)
            if g is None:
                out.append((s, x))
                continue
            for l in (g, lit_neg(g)):
                s2 = s.assume(l)
                if s2 is not None:
                    todo.append((s2, x))
            if len(out) + len(todo) > 64:
                raise Unsupported("guard explosion")
        return out

    def split(self, st, f):
        """[(st', bool)] for a boolean value"""
        if f is True or f is False:
            return [(st, f)]
        if isinstance(f, Unk) or not (isinstance(f, tuple)):
            a, b = st.fork(), st.fork()
            key = ("taint", id(f))
            a = a.assume(("b", key, True))
            b = b.assume(("b", key, False))
            return [x for x in ((a, True), (b, False)) if x[0] is not None]
        out = []
        for pol in (True, False):
            for c in dnf(f, pol):
                for s in self.assume_lits(st, c):
                    out.append((s, pol))
        return out

    def assume_lits(self, st, lits):
        """assume literals; float literals are first made guard free (this may partition)"""
        sts = [st]
        for l in lits:
            nx = []
            for s in sts:
                if l[0] == "fr":
                    for s1, a in self.resolve(s, l[1]):
                        for s2, b in self.resolve(s1, l[2]):
                            l2 = ("fr", a, b, l[3])
                            c = lit_const(l2)
                            if c is False:
                                continue
                            s3 = s2 if c else s2.assume(l2)
                            if s3 is not None:
                                nx.append(s3)
                else:
                    s3 = s.assume(l)
                    if s3 is not None:
                        nx.append(s3)
            sts = nx
        return sts

    def site(self):
        return " < ".join(f"{n}" for n in reversed(self.stack[-4:]))

    def require(self, st, lits, msg, kind):
        """state in which all literals hold; the complementary states panic"""
        self.stats["asserts"] += 1
        for l in lits:
            if st.ctx.entails(l):
                continue
            bad = st.assume(lit_neg(l))
            if bad is not None:
                self.panics.append(Panic(bad, msg, self.site(), kind))
            st = st.with_ctx(l)
            if st is None:
                return None
        return st

    # functions --------------------------------------------------------------------------------
    def call_fn(self, key, args, st):
        """inline a local function: [(st, value)]"""
        fn = self.p.fns[key]
        self.stats["calls"] += 1
        self.stats["fns"].add(fn["name"])
        if key in self.boundary and not (self.stack and self.stack[-1] == "@self:" + key):
            r = self.boundary[key](self, st, args)
            if r is not None:
                return r
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        if fn["name"] in self.stack and not (self.unroll and self.stack.count(fn["name"]) < 10):
            raise Unsupported("recursion into " + fn["name"])
        fr = Frame(key, fn)
        st = st.fork()
        if fn.get("spread") and len(args) == 2 and isinstance(args[1], Agg):
            pass
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        self.stack.append(fn["name"])
        try:
            outs = self.run_blocks(fr, 0, st, None, None)
        finally:
            self.stack.pop()
        res = []
        for tag, s, x in outs:
            assert tag == "ret"
            v = s.mem.get((fr.id, 0), UNIT)
            s = s.fork()
            for c in [c for c in s.mem if c[0] == fr.id]:
                del s.mem[c]
            res.append((s, v))
        return res

    def run_blocks(self, fr, b, st, loop, hdr):
        """explore from block b.  loop: set of blocks we are inside of (None: whole function), hdr its header.
        outcomes: ("ret", st, None) | ("back", st, None) | ("exit", st, block)"""
        outs = []
        work = [(b, st, True)]
        loops = self.p.loops(fr.key)
        while work:
            b, st, first = work.pop()
            while True:
                self.budget -= 1
                if self.budget < 0:
                    raise Unsupported("budget exhausted")
                if not first:
                    if loop is not None and b == hdr:
                        outs.append(("back", st, None))
                        break
                    if loop is not None and b not in loop:
                        outs.append(("exit", st, b))
                        break
                if b in loops and not (first and b == hdr):
                    L = loops[b]

                    def body(s, b=b, L=L):
                        return self.run_blocks(fr, b, s, L, b)
                    ex = self.do_loop(body, st, f"{fr.fn['name']}")
                    for tag, s, x in ex:
                        if tag == "ret":
                            outs.append((tag, s, x))
                        else:
                            work.append((x, s, False))
                    break
                first = False
                nxt = self.block(fr, b, st, outs)
                if not nxt:
                    break
                for nb, s in nxt[1:]:
                    work.append((nb, s, False))
                b, st = nxt[0]
        self.stats["paths"] += len(outs)
        return outs

    def block(self, fr, b, st, outs, i0=0):
        blk = fr.fn["blocks"][b]
        st = st.fork()
        for i, s in enumerate(blk["s"]):
            if i < i0:
                continue
            k = s["s"]
            if k == "=":
                try:
                    v = self.rvalue(st, fr, s["r"])
                except NeedCase as e:
                    res = []
                    for l in e.lits:
                        x = st.assume(l)
                        if x is not None:
                            res += self.block(fr, b, x, outs, i)
                    return res
                except NeedBool as e:
                    res = []
                    for x, v in self.split(st, e.f):
                        x = x.fork()
                        ref = self.place(x, fr, s["p"])
                        if isinstance(ref, MView):
                            raise Unsupported("assign to view")
                        self.store(x, ref, Lin(int(v)))
                        res += self.block(fr, b, x, outs, i + 1)
                    return res
                except Unsupported as e:
                    v = self.unk(str(e))
                ref = self.place(st, fr, s["p"])
                if isinstance(ref, MView):
                    raise Unsupported("assign to view")
                self.store(st, ref, v)
            elif k == "dead":
                st.mem.pop((fr.id, s["l"]), None)
            elif k == "setd":
                ref = self.place(st, fr, s["p"])
                v = self.load(st, ref)
                if isinstance(v, Agg):
                    self.store(st, ref, Agg(v.name, v.fs, s["v"], v.ty))
        t = blk["t"]
        k = t["t"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "drop":
            return [(t["to"], st)]
        if k == "ret":
            outs.append(("ret", st, None))
            return []
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            m = t["msg"]["m"]
            if m == "other":
                return [(t["to"], st)]
            self.stats["asserts"] += 1
            res = []
            for s, v in self.split(st, c):
                if v == t["e"]:
                    s2 = St(s.ctx, s.mem, st.path)
                    res.append((t["to"], s2))
                else:
                    self.panics.append(Panic(s, m, self.site(), m))
            return res
        if k == "call":
            f = t["f"]
            args = [self.operand(st, fr, a) for a in t["a"]]
            if f["o"] == "const":
                fv = self.const(f)
            else:
                fv = self.operand(st, fr, f)
            res = self.call_value(fv, args, st)
            out = []
            for s, v in res:
                if t.get("to") is None:
                    continue
                s = s.fork()
                ref = self.place(s, fr, t["d"])
                self.store(s, ref, v)
                out.append((t["to"], s))
            return out
        raise Unsupported("terminator " + k)

    def switch(self, fr, st, t):
        d = self.operand(st, fr, t["d"])
        br, els = t["br"], t.get("else")
        if d is True or d is False or isinstance(d, tuple):
            zero = [x for v, x in br if int(v) == 0]
            one = [x for v, x in br if int(v) == 1]
            res = []
            for s, v in self.split(st, d):
                tgt = (one[0] if one else els) if v else (zero[0] if zero else els)
                res.append((tgt, s))
            return res
        if isinstance(d, Lin):
            res = []
            cur = st
            for v, x in br:
                v = int(v)
                if v >= 1 << 63:
                    v -= 1 << 64
                l = ("eq", d - v)
                c = lit_const(l)
                if c is True:
                    res.append((x, cur))
                    return res
                if c is False:
                    continue
                s = cur.assume(l)
                if s is not None:
                    res.append((x, s))
                cur = cur.assume(("ne", d - v))
                if cur is None:
                    return res
            if els is not None:
                res.append((els, cur))
            return res
        if isinstance(d, OrdV):
            res, seen = [], 0
            for v, x in br:
                v = int(v)
                m = {0: EQ, 1: GT}.get(v, LT)
                seen |= m
                res += [(x, s) for s in self.assume_lits(st, [("fr", d.a, d.b, m)])]
            rest = (LT | EQ | GT) & ~seen
            if els is not None and rest:
                res += [(els, s) for s in self.assume_lits(st, [("fr", d.a, d.b, rest)])]
            return res
        # unknown discriminant: every branch, tainted
        res = []
        tg = [x for _, x in br] + ([els] if els is not None else [])
        for n, x in enumerate(tg):
            if fr.fn["blocks"][x]["t"]["t"] == "unreachable":
                continue
            s = st.assume(("b", ("taint", id(d), n), True))
            if s is not None:
                res.append((x, s))
        return res

    # rvalues ----------------------------------------------------------------------------------
    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["a"])
        if k in ("ref", "addr"):
            ref = self.place(st, fr, r["p"])
            return ref
        if k == "bin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            if isinstance(a, Lin) and isinstance(b, Lin) and r["op"] in ("Div", "Rem", "BitAnd", "Shr") and b.is_const() and \
                    b.c > 0 and not st.ctx.prove_le(-a) and self.op_signed(fr, r["a"]):
                if not st.ctx.prove_le(a + 1):
                    raise NeedCase(("le", -a), ("le", a + 1))
                if r["op"] in ("Div", "Rem"):      # rounds towards zero
                    q, m = self.idiv(st, -a, b)
                    return -q if r["op"] == "Div" else -m
                return self.unk("int " + r["op"] + " of a negative number")
            v = self.binop(st, r["op"], a, b)
            if isinstance(v, T) and self.op_type(fr, r["a"]).get("n") == "F32":
                v = single(v, st.ctx)
            return v
        if k == "cbin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            if not isinstance(a, Lin) or not isinstance(b, Lin):
                return tup(self.unk("checked op on " + repr(a)[:40]), self.unk("ovf"))
            op = r["op"]
            signed = self.op_signed(fr, r["a"])
            if op == "Add":
                v, o = a + b, False
            elif op == "Sub":
                v = a - b
                o = False if signed else f_lit(("le", v + 1))
            elif op == "Mul":
                v, o = a * b, False
            else:
                return tup(self.unk("checked " + op), False)
            return tup(v, o)
        if k == "un":
            a = self.operand(st, fr, r["a"])
            op = r["op"]
            if op == "Not":
                if isinstance(a, (bool, tuple)):
                    return f_not(a)
            if op == "Neg":
                if isinstance(a, T):
                    return neg(a)
                if isinstance(a, Lin):
                    return -a
            if op == "PtrMetadata":
                v = self.load(st, a) if isinstance(a, (Ref, MView)) else a
                if isinstance(v, VVec):
                    return v.len
                if isinstance(v, Agg) and v.name == "[]":
                    return Lin(len(v.fs))
                if isinstance(v, Arr) and v.vec:
                    return Lin.of(v.nr)
            return self.unk("unary " + op)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "discr":
            v = self.load(st, self.place(st, fr, r["p"]))
            if isinstance(v, Agg):
                return Lin(self.discr(v))
            if isinstance(v, OrdV):
                return v
            return self.unk("discriminant of " + repr(v)[:60])
        if k == "agg":
            return self.agg(st, fr, r)
        if k == "len":
            v = self.load(st, self.place(st, fr, r["p"]))
            if isinstance(v, VVec):
                return v.len
            return self.unk("len")
        if k == "repeat":
            return self.unk("repeat")
        raise Unsupported("rvalue " + k)

    def op_type(self, fr, o):
        """type of an operand, {} if it is not recorded"""
        if o["o"] == "const":
            return self.p.ty(o["ty"])
        p = o["p"]
        if not p["p"]:
            return self.p.ty(fr.fn["locals"][p["l"]])
        e = p["p"][-1]
        if isinstance(e, dict) and "ty" in e:
            return self.p.ty(e["ty"])
        return {}

    def op_signed(self, fr, o):
        return self.op_type(fr, o).get("k") == "int"

    DISCR = {"Option": (0, 1), "Result": (0, 1), "ControlFlow": (0, 1)}

    def discr(self, v):
        n = v.name.split("::")[-1]
        if n in self.DISCR:
            return v.v
        for t in self.p.types.values():
            if t["k"] == "adt" and t["name"] == v.name and t["kind"] == "Enum":
                return int(t["variants"][v.v]["discr"])
        return v.v

    def agg(self, st, fr, r):
        ops = [self.operand(st, fr, o) for o in r["a"]]
        kk = r["k"]
        k = kk["k"]
        if k == "tuple":
            return tup(*ops)
        if k == "adt":
            t = self.p.ty(kk["ty"])
            n = t["name"]
            for s in ("Option", "Result"):
                if n.endswith("::" + s):
                    n = s
            return Agg(n, ops, int(kk["v"]), kk["ty"])
        if k == "closure":
            return Agg("closure", ops, 0, kk["ty"])
        if k == "array":
            return Agg("[]", ops)
        raise Unsupported("aggregate " + str(k))

    CMP = {"Lt": LT, "Le": LT | EQ, "Gt": GT, "Ge": GT | EQ, "Eq": EQ, "Ne": LT | GT | UN}

    def binop(self, st, op, a, b):
        if isinstance(a, (Ref, MView)) and op in self.CMP:
            return self.unk("pointer comparison")
        if op in self.CMP:
            if isinstance(a, Lin) and isinstance(b, Lin):
                d = a - b
                return {"Lt": lambda: f_lit(("le", d + 1)), "Le": lambda: f_lit(("le", d)),
                        "Gt": lambda: f_lit(("le", 1 - d)), "Ge": lambda: f_lit(("le", -d)),
                        "Eq": lambda: f_lit(("eq", d)), "Ne": lambda: f_lit(("ne", d))}[op]()
            if isinstance(a, T) and isinstance(b, T):
                return f_lit(("fr", a, b, self.CMP[op]))
            if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)) and op in ("Eq", "Ne"):
                e = f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
                return e if op == "Eq" else f_not(e)
            return self.unk(f"compare {a!r:.40} {b!r:.40}")
        if isinstance(a, T) and isinstance(b, T):
            f = {"Add": add, "Sub": sub, "Mul": mul, "Div": div}.get(op)
            if f:
                return f(a, b)
            return unk("float " + op)
        if isinstance(a, Lin) and isinstance(b, Lin):
            op = op.replace("Unchecked", "")
            if op in ("Add", "Sub", "Mul"):
                return {"Add": a + b, "Sub": a - b, "Mul": a * b}[op]
            if op in ("Shr",) and b.is_const():
                return self.idiv(st, a, Lin(1 << b.c))[0]
            if op == "Shl" and b.is_const():
                return a * (1 << b.c)
            if op == "BitAnd" and a.is_const() and not b.is_const():
                a, b = b, a
            if op == "BitAnd" and b.is_const() and b.c > 0 and b.c & (b.c + 1) == 0:
                return self.idiv(st, a, Lin(b.c + 1))[1]
            if op in ("Div", "Rem") and b.is_const() and b.c > 0:
                q, m = self.idiv(st, a, b)
                return q if op == "Div" else m
            return self.unk("int " + op)
        if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
            if op == "BitAnd":
                return f_and(a, b)
            if op == "BitOr":
                return f_or(a, b)
            if op == "BitXor":
                return f_or(f_and(a, f_not(b)), f_and(f_not(a), b))
        if isinstance(a, T) or isinstance(b, T):
            return unk(f"binop {op}")
        return self.unk(f"binop {op} {a!r:.40} {b!r:.40}")

    def idiv(self, st, a, b):
        """truncating division of a non-negative integer by a positive constant: quotient symbol with its facts"""
        a = st.ctx.canon(a)
        k = b.c
        if a.is_const():
            return Lin(a.c // k), Lin(a.c % k)
        if all(c % k == 0 for _, c in a.d) and a.c % k == 0:
            return Lin(a.c // k, tuple((s, c // k) for s, c in a.d)), Lin(0)
        q = div_sym(a, k)
        return q, a - q * k

    def cast(self, st, fr, r):
        a = self.operand(st, fr, r["a"])
        t = self.p.ty(r["ty"])
        if isinstance(a, Lin):
            if t["k"] == "float":
                return i2f(a)
            if t["k"] in ("int", "uint"):
                return self.wrapped(st, a, t)
        if isinstance(a, T):
            if t["k"] == "float":
                return single(a, st.ctx) if t["n"] == "F32" else a
            if t["k"] in ("int", "uint"):
                n = Norm(st.ctx).canon(a)
                if n.op == "c":
                    return Lin(int(n.a[0]))
                if t["k"] != "uint":
                    return self.unk("float to signed")
                while a.op == "app" and a.a[0] in ("floor", "trunc"):      # the conversion rounds down itself
                    a = a.a[1]
                n = Norm(st.ctx).canon(a)
                if n.op == "c":
                    return Lin(max(0, int(n.a[0])))
                if n.op == "i2f" and st.ctx.prove_le(-n.a[0]):
                    return n.a[0]
                r = trunc_sym(n)
                facts = trunc_facts(a, r, st.ctx)
                c = st.ctx.assume(*facts) if facts else None
                if c is not None:
                    st.ctx = c
                return r
        if isinstance(a, (bool, tuple)) and t["k"] in ("int", "uint"):
            if a is True or a is False:
                return Lin(int(a))
            raise NeedBool(a)
        return a

    def wrapped(self, st, a, t):
        """conversion between integer types: the value modulo the range of the target.
        Sizes are taken to be below 2^31, so types of at least 32 bits lose at most the sign."""
        bits = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(t["n"].lstrip("IUiu"), 64)
        if t["k"] == "int" and bits >= 32:
            return a
        lo, hi = (0, (1 << bits) - 1) if t["k"] == "uint" else (-(1 << bits - 1), (1 << bits - 1) - 1)
        if not st.ctx.prove_le(lo - a):
            if not st.ctx.prove_le(a - lo + 1):
                raise NeedCase(("le", lo - a), ("le", a - lo + 1))
            if bits >= 32:
                return a + (1 << bits)
        if bits >= 32:
            return a
        if st.ctx.prove_le(lo - a) and not st.ctx.prove_le(a - hi):
            if not st.ctx.prove_le(hi + 1 - a):
                raise NeedCase(("le", a - hi), ("le", hi + 1 - a))
        elif st.ctx.prove_le(lo - a):
            return a
        else:
            return self.unk("narrowing of a negative number")
        return self.idiv(st, a - lo, Lin(1 << bits))[1] + lo

    # calls ------------------------------------------------------------------------------------
    def call_value(self, fv, args, st):
        if isinstance(fv, FnV):
            ty = self.p.ty(fv.ty)
            inst = ty.get("inst")
            if not inst:
                return [(st, self.unk("call " + ty["s"][:80]))]
            return self.call_inst(inst, args, st)
        if isinstance(fv, Agg) and fv.name == "closure":
            return self.call_closure(fv, args, st)
        return [(st, self.unk("indirect call"))]

    def call_closure(self, clo, args, st):
        """args: argument tuple already spread"""
        if isinstance(clo, Ref):
            tgt = self.load(st, clo)
            if isinstance(tgt, Agg) and tgt.name == "box":
                return self.call_closure(tgt.fs[0], args, st)
            if isinstance(tgt, FnV):
                return self.call_value(tgt, args, st)
            clo_v, env = tgt, clo
        else:
            clo_v, env = clo, None
        if isinstance(clo_v, FnV):
            ty = self.p.ty(clo_v.ty)
            if ty["k"] == "closure":
                key = ty["inst"]["key"]
                st = st.fork()
                envv = self.cell(st, Agg("closure", (), 0, clo_v.ty))
                return self.call_body_closure(key, envv, args, st)
            return self.call_value(clo_v, args, st)
        if not isinstance(clo_v, Agg) or clo_v.name != "closure":
            return [(st, self.unk("closure " + repr(clo_v)[:40]))]
        ty = self.p.ty(clo_v.ty)
        key = ty["inst"]["key"]
        st = st.fork()
        if env is None:
            env = self.cell(st, clo_v)
        return self.call_body_closure(key, env, args, st)

    def call_body_closure(self, key, env, args, st):
        if key not in self.p.fns:
            return [(st, self.unk("closure body " + key[:60]))]
        fn = self.p.fns[key]
        # does the body take the environment by reference?
        envty = self.p.ty(fn["locals"][1])
        e = env if envty["k"] in ("ref", "ptr") else self.load(st, env)
        return self.call_fn(key, [e] + list(args), st)

    def call_inst(self, inst, args, st):
        key = inst["key"]
        if inst.get("local") and key in self.p.fns:
            fn = self.p.fns[key]
            if fn.get("spread"):
                pass
            if "{closure" in fn["name"].split("::")[-1] or "{closure#" in fn["name"][-14:]:
                # direct call of a closure through Fn* traits: (env, (args,))
                if len(args) == 2 and isinstance(args[1], Agg) and args[1].name == "()":
                    return self.call_closure(args[0], args[1].fs, st)
            return self.call_fn(key, args, st)
        import models
        self.stats["models"].add(inst.get("trimmed") or inst.get("name"))
        return models.call(self, inst, args, st)

    # loops ------------------------------------------------------------------------------------
    def do_loop(self, body, st0, where):
        import loops
        self.stats["loops"] += 1
        # a fixed, small number of rounds is followed through
        n = min((v.count - v.pos).c if (v.count - v.pos).is_const() else 9 for v in iters(st0)) if iters(st0) else 9
        if 1 <= n <= 3 or self.unroll:
            np0, todo, res = len(self.panics), [St(st0.ctx, dict(st0.mem), st0.path)], []
            for _ in range(max(n + 1, self.unroll)):
                nxt = []
                for s in todo:
                    for tag, s2, x in body(s):
                        (nxt if tag == "back" else res).append((tag, s2, x))
                todo = [s2 for _, s2, _ in nxt]
                if not todo:
                    return res
            del self.panics[np0:]
        return loops.analyse(self, body, st0, where)


def iters(st):
    """iterators in memory that still have items"""
    return [v for v in st.mem.values() if isinstance(v, Iter) and not ((v.count - v.pos).is_const() and (v.count - v.pos).c <= 0)]


# ------------------------------------------------------------------------------------------------ guards
def simp(ctx, t, depth=0):
    """remove decided guards"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            keep = []
            r = None
            for l in x.a[0]:
                l = go(l) if l[0] == "fr" else l
                if ctx.entails(l):
                    continue
                if ctx.refutes(l):
                    r = go(x.a[2])
                    break
                keep.append(l)
            if r is None:
                r = ite(keep, go(x.a[1]), go(x.a[2])) if keep else go(x.a[1])
        elif x.op in ("sum", "lam", "F", "S"):
            r = x
        elif x.a and any(isinstance(y, (T, tuple)) for y in x.a):
            r = rebuild(x.op, [go(y) for y in x.a])
        else:
            r = x
        memo[x] = r
        return r
    return go(t)


def first_guard(t):
    """an undecided guard of t outside of binders"""
    seen = set()

    def go(x):
        if not isinstance(x, T) or x in seen:
            return None
        seen.add(x)
        if x.op == "ite":
            for l in x.a[0]:
                for y in l[1:]:
                    g = go(y)
                    if g is not None:
                        return g
            return x.a[0][0]
        if x.op in ("sum", "lam", "F", "S"):
            return None
        for y in x.a:
            g = go(y)
            if g is not None:
                return g
        return None
    return go(t)
