"""Transfer functions of library calls (std, nalgebra).  Dispatch is by method name and by the abstract values of the
arguments, so that the same operation is understood in whatever syntactic form it is written."""
import re
from values import *
import loops
from fractions import Fraction


class Miss(Exception):
    pass


_meth = {}


def method(trimmed):
    """last path component at bracket depth zero, turbofish dropped"""
    r = _meth.get(trimmed)
    if r is not None:
        return r
    parts, cur, d, i = [], "", 0, 0
    s = trimmed
    while i < len(s):
        c = s[i]
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        if d == 0 and s.startswith("::", i):
            parts.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    parts.append(cur)
    parts = [p for p in parts if p and not p.startswith("<") and not p.startswith("{")]
    r = parts[-1] if parts else trimmed
    _meth[trimmed] = r
    return r


# ---------------------------------------------------------------------------------- helpers
def follow(I, st, v):
    """strip references down to a reference to a non-reference (or a view / an immediate)"""
    while isinstance(v, Ref):
        x = I.load(st, v)
        if isinstance(x, (Ref, MView)):
            v = x
        elif isinstance(x, Agg) and x.name == "box":
            v = Ref(v.cell, v.path + (("f", 0),))
        else:
            return v
    return v


def val(I, st, v):
    v = follow(I, st, v)
    if isinstance(v, (Ref, MView)):
        return I.load(st, v)
    return v


def need(x, *tys):
    if not isinstance(x, tys):
        raise Miss(f"{type(x).__name__}")
    return x


def arr(I, st, v):
    return need(val(I, st, v), Arr)


def lin(I, st, v):
    return need(val(I, st, v), Lin)


def flt(I, st, v):
    return need(val(I, st, v), T)


def panic(I, st, msg, kind="panic"):
    import interp
    I.panics.append(interp.Panic(st, msg, I.site(), kind))
    return []


def snap(a, nr, nc, fn, vec=False):
    return Arr(nr, nc, fn, vec)


def matlike(a, fn):
    return Arr(a.nr, a.nc, fn, a.vec)


def store_mat(I, st, tgt, new):
    """write a whole matrix through a reference or a mutable view; st is owned"""
    if isinstance(tgt, MView):
        w = tgt
        b = I.load(st, w.ref)
        if not isinstance(b, Arr):
            I.store(st, w.ref, I.unk("store through view"))
            return
        c = st.ctx

        def dim(i, i0, n, full):
            if c.prove_eq(i0) and c.prove_eq(n - full):
                return []
            if c.prove_eq(n - 1):
                return [("eq", i - i0)]
            return [("le", i0 - i), ("le", i - i0 - n + 1)]

        def f(i, j):
            g = dim(i, w.i0, w.nr, b.nr) + ([] if b.vec else dim(j, w.j0, w.nc, b.nc))
            return ite(g, new.el(i - w.i0, j - w.j0), b.el(i, j))
        I.store(st, w.ref, Arr(b.nr, b.nc, f, b.vec))
        return
    if isinstance(tgt, Ref):
        I.store(st, tgt, new)
        return
    raise Miss("store target")


def sel_ref(I, st, tgt, i, j=Lin(0)):
    """reference to an element of the matrix behind tgt"""
    if isinstance(tgt, MView):
        return Ref(tgt.ref.cell, tgt.ref.path + (("el", i + tgt.i0, j + tgt.j0),))
    if isinstance(tgt, Ref):
        return Ref(tgt.cell, tgt.path + (("el", i, j),))
    raise Miss("element of immediate")


def asref(I, st, v):
    """(state, reference to the non-reference value behind v)"""
    t = follow(I, st, v)
    if isinstance(t, (Ref, MView)):
        return st, t
    st = st.fork()
    return st, I.cell(st, t)


def req(I, st, lits, msg, kind):
    return I.require(st, lits, msg, kind)


def one(st, v):
    return [] if st is None else [(st, v)]


def is_row(inst):
    return "Matrix<f64, Const<1>, Dyn" in inst["trimmed"] or "Matrix::<f64, Const<1>, Dyn" in inst["trimmed"]


def split2(I, st, lit):
    """[(state, truth)]"""
    out = []
    for l, v in ((lit, True), (lit_neg(lit), False)):
        out += [(s, v) for s in I.assume_lits(st, [l])]
    return out


def cases_min(I, st, a, b):
    """states with min(a, b) decided: [(st, min)]"""
    if st.ctx.prove_le(a - b):
        return [(st, a)]
    if st.ctx.prove_le(b - a):
        return [(st, b)]
    out = []
    s = st.assume(("le", a - b))
    if s is not None:
        out.append((s, a))
    s = st.assume(("le", b + 1 - a))
    if s is not None:
        out.append((s, b))
    return out


def gated(I, st, states, conv=lambda v: v):
    """one term for the values of several result states of a pure evaluation started in st"""
    base = st.path
    if not states:
        return unk("diverges")
    ts = [(St(s.ctx, s.mem, tuple(l for l in s.path if l not in base)), v) for s, v in states]
    return loops.combine(ts, conv)


def elementwise(I, st, nr, nc, vec, call):
    """matrix whose element (i, j) is the value of call(state, i, j); evaluated once at generic indices"""
    a, b = fresh("ea"), fresh("eb")
    A, B = Lin.of(a), (Lin(0) if vec else Lin.of(b))
    s = st.with_ctx(("le", -A), ("le", A + 1 - nr), *([] if vec else [("le", -B), ("le", B + 1 - nc)]))
    if s is None:
        return Arr(nr, nc, lambda i, j: ZERO, vec)
    res = call(s, A, B)
    for s2, v in res:
        for c, x in st.mem.items():
            if s2.mem.get(c) is not x:
                raise Miss("element closure with effects")
        if not isinstance(v, T):
            raise Miss("element closure value")
    t = gated(I, s, res)
    return Arr(nr, nc, lambda i, j: subst(t, {a: i} if vec else {a: i, b: j}), vec)


def vv_el(v):
    """element function of a vector of reals"""
    def f(k):
        r = None
        for a, b, g in reversed(v.segs):
            x = g(k)
            if not isinstance(x, T):
                raise Miss("vector of non reals")
            r = x if r is None else ite([("le", a - k), ("le", k + 1 - b)], x, r)
        if r is None:
            r = ZERO
        for i, x in v.upd:
            r = ite([("eq", k - i)], x, r)
        return r
    return f


def vec_of(I, x):
    """vector value as an array of reals"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, VVec):
        f = vv_el(x)
        return avec(x.len, f)
    if isinstance(x, Agg) and x.name == "[]":
        def f(k):
            r = ZERO
            for n, e in reversed(list(enumerate(x.fs))):
                r = ite([("eq", k - n)], need(e, T), r) if n < len(x.fs) - 1 else need(e, T)
            return r
        return avec(Lin(len(x.fs)), f)
    raise Miss("not a vector")


def closure_call(I, st, f, args):
    return I.call_closure(f, list(args), st)


# ---------------------------------------------------------------------------------- iterators
def range_iter(v):
    if isinstance(v, Iter) or isinstance(v, PredIter):
        return v
    if isinstance(v, Agg):
        n = v.name.split("::")[-1].split("<")[0]
        if n == "Range":
            lo, hi = need(v.fs[0], Lin), need(v.fs[1], Lin)
            return Iter(0, hi - lo, lambda I, st, k: [(st, lo + k)], "range")
        if n == "RangeInclusive":
            lo, hi = need(v.fs[0], Lin), need(v.fs[1], Lin)
            return Iter(0, hi - lo + 1, lambda I, st, k: [(st, lo + k)], "range")
    return None


def ref_iter(I, st, tgt, mut=False):
    """iterator over references to the elements behind tgt"""
    x = I.load(st, tgt)
    if isinstance(x, Arr):
        if x.vec or st.ctx.prove_eq(x.nc - 1):
            return Iter(0, x.nr, lambda I, st, k: [(st, sel_ref(I, st, tgt, k))], "el")
        if st.ctx.prove_eq(x.nr - 1):
            return Iter(0, x.nc, lambda I, st, k: [(st, sel_ref(I, st, tgt, Lin(0), k))], "el")
        raise Miss("iteration over a matrix")
    if isinstance(x, VVec):
        def item(I, st, k):
            out = []
            cur = I.load(st, tgt)
            if not isinstance(cur, VVec):
                return [(st, I.unk("iterated vector changed"))]
            for lits in I.vcases(st.ctx, cur, k):
                s = st.assume(*lits) if lits else st
                if s is not None:
                    out.append((s, Ref(tgt.cell, tgt.path + (("idx", k),))))
            return out
        return Iter(0, x.len, item, "vec")
    if isinstance(x, Agg) and x.name == "[]":
        def item(I, st, k):
            if k.is_const():
                return [(st, Ref(tgt.cell, tgt.path + (("idx", k),)))]
            out = []
            for n in range(len(x.fs)):
                s = st.assume(("eq", k - n))
                if s is not None:
                    out.append((s, Ref(tgt.cell, tgt.path + (("idx", Lin(n)),))))
            return out
        return Iter(0, Lin(len(x.fs)), item, "arr")
    raise Miss("iterate " + repr(x)[:40])


def val_iter(I, st, x):
    """iterator by value"""
    if isinstance(x, Arr) and (x.vec or st.ctx.prove_eq(x.nc - 1)):
        return Iter(0, x.nr, lambda I, st, k: [(st, x.el(k))], "val")
    if isinstance(x, VVec):
        def item(I, st, k):
            out = []
            for lits in I.vcases(st.ctx, x, k):
                s = st.assume(*lits) if lits else st
                if s is not None:
                    out.append((s, I.vget(s.ctx, x, k)))
            return out
        return Iter(0, x.len, item, "val")
    if isinstance(x, Agg) and x.name == "[]":
        st, r = asref(I, st, x)
        it = ref_iter(I, st, r)
        return Iter(it.pos, it.count, lambda I, st, k: [(s, I.load(s, v)) for s, v in it.fn(I, st, k)], "val")
    raise Miss("iterate value " + repr(x)[:40])


def iter_of(I, st, v):
    """iterator value of an argument (by value or behind a reference), with the place to write it back to"""
    r = None
    while isinstance(v, Ref):
        x = I.load(st, v)
        r = v
        v = x
    it = range_iter(v)
    if it is None:
        raise Miss("iterator " + repr(v)[:60])
    return it, r


def iter_next(I, st, it):
    """[(st, item or None, advanced iterator)]"""
    if isinstance(it, PredIter):
        raise Miss("next on a predicate iterator")
    out = []
    l = ("le", it.pos + 1 - it.count)
    s = st.assume(l)
    if s is not None:
        for s2, x in it.fn(I, s, it.pos):
            out.append((s2, x, Iter(it.pos + 1, it.count, it.fn, it.kind)))
    s = st.assume(lit_neg(l))
    if s is not None:
        out.append((s, None, it))
    return out


def drive(I, st, it, cells, step, where):
    """summarised loop over an iterator.  step(st, refs, item) -> [(st, "back"|"exit", x)]; returns exits
    [(st, x, refs)], x is None at exhaustion"""
    if isinstance(it, PredIter):
        if it.limit is not None:
            raise Miss("taking from a predicate iterator")
        inner, pred, mode = it.it, it.pred, it.mode
    else:
        inner, pred, mode = it, None, None
    st = st.fork()
    itc = I.cell(st, inner)
    refs = [I.cell(st, c) for c in cells]
    pc = I.cell(st, pred) if pred is not None and not isinstance(pred, Ref) else pred

    def body(s):
        outs = []
        cur = I.load(s, itc)
        if not isinstance(cur, Iter):
            raise Miss("iterator lost")
        for s2, x, nit in iter_next(I, s, cur):
            if x is None:
                outs.append(("exit", s2, None))
                continue
            s2 = s2.fork()
            I.store(s2, itc, nit)
            if pred is None:
                todo = [(s2, True)]
            else:
                s3 = s2.fork()
                xr = I.cell(s3, x)
                todo = []
                for s4, b in closure_call(I, s3, pc, [xr]):
                    todo += I.split(s4, b)
            for s3, b in todo:
                if not b:
                    outs.append(("back" if mode == "filter" else "exit", s3, None))
                    continue
                for s4, tag, y in step(s3, refs, x):
                    outs.append((tag, s4, y))
        return outs
    res = []
    for tag, s, x in I.do_loop(body, st, where):
        res.append((s, x, refs))
    return res


def lift_pred(I, st, it, pred):
    """predicate of a filter / take_while at a generic position: (index symbol, formula) or raises Miss"""
    k = fresh("pk")
    K = Lin.of(k)
    s0 = st.with_ctx(("le", it.pos - K), ("le", K + 1 - it.count))
    if s0 is None:
        return k, False
    f = False
    np = len(I.panics)
    for s, x in it.fn(I, s0, K):
        s = s.fork()
        xr = I.cell(s, x)
        for s2, b in closure_call(I, s, pred, [xr]):
            if not isinstance(b, (bool, tuple)):
                raise Miss("predicate")
            g = True
            for l in s2.path:
                if l not in s0.path:
                    g = f_and(g, f_lit(l))
            f = f_or(f, f_and(g, b))
    if len(I.panics) != np:
        raise Miss("predicate may panic")
    return k, f


def count_sym(mode, k, lo, hi, f):
    """number of positions k in [lo, hi) with f (filter) / length of the maximal prefix (take_while)"""
    K = Lin.of(k)
    lo, hi = Lin.of(lo), Lin.of(hi)
    f = f_norm(f_subst(f, {k: Lin.of("κ")}))
    if f is False:
        return Lin(0)
    key = (mode, lo, hi, f)

    def facts(q):
        return [-q, q - (hi - lo)] if not (hi - lo).is_const() or (hi - lo).c >= 0 else [-q]
    return Lin.of(keyed_sym("count", key, mode, lo, hi, f, facts=lambda q: [-q]))


def f_subst(f, m):
    if f is True or f is False:
        return f
    return subst(f, {k: Lin.of(v) for k, v in m.items()})


def f_norm(f):
    """float literals of a formula with canonical operand order"""
    if f is True or f is False or not isinstance(f, tuple):
        return f
    if f[0] == "lit":
        l = f[1]
        if l[0] == "fr":
            n = Norm(Ctx())
            a, b, m = n.canon(l[1]), n.canon(l[2]), l[3]
            if a.id > b.id:
                a, b, m = b, a, flip(m)
            return ("lit", ("fr", a, b, m))
        return f
    if f[0] in ("and", "or"):
        return (f[0], f_norm(f[1]), f_norm(f[2]))
    if f[0] == "not":
        return ("not", f_norm(f[1]))
    return f


REBUILD["count"] = lambda key, p: count_sym(p[0], "κ", p[1], p[2], p[3])


# ---------------------------------------------------------------------------------- registry
H = {}


def model(*names):
    def d(f):
        for n in names:
            H.setdefault(n, []).append(f)
        return f
    return d


def call(I, inst, args, st):
    t = inst.get("trimmed") or inst.get("name") or ""
    m = method(t)
    if m.startswith(("panic", "unwrap_failed", "expect_failed", "assert_failed", "slice_index_fail", "unreachable_display")):
        return panic(I, st, t[:60])
    why = "no model"
    np = len(I.panics)
    for h in H.get(m, ()):
        try:
            return h(I, inst, args, st)
        except Miss as e:
            del I.panics[np:]
            why = str(e)
    if any(x in t for x in ("Formatter", "Arguments", "Argument:", "AsDisplay", "AsDynError", "as_display", "fmt::")):
        return [(st, Unk("fmt"))]
    I.notes.append(f"unmodelled call {t[:140]} ({why})")
    st = st.fork()
    for a in args:
        a = follow(I, st, a)
        if isinstance(a, MView):
            a = a.ref
        if isinstance(a, Ref) and a.cell in st.mem:
            # arguments behind shared references cannot change; mutability is not tracked here
            if mutable_arg(inst, t):
                I.store(st, a, I.unk("havoc by " + m))
    return [(st, I.unk("call " + t[:100]))]


def mutable_arg(inst, t):
    return True


# ------------------------------------------------------------------------------- identity-like
@model("clone", "to_owned", "clone_owned", "into_owned", "copied", "cloned")
def _clone(I, inst, args, st):
    v = args[0]
    x = val(I, st, v)
    if method(inst["trimmed"]) in ("copied", "cloned"):
        it = range_iter(x)
        if it is not None:
            if isinstance(it, PredIter):
                raise Miss("cloned pred")
            return [(st, Iter(it.pos, it.count,
                              lambda I, st, k: [(s, val(I, s, y)) for s, y in it.fn(I, st, k)], it.kind))]
        if isinstance(x, Agg) and x.name == "Option":
            return [(st, Agg("Option", [val(I, st, f) for f in x.fs], x.v))]
    return [(st, x)]


@model("into", "from")
def _into(I, inst, args, st):
    x = val(I, st, args[0])
    if isinstance(x, Lin) and "f64" in inst["trimmed"].split(" as ")[0] and "From" in inst["trimmed"]:
        return [(st, i2f(x))]
    if isinstance(x, (Arr, T, Lin)):
        return [(st, x)]
    if isinstance(x, (bool, tuple)) and re.search(r"From<bool> for [iu](8|16|32|64|128|size)\b|<[iu](8|16|32|64|128|size) as From<bool>>|<bool as Into<[iu]", inst["trimmed"]):
        return [(s, Lin(int(v))) for s, v in I.split(st, x)]
    raise Miss("into")


@model("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "by_ref", "data")
def _deref(I, inst, args, st):
    x = val(I, st, args[0])
    if isinstance(x, Agg) and x.name == "Option":
        if x.v == 0:
            return [(st, NONE)]
        t = follow(I, st, args[0])
        if isinstance(t, Ref):
            return [(st, some(Ref(t.cell, t.path + (("f", 0),))))]
        return [(st, x)]
    if isinstance(args[0], (Ref, MView)):
        return [(st, follow(I, st, args[0]))]
    return [(st, args[0])]


@model("black_box", "identity", "must_use")
def _id(I, inst, args, st):
    if len(args) == 1:
        return [(st, args[0])]
    raise Miss("identity")


# ------------------------------------------------------------------------------- constructors
def mkzeros(I, inst, args, st, fill):
    a = [need(x, Lin) for x in args]
    if len(a) == 1:
        if is_row(inst):
            return [(st, Arr(Lin(1), a[0], lambda i, j: fill))]
        return [(st, Arr(a[0], 1, lambda i, j: fill, True))]
    return [(st, Arr(a[0], a[1], lambda i, j: fill))]


@model("zeros")
def _zeros(I, inst, args, st):
    return mkzeros(I, inst, args, st, ZERO)


@model("repeat", "from_element")
def _repeat(I, inst, args, st):
    return mkzeros(I, inst, args[:-1], st, flt(I, st, args[-1]))


@model("identity")
def _identity(I, inst, args, st):
    a = [need(x, Lin) for x in args]
    if len(a) == 2:
        return [(st, Arr(a[0], a[1], lambda i, j: ite([("eq", i - j)], ONE, ZERO)))]
    raise Miss("identity")


@model("from_fn")
def _from_fn(I, inst, args, st):
    a = [need(x, Lin) for x in args[:-1]]
    f = args[-1]
    vec = len(a) == 1 and not is_row(inst)
    nr, nc = (a[0], a[1]) if len(a) == 2 else (a[0], Lin(1)) if vec else (Lin(1), a[0])
    return [(st, elementwise(I, st, nr, nc, vec, lambda s, i, j: closure_call(I, s, f, [i, j])))]


@model("from_vec", "from_column_slice", "from_row_slice", "from_slice")
def _from_vec(I, inst, args, st):
    x = vec_of(I, val(I, st, args[-1]))
    if len(args) == 1:
        if is_row(inst):
            return [(st, Arr(Lin(1), x.nr, lambda i, j: x.el(j)))]
        return [(st, avec(x.nr, lambda i: x.el(i)))]
    raise Miss("matrix from slice")


@model("from_diagonal")
def _from_diagonal(I, inst, args, st):
    x = arr(I, st, args[0])
    return [(st, Arr(x.nr, x.nr, lambda i, j: ite([("eq", i - j)], x.el(i), ZERO)))]


# ------------------------------------------------------------------------------- shapes
@model("nrows")
def _nrows(I, inst, args, st):
    return [(st, arr(I, st, args[0]).nr)]


@model("ncols")
def _ncols(I, inst, args, st):
    return [(st, arr(I, st, args[0]).nc)]


@model("shape")
def _shape(I, inst, args, st):
    a = arr(I, st, args[0])
    return [(st, tup(a.nr, a.nc))]


def vlen(I, st, x):
    if isinstance(x, Arr):
        return x.nr if x.vec else x.nr * x.nc
    if isinstance(x, VVec):
        return x.len
    if isinstance(x, Agg) and x.name == "[]":
        return Lin(len(x.fs))
    it = range_iter(x)
    if isinstance(it, Iter):
        return None if not st.ctx.prove_le(it.pos - it.count) else it.count - it.pos
    return None


@model("len")
def _len(I, inst, args, st):
    l = vlen(I, st, val(I, st, args[0]))
    if l is None:
        raise Miss("len")
    return [(st, l)]


@model("is_empty")
def _is_empty(I, inst, args, st):
    x = val(I, st, args[0])
    if isinstance(x, Arr) and not x.vec:
        return [(st, f_or(f_lit(("eq", x.nr)), f_lit(("eq", x.nc))))]
    l = vlen(I, st, x)
    if l is None:
        raise Miss("is_empty")
    return [(st, f_lit(("le", l)))]


# ------------------------------------------------------------------------------- views
def do_view(I, st, base, i0, j0, nr, nc, vec, mut, what):
    """rectangular window of the matrix behind base"""
    t = follow(I, st, base)
    b = I.load(st, t) if isinstance(t, (Ref, MView)) else t
    need(b, Arr)
    i0, j0, nr, nc = map(Lin.of, (i0, j0, nr, nc))
    lits = []
    for lo, n, full in ((i0, nr, b.nr), (j0, nc, b.nc)):
        if n.is_const() and lo == Lin(0) and n == full:
            continue
        lits.append(("le", lo + n - full))
    st = req(I, st, lits, what + " out of bounds", "bounds")
    if st is None:
        return []
    if mut:
        if isinstance(t, MView):
            return [(st, MView(t.ref, t.i0 + i0, t.j0 + j0, nr, nc, vec))]
        if isinstance(t, Ref):
            return [(st, MView(t, i0, j0, nr, nc, vec))]
        raise Miss("mutable view of an immediate")
    return [(st, Arr(nr, nc, lambda i, j: b.el(i + i0, j + j0), vec))]


def dims_of(v):
    v = need(v, Agg)
    out = []
    for x in v.fs:
        if isinstance(x, Lin):
            out.append(x)
        elif isinstance(x, Agg) and x.name.endswith("Dyn"):
            out.append(need(x.fs[0], Lin))
        elif isinstance(x, Agg) and x.name.endswith("Const"):
            out.append(Lin(1))
        elif isinstance(x, Unk):
            raise Miss("dims")
        else:
            raise Miss("dims " + repr(x)[:30])
    return out


@model("generic_view", "generic_view_mut", "generic_slice", "generic_slice_mut", "view", "view_mut", "slice", "slice_mut")
def _view(I, inst, args, st):
    mut = "_mut" in method(inst["trimmed"])
    i0, j0 = dims_of(args[1])
    nr, nc = dims_of(args[2])
    b = arr(I, st, args[0])
    if any(isinstance(x, Agg) and x.name.endswith("Const") for x in args[2].fs):
        if "Const<1>" not in inst["trimmed"]:
            raise Miss("constant dimension")
    vec = b.vec or (isinstance(args[2].fs[1], Agg) and args[2].fs[1].name.endswith("Const"))
    return do_view(I, st, args[0], i0, j0, nr, nc, vec, mut, "view")


@model("column", "column_mut", "index_axis")
def _column(I, inst, args, st):
    b = arr(I, st, args[0])
    j = need(args[1], Lin)
    return do_view(I, st, args[0], 0, j, b.nr, 1, True, "_mut" in method(inst["trimmed"]), "column")


@model("row", "row_mut")
def _row(I, inst, args, st):
    b = arr(I, st, args[0])
    i = need(args[1], Lin)
    return do_view(I, st, args[0], i, 0, 1, b.nc, False, "_mut" in method(inst["trimmed"]), "row")


@model("columns", "columns_mut")
def _columns(I, inst, args, st):
    b = arr(I, st, args[0])
    return do_view(I, st, args[0], 0, need(args[1], Lin), b.nr, need(args[2], Lin), False,
                   "_mut" in method(inst["trimmed"]), "columns")


@model("rows", "rows_mut")
def _rows(I, inst, args, st):
    b = arr(I, st, args[0])
    return do_view(I, st, args[0], need(args[1], Lin), 0, need(args[2], Lin), b.nc, b.vec,
                   "_mut" in method(inst["trimmed"]), "rows")


# ------------------------------------------------------------------------------- indexing
def range_bounds(k, n):
    """first and end of a range index"""
    name = k.name.split("::")[-1].split("<")[0]
    f = [need(x, Lin) for x in k.fs[:2] if not isinstance(x, bool)]
    if name == "Range":
        return f[0], f[1]
    if name == "RangeInclusive":
        return f[0], f[1] + 1
    if name == "RangeFrom":
        return f[0], Lin.of(n)
    if name == "RangeTo":
        return Lin(0), f[0]
    if name == "RangeToInclusive":
        return Lin(0), f[0] + 1
    if name == "RangeFull":
        return Lin(0), Lin.of(n)
    raise Miss("range " + name)


@model("index", "index_mut")
def _index(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = I.load(st, t)
    k = args[1]
    if isinstance(k, Ref):
        k = val(I, st, k)
    if isinstance(x, Arr) and x.vec and isinstance(k, Agg) and "Range" in k.name:
        lo, hi = range_bounds(k, x.nr)
        st = req(I, st, [("le", lo - hi), ("le", hi - x.nr)], "slice index out of range", "bounds")
        return do_view(I, st, args[0], lo, 0, hi - lo, 1, True, method(inst["trimmed"]) == "index_mut", "slice") if st else []
    if isinstance(x, Arr):
        if isinstance(k, Agg) and k.name == "()":
            i, j = need(k.fs[0], Lin), need(k.fs[1], Lin)
            st = req(I, st, [("le", i + 1 - x.nr), ("le", j + 1 - x.nc)], "matrix index out of bounds", "bounds")
            return one(st, sel_ref(I, st, t, i, Lin(0) if x.vec else j) if st else None)
        k = need(k, Lin)
        if x.vec or st.ctx.prove_eq(x.nc - 1):
            st = req(I, st, [("le", k + 1 - x.nr)], "vector index out of bounds", "bounds")
            return one(st, sel_ref(I, st, t, k) if st else None)
        if st.ctx.prove_eq(x.nr - 1):
            st = req(I, st, [("le", k + 1 - x.nc)], "vector index out of bounds", "bounds")
            return one(st, sel_ref(I, st, t, Lin(0), k) if st else None)
        raise Miss("linear index into a matrix")
    if isinstance(x, VVec):
        if isinstance(k, Agg):
            raise Miss("range index")
        return vec_ref(I, st, t, x, need(k, Lin))
    if isinstance(x, Agg) and x.name == "[]" and isinstance(k, Lin):
        st = req(I, st, [("le", k + 1 - len(x.fs))], "index out of bounds", "bounds")
        if st is None:
            return []
        out = []
        for n in range(len(x.fs)):
            s = st.assume(("eq", k - n))
            if s is not None:
                out.append((s, Ref(t.cell, t.path + (("idx", Lin(n)),))))
        return out
    raise Miss("index " + repr(x)[:40])


def vec_ref(I, st, t, x, k):
    st = req(I, st, [("le", k + 1 - x.len)], "Vec index out of bounds", "bounds")
    if st is None:
        return []
    out = []
    for lits in I.vcases(st.ctx, x, k):
        s = st.assume(*lits) if lits else st
        if s is None:
            continue
        if lits and lits[0][0] == "ne":
            for l2 in I.vcases(s.ctx, x, k):
                s2 = s.assume(*l2) if l2 else s
                if s2 is not None:
                    out.append((s2, Ref(t.cell, t.path + (("idx", k),))))
            continue
        out.append((s, Ref(t.cell, t.path + (("idx", k),))))
    return out


@model("get", "get_mut", "first", "last", "first_mut", "last_mut")
def _get(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = I.load(st, t)
    if isinstance(x, Iter):
        if method(inst["trimmed"]) != "last":
            raise Miss("get on an iterator")
        out = []
        for s, b in split2(I, st, ("le", x.pos + 1 - x.count)):
            out += [(s2, some(e)) for s2, e in x.fn(I, s, x.count - 1)] if b else [(s, NONE)]
        return out
    l = vlen(I, st, x)
    if l is None or isinstance(x, Agg) or (isinstance(x, Arr) and not x.vec):
        raise Miss("get")
    m = method(inst["trimmed"])
    k = need(args[1], Lin) if m.startswith("get") else Lin(0) if m.startswith("first") else l - 1
    inside = ("le", k + 1 - l) if not m.startswith("last") else ("le", 1 - l)
    out = []
    for s, b in split2(I, st, inside):
        if not b:
            out.append((s, NONE))
        elif isinstance(x, Arr):
            out.append((s, some(sel_ref(I, s, t, k))))
        else:
            out += [(s2, some(r)) for s2, r in vec_ref(I, s, t, x, k)]
    return out


@model("swap")
def _swap(I, inst, args, st):
    if len(args) == 2:
        a, b = follow(I, st, args[0]), follow(I, st, args[1])
        st = st.fork()
        x, y = I.load(st, a), I.load(st, b)
        I.store(st, a, y)
        I.store(st, b, x)
        return [(st, UNIT)]
    st, t = asref(I, st, args[0])
    x = I.load(st, t)
    i, j = args[1], args[2]
    if isinstance(i, Agg):
        (i, i2), (j, j2) = dims_of(i), dims_of(j)
    else:
        i, j, i2, j2 = need(i, Lin), need(j, Lin), Lin(0), Lin(0)
    need(x, Arr)
    st = req(I, st, [("le", i + 1 - x.nr), ("le", j + 1 - x.nr)] +
             ([] if x.vec else [("le", i2 + 1 - x.nc), ("le", j2 + 1 - x.nc)]), "swap out of bounds", "bounds")
    if st is None:
        return []
    st = st.fork()
    p, q = x.el(i, i2), x.el(j, j2)

    def f(a, b):
        la = [("eq", a - i)] + ([] if x.vec else [("eq", b - i2)])
        lb = [("eq", a - j)] + ([] if x.vec else [("eq", b - j2)])
        return ite(la, q, ite(lb, p, x.el(a, b)))
    store_mat(I, st, t, matlike(x, f))
    return [(st, UNIT)]


@model("swap_rows", "swap_columns")
def _swap_rc(I, inst, args, st):
    rows = method(inst["trimmed"]) == "swap_rows"
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)
    i, j = need(args[1], Lin), need(args[2], Lin)
    n = x.nr if rows else x.nc
    st = req(I, st, [("le", i + 1 - n), ("le", j + 1 - n)], "swap out of bounds", "bounds")
    if st is None:
        return []
    st = st.fork()

    def f(a, b):
        if rows:
            return ite([("eq", a - i)], x.el(j, b), ite([("eq", a - j)], x.el(i, b), x.el(a, b)))
        return ite([("eq", b - i)], x.el(a, j), ite([("eq", b - j)], x.el(a, i), x.el(a, b)))
    store_mat(I, st, t, matlike(x, f))
    return [(st, UNIT)]


@model("reverse")
def _reverse(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = I.load(st, t)
    st = st.fork()
    if isinstance(x, Arr) and x.vec:
        store_mat(I, st, t, matlike(x, lambda i, j: x.el(x.nr - 1 - i)))
        return [(st, UNIT)]
    if isinstance(x, VVec) and not x.upd:
        L = x.len
        segs = [(L - b, L - a, lambda k, g=g: g(L - 1 - k)) for a, b, g in reversed(x.segs)]
        I.store(st, t, VVec(L, segs))
        return [(st, UNIT)]
    raise Miss("reverse")


# ------------------------------------------------------------------------------- matrix updates
def same_dims(I, st, a, b, what):
    lits = []
    if not (a.nr == b.nr):
        lits.append(("eq", a.nr - b.nr))
    if not (a.nc == b.nc):
        lits.append(("eq", a.nc - b.nc))
    return I.require(st, lits, what + ": dimension mismatch", "dims")


@model("copy_from")
def _copy_from(I, inst, args, st):
    st, t = asref(I, st, args[0])
    a, b = need(I.load(st, t), Arr), vec_of(I, val(I, st, args[1]))
    st = same_dims(I, st, a, b, "copy_from")
    if st is None:
        return []
    st = st.fork()
    store_mat(I, st, t, Arr(a.nr, a.nc, b.el, a.vec))
    return [(st, UNIT)]


@model("copy_from_slice", "clone_from_slice")
def _copy_from_slice(I, inst, args, st):
    st, t = asref(I, st, args[0])
    a, b = need(I.load(st, t), Arr), vec_of(I, val(I, st, args[1]))
    if not a.vec:
        raise Miss("slice copy")
    st = I.require(st, [("eq", a.nr - b.nr)], "copy_from_slice: length mismatch", "dims")
    if st is None:
        return []
    st = st.fork()
    store_mat(I, st, t, Arr(a.nr, a.nc, b.el, a.vec))
    return [(st, UNIT)]


@model("set_column", "set_row")
def _set_column(I, inst, args, st):
    col = method(inst["trimmed"]) == "set_column"
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)
    j, v = need(args[1], Lin), vec_of(I, val(I, st, args[2]))
    if col:
        st = I.require(st, [("le", j + 1 - x.nc)], "set_column out of bounds", "bounds")
        st = st and I.require(st, [("eq", x.nr - v.nr)], "set_column: dimension mismatch", "dims")
    else:
        st = I.require(st, [("le", j + 1 - x.nr)], "set_row out of bounds", "bounds")
        st = st and I.require(st, [("eq", x.nc - v.nc)], "set_row: dimension mismatch", "dims")
    if st is None:
        return []
    st = st.fork()
    if col:
        f = lambda a, b: ite([("eq", b - j)], v.el(a, 0), x.el(a, b))
    else:
        f = lambda a, b: ite([("eq", a - j)], v.el(0, b), x.el(a, b))
    store_mat(I, st, t, matlike(x, f))
    return [(st, UNIT)]


@model("fill")
def _fill(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = I.load(st, t)
    v = args[1]
    st = st.fork()
    if isinstance(x, Arr):
        v = flt(I, st, v)
        store_mat(I, st, t, matlike(x, lambda i, j: v))
        return [(st, UNIT)]
    if isinstance(x, VVec):
        I.store(st, t, VVec(x.len, [(Lin(0), x.len, lambda k: v)]))
        return [(st, UNIT)]
    raise Miss("fill")


@model("fill_row", "fill_column")
def _fill_rc(I, inst, args, st):
    row = method(inst["trimmed"]) == "fill_row"
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)
    k, v = need(args[1], Lin), flt(I, st, args[2])
    st = I.require(st, [("le", k + 1 - (x.nr if row else x.nc))], "fill out of bounds", "bounds")
    if st is None:
        return []
    st = st.fork()
    store_mat(I, st, t, matlike(x, lambda a, b: ite([("eq", (a if row else b) - k)], v, x.el(a, b))))
    return [(st, UNIT)]


def mapel(I, inst, args, st, f):
    x = arr(I, st, args[0])
    return [(st, matlike(x, lambda i, j: f(x.el(i, j))))]


def mapel_mut(I, inst, args, st, f):
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)
    st = st.fork()
    store_mat(I, st, t, matlike(x, lambda i, j: f(x.el(i, j))))
    return [(st, UNIT)]


@model("add_scalar")
def _add_scalar(I, inst, args, st):
    s = flt(I, st, args[1])
    return mapel(I, inst, args, st, lambda x: add(x, s))


@model("add_scalar_mut")
def _add_scalar_mut(I, inst, args, st):
    s = flt(I, st, args[1])
    return mapel_mut(I, inst, args, st, lambda x: add(x, s))


@model("scale")
def _scale(I, inst, args, st):
    s = flt(I, st, args[1])
    return mapel(I, inst, args, st, lambda x: mul(x, s))


@model("unscale")
def _unscale(I, inst, args, st):
    s = flt(I, st, args[1])
    return mapel(I, inst, args, st, lambda x: div(x, s))


@model("scale_mut")
def _scale_mut(I, inst, args, st):
    s = flt(I, st, args[1])
    return mapel_mut(I, inst, args, st, lambda x: mul(x, s))


@model("unscale_mut")
def _unscale_mut(I, inst, args, st):
    s = flt(I, st, args[1])
    return mapel_mut(I, inst, args, st, lambda x: div(x, s))


@model("neg_mut")
def _neg_mut(I, inst, args, st):
    return mapel_mut(I, inst, args, st, neg)


@model("map")
def _map_mat(I, inst, args, st):
    x = val(I, st, args[0])
    if not isinstance(x, Arr):
        raise Miss("map")
    return [(st, elementwise(I, st, x.nr, x.nc, x.vec, lambda s, i, j: closure_call(I, s, args[1], [x.el(i, j)])))]


@model("apply")
def _apply(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)

    def call(s, i, j):
        s = s.fork()
        r = I.cell(s, x.el(i, j))
        return [(s2, I.load(s2, r)) for s2, _ in closure_call(I, s, args[1], [r])]
    new = elementwise(I, st, x.nr, x.nc, x.vec, call)
    st = st.fork()
    store_mat(I, st, t, new)
    return [(st, UNIT)]


@model("zip_map")
def _zip_map(I, inst, args, st):
    x, y = arr(I, st, args[0]), arr(I, st, args[1])
    st = same_dims(I, st, x, y, "zip_map")
    if st is None:
        return []
    return [(st, elementwise(I, st, x.nr, x.nc, x.vec,
                             lambda s, i, j: closure_call(I, s, args[2], [x.el(i, j), y.el(i, j)])))]


@model("transpose")
def _transpose(I, inst, args, st):
    x = arr(I, st, args[0])
    return [(st, Arr(x.nc, x.nr, lambda i, j: x.el(j, i)))]


@model("insert_row")
def _insert_row(I, inst, args, st):
    x = arr(I, st, args[0])
    i, v = need(args[1], Lin), flt(I, st, args[2])
    st = I.require(st, [("le", i - x.nr)], "insert_row out of bounds", "bounds")
    if st is None:
        return []
    f = lambda a, b: ite([("le", a + 1 - i)], x.el(a, b), ite([("eq", a - i)], v, x.el(a - 1, b)))
    return [(st, Arr(x.nr + 1, x.nc, f, x.vec))]


@model("insert_column")
def _insert_column(I, inst, args, st):
    x = arr(I, st, args[0])
    i, v = need(args[1], Lin), flt(I, st, args[2])
    st = I.require(st, [("le", i - x.nc)], "insert_column out of bounds", "bounds")
    if st is None:
        return []
    f = lambda a, b: ite([("le", b + 1 - i)], x.el(a, b), ite([("eq", b - i)], v, x.el(a, b - 1)))
    return [(st, Arr(x.nr, x.nc + 1, f))]


@model("remove_row", "remove_column")
def _remove_rc(I, inst, args, st):
    row = method(inst["trimmed"]) == "remove_row"
    x = arr(I, st, args[0])
    i = need(args[1], Lin)
    st = I.require(st, [("le", i + 1 - (x.nr if row else x.nc))], "remove out of bounds", "bounds")
    if st is None:
        return []
    if row:
        return [(st, Arr(x.nr - 1, x.nc, lambda a, b: ite([("le", a + 1 - i)], x.el(a, b), x.el(a + 1, b)), x.vec))]
    return [(st, Arr(x.nr, x.nc - 1, lambda a, b: ite([("le", b + 1 - i)], x.el(a, b), x.el(a, b + 1))))]


@model("resize_vertically")
def _resize_v(I, inst, args, st):
    x = arr(I, st, args[0])
    n, v = need(args[1], Lin), flt(I, st, args[2])
    return [(st, Arr(n, x.nc, lambda a, b: ite([("le", a + 1 - x.nr)], x.el(a, b), v), x.vec))]


@model("resize_horizontally")
def _resize_h(I, inst, args, st):
    x = arr(I, st, args[0])
    n, v = need(args[1], Lin), flt(I, st, args[2])
    return [(st, Arr(x.nr, n, lambda a, b: ite([("le", b + 1 - x.nc)], x.el(a, b), v)))]


# ------------------------------------------------------------------------------- reductions
def lam_of(x):
    return lam(x.nr, x.nc, lambda i, j: x.el(i, Lin(0) if x.vec else j))


def sum_arr(x, f):
    r, c = fresh("r"), fresh("c")
    if x.vec:
        return tsum(r, 0, x.nr - 1, f(Lin.of(r), Lin(0)))
    return tsum(r, 0, x.nr - 1, tsum(c, 0, x.nc - 1, f(Lin.of(r), Lin.of(c))))


@model("norm", "magnitude")
def _norm(I, inst, args, st):
    x = arr(I, st, args[0])
    return [(st, app("sqrt", sum_arr(x, lambda i, j: mul(x.el(i, j), x.el(i, j)))))]


@model("norm_squared", "magnitude_squared")
def _norm2(I, inst, args, st):
    x = arr(I, st, args[0])
    return [(st, sum_arr(x, lambda i, j: mul(x.el(i, j), x.el(i, j))))]


@model("dot")
def _dot(I, inst, args, st):
    x, y = arr(I, st, args[0]), arr(I, st, args[1])
    st = same_dims(I, st, x, y, "dot")
    return one(st, sum_arr(x, lambda i, j: mul(x.el(i, j), y.el(i, j))))


@model("sum")
def _sum_mat(I, inst, args, st):
    x = val(I, st, args[0])
    if not isinstance(x, Arr):
        raise Miss("sum")
    return [(st, sum_arr(x, x.el))]


def prove_fr(ctx, a, b, m, budget=60):
    """does relation m hold between two reals? guards are split upon"""
    todo = [ctx]
    while todo:
        c = todo.pop()
        budget -= 1
        if budget < 0:
            return False
        n = Norm(c, True)
        try:
            x, y = p_term(n.poly(a)), p_term(n.poly(b))
        except NeedSplit as e:
            todo += [z for z in (c.assume(e.lit), c.assume(lit_neg(e.lit))) if z is not None]
            continue
        if x is not y and not c.entails(("fr", x, y, m)):
            return False
    return True


def ascending(ctx, f, n):
    """is f(0) <= f(1) <= ... <= f(n-1) provable?"""
    i = Lin.of(fresh("x"))
    c = ctx.assume(("le", -i), ("le", i + 2 - n))
    return c is None or prove_fr(c, f(i), f(i + 1), LT | EQ)


@model("amax", "amin", "camax", "camin")
def _amax(I, inst, args, st):
    x = arr(I, st, args[0])
    return [(st, app(method(inst["trimmed"])[-3:], lam_of(snap(x, x.nr, x.nc, lambda i, j: app("abs", x.el(i, j)), x.vec))))]


@model("min", "max")
def _minmax(I, inst, args, st):
    m = method(inst["trimmed"])
    if len(args) == 1:
        x = val(I, st, args[0])
        if isinstance(x, Arr):
            if x.vec and st.ctx.axioms and st.ctx.prove_le(1 - x.nr) and ascending(st.ctx, lambda i: x.el(i, Lin(0)), x.nr):
                return [(st, x.el(Lin(0) if m == "min" else x.nr - 1, Lin(0)))]
            return [(st, app(m, lam_of(x)))]
        raise Miss("minmax")
    a, b = val(I, st, args[0]), val(I, st, args[1])
    if isinstance(a, Lin) and isinstance(b, Lin):
        if m == "min":
            return cases_min(I, st, a, b)
        return [(s, -v) for s, v in cases_min(I, st, -a, -b)]
    if isinstance(a, T) and isinstance(b, T):
        # NaN operands are ignored by f64::min / max
        l = ("fr", a, b, LT | EQ) if m == "min" else ("fr", a, b, GT | EQ)
        return [(s, a if v else b) for s, v in split2(I, st, l)]
    raise Miss("minmax")


# ------------------------------------------------------------------------------- arithmetic
def arith(I, st, op, a, b):
    """[(st, value)] for + - * / on reals, integers and matrices"""
    f = {"add": add, "sub": sub, "mul": mul, "div": div}[op]
    if isinstance(a, T) and isinstance(b, T):
        return [(st, f(a, b))]
    if isinstance(a, Lin) and isinstance(b, Lin):
        if op == "add":
            return [(st, a + b)]
        if op == "sub":
            st = I.require(st, [("le", b - a)], "subtract with overflow", "overflow")
            return one(st, a - b)
        if op == "mul":
            return [(st, a * b)]
        raise Miss("int " + op)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if op in ("add", "sub"):
            st = same_dims(I, st, a, b, op)
            return one(st, Arr(a.nr, a.nc, lambda i, j: f(a.el(i, j), b.el(i, j)), a.vec or b.vec))
        if op == "mul":
            st = I.require(st, [("eq", a.nc - b.nr)], "matrix product: dimension mismatch", "dims")
            if st is None:
                return []
            k = fresh("mm")

            def g(i, j):
                return tsum(k, 0, a.nc - 1, mul(a.el(i, Lin.of(k)), b.el(Lin.of(k), Lin(0) if b.vec else j)))
            return [(st, Arr(a.nr, b.nc, g, b.vec))]
    if isinstance(a, T) and isinstance(b, Arr) and op == "mul":
        return [(st, matlike(b, lambda i, j: mul(a, b.el(i, j))))]
    if isinstance(a, Arr) and isinstance(b, T) and op in ("mul", "div"):
        return [(st, matlike(a, lambda i, j: f(a.el(i, j), b)))]
    raise Miss(f"{op} {type(a).__name__} {type(b).__name__}")


@model("add", "sub", "mul", "div")
def _arith(I, inst, args, st):
    return arith(I, st, method(inst["trimmed"]), val(I, st, args[0]), val(I, st, args[1]))


@model("neg")
def _neg(I, inst, args, st):
    x = val(I, st, args[0])
    if isinstance(x, T):
        return [(st, neg(x))]
    if isinstance(x, Lin):
        return [(st, -x)]
    need(x, Arr)
    return [(st, matlike(x, lambda i, j: neg(x.el(i, j))))]


@model("add_assign", "sub_assign", "mul_assign", "div_assign")
def _assign(I, inst, args, st):
    op = method(inst["trimmed"])[:3]
    st, t = asref(I, st, args[0])
    a, b = I.load(st, t), val(I, st, args[1])
    out = []
    if isinstance(a, Arr) and isinstance(b, Arr) and op == "mul":
        raise Miss("matrix *= matrix")
    for s, v in arith(I, st, op, a, b):
        s = s.fork()
        if isinstance(v, Arr):
            v = Arr(a.nr, a.nc, v.el, a.vec)
            store_mat(I, s, t, v)
        else:
            I.store(s, t, v)
        out.append((s, UNIT))
    return out


@model("component_mul", "component_div")
def _comp_mul(I, inst, args, st):
    x, y = arr(I, st, args[0]), arr(I, st, args[1])
    f = mul if method(inst["trimmed"]) == "component_mul" else div
    st = same_dims(I, st, x, y, "component op")
    return one(st, matlike(x, lambda i, j: f(x.el(i, j), y.el(i, j))))


@model("tr_mul", "ad_mul")
def _tr_mul(I, inst, args, st):
    x, y = arr(I, st, args[0]), arr(I, st, args[1])
    return arith(I, st, "mul", Arr(x.nc, x.nr, lambda i, j: x.el(j, i)), y)


@model("axpy")
def _axpy(I, inst, args, st):
    st, t = asref(I, st, args[0])
    y = need(I.load(st, t), Arr)
    a, x, b = flt(I, st, args[1]), arr(I, st, args[2]), flt(I, st, args[3])
    st = same_dims(I, st, y, x, "axpy")
    if st is None:
        return []
    st = st.fork()
    store_mat(I, st, t, matlike(y, lambda i, j: add(mul(a, x.el(i, j)), mul(b, y.el(i, j)))))
    return [(st, UNIT)]


@model("lerp")
def _lerp(I, inst, args, st):
    x, y, t = arr(I, st, args[0]), arr(I, st, args[1]), flt(I, st, args[2])
    st = same_dims(I, st, x, y, "lerp")
    return one(st, matlike(x, lambda i, j: add(mul(x.el(i, j), sub(ONE, t)), mul(y.el(i, j), t))))


def f64fn(name):
    def h(I, inst, args, st):
        if name in ("floor", "trunc", "fract"):
            import interp
            x = flt(I, st, args[0])
            q = interp.floor_of(x, st.ctx)
            if q is not None:
                facts = interp.trunc_facts(x, q, st.ctx) if not q.is_const() else []
                s = st.with_ctx(*facts) if facts else st
                return [(s or st, i2f(q) if name != "fract" else sub(x, i2f(q)))]
        v = val(I, st, args[0])
        if name == "abs" and isinstance(v, Lin):
            return [(s, v if y else -v) for s, y in split2(I, st, ("le", -v))]
        if name in ("abs", "signum") and isinstance(v, Arr):
            x = arr(I, st, args[0])
            return one(st, snap(x, x.nr, x.nc, lambda i, j: app(name, x.el(i, j)), x.vec))
        return [(st, app(name, need(v, T)))]
    return h


for _n in ("sqrt", "abs", "floor", "ceil", "round", "trunc", "exp", "ln", "sin", "cos", "fract", "signum", "cbrt"):
    H.setdefault(_n, []).append(f64fn(_n))


@model("mul_add")
def _mul_add(I, inst, args, st):
    a, b, c = [flt(I, st, x) for x in args]
    return [(st, add(mul(a, b), c))]


@model("recip")
def _recip(I, inst, args, st):
    return [(st, div(ONE, flt(I, st, args[0])))]


@model("powf")
def _powf(I, inst, args, st):
    x, e = flt(I, st, args[0]), flt(I, st, args[1])
    if e.op == "c" and e.a[0].denominator == 1 and 0 <= e.a[0] <= 6:
        r = ONE
        for _ in range(int(e.a[0])):
            r = mul(r, x)
        return [(st, r)]
    if e.op == "c" and e.a[0] == Fraction(1, 2):
        return [(st, app("sqrt", x))]
    return [(st, app("powf", x, e))]


@model("hypot")
def _hypot(I, inst, args, st):
    x, y = flt(I, st, args[0]), flt(I, st, args[1])
    return [(st, app("sqrt", add(mul(x, x), mul(y, y))))]


@model("clamp")
def _clamp(I, inst, args, st):
    x, lo, hi = (val(I, st, a) for a in args)
    if all(isinstance(a, Lin) for a in (x, lo, hi)):
        st = I.require(st, [("le", lo - hi)], "clamp with exchanged limits", "precondition")
        cmp = lambda a, b: ("le", a - b + 1)
    elif all(isinstance(a, T) for a in (x, lo, hi)):
        if not (lo.op == "c" and hi.op == "c" and lo.a[0] <= hi.a[0]):
            raise Miss("clamp")
        cmp = lambda a, b: ("fr", a, b, LT)
    else:
        raise Miss("clamp")
    if st is None:
        return []
    out = []
    for s, v in split2(I, st, cmp(x, lo)):
        out += [(s, lo)] if v else [(t, hi if w else x) for t, w in split2(I, s, cmp(hi, x))]
    return out


@model("powi")
def _powi(I, inst, args, st):
    x, n = flt(I, st, args[0]), need(args[1], Lin)
    if n.is_const() and 0 <= n.c <= 6:
        r = ONE
        for _ in range(n.c):
            r = mul(r, x)
        return [(st, r)]
    return [(st, app("powi", x, n))]


@model("is_nan")
def _is_nan(I, inst, args, st):
    x = flt(I, st, args[0])
    return [(st, f_lit(("fr", x, x, UN)))]


@model("is_infinite", "is_finite")
def _is_finite(I, inst, args, st):
    """reals are finite: what is not a number is the only exception"""
    x = flt(I, st, args[0])
    if method(inst["trimmed"]) == "is_infinite":
        return [(st, False)]
    return [(st, f_lit(("fr", x, x, EQ)))]


@model("saturating_sub", "checked_sub", "wrapping_sub", "abs_diff")
def _isub(I, inst, args, st):
    m = method(inst["trimmed"])
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    out = []
    for s, v in split2(I, st, ("le", b - a)):
        if m == "checked_sub":
            out.append((s, some(a - b) if v else NONE))
        elif m == "abs_diff":
            out.append((s, a - b if v else b - a))
        elif v:
            out.append((s, a - b))
        elif m == "saturating_sub":
            out.append((s, Lin(0)))
        else:
            out.append((s, I.unk("wrapping subtraction")))
    return out


@model("unsigned_abs")
def _iabs(I, inst, args, st):
    a = lin(I, st, args[0])
    return [(s, a if v else -a) for s, v in split2(I, st, ("le", -a))]


@model("saturating_add", "wrapping_add")
def _iadd(I, inst, args, st):
    return [(st, lin(I, st, args[0]) + lin(I, st, args[1]))]


@model("checked_add")
def _icadd(I, inst, args, st):
    return [(st, some(lin(I, st, args[0]) + lin(I, st, args[1])))]


@model("div_ceil")
def _div_ceil(I, inst, args, st):
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    if b.is_const() and b.c > 0:
        return [(st, I.idiv(st, a + (b.c - 1), b)[0])]
    raise Miss("div_ceil")


@model("rem", "rem_euclid", "div_euclid")
def _irem(I, inst, args, st):
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    if b.is_const() and b.c > 0:
        q, r = I.idiv(st, a, b)
        return [(st, q if method(inst["trimmed"]) == "div_euclid" else r)]
    raise Miss("rem")


@model("div")
def _idiv(I, inst, args, st):
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    if b.is_const() and b.c > 0:
        return [(st, I.idiv(st, a, b)[0])]
    raise Miss("div")


@model("is_multiple_of")
def _is_mult(I, inst, args, st):
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    if b.is_const() and b.c > 0:
        return [(st, f_lit(("eq", I.idiv(st, a, b)[1])))]
    raise Miss("multiple")


@model("not")
def _not(I, inst, args, st):
    return [(st, f_not(need(val(I, st, args[0]), bool, tuple)))]


# ------------------------------------------------------------------------------- comparison
def eq_formula(I, st, a, b):
    a, b = val(I, st, a), val(I, st, b)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return f_lit(("eq", a - b))
    if isinstance(a, T) and isinstance(b, T):
        return f_lit(("fr", a, b, EQ))
    if isinstance(a, (bool,)) or isinstance(b, bool) or (isinstance(a, tuple) and isinstance(b, tuple)):
        need(a, bool, tuple), need(b, bool, tuple)
        return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
    if isinstance(a, Arr) and isinstance(b, Arr):
        d = f_and(f_lit(("eq", a.nr - b.nr)) if a.nr != b.nr else True,
                  f_lit(("eq", a.nc - b.nc)) if a.nc != b.nc else True)
        i, j = fresh("q"), fresh("q")
        if a.vec:
            e = ("all", i, Lin(0), a.nr - 1, f_lit(("fr", a.el(i), b.el(i), EQ)))
        else:
            e = ("all", i, Lin(0), a.nr - 1, ("all", j, Lin(0), a.nc - 1, f_lit(("fr", a.el(i, j), b.el(i, j), EQ))))
        return f_and(d, e)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name:
        if a.v != b.v:
            return False
        if len(a.fs) != len(b.fs):
            raise Miss("eq")
        f = True
        for x, y in zip(a.fs, b.fs):
            f = f_and(f, eq_formula(I, st, x, y))
        return f
    if isinstance(a, OrdV) and isinstance(b, Agg):
        raise Miss("ordering eq")
    raise Miss(f"eq {a!r:.30} {b!r:.30}")


@model("eq")
def _eq(I, inst, args, st):
    return [(st, eq_formula(I, st, args[0], args[1]))]


@model("ne")
def _ne(I, inst, args, st):
    return [(st, f_not(eq_formula(I, st, args[0], args[1])))]


@model("lt", "le", "gt", "ge")
def _ord(I, inst, args, st):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[method(inst["trimmed"])]
    a, b = val(I, st, args[0]), val(I, st, args[1])
    if (isinstance(a, T) and isinstance(b, T)) or (isinstance(a, Lin) and isinstance(b, Lin)):
        return [(st, I.binop(st, op, a, b))]
    raise Miss("ord")


@model("partial_cmp")
def _partial_cmp(I, inst, args, st):
    a, b = val(I, st, args[0]), val(I, st, args[1])
    if isinstance(a, Lin) and isinstance(b, Lin):
        return [(st, some(OrdV(a, b)))]
    a, b = need(a, T), need(b, T)
    out = []
    for s, v in split2(I, st, ("fr", a, b, UN)):
        out.append((s, NONE if v else some(OrdV(a, b))))
    return out


@model("cmp", "total_cmp")
def _cmp(I, inst, args, st):
    a, b = val(I, st, args[0]), val(I, st, args[1])
    if (isinstance(a, Lin) and isinstance(b, Lin)) or (isinstance(a, T) and isinstance(b, T)):
        return [(st, OrdV(a, b))]
    raise Miss("cmp")


@model("contains")
def _contains(I, inst, args, st):
    r, x = val(I, st, args[0]), val(I, st, args[1])
    if isinstance(r, Agg):
        n = r.name.split("::")[-1].split("<")[0]
        le = lambda a, b: I.binop(st, "Le", a, b)
        lt = lambda a, b: I.binop(st, "Lt", a, b)
        if n in ("RangeInclusive", "Range"):
            a, b = val(I, st, r.fs[0]), val(I, st, r.fs[1])
            return [(st, f_and(le(a, x), le(x, b) if n == "RangeInclusive" else lt(x, b)))]
    raise Miss("contains")


# ------------------------------------------------------------------------------- ranges & iterators
@model("new")
def _new(I, inst, args, st):
    t = inst["trimmed"]
    if "RangeInclusive" in t and len(args) == 2:
        return [(st, Agg("RangeInclusive", (args[0], args[1], False)))]
    if t.startswith("Box::<") or t.startswith("Box<") or t.startswith("Rc::") or t.startswith("Arc::"):
        return [(st, Agg("box", (args[0],)))]
    if (t.startswith("Vec::<") or "Vec" in t.split("::")[0]) and not args:
        return [(st, VVec(0, ()))]
    if t.startswith("SVD::<"):
        return svd_of(I, args, st)
    raise Miss("new")


def svd_eps(e):
    """thresholds near the rounding error are one threshold"""
    x = e.a[1] if e.op == "app" and e.a[0] == "sqrt" else e
    if x.op == "c" and 0 <= x.a[0] <= (Fraction(1, 10 ** 14) if x is not e else Fraction(1, 10 ** 7)):
        return ZERO
    return e


def svd_of(I, args, st):
    a = arr(I, st, args[0])
    st = I.require(st, [("le", Lin.of(1) - a.nr), ("le", Lin.of(1) - a.nc)], "SVD of an empty matrix", "empty")
    return [] if st is None else [(st, Svd(a, args[1], args[2]))]


@model("svd")
def _svd(I, inst, args, st):
    return svd_of(I, args, st)


@model("solve")
def _solve(I, inst, args, st):
    s = need(val(I, st, args[0]), Svd)
    b = arr(I, st, args[1])
    eps = flt(I, st, args[2])
    if s.u is not True or s.v is not True:
        if s.u is False or s.v is False:
            return [(st, err(Agg("str", ("SVD solve: U or V^T not computed",))))]
        raise Miss("svd flags")
    st = I.require(st, [("eq", s.a.nr - b.nr)], "SVD solve: dimension mismatch", "dims")
    if st is None:
        return []
    A, B, eps = lam_of(s.a), lam_of(b), svd_eps(eps)
    return [(st, ok(Arr(s.a.nc, b.nc, lambda i, j: app("svdsolve", A, B, eps, i, j))))]


@model("iter")
def _iter(I, inst, args, st):
    st, t = asref(I, st, args[0])
    return [(st, ref_iter(I, st, t))]


@model("iter_mut")
def _iter_mut(I, inst, args, st):
    st, t = asref(I, st, args[0])
    return [(st, ref_iter(I, st, t, True))]


@model("into_iter")
def _into_iter(I, inst, args, st):
    x = args[0]
    it = range_iter(x)
    if it is not None:
        return [(st, it)]
    if isinstance(x, (Ref, MView)):
        y = x
        while isinstance(y, Ref):
            z = I.load(st, y)
            if range_iter(z) is not None:
                raise Miss("iterator by reference")
            if not isinstance(z, (Ref, MView)):
                break
            y = z
        return [(st, ref_iter(I, st, follow(I, st, x)))]
    return [(st, val_iter(I, st, x))]


@model("column_iter", "row_iter", "column_iter_mut", "row_iter_mut")
def _col_iter(I, inst, args, st):
    m = method(inst["trimmed"])
    mut, col = m.endswith("_mut"), m.startswith("column")
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)

    def item(I, st, k):
        y = I.load(st, t)
        if col:
            return do_view(I, st, t, 0, k, x.nr, 1, True, mut, "column")
        return do_view(I, st, t, k, 0, 1, x.nc, False, mut, "row")
    return [(st, Iter(0, x.nc if col else x.nr, item, m))]


@model("next")
def _next(I, inst, args, st):
    it, r = iter_of(I, st, args[0])
    if r is None:
        raise Miss("next by value")
    out = []
    for s, x, nit in iter_next(I, st, it):
        s = s.fork()
        I.store(s, r, nit)
        out.append((s, NONE if x is None else some(x)))
    return out


@model("rev")
def _rev(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    need(it, Iter)
    n = it.count - it.pos
    out = []
    for s, nn in cases_clip(st, n):
        out.append((s, Iter(0, nn, lambda I, st, k: it.fn(I, st, it.count - 1 - k), "rev")))
    return out


def cases_clip(st, n):
    """number of remaining items, not negative: [(st, n)]"""
    return [(st, n)]


@model("enumerate")
def _enumerate(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    need(it, Iter)
    return [(st, Iter(0, it.count - it.pos,
                      lambda I, st, k: [(s, tup(k, x)) for s, x in it.fn(I, st, it.pos + k)], it.kind))]


@model("take")
def _take(I, inst, args, st):
    if len(args) == 1:
        # mem::take / Option::take
        t = follow(I, st, args[0])
        x = I.load(st, t)
        st = st.fork()
        if isinstance(x, Agg) and x.name == "Option":
            I.store(st, t, NONE)
            return [(st, x)]
        if isinstance(x, VVec):
            I.store(st, t, VVec(0, ()))
            return [(st, x)]
        raise Miss("take")
    it, _ = iter_of(I, st, args[0])
    n = need(args[1], Lin)
    if isinstance(it, PredIter) and it.limit is None:
        return [(st, PredIter(it.mode, it.it, it.pred, n))]
    need(it, Iter)
    c = it.count - it.pos
    return [(s, Iter(0, m, lambda I, st, k: it.fn(I, st, it.pos + k), it.kind)) for s, m in cases_min(I, st, n, c)]


@model("windows")
def _windows(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)
    n = need(args[1], Lin)
    if not x.vec or not st.ctx.prove_le(1 - n):
        raise Miss("windows")

    def item(I, st, k):
        return do_view(I, st, t, k, 0, n, 1, True, False, "window")
    return [(s, Iter(0, c, item, "windows")) for s, v in split2(I, st, ("le", n - x.nr)) for c in [x.nr - n + 1 if v else Lin(0)]]


@model("nth")
def _nth(I, inst, args, st):
    it, r = iter_of(I, st, args[0])
    need(it, Iter)
    n = need(args[1], Lin)
    out = []
    for s, v in split2(I, st, ("le", it.pos + n + 1 - it.count)):
        if not v:
            s = s.fork()
            if r is not None:
                I.store(s, r, Iter(it.count, it.count, it.fn, it.kind))
            out.append((s, NONE))
            continue
        for s2, x in it.fn(I, s, it.pos + n):
            s2 = s2.fork()
            if r is not None:
                I.store(s2, r, Iter(it.pos + n + 1, it.count, it.fn, it.kind))
            out.append((s2, some(x)))
    return out


@model("skip")
def _skip(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    need(it, Iter)
    n = need(args[1], Lin)
    c = it.count - it.pos
    return [(s, Iter(0, c - m, lambda I, st, k: it.fn(I, st, it.pos + m + k), it.kind)) for s, m in cases_min(I, st, n, c)]


@model("step_by")
def _step_by(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    n = need(args[1], Lin)
    if not (n.is_const() and n.c > 0):
        raise Miss("step_by")
    c = I.idiv(st, it.count - it.pos + (n.c - 1), n)[0]
    return [(st, Iter(0, c, lambda I, st, k: it.fn(I, st, it.pos + k * n.c), it.kind))]


@model("zip")
def _zip(I, inst, args, st):
    if isinstance(args[0], Agg) and args[0].name.split("::")[-1].split("<")[0] == "RangeFrom":
        lo = need(args[0].fs[0], Lin)
        b = range_iter(args[1])
        b = need(b if b is not None else val_iter(I, st, args[1]), Iter)
        return [(st, Iter(b.pos, b.count, lambda I, st, k: [(s, tup(lo + k - b.pos, x)) for s, x in b.fn(I, st, k)], "zip"))]
    a, _ = iter_of(I, st, args[0])
    need(a, Iter)
    if isinstance(args[1], Agg) and args[1].name.split("::")[-1].split("<")[0] == "RangeFrom":
        lo = need(args[1].fs[0], Lin)
        return [(st, Iter(a.pos, a.count, lambda I, st, k: [(s, tup(x, lo + k - a.pos)) for s, x in a.fn(I, st, k)], "zip"))]
    b = range_iter(args[1])
    if b is None:
        b = ref_iter(I, st, follow(I, st, args[1])) if isinstance(args[1], (Ref, MView)) else val_iter(I, st, args[1])
    need(b, Iter)

    def item(I, st, k):
        return [(s2, tup(x, y)) for s, x in a.fn(I, st, a.pos + k) for s2, y in b.fn(I, s, b.pos + k)]
    return [(s, Iter(0, m, item, "zip")) for s, m in cases_min(I, st, a.count - a.pos, b.count - b.pos)]


@model("chain")
def _chain(I, inst, args, st):
    a, _ = iter_of(I, st, args[0])
    need(a, Iter)
    b = range_iter(args[1])
    need(b, Iter)
    na, nb = a.count - a.pos, b.count - b.pos
    st2 = st
    if not (st.ctx.prove_le(-na) and st.ctx.prove_le(-nb)):
        raise Miss("chain")

    def item(I, st, k):
        out = []
        for s, v in split2(I, st, ("le", k + 1 - na)):
            out += a.fn(I, s, a.pos + k) if v else b.fn(I, s, b.pos + k - na)
        return out
    return [(st2, Iter(0, na + nb, item, "chain"))]


@model("map")
def _map_iter(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    need(it, Iter)
    st = st.fork()
    f = args[1]
    fr = f if isinstance(f, Ref) else I.cell(st, f)

    def item(I, st, k):
        return [(s2, y) for s, x in it.fn(I, st, k) for s2, y in closure_call(I, s, fr, [x])]
    return [(st, Iter(it.pos, it.count, item, "map"))]


@model("scan")
def _scan(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    need(it, Iter)
    st = st.fork()
    state = I.cell(st, args[1])
    fr = I.cell(st, args[2])

    def item(I, st, k):
        out = []
        for s, x in it.fn(I, st, k):
            for s2, y in closure_call(I, s, fr, [state, x]):
                if not (isinstance(y, Agg) and y.name == "Option" and y.v == 1):
                    raise Miss("scan that stops")
                out.append((s2, y.fs[0]))
        return out
    return [(st, Iter(it.pos, it.count, item, "scan"))]


@model("filter", "take_while")
def _filter(I, inst, args, st):
    x = args[0]
    if isinstance(x, Agg) and x.name == "Option":
        raise Miss("option filter")
    it, _ = iter_of(I, st, x)
    need(it, Iter)
    return [(st, PredIter(method(inst["trimmed"]), it, args[1]))]


@model("count")
def _count(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    if isinstance(it, Iter):
        return [(s, m if v else Lin(0)) for s, v in split2(I, st, ("le", it.pos - it.count)) for m in [it.count - it.pos]]
    st = st.fork()
    pr = it.pred if isinstance(it.pred, Ref) else I.cell(st, it.pred)
    k, f = lift_pred(I, st, it.it, pr)
    out = []
    for s, v in split2(I, st, ("le", it.it.pos - it.it.count)):
        if not v:
            out.append((s, Lin(0)))
            continue
        c = I.count_hook(I, s, it.mode, k, it.it.pos, it.it.count, f) if I.count_hook else None
        if c is None:
            c = count_sym(it.mode, k, it.it.pos, it.it.count, f)
            c = [(s.with_ctx(("le", -c), ("le", c - (it.it.count - it.it.pos))), c)]
        if it.limit is not None:
            c = [(s2, y) for s1, x in c for s2, y in cases_min(I, s1, it.limit, x)]
        out += c
    return out


@model("partition_point")
def _partition_point(I, inst, args, st):
    """the length of the prefix on which the predicate holds; the slice is taken to be partitioned by it"""
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), Arr)
    if not x.vec:
        raise Miss("partition_point")
    return _count(I, inst, [PredIter("take_while", val_iter(I, st, x), args[1])], st)


@model("fold")
def _fold(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    st = st.fork()
    fr = I.cell(st, args[2])

    def step(s, refs, x):
        out = []
        for s2, y in closure_call(I, s, fr, [I.load(s, refs[0]), x]):
            s2 = s2.fork()
            I.store(s2, refs[0], y)
            out.append((s2, "back", None))
        return out
    return [(s, I.load(s, refs[0])) for s, x, refs in drive(I, st, it, [args[1]], step, "fold")]


@model("sum", "product")
def _sum_iter(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    op = "add" if method(inst["trimmed"]) == "sum" else "mul"
    t = inst["trimmed"]
    integer = "::<usize>" in t or "::<isize>" in t or "::<u" in t or "::<i" in t
    if "Matrix<" in t[t.rindex("::" + method(t)):] and isinstance(it, Iter):       # starts from the first item
        out = []
        for s, x, nit in iter_next(I, st, it):
            if x is None:
                I.require(s, [("false",)], "sum of no matrices", "panic")
                continue
            out += _accumulate(I, s, nit, op, val(I, s, x))
        return out
    init = Lin(0 if op == "add" else 1) if integer else (ZERO if op == "add" else ONE)
    return _accumulate(I, st, it, op, init)


def _accumulate(I, st, it, op, init):
    def step(s, refs, x):
        out = []
        for s2, y in arith(I, s, op, I.load(s, refs[0]), val(I, s, x)):
            s2 = s2.fork()
            I.store(s2, refs[0], y)
            out.append((s2, "back", None))
        return out
    return [(s, I.load(s, refs[0])) for s, x, refs in drive(I, st, it, [init], step, "sum")]


@model("for_each")
def _for_each(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    st = st.fork()
    fr = I.cell(st, args[1])

    def step(s, refs, x):
        return [(s2, "back", None) for s2, _ in closure_call(I, s, fr, [x])]
    return [(s, UNIT) for s, x, refs in drive(I, st, it, [], step, "for_each")]


@model("try_for_each")
def _try_for_each(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    st = st.fork()
    fr = I.cell(st, args[1])

    def step(s, refs, x):
        out = []
        for s2, y in closure_call(I, s, fr, [x]):
            y = need(y, Agg)
            if y.name != "Result":
                raise Miss("try_for_each")
            out.append((s2, "back", None) if good(y) else (s2, "exit", y))
        return out
    return [(s, Agg("Result", (UNIT,), 0) if x is None else x) for s, x, refs in drive(I, st, it, [], step, "try_for_each")]


@model("skip_while")
def _skip_while(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    need(it, Iter)
    return [(s, Iter(0, it.count - it.pos - c, lambda I, st, k, c=c: it.fn(I, st, it.pos + c + k), it.kind))
            for s, c in _count(I, inst, [PredIter("take_while", it, args[1])], st)]


@model("all", "any")
def _all(I, inst, args, st):
    it, r = iter_of(I, st, args[0])
    want = method(inst["trimmed"]) == "all"
    st = st.fork()
    fr = I.cell(st, args[1])

    def step(s, refs, x):
        out = []
        for s2, b in closure_call(I, s, fr, [x]):
            for s3, v in I.split(s2, b):
                if v == want:
                    out.append((s3, "back", None))
                else:
                    out.append((s3, "exit", "stop"))
        return out
    return [(s, (not want) if x == "stop" else want) for s, x, refs in drive(I, st, it, [], step, "all/any")]


@model("find", "position", "rfind", "rposition")
def _find(I, inst, args, st):
    it, r = iter_of(I, st, args[0])
    m = method(inst["trimmed"])
    back = None
    if m.startswith("r"):
        f0 = need(it, Iter)
        back = f0.count - 1 - f0.pos
        it = Iter(0, f0.count - f0.pos, lambda I, st, k: f0.fn(I, st, f0.count - 1 - k), "rev")
        m = m[1:]
    st = st.fork()
    fr = I.cell(st, args[1])

    def step(s, refs, x):
        out = []
        s = s.fork()
        a = I.cell(s, x) if m == "find" else x
        n = I.load(s, refs[0])
        for s2, b in closure_call(I, s, fr, [a]):
            for s3, v in I.split(s2, b):
                if v:
                    out.append((s3, "exit", ("hit", x if m == "find" else n if back is None else back - n)))
                else:
                    s3 = s3.fork()
                    I.store(s3, refs[0], n + 1)
                    out.append((s3, "back", None))
        return out
    return [(s, NONE if x is None else some(x[1])) for s, x, refs in drive(I, st, it, [Lin(0)], step, m)]


@model("min_by", "max_by")
def _min_by(I, inst, args, st):
    it, _ = iter_of(I, st, args[0])
    need(it, Iter)
    m = "min" if method(inst["trimmed"]) == "min_by" else "max"
    st = st.fork()
    fr = args[1] if isinstance(args[1], Ref) else I.cell(st, args[1])
    a, b = fresh("ma"), fresh("mb")
    A, B = Lin.of(a), Lin.of(b)
    out = []
    s0 = st.assume(("le", it.count - it.pos))
    if s0 is not None:
        out.append((s0, NONE))
    s1 = st.assume(("le", 1 - (it.count - it.pos)))
    if s1 is None:
        return out
    s2 = s1.with_ctx(("le", it.pos - A), ("le", A + 1 - it.count), ("le", it.pos - B), ("le", B + 1 - it.count),
                     ("ne", A - B))
    ela = [val(I, s, x) for s, x in it.fn(I, s1, A)]
    if len(ela) != 1 or not isinstance(ela[0], T):
        raise Miss("min_by items")
    if s2 is not None:
        okk = False
        for s3, x in it.fn(I, s2, A):
            for s4, y in it.fn(I, s3, B):
                s5 = s4.fork()
                rx, ry = I.cell(s5, x), I.cell(s5, y)
                for s6, o in closure_call(I, s5, fr, [rx, ry]):
                    if not (isinstance(o, OrdV) and isinstance(o.a, T)):
                        raise Miss("min_by order")
                    vx, vy = val(I, s6, x), val(I, s6, y)
                    k = "as is" if vx is o.a and vy is o.b else "turned" if vx is o.b and vy is o.a else "equal" if o.a is o.b else None
                    if k is None or okk not in (False, k):
                        raise Miss("min_by order")
                    okk = k
        if not okk:
            raise Miss("min_by order")
    e = ela[0]
    L = lam(it.count - it.pos, Lin(1), lambda i, j: subst(e, {a: it.pos + i}))
    s1 = s1.fork()
    if okk == "equal":      # the first of the smallest, the last of the largest
        out.append((s1, some(I.cell(s1, subst(e, {a: it.pos if m == "min" else it.count - 1})))))
        return out
    if okk == "turned":
        m = "max" if m == "min" else "min"
    r = I.cell(s1, app(m, L))
    out.append((s1, some(r)))
    return out


@model("collect", "from_iter", "from_iterator")
def _collect(I, inst, args, st):
    m = method(inst["trimmed"])
    n = None
    if m == "from_iterator" and len(args) == 2:
        n, src = need(args[0], Lin), args[1]
    elif len(args) == 1:
        src = args[0]
    else:
        raise Miss("from_iterator")
    it = range_iter(src)
    if it is None:
        it = ref_iter(I, st, follow(I, st, src)) if isinstance(src, (Ref, MView)) else val_iter(I, st, src)
    need(it, Iter)

    def step(s, refs, x):
        s = s.fork()
        v = I.load(s, refs[0])
        I.store(s, refs[0], v.push(x))
        return [(s, "back", None)]
    out = []
    for s, x, refs in drive(I, st, it, [VVec(0, ())], step, "collect"):
        v = I.load(s, refs[0])
        if n is not None or "Matrix" in inst["trimmed"].split("collect")[-1]:
            a = vec_of(I, v)
            if n is not None:
                s = I.require(s, [("eq", n - a.nr)], "from_iterator length", "dims")
            out += one(s, a)
        else:
            out.append((s, v))
    return out


# ------------------------------------------------------------------------------- Vec
@model("with_capacity", "new_in")
def _with_cap(I, inst, args, st):
    return [(st, VVec(0, ()))]


@model("default")
def _default(I, inst, args, st):
    if "Vec<" in inst["trimmed"].split(" as ")[0]:
        return [(st, VVec(0, ()))]
    raise Miss("default")


@model("reserve", "shrink_to_fit", "reserve_exact")
def _noop(I, inst, args, st):
    return [(st, UNIT)]


@model("push")
def _push(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), VVec)
    st = st.fork()
    I.store(st, t, x.push(args[1]))
    return [(st, UNIT)]


def cut(I, st, x, n):
    """first n elements of a vector (n <= len holds)"""
    segs = []
    for a, b, g in x.segs:
        if st.ctx.prove_le(b - n):
            segs.append((a, b, g))
        elif st.ctx.prove_le(n - a):
            continue
        else:
            if not st.ctx.prove_le(a - n):
                raise Miss("cut")
            segs.append((a, n, g))
            if not st.ctx.prove_le(n - b):
                raise Miss("cut")
    upd = []
    for i, v in x.upd:
        if st.ctx.prove_le(i + 1 - n):
            upd.append((i, v))
        elif not st.ctx.prove_le(n - i):
            raise Miss("cut upd")
    return VVec(n, segs, upd)


@model("truncate", "resize", "clear")
def _truncate(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), VVec)
    m = method(inst["trimmed"])
    n = Lin(0) if m == "clear" else need(args[1], Lin)
    out = []
    for s, v in split2(I, st, ("le", n - x.len)):
        s = s.fork()
        if v:
            I.store(s, t, cut(I, s, x, n))
        elif m == "resize":
            w = args[2]
            I.store(s, t, VVec(n, x.segs + ((x.len, n, lambda k, w=w: w),), x.upd))
        out.append((s, UNIT))
    return out


@model("pop")
def _pop(I, inst, args, st):
    st, t = asref(I, st, args[0])
    x = need(I.load(st, t), VVec)
    out = []
    for s, v in split2(I, st, ("le", 1 - x.len)):
        s = s.fork()
        if v:
            e = I.vget(s.ctx, x, x.len - 1)
            I.store(s, t, cut(I, s, x, x.len - 1))
            out.append((s, some(e)))
        else:
            out.append((s, NONE))
    return out


@model("from_elem")
def _from_elem(I, inst, args, st):
    v, n = args[0], need(args[1], Lin)
    return [(st, VVec(n, [(Lin(0), n, lambda k: v)]))]


@model("new_uninit")
def _new_uninit(I, inst, args, st):
    st = st.fork()
    return [(st, I.cell(st, Unk("uninit")))]


def dig_array(x):
    while isinstance(x, Agg):
        if x.name == "[]":
            return x
        nx = [f for f in x.fs if isinstance(f, Agg)]
        if not nx:
            return None
        x = nx[-1]
    return None


@model("box_assume_init_into_vec_unsafe", "into_vec", "to_vec")
def _into_vec(I, inst, args, st):
    x = val(I, st, args[0])
    if isinstance(x, (VVec, Arr)):
        return [(st, x)]
    a = dig_array(x)
    if a is None:
        raise Miss("vec literal")
    fs = a.fs
    segs = [(Lin(n), Lin(n + 1), lambda k, e=e: e) for n, e in enumerate(fs)]
    return [(st, VVec(Lin(len(fs)), segs))]


@model("concat")
def _concat(I, inst, args, st):
    x = val(I, st, args[0])
    a = dig_array(x)
    if a is None:
        raise Miss("concat")
    segs, off = [], Lin(0)
    for e in a.fs:
        e = val(I, st, e)
        if isinstance(e, Arr):
            f = e
            segs.append((off, off + e.nr, lambda k, f=f, o=off: f.el(k - o)))
            off = off + e.nr
        else:
            need(e, VVec)
            if e.upd:
                raise Miss("concat updates")
            for p, q, g in e.segs:
                segs.append((off + p, off + q, lambda k, g=g, o=off: g(k - o)))
            off = off + e.len
    return [(st, VVec(off, segs))]


@model("extend", "extend_from_slice")
def _extend(I, inst, args, st):
    st, t = asref(I, st, args[0])
    need(I.load(st, t), VVec)
    src = args[1]
    it = range_iter(src)
    if it is None:
        it = ref_iter(I, st, follow(I, st, src)) if isinstance(src, (Ref, MView)) else val_iter(I, st, src)

    def step(s, refs, x):
        s = s.fork()
        I.store(s, t, need(I.load(s, t), VVec).push(val(I, s, x)))
        return [(s, "back", None)]
    return [(s, UNIT) for s, x, refs in drive(I, st, it, [], step, "extend")]


@model("replace")
def _replace(I, inst, args, st):
    if len(args) != 2:
        raise Miss("replace")
    t = follow(I, st, args[0])
    st = st.fork()
    x = I.load(st, t)
    I.store(st, t, args[1])
    return [(st, x)]


@model("drop", "forget")
def _drop(I, inst, args, st):
    return [(st, UNIT)]


# ------------------------------------------------------------------------------- closures
@model("call_once", "call_mut", "call")
def _call(I, inst, args, st):
    f = args[0]
    a = args[1]
    if isinstance(f, Agg) and f.name == "box":
        f = f.fs[0]
    if isinstance(f, Ref):
        f2 = follow(I, st, f)
        x = I.load(st, f2)
        if isinstance(x, FnV):
            f = x
        else:
            f = f2
    aa = list(a.fs) if isinstance(a, Agg) and a.name == "()" else [a]
    if isinstance(f, FnV):
        ty = I.p.ty(f.ty)
        if ty["k"] == "closure":
            return I.call_closure(f, aa, st)
        return I.call_value(f, aa, st)
    return I.call_closure(f, aa, st)


# ------------------------------------------------------------------------------- Option / Result
def optres(I, st, v):
    x = val(I, st, v)
    if isinstance(x, Agg) and x.name in ("Option", "Result"):
        return x
    raise Miss("option/result " + repr(x)[:50])


def good(x):
    return x.v == (1 if x.name == "Option" else 0)


@model("unwrap", "expect")
def _unwrap(I, inst, args, st):
    x = optres(I, st, args[0])
    if good(x):
        return [(st, x.fs[0])]
    return panic(I, st, f"unwrap of {x!r:.60}", "unwrap")


@model("unwrap_err", "expect_err")
def _unwrap_err(I, inst, args, st):
    x = optres(I, st, args[0])
    if not good(x):
        return [(st, x.fs[0])]
    return panic(I, st, "unwrap_err of Ok", "unwrap")


@model("unwrap_or", "unwrap_or_else", "unwrap_or_default")
def _unwrap_or(I, inst, args, st):
    x = optres(I, st, args[0])
    if good(x):
        return [(st, x.fs[0])]
    m = method(inst["trimmed"])
    if m == "unwrap_or":
        return [(st, args[1])]
    if m == "unwrap_or_else":
        return closure_call(I, st, args[1], [] if x.name == "Option" else [x.fs[0]])
    raise Miss("default")


@model("map")
def _map_opt(I, inst, args, st):
    x = optres(I, st, args[0])
    if not good(x):
        return [(st, x)]
    return [(s, Agg(x.name, (y,), x.v)) for s, y in closure_call(I, st, args[1], [x.fs[0]])]


@model("map_err")
def _map_err(I, inst, args, st):
    x = optres(I, st, args[0])
    if good(x):
        return [(st, x)]
    return [(s, err(y)) for s, y in closure_call(I, st, args[1], [x.fs[0]])]


@model("and_then")
def _and_then(I, inst, args, st):
    x = optres(I, st, args[0])
    if not good(x):
        return [(st, x)]
    return closure_call(I, st, args[1], [x.fs[0]])


@model("map_or", "map_or_else")
def _map_or(I, inst, args, st):
    x = optres(I, st, args[0])
    if good(x):
        return closure_call(I, st, args[2], [x.fs[0]])
    if method(inst["trimmed"]) == "map_or":
        return [(st, args[1])]
    return closure_call(I, st, args[1], [] if x.name == "Option" else [x.fs[0]])


@model("is_some", "is_ok")
def _is_ok(I, inst, args, st):
    return [(st, good(optres(I, st, args[0])))]


@model("is_none", "is_err")
def _is_err(I, inst, args, st):
    return [(st, not good(optres(I, st, args[0])))]


@model("is_some_and", "is_ok_and")
def _is_and(I, inst, args, st):
    x = optres(I, st, args[0])
    if not good(x):
        return [(st, False)]
    return closure_call(I, st, args[1], [x.fs[0]])


@model("is_none_or")
def _is_none_or(I, inst, args, st):
    x = optres(I, st, args[0])
    if not good(x):
        return [(st, True)]
    return closure_call(I, st, args[1], [x.fs[0]])


@model("ok_or", "ok_or_else")
def _ok_or(I, inst, args, st):
    x = optres(I, st, args[0])
    if good(x):
        return [(st, ok(x.fs[0]))]
    if method(inst["trimmed"]) == "ok_or":
        return [(st, err(args[1]))]
    return [(s, err(y)) for s, y in closure_call(I, st, args[1], [])]


@model("ok")
def _ok(I, inst, args, st):
    x = optres(I, st, args[0])
    return [(st, some(x.fs[0]) if good(x) else NONE)]


@model("err")
def _err(I, inst, args, st):
    x = optres(I, st, args[0])
    return [(st, NONE if good(x) else some(x.fs[0]))]


@model("then", "then_some")
def _then(I, inst, args, st):
    out = []
    for s, v in I.split(st, need(args[0], bool, tuple)):
        if not v:
            out.append((s, NONE))
        elif method(inst["trimmed"]) == "then_some":
            out.append((s, some(args[1])))
        else:
            out += [(s2, some(y)) for s2, y in closure_call(I, s, args[1], [])]
    return out


@model("filter")
def _opt_filter(I, inst, args, st):
    x = optres(I, st, args[0])
    if not good(x):
        return [(st, x)]
    st = st.fork()
    r = I.cell(st, x.fs[0])
    out = []
    for s, b in closure_call(I, st, args[1], [r]):
        out += [(s2, x if v else NONE) for s2, v in I.split(s, b)]
    return out


@model("branch")
def _branch(I, inst, args, st):
    x = optres(I, st, args[0])
    if good(x):
        return [(st, Agg("ControlFlow", (x.fs[0],), 0))]
    return [(st, Agg("ControlFlow", (x,), 1))]


@model("from_residual")
def _from_residual(I, inst, args, st):
    x = optres(I, st, args[0])
    if x.name == "Option":
        return [(st, x)]
    t = inst["trimmed"]
    # "<Result<X, E1> as FromResidual<Result<!, E2>>>::from_residual"
    a, b = t.split(" as FromResidual<", 1)
    e1 = last_arg(a[1:])
    e2 = last_arg(b[:b.rindex("::from_residual")][:-2])
    if e1 == e2 or e1 is None:
        return [(st, x)]
    for k, f in I.p.fns.items():
        if f["trimmed"] == f"<{e1} as From<{e2}>>::from":
            return [(s, err(y)) for s, y in I.call_fn(k, [x.fs[0]], st)]
    return [(st, err(I.unk(f"error conversion {e2} -> {e1}")))]


def last_arg(s):
    """last generic argument of a type like Result<A, B>"""
    if "<" not in s:
        return None
    inner = s[s.index("<") + 1:]
    if inner.endswith(">"):
        inner = inner[:-1]
    d, cut_ = 0, 0
    for i, c in enumerate(inner):
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and inner[i - 1] != "-"):
            d -= 1
        elif c == "," and d == 0:
            cut_ = i + 1
    return inner[cut_:].strip()
