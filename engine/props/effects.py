"""Effects: what the crate reaches besides its arguments, and what its error messages show."""
import re
from spec import *
from . import prop

# std modules whose functions read or write something outside their arguments
EFFECT = re.compile(r"^(?:std|core|alloc)::(?:(?P<mod>env|fs|io|net|os|process|thread|time|backtrace|sync|cell|random)\b"
                    r"|collections::hash|hash::random|hash::RandomState|alloc::(?:alloc|System))")
PURE_SYNC = re.compile(r"^(?:std|core|alloc)::(?:cell::(?:Cell|RefCell)::<[^>]*>::(?:into_inner|get_mut)|io::Error)")
FOREIGN = ("rand", "getrandom", "libc", "fastrand", "chrono", "parking_lot", "once_cell", "lazy_static", "rayon", "log")
KNOWN = {"std", "core", "alloc", "nalgebra", "simba", "num_traits", "num_complex", "approx", "typenum", "thiserror", "bsplines"}
SHARED = re.compile(r"\b(?:Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w+|Rc|Arc|Condvar)\b|\*(?:mut|const) ")


def strip(nm):
    """path without leading qualified-self brackets and generic arguments"""
    nm = nm.lstrip("<&")
    return nm


def callees(P, key):
    for b in P.fns[key]["blocks"]:
        t = b["t"]
        if t["t"] != "call":
            continue
        ty = P.types.get(str(t["f"].get("ty"))) if t["f"].get("ty") is not None else None
        if ty is None or ty["k"] != "fn":
            yield None, None, t
            continue
        yield ty.get("def", ""), (ty.get("inst") or {}), t


@prop("P25", level="other")
def p25(R):
    """effect analysis of every function of the crate: each call site must resolve to a function without effects of its
    own; statics must be immutable; no public type may hide mutable state behind a shared reference; no unsafe code."""
    P = R.p
    ok = lambda *a: R.add(*a, Verdict(EQ_))
    bad = lambda id, fn, case, what, why: R.add(id, fn, case, what, Verdict(DIFF_, why=why))
    R.extra = {"call_sites": 0}
    for key, f in sorted(P.fns.items(), key=lambda kv: kv[1]["name"]):
        R.fns.add(key)
        worst_ = None
        for d, inst, t in callees(P, key):
            R.extra["call_sites"] += 1
            R.calls += 1
            sp = t.get("sp") or {}
            site = f"{sp.get('f', '?')}:{sp.get('l', '?')}" if isinstance(sp, dict) else str(sp)
            if d is None:
                continue        # a call through a function value: its target is a function of the crate or of an argument
            names = [d, strip(inst.get("name", ""))]
            krate = inst.get("krate")
            hit = next((n for n in names if EFFECT.match(n) and not PURE_SYNC.match(n)), None)
            if hit:
                worst_ = (DIFF_, f"{f['name']} calls {hit} at {site}")
            elif krate and krate.startswith(FOREIGN) or names[0].split("::")[0] in FOREIGN:
                worst_ = (DIFF_, f"{f['name']} calls {names[0]} of crate {krate} at {site}")
            elif names[0].split("::")[0] not in KNOWN and krate not in KNOWN and worst_ is None:
                worst_ = (UNK_, f"{f['name']} calls {names[0]} of crate {krate}, whose effects are not known")
        for b in f["blocks"]:
            if b["t"]["t"] == "asm":
                worst_ = (DIFF_, f"{f['name']} contains inline assembly")
        if worst_:
            R.add("effects of calls", f["name"], "all call sites", "no effect outside the arguments", Verdict(worst_[0], why=worst_[1]))
        else:
            ok("effects of calls", f["name"], "all call sites", "no effect outside the arguments")
    for s in P.raw.get("statics", []):
        if s["mut"] or not s["freeze"] or s["thread_local"]:
            bad("global state", s["name"], "static", "immutable", f"{s['name']} ({s['span']['f']}:{s['span']['l']}) is state that outlives a call")
        else:
            ok("global state", s["name"], "static", "immutable")
    if not P.raw.get("statics"):
        ok("global state", "crate", "no statics", "immutable")
    for u in P.raw.get("unsafe", []):
        bad("safe code", "crate", u["what"], f"{u['f']}", f"{u['what']} at {u['f']}:{u['l']}")
    if not P.raw.get("unsafe"):
        ok("safe code", "crate", "all bodies", "no unsafe code")
    seen = set()
    for i, t in sorted(P.types.items(), key=lambda kv: kv[1].get("name", "")):
        if t["k"] != "adt" or not t.get("local"):
            continue
        for v in t["variants"]:
            for fl in v["fields"]:
                s = type_text(P, fl["ty"])
                k = (t["name"], v["name"], fl["name"], s)
                if k in seen:
                    continue
                seen.add(k)
                w = "no shared mutable state"
                if SHARED.search(s):
                    bad("types", t["name"], fl["name"], w, f"field {fl['name']} of {t['name']} has type {s}")
                else:
                    ok("types", t["name"], fl["name"], w)


def type_text(P, ty, depth=0):
    t = P.types.get(str(ty))
    if t is None or depth > 6:
        return "?"
    k = t["k"]
    if k == "adt":
        inner = [type_text(P, a, depth + 1) for a in t.get("args", []) if isinstance(a, int)]
        return t["name"] + "<" + ", ".join(inner) + ">"
    if k in ("ref", "array", "slice"):
        return "&" + type_text(P, t["of"], depth + 1)
    if k == "ptr":
        return "*mut " + type_text(P, t["of"], depth + 1)
    if k == "tuple":
        return "(" + ", ".join(type_text(P, a, depth + 1) for a in t["of"]) + ")"
    return t.get("name") or k


# ------------------------------------------------------------------------------------------ error messages
SINK = re.compile(r"fmt::rt::Argument|::fmt$|::fmt::|write_str|write_fmt|to_string|format")


@prop("P23", level="other")
def p23(R):
    """dataflow over the Display implementation of every error type: each field of each variant must reach an argument
    of the formatting machinery."""
    P = R.p
    for key, f in sorted(P.fns.items(), key=lambda kv: kv[1]["name"]):
        m = re.match(r"<(.*) as (?:std|core)::fmt::Display>::fmt$", f["name"])
        if not m:
            continue
        ts = [t for t in P.types.values() if t["k"] == "adt" and t["name"] == m.group(1)]
        if not ts:
            continue
        t = ts[0]
        R.fns.add(key)
        shown, opaque, _ = flows(P, key)
        src = [k for k, g in P.fns.items() if re.match(r"<%s as (?:std|core)::error::Error>::source$" % re.escape(m.group(1)), g["name"])]
        for k in src:
            R.fns.add(k)
            shown = shown | flows(P, k)[2]
        for vi, v in enumerate(t["variants"]):
            for fi, fl in enumerate(v["fields"]):
                if (vi, fi) in shown:
                    vd = Verdict(EQ_)
                elif opaque:
                    vd = Verdict(UNK_, why="the message is composed by " + ", ".join(sorted(opaque)))
                else:
                    vd = Verdict(DIFF_, why=f"the message of {v['name']} does not show {fl['name']}")
                R.add("message shows the data", f["name"], v["name"], fl["name"], vd)


def flows(P, key):
    """fields (variant, index) of the first argument that reach a formatting call; local calls taking the whole argument"""
    f = P.fns[key]
    taint = {}       # local -> set of (variant, field) or "self"
    taint[1] = {"self"}

    def read(pl):
        base = taint.get(pl["l"], set())
        if not base:
            return set()
        if "self" not in base:
            return base
        v, out = None, None
        for e in pl.get("p", []):
            if isinstance(e, dict) and "d" in e:
                v = e["d"]
            elif isinstance(e, dict) and "f" in e:
                return (base - {"self"}) | {(v if v is not None else 0, e["f"])}
        return base

    def places(x):
        if isinstance(x, dict):
            if "l" in x and "p" in x and isinstance(x["p"], list):
                yield x
            for y in x.values():
                yield from places(y)
        elif isinstance(x, list):
            for y in x:
                yield from places(y)
    shown, opaque = set(), set()
    for _ in range(60):
        before = {k: set(v) for k, v in taint.items()}, set(shown)
        for b in f["blocks"]:
            for s in b["s"]:
                if s.get("s") != "=":
                    continue
                src = set()
                for q in places(s["r"]):
                    src |= read(q)
                d = s["p"]
                if src:
                    taint.setdefault(d["l"], set()).update(src)
            t = b["t"]
            if t["t"] == "call":
                src = set()
                for a in t["a"]:
                    for q in places(a):
                        src |= read(q)
                ty = P.types.get(str(t["f"].get("ty")), {})
                inst = ty.get("inst") or {}
                nm = (ty.get("def") or "") + " " + inst.get("name", "")
                if inst.get("local") and "self" in src:
                    opaque.add(inst.get("name", "?"))
                if SINK.search(nm):
                    shown |= {x for x in src if x != "self"}
                if src:
                    taint.setdefault(t["d"]["l"], set()).update(src)
        if ({k: set(v) for k, v in taint.items()}, set(shown)) == before:
            break
    return shown, opaque, {x for x in taint.get(0, ()) if x != "self"}
