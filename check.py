#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--repo DIR] [--dump FILE]

Decides one property of the crate by static analysis of the MIR of the current working tree.
exit 0: held on everything analysed; exit 1: VIOLATION line; exit 2: the check could not run."""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(30000)
BUILD = os.path.join(HERE, ".build")
TOOLCHAIN = "+nightly"


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def sources(repo):
    out = []
    for top in ("src",):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs)]
    out += [p for p in (os.path.join(repo, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs", "README.md")) if os.path.exists(p)]
    return out


def digest(paths, base):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, base).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def driver():
    src = os.path.join(HERE, "driver", "mirdump.rs")
    out = os.path.join(BUILD, "mirdump-" + digest([src], HERE))
    if not os.path.exists(out):
        rc, log = sh(["rustc", TOOLCHAIN, "--edition", "2021", "-O", src, "-o", out + ".tmp"])
        if rc:
            raise Broken("the MIR front end does not build:\n" + log[-3000:])
        os.replace(out + ".tmp", out)
    return out


def mir(repo):
    """dump of the type-checked MIR of the crate, regenerated whenever the sources change"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        key = digest(sources(repo) + [os.path.join(HERE, "driver", "mirdump.rs")], "/")
        out = os.path.join(BUILD, "mir-" + key + ".json")
        if os.path.exists(out):
            return out
        # a scratch copy, so that cargo never writes in the repository; its files are new, so that cargo always compiles them
        work = os.path.join(BUILD, "src")
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(repo, work, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True, copy_function=shutil.copy)
        if not os.path.exists(os.path.join(work, "Cargo.lock")):
            shutil.copy(os.path.join(HERE, "driver", "Cargo.lock"), os.path.join(work, "Cargo.lock"))
        tgt = os.path.join(BUILD, "target")
        rc, root = sh(["rustc", TOOLCHAIN, "--print", "sysroot"])
        env = dict(os.environ, LD_LIBRARY_PATH=root.strip() + "/lib", MIRDUMP_OUT=out + ".tmp", MIRDUMP_CRATE="bsplines",
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt)
        env.pop("RUSTFLAGS", None)
        for attempt in (0, 1):
            for sub in (".fingerprint", "build", "incremental"):
                d = os.path.join(tgt, "debug", sub)
                for x in os.listdir(d) if os.path.isdir(d) else ():
                    if x.startswith("bsplines"):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            rc, log = sh(["cargo", TOOLCHAIN, "check", "--offline", "--lib", "--manifest-path", os.path.join(work, "Cargo.toml")], env=env)
            if rc or os.path.exists(out + ".tmp"):
                break
            shutil.rmtree(tgt, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
        if rc or not os.path.exists(out + ".tmp"):
            raise Broken("the crate does not compile:\n" + log[-4000:])
        os.replace(out + ".tmp", out)
        old = sorted((os.path.getmtime(p), p) for p in (os.path.join(BUILD, f) for f in os.listdir(BUILD))
                     if os.path.basename(p).startswith("mir-") and p.endswith(".json"))
        for _, p in old[:-40]:
            os.remove(p)
        return out


def known_findings():
    """entries `finding: property=<id> key=<obligation key> | text`; `fixed:` entries suppress nothing"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: property="):
                rest = l[len("finding: property="):].strip()
                pid, rest = rest.split(" key=", 1)
                key, _, text = rest.partition(" || ")
                out.setdefault(pid, {})[key.strip()] = text.strip()
    return out


TRUSTED = [
    "rustc nightly: lowering of the source to MIR",
    "/verif/driver/mirdump.rs: export of the MIR",
    "/verif/engine: abstract interpreter, linear integer arithmetic, gated value numbering, sum normal forms",
    "/verif/engine/models.py: meaning of the std and nalgebra functions the crate calls",
    "floating-point arithmetic is read as real arithmetic (rounding is not modelled); NaN is modelled in comparisons",
    "polynomial identities are decided by evaluation in a prime field of 61 bits",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the front end and the dump of the current tree")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--dump")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.setup or not a.prop:
        print(os.path.basename(mir(a.repo)))
        return 0
    tier = "thorough" if a.thorough else "quick"
    t0 = time.time()
    import contracts
    from contracts import Run, EQ_, DIFF_, UNK_, Missing, show
    from interp import Prog
    from world import Layout
    import props
    if a.thorough:
        contracts.thorough()
    if a.prop not in props.PROPS:
        raise Broken("no such property: " + a.prop)
    meta = props.PROPS[a.prop]
    dump = a.dump or mir(a.repo)
    prog = Prog(dump)
    R = Run(prog)
    R.tier = tier
    missing = None
    try:
        meta.fn(R)
    except Layout as e:
        from contracts import Verdict
        R.add("layout", "-", "-", "layout", Verdict(UNK_, why=str(e)))
    except Missing as e:
        missing = str(e)
    import collections
    obls = R.obls
    cnt = collections.Counter(o.v.k for o in obls)
    known = known_findings().get(a.prop, {})
    diffs, knowns, unks = {}, {}, {}
    for o in obls:
        k = o.key()
        if o.v.k == DIFF_:
            (knowns if k in known else diffs).setdefault(k, o)
        elif o.v.k == UNK_:
            unks.setdefault(k, o)
    for k in knowns:
        print(f"KNOWN-FINDING: property={a.prop} {known[k]}")
    lines = []

    def describe(o):
        s = [f"rule     {o.id}", f"function {o.fn}  ({R.where(o.fn)})", f"case     {o.case}", f"at       {o.what}",
             f"verdict  {o.v.k}: {o.v.why}"]
        if o.v.a is not None:
            s.append("code     " + show_any(o.v.a)[:1500])
            s.append("rule     " + show_any(o.v.b)[:1500])
        if o.path:
            s.append("path     " + o.path)
        return "\n".join(s)

    def show_any(x):
        try:
            return show(x)
        except Exception:
            return str(x)
    for o in diffs.values():
        lines.append(describe(o))
    if missing:
        lines.append("the analysis lost its anchor: " + missing)
    ev_dir = os.path.join(HERE, "evidence")
    rule = " ".join((meta.fn.__doc__ or "").split())
    evidence = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta.level,
        "coverage": {
            "explanation": rule,
            "obligations": len(obls), "discharged": cnt.get(EQ_, 0), "undecided": cnt.get(UNK_, 0),
            "different": cnt.get(DIFF_, 0),
            "checker_cmd": f"python3 check.py {a.prop}" + (" --thorough" if a.thorough else ""),
            "trusted_base": TRUSTED,
            "functions_analysed": sorted({prog.fns[k]["name"] if k in prog.fns else k for k in R.fns}),
            "calls_resolved": R.calls, "loops_summarised": R.loops, "assertions_checked": R.asserts,
            "abstract_paths": R.paths, "panic_sites_reached": R.panics,
            "rules": sorted({o.id for o in obls}),
            "samples": [f"{o.id} | {o.fn} | {o.case} | {o.what}: {o.v.k}" for o in obls[:: max(1, len(obls) // 12)][:12]],
            "undecided_obligations": [f"{k}: {o.v.why}" for k, o in list(unks.items())[:40]],
            "mir": os.path.basename(dump),
        },
        "assumptions": list(meta.assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(diffs) + bool(missing),
    }
    evidence["coverage"].update(getattr(R, "extra", {}))
    if not a.no_evidence:
        os.makedirs(ev_dir, exist_ok=True)
        with open(os.path.join(ev_dir, a.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(f"{a.prop}: {len(obls)} obligations, {cnt.get(EQ_, 0)} discharged, {cnt.get(UNK_, 0)} undecided, "
          f"{cnt.get(DIFF_, 0)} different; {len(R.fns)} functions, {evidence['wall_s']} s")
    for k, o in unks.items():
        print("UNDECIDED " + k + ": " + str(o.v.why)[:200])
        if a.v:
            print(describe(o))
    if not lines and not obls:
        lines.append("nothing was analysed")
    if lines:
        rp = os.path.join(ev_dir, a.prop + ".violation.txt")
        if not a.no_evidence:
            with open(rp, "w") as f:
                f.write("\n\n".join(lines) + "\n")
        for l in lines[:6]:
            print(l)
            print()
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("ERROR: " + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
