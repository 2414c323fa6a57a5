#!/usr/bin/env python3
"""Decide properties of /repo's current source.

  run.py P12            one property (exit 0: held; exit 1: VIOLATION line)
  run.py --all          every claimed property, from one extraction (development)
  run.py --extract DIR  only write the extracted programs to DIR
  --dumps DIR           use programs extracted before (development)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        raise SystemExit(2)
    return p.stdout


def extract(tmp):
    """compile the source with the extractor as the compiler; two programs: the crate, and the models of loops in libraries"""
    drv = os.path.join(tmp, "mirdump")
    sh(["rustc", "+nightly", "--edition", "2021", "-C", "prefer-dynamic", "-o", drv, os.path.join(HERE, "driver/main.rs")], cwd=tmp)
    root = sh(["rustc", "+nightly", "--print", "sysroot"], cwd=tmp).strip()
    jobs = []
    shutil.copytree(os.path.join(HERE, "rmodels"), os.path.join(tmp, "rmodels"), ignore=shutil.ignore_patterns("target"))
    for crate, d, flags in (("unixfs_v1", REPO, "-Zallow-features=proc_macro_diagnostic"), ("rmodels", os.path.join(tmp, "rmodels"), "")):
        out = os.path.join(tmp, crate + ".json")
        env = dict(os.environ, LD_LIBRARY_PATH=root + "/lib", RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_CRATE=crate, MIRDUMP_OUT=out,
                   CARGO_TARGET_DIR=os.path.join(tmp, "target-" + crate), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        if flags:
            env["RUSTFLAGS"] = flags
        jobs.append((crate, out, subprocess.Popen(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=d, env=env,
                                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    dumps = []
    for crate, out, p in jobs:
        log = p.communicate()[0]
        if p.returncode or not os.path.exists(out):
            sys.stdout.write(log[-6000:])
            print("the source of %s could not be compiled" % crate)
            raise SystemExit(2)
        dumps.append(out)
    return dumps


def known_findings():
    out = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: "):
                p, _, key = l[len("finding: property="):].partition(" ")
                out.setdefault(p, []).append(key)
    return out


def decide(prop, dumps, tier, t0):
    from checks import all as checks
    from engine import conc, spec, vf
    lab = spec.Lab([json.load(open(d)) for d in dumps])
    lab.prop = prop
    lab.tier = tier
    lab.deadline = t0 + 300
    if tier == "thorough":
        lab.deadline, lab.audit, conc.DEEP = t0 + 3000, {}, 4
    missing, ran = [], []
    for name, props, fn in checks.SPECS:
        if prop not in props:
            continue
        lab.engine()
        n0, p0, u0 = lab.stats["obligations"], lab.stats["proved"], len(lab.undecided)
        t1 = time.time()
        note = ""
        try:
            fn(lab)
        except spec.Missing as e:
            missing.append((name, str(e)))
            note = "anchor missing: %s" % e
        except vf.Limit as e:
            lab.undecided.append((name, "analysis", "gave up: %s" % e))
            note = "gave up: %s" % e
        except Exception as e:      # an analysis that fails decides nothing
            import traceback
            lab.undecided.append((name, "analysis", "failed: %r" % e))
            note = "failed: %r %s" % (e, traceback.format_exc()[-600:])
        lab.flush()
        ran.append({"group": name, "obligations": lab.stats["obligations"] - n0, "proved": lab.stats["proved"] - p0,
                    "undecided": len(lab.undecided) - u0, "seconds": round(time.time() - t1, 2), "note": note})
    cross = None
    if tier == "thorough":
        lab.deadline = max(lab.deadline, time.time() + 900)
        cross = lab.cross_examine()
        for d in cross["disagreements"]:
            lab.undecided.append((prop, "equation that an instance contradicts", d))
    known = known_findings().get(prop, [])
    seen, viol = set(), []
    for f in lab.findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        if f.key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f.key))
            continue
        viol.append(f)
    if not ran or len(missing) == len(ran):
        # private items may be renamed or merged freely: that breaks no property, and nothing can be decided about them by name
        print("UNDECIDED property=%s nothing left to analyse: %s" % (prop, missing))
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for i, f in enumerate(viol):
        rp = os.path.join(ev, "%s-%d.replay.json" % (prop, i))
        json.dump({"property": prop, "where": f.where, "what": f.what, "detail": f.detail}, open(rp, "w"), indent=1, default=str)
        print("%s: %s: %s" % (prop, f.where, f.detail.get("problem", f.what)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    st = lab.stats
    samples = [{"where": u[0], "what": u[1], "why": u[2][:300]} for u in lab.undecided[:10]]
    json.dump({
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Path-sensitive value-flow analysis of the compiled program's MIR with loop closed forms; each obligation states "
                           "the value or effect a function must have on a set of its paths, and is discharged by normal forms under the path's facts. "
                           "Undecided obligations raise no alarm.",
            "functions_analysed": sorted(st["functions"]), "paths": st["paths"], "blocks_interpreted": st["steps"],
            "obligations_stated": st["obligations"], "obligations_discharged": st["proved"], "obligations_undecided": len(lab.undecided),
            "groups": ran, "undecided_samples": samples, **({"cross_examination": cross} if cross else {}), "checked_sites": lab.sites[:400], "missing_anchors": missing,
        },
        "violations": len(viol), "wall_s": round(time.time() - t0, 2),
        "assumptions": ["the models of core/alloc/libipld/quick-protobuf calls in engine/models.py and rmodels describe those libraries",
                        "rustc's MIR describes the program that is built"],
    }, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s: %d paths of %d functions, %d obligations, %d discharged, %d undecided, %d violations" % (
        prop, st["paths"], len(st["functions"]), st["obligations"], st["proved"], len(lab.undecided), len(viol)))
    if missing:
        print("%s: missing anchors: %s" % (prop, missing))
    return 1 if viol else 0


def main(a):
    t0 = time.time()
    tier = "quick"
    if "--thorough" in a:
        tier, a = "thorough", [x for x in a if x != "--thorough"]
    if a[0] == "--extract":
        os.makedirs(a[1], exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            for d in extract(tmp):
                shutil.copy(d, a[1])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if "--dumps" in a:
            i = a.index("--dumps")
            dumps = [os.path.join(a[i + 1], c + ".json") for c in ("unixfs_v1", "rmodels")]
            a = a[:i] + a[i + 2:]
        else:
            dumps = extract(tmp)
        if a[0] == "--all":
            from concurrent.futures import ProcessPoolExecutor
            props = a[1:] or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
            with ProcessPoolExecutor(7) as ex:
                rs = list(ex.map(decide_, [(p, dumps, tier) for p in props]))
            print("failed: %s" % [p for p, r in zip(props, rs) if r])
            return 1 if any(rs) else 0
        return decide(a[0], dumps, tier, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide_(x):
    try:
        return decide(x[0], x[1], x[2], time.time())
    finally:
        sys.stdout.flush()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
