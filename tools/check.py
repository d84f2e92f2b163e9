#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source by static analysis.

exit 0: held on everything analysed; exit 1 with a VIOLATION line: broken.
Nothing of /repo is executed: the library is type-checked by a compiler driver that
writes its MIR, and the analyses work on that.
"""
import json, os, sys, time, subprocess, tempfile, shutil, traceback
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
REPO = os.environ.get("REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
DEADLINE = 780 if TIER == "quick" else 3000


def build_driver():
    exe = os.path.join(V, "driver/target/release/mirdump")
    src = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(V, "driver/src")) for f in fs]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in src):
        return
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(V, "driver"), env=env, check=True, stdout=sys.stderr)


def dump(work):
    out = os.path.join(work, "mir.json")
    r = subprocess.run([os.path.join(V, "tools/dump.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        sys.stderr.write(r.stdout[-4000:])
        print("the library does not type-check: nothing was analysed")
        sys.exit(2)
    return out


def known():
    out = {}
    for line in open(os.path.join(V, "known_findings.txt")):
        line = line.strip()
        if not line or line.startswith("#") or line.startswith("fixed:"):
            continue
        d = dict(x.split("=", 1) for x in line.split(" ", 3)[:3] if "=" in x)
        out[(d.get("property"), d.get("key"))] = line
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="check.", dir=os.path.join(V, "build"))
    try:
        build_driver()
        path = dump(work)
        import plans
        from mir import Missing
        try:
            plan = plans.plan(prop, path, REPO, work)
        except Missing as x:
            plans.floors = lambda *a: [plans.miss(prop, "anchor-missing", str(x))]
            return report(prop, [], [], t0, path)
        res = []
        late, skipped = [], []
        with cf.ProcessPoolExecutor(min(8, max(1, len(plan)))) as ex:
            fs = {ex.submit(fn, *a): label for label, fn, a in plan}
            try:
                for fu in cf.as_completed(fs, timeout=DEADLINE - (time.time() - t0)):
                    try:
                        r = fu.result()
                    except Exception:
                        r = dict(viol=[], ev={}, error="internal: " + traceback.format_exc(limit=3))
                    r["label"] = fs[fu]
                    res.append(r)
                    if prop in plans.SCAN and any(v["prop"] == prop for v in r["viol"]):
                        # one is enough; the long ones need not be waited for
                        skipped = [fs[f] for f in fs if not f.done()]
                        break
            except cf.TimeoutError:
                late = [fs[f] for f in fs if not f.done()]
            if late or skipped:
                for pr in list(getattr(ex, "_processes", {}).values()):
                    pr.kill()
        plans.post(prop, res, path)
        return report(prop, res, late, t0, path, skipped)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(prop, res, late, t0, path, skipped=()):
    import plans
    kf = known()
    viol, seen = [], set()
    for r in res:
        for v in r["viol"]:
            if v["prop"] != prop:
                continue
            key = "%s/%s" % (v["rule"], v["fn"].replace(" ", ""))
            if key in seen:
                continue
            seen.add(key)
            v["key"] = key
            viol.append(v)
    for v in plans.floors(prop, res, list(late) + list(skipped)):
        v["key"] = "%s/%s" % (v["rule"], v["fn"].replace(" ", ""))
        viol.append(v)
    undecided = ["%s: %s" % (r["label"], r["error"].strip().splitlines()[-1]) for r in res if r.get("error")] + ["%s: time limit" % x for x in late]
    cov = plans.coverage(prop, res)
    cov["undecided"] = undecided
    new = []
    for v in viol:
        if (prop, v["key"]) in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[(prop, v["key"])]))
        else:
            new.append(v)
    for u in undecided:
        print("UNDECIDED %s" % u)
    ev = dict(property=prop, tier=TIER, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
              assumptions=plans.ASSUMPTIONS.get(prop, []) + plans.COMMON, wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    rp = os.path.join(V, "build", "replay")
    os.makedirs(rp, exist_ok=True)
    for i, v in enumerate(new):
        fn = os.path.join(rp, "%s.%d.txt" % (prop, i))
        with open(fn, "w") as f:
            f.write("property  %s\nrule      %s\nfunction  %s\nplace     %s\nanalysed  %s\nkey       %s\n\n%s\n" % (prop, v["rule"], v["fn"], v["span"], v.get("root", ""), v["key"], v["msg"]))
            if v.get("stack"):
                f.write("\ncall path\n  " + "\n  ".join(v["stack"]) + "\n")
            if v.get("trace"):
                f.write("\npath (last events)\n  " + "\n  ".join(v["trace"]) + "\n")
        print("%s %s: %s [%s] in %s" % (v["span"], prop, v["msg"], v["rule"], v["fn"]))
        print("VIOLATION property=%s replay=%s" % (prop, fn))
    if not new:
        print("%s held on everything analysed (%s) in %.1f s" % (prop, cov.get("summary", ""), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
