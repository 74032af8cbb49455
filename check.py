#!/usr/bin/env python3
"""Run the monitors of one property against /repo's working tree.

usage: check.py <ID> [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION line(s); 2: no verdict.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", HOME=e.get("HOME", "/root"), TZ="UTC")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("VERIF_LIST", "VERIF_ONLY", "VERIF_MODE", "VERIF_OUT", "GODEBUG", "GORACE"):
        e.pop(k, None)
    return e


def build(out, race):
    cmd = ["go", "test", "-c", "-vet=off"] + (["-race"] if race else []) + ["-o", out, "."]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("check: build failed")
        return False
    return True


def run_mode(tmp, prop, tier, seed, mode, only, limit):
    name = mode["name"]
    out = os.path.join(tmp, name + ".json")
    err = os.path.join(tmp, name + ".log")
    e = env()
    work = os.path.join(tmp, "cwd-" + name)
    os.makedirs(work, exist_ok=True)
    racelog = os.path.join(tmp, "race-" + name)
    e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_MODE=name, VERIF_OUT=out, VERIF_ONLY=only or "",
             GORACE="log_path=%s halt_on_error=0 exitcode=0 history_size=3" % racelog, GOTRACEBACK="all")
    binary = os.path.join(tmp, "race.test" if mode["race"] else "plain.test")
    t0 = time.time()
    timed_out = False
    with open(err, "w") as f:
        p = subprocess.Popen([binary, "-test.run", "^TestCheck$", "-test.timeout", "0"], cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = p.wait()
            timed_out = True
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    log = open(err, errors="replace").read()
    races = []
    for fn in glob.glob(racelog + ".*"):
        races += re.findall(r"WARNING: DATA RACE\n(.*?)\n={10,}", open(fn, errors="replace").read(), re.S)
    return dict(mode=name, rc=rc, res=res, log=log, races=races, timed_out=timed_out, wall=time.time() - t0)


def crash_excerpt(log):
    m = re.search(r"(?m)^(panic: |fatal error: |unexpected fault|SIGSEGV)", log)
    return log[m.start():m.start() + 12000] if m else None


def race_key(text):
    frames = re.findall(r"(?m)^  ((?:zntr\.io/solid|github\.com/patrickmn/go-cache)\S*)\(", text)
    seen = []
    for f in frames:
        if f not in seen:
            seen.append(f)
    return "race:" + "+".join(sorted(seen[:2])) if seen else None


def known(prop):
    found = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3)
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--mode")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    only = only_mode = None
    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier, only, only_mode = rep["seed"], rep["tier"], rep.get("label"), rep.get("mode")
        if str(rep.get("key", "")).startswith(("race", "crash")):
            only = None
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        sys.exit(run(a, tier, seed, only, only_mode or a.mode, tmp, t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, tier, seed, only, only_mode, tmp, t0):
    prop = a.prop
    if not build(os.path.join(tmp, "plain.test"), False):
        return 2
    e = env()
    e.update(VERIF_LIST="1", VERIF_PROP=prop)
    r = subprocess.run([os.path.join(tmp, "plain.test")], env=e, stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        print("check: unknown property", prop)
        return 2
    info = json.loads(r.stdout)
    modes = [m for m in info["Modes"] if not only_mode or m["name"] == only_mode]
    if any(m["race"] for m in modes) and not build(os.path.join(tmp, "race.test"), True):
        return 2
    limit = 700 if tier == "quick" else 3 * 3600
    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda m: run_mode(tmp, prop, tier, seed, m, only, limit), modes))

    violations, inconclusive = [], []
    ev, sigs, samples, events, dropped, nraces = 0, set(), [], {}, 0, 0
    for o in outs:
        res = o["res"]
        if res:
            ev += res["evaluations"]
            dropped += res["sigs_dropped"]
            sigs.update(o["mode"] + s for s in res["sigs"] or [])
            samples += [dict(mode=o["mode"], case=s) for s in (res["samples"] or [])[:4]]
            for k, v in (res["events"] or {}).items():
                events[o["mode"] + "/" + k] = v
            for v in res["violations"] or []:
                violations.append(dict(v, mode=o["mode"]))
            if res["inconclusive"]:
                inconclusive.append("%s: %s" % (o["mode"], res["inconclusive"]))
        if not (res and res["done"]):
            ex = crash_excerpt(o["log"])
            if ex and "zntr.io/solid/" in ex and not o["timed_out"]:
                violations.append(dict(key="crash", label="", msg="process crashed: " + ex.split("\n")[0], detail=ex, mode=o["mode"]))
            else:
                inconclusive.append("%s: child ended with %s%s\n%s" % (o["mode"], o["rc"], " (time limit)" if o["timed_out"] else "", (ex or o["log"])[-3000:]))
        seen = set()
        for text in o["races"]:
            k = race_key(text)
            nraces += 1
            if k is None:
                inconclusive.append("%s: data race inside the harness\n%s" % (o["mode"], text[:3000]))
            elif k not in seen:
                seen.add(k)
                violations.append(dict(key=k, label="", msg="data race", detail=text[:8000], mode=o["mode"]))
    if any(m["race"] for m in modes):
        events["race_reports"] = nraces

    kn = known(prop)
    bad, shown = [], set()
    for v in violations:
        if v["key"] in kn:
            if v["key"] not in shown:
                shown.add(v["key"])
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[v["key"]]))
        else:
            bad.append(v)

    coverage = dict(evaluations=ev, distinct_nontrivial=len(sigs), rule=info["Rule"], samples=samples or ["none"],
                    observed=dict(sorted(events.items())), modes=[dict(mode=o["mode"], wall_s=round(o["wall"], 2)) for o in outs])
    if dropped:
        coverage["signatures_not_counted"] = dropped
    if shown:
        coverage["known_findings_reproduced"] = sorted(shown)
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        evf = os.path.join(HERE, "evidence", prop + ".json")
        with open(evf + ".tmp", "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, level=info["Level"], coverage=coverage,
                           assumptions=info["Assumptions"] or [], wall_s=round(time.time() - t0, 2), violations=len(bad)), f, indent=1)
        os.replace(evf + ".tmp", evf)
    if bad:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(bad[:10]):
            path = os.path.join(rd, "%s-%s-%d.json" % (prop, v["mode"], i))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s: %s" % (v["key"], v["label"], v["msg"][:600]))
        return 1
    if inconclusive:
        for s in inconclusive[:5]:
            print("check: no verdict:", s)
        return 2
    print("ok property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, ev, len(sigs), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
