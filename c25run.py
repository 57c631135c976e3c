"""C25: record the same seeded workload in every build configuration and compare the records case by case."""
import concurrent.futures as cf
import os

FEATURES = [("no_std", ""), ("default", "std"), ("no_std and pointer ranges", "ptr"), ("std and pointer ranges", "std,ptr")]
# (name, optimised, debug assertions and overflow checks)
PROFILES = [("debug", 0, True), ("optimised with assertions", 3, True), ("unoptimised without assertions", 0, False), ("release", 3, False), ("size", "s", False)]


def run(pid, ck):
    base = os.path.join(ck.BUILD, "c25")
    rec = os.path.join(ck.BUILD, "run", "c25-%d" % os.getpid())
    os.makedirs(rec, exist_ok=True)
    inconclusive, violations = [], []
    configs = [(f, p) for p in PROFILES for f in FEATURES if ck.THOROUGH or p[0] != "size" or f[1] == "std,ptr"]

    def env_of(p):
        e = {"RUSTFLAGS": ck.LINT, "CARGO_PROFILE_RELEASE_OPT_LEVEL": str(p[1])}
        for k in ("DEBUG_ASSERTIONS", "OVERFLOW_CHECKS"):
            e["CARGO_PROFILE_RELEASE_" + k] = "true" if p[2] else "false"
        return e

    def one(c):
        (fname, feats), p = c
        name = "%s, %s" % (fname, p[0])
        tdir = os.path.join(base, "%s-%s-%d" % (feats.replace(",", "-") or "none", p[1], p[2]))
        cmd = ["cargo", "build", "--offline", "-q", "--release", "--manifest-path", os.path.join(ck.HARNESS, "Cargo.toml"), "--target-dir", tdir, "--bin", "c25", "--features", feats]
        rc, out, err = ck.run_proc(cmd, env=env_of(p), timeout=600)
        if rc != 0:
            return name, None, "build failed: " + ck.first_lines(err, 20), None
        exe = os.path.join(tdir, "release", "c25")
        leg = dict(kind="dev", name=name, shards=1, scale=250 if not ck.THOROUGH else 300, time=120 if not ck.THOROUGH else 400)
        recf = os.path.join(rec, name.replace(" ", "_").replace(",", ""))
        leg["env"] = {"MON_RECORD": recf}
        r = ck.Result(leg, 0)
        outfile, crumb = recf + ".json", recf + ".crumb"
        env = {"VERIF_SEED": str(ck.SEED), "VERIF_TIER": ck.TIER, "MON_SHARD": "0", "MON_SHARDS": "1", "MON_TIME": str(leg["time"]), "MON_SCALE": str(leg["scale"]),
               "MON_OUT": outfile, "MON_CRUMB": crumb, "MON_RECORD": recf}
        rc, out, err = ck.run_proc([exe], env=env, timeout=leg["time"] * 2 + 120, mem=6 << 30)
        ck.judge(r, rc, out, err, outfile, crumb)
        r.cmd, r.env = [exe], env
        d = {}
        if os.path.exists(recf):
            for l in open(recf):
                k, h, n = l.rstrip("\n").split("\t")
                d[k] = int(h, 16) if n != "0" else -1
        return name, d, r.inconclusive, r

    # what a configuration does when it dies is part of what is compared; anything it recorded before counts
    with cf.ThreadPoolExecutor(8) as pool:
        res = list(pool.map(one, configs))
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "monitor_events": {}, "legs": {},
           "rule": "One case is one history or algorithm input, run in every configuration that has the operation; its record (all positions, markers, flags, errors, "
                   "printed text, panics, contents) is compared between all of them. Distinct by case; trivial ones record nothing."}
    logs = []
    dead = []
    for name, d, inc, r in res:
        if inc:
            inconclusive.append("[%s] %s" % (name, inc))
        if r is None:
            continue
        if r.violations:
            dead.append((name, r.violations[0]))
        cov["legs"][name] = {"cases": len(d), "events": (r.report or {}).get("events", {}).get("events recorded", 0)}
        cov["evaluations"] += len(d)
        for k, v in (r.report or {}).get("events", {}).items():
            cov["monitor_events"][k] = cov["monitor_events"].get(k, 0) + v
        logs.append((name, d))
    diffs = []
    compared = nontrivial = everywhere = 0
    ks = set()
    for _, d in logs:
        ks.update(d)
    ks = sorted(ks)
    for k in ks:
        l = [d[k] for _, d in logs if k in d]
        if len(l) > 1:
            compared += 1
            nontrivial += l[0] != -1
            everywhere += len(l) == len(configs)
            if l.count(l[0]) != len(l):
                diffs.append(k)
    cov["distinct_nontrivial"] = nontrivial
    cov["monitor_events"]["cases compared between configurations"] = compared
    cov["monitor_events"]["cases compared in all %d configurations" % len(configs)] = everywhere
    cov["samples"] = [ks[i * len(ks) // 12] for i in range(12)] if ks else []
    if dead and len(dead) < len([r for r in res if r[3] is not None]):
        for name, v in dead[:2]:
            violations.append({"property": pid, "message": "only some configurations fail: [%s] %s" % (name, v), "how": "run c25 in that configuration"})
    elif dead:
        # every configuration fails the same way: the same observable result, but nothing was compared beyond it
        inconclusive += ["[%s] %s" % d for d in dead[:2]]
    exes = {name: (r.cmd[0], r.env) for name, d, inc, r in res if r is not None}
    for k in diffs[:3]:
        groups = {}
        for name, d in logs:
            if k in d:
                groups.setdefault(d[k], []).append(name)
        gs = sorted(groups.values(), key=lambda g: -len(g))
        texts = []
        for g in gs[:2]:
            exe, env = exes[g[0]]
            env = dict(env, MON_KEY=k, MON_EVENTS="1")
            env.pop("MON_RECORD", None)
            rc, out, err = ck.run_proc([exe], env=env, timeout=200)
            texts.append([l[3:] for l in out.splitlines() if l.startswith("EV ")])
        i = next((i for i, (a, b) in enumerate(zip(*texts)) if a != b), min(map(len, texts)) if len(texts) > 1 else 0)
        at = [t[i] if i < len(t) else "(end of the record)" for t in texts]
        violations.append({"property": pid, "key": k, "groups": gs,
                           "message": "%s differs between configurations: event %d is %s in [%s] and %s in [%s]; before it: %s" %
                                      (k, i, at[0], "; ".join(gs[0]), at[-1], "; ".join(gs[1]), texts[0][max(0, i - 3):i]),
                           "how": "MON_KEY='%s' MON_EVENTS=1 with the executables of both configurations (build/c25) prints the records" % k})
    for f in os.listdir(rec):
        os.remove(os.path.join(rec, f))
    os.rmdir(rec)
    if not violations and compared < 1000:
        inconclusive.append("only %d cases compared" % compared)
    return violations, inconclusive, cov
