#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's working tree.

usage: check.py <ID>        (VERIF_TIER, VERIF_SEED from the environment)
       check.py replay <file>

exit 0: held on everything explored; 1: VIOLATION printed; 3: inconclusive / error.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")
HARNESS = os.path.join(HERE, "harness")
T0 = time.time()
TARGET = "x86_64-unknown-linux-gnu"
LINT = "-A dangerous_implicit_autorefs -A warnings"

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
# hard end of the whole check; a quick check has 900 s
DEADLINE = T0 + (840 if not THOROUGH else 4 * 3600)

sys.path.insert(0, HERE)
from plan import PLAN, LEVEL_RULES  # noqa: E402

_procs = set()
_lock = threading.Lock()
_stop = threading.Event()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run_proc(cmd, env=None, cwd=None, timeout=None, mem=None, stop_ok=True):
    """-> (rc or None on timeout, stdout, stderr); its own process group."""
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS"):
        e.pop(k, None)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUST_BACKTRACE": "0"})
    e.update(env or {})

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    left = DEADLINE - time.time()
    if timeout is None or timeout > left:
        timeout = max(left, 1)
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=pre, errors="replace")
    with _lock:
        _procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        return None, out, err
    finally:
        with _lock:
            _procs.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def kill_all():
    with _lock:
        for p in list(_procs):
            kill(p)


# ------------------------------------------------------------------ legs

def leg_build_cmd(leg, binname):
    kind = leg["kind"]
    feats = leg.get("features", "std")
    cfg = []
    env = {}
    # one folder per feature set: cargo gives a program the same path whatever its features
    tdir = os.path.join(BUILD, leg.get("dir", kind + ("-" + feats.replace(",", "-") if feats != "std" else "")))
    base = ["build", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", tdir, "--bin", binname]
    if feats:
        base += ["--features", feats]
    if kind == "dev":
        cmd = ["cargo"] + base
        env["RUSTFLAGS"] = LINT
        exe = os.path.join(tdir, "debug", binname)
    elif kind == "release":
        cmd = ["cargo"] + base + ["--release"]
        env["RUSTFLAGS"] = LINT
        exe = os.path.join(tdir, "release", binname)
    elif kind == "asan":
        cmd = ["cargo", "+nightly"] + base + ["--release", "--target", TARGET]
        env["RUSTFLAGS"] = LINT + " -Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer"
        exe = os.path.join(tdir, TARGET, "release", binname)
    elif kind == "tsan":
        # the standard library is instrumented too: uninstrumented channels and locks give false races
        cmd = ["cargo", "+nightly"] + base + ["--release", "-Zbuild-std", "--target", TARGET]
        env["RUSTFLAGS"] = LINT + " -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
        exe = os.path.join(tdir, TARGET, "release", binname)
    elif kind == "miri":
        cmd = ["cargo", "+nightly", "miri"] + ["run" if x == "build" else x for x in base]
        env["RUSTFLAGS"] = LINT
        env["MIRIFLAGS"] = leg["miriflags"] + " -Zmiri-disable-isolation"
        if leg.get("schedule"):
            env["MIRIFLAGS"] += " -Zmiri-preemption-rate=%s -Zmiri-seed=%d" % (leg["schedule"], SEED * 1000 + leg.get("shard_no", 0))
        return cmd, env, None
    else:
        raise SystemExit("bad leg kind " + kind)
    return cmd, env, exe


MIRI_BAD = re.compile(r"error: (Undefined Behavior|memory leaked|abnormal termination|the evaluated program|deadlock)")


class Result:
    def __init__(self, leg, shard):
        self.leg, self.shard = leg, shard
        self.report = None
        self.violations = []   # (message)
        self.inconclusive = None
        self.cmd = None
        self.env = None


def parse_report(out):
    for line in out.splitlines():
        if line.startswith("MONREPORT "):
            return json.loads(line[len("MONREPORT "):])
    return None


def crumb_text(path):
    try:
        b = open(path, "rb").read()
        seq = int.from_bytes(b[0:8], "little")
        nb, na = b[8], b[9]
        wl = b[16:16 + nb].decode()
        args = [int.from_bytes(b[128 + 16 * i:144 + 16 * i], "little", signed=True) for i in range(na)]
        return "case %d %s%s" % (seq, wl, args) if wl else "before any case"
    except Exception:
        return "unknown case"


def first_lines(s, n=14):
    keep = [l for l in s.splitlines() if l.strip()]
    return "\n".join(keep[:n])[:1800]


def judge(r, rc, out, err, outfile, crumb):
    kind = r.leg["kind"]
    if outfile and os.path.exists(outfile):
        try:
            r.report = json.load(open(outfile))
        except Exception:
            r.report = None
    if r.report is None:
        r.report = parse_report(out)
    if r.report and r.report["violations"]:
        r.violations += r.report["violations"]
        return
    if kind == "miri":
        m = MIRI_BAD.search(err)
        if m:
            last = [l for l in err.splitlines() if l.startswith("CASE ")]
            i = err.find(m.group(0))
            r.violations.append("Miri: %s [%s]" % (first_lines(err[i:], 12), last[-1] if last else "?"))
            return
        if rc == 0 and r.report:
            return
        r.inconclusive = "miri leg ended with %s: %s" % (rc, first_lines(err[-1500:]))
        return
    if "ERROR: AddressSanitizer" in err or "WARNING: ThreadSanitizer" in err:
        i = err.find("Sanitizer")
        r.violations.append("sanitizer report in %s: %s" % (crumb_text(crumb), first_lines(err[max(0, i - 60):])))
        return
    if rc is None:
        r.inconclusive = "timeout in " + crumb_text(crumb)
    elif rc == 33 and "HANG" in err:
        r.violations.append("does not terminate: %s" % crumb_text(crumb))
    elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP):
        if "memory allocation of" in err:
            r.inconclusive = "out of memory in " + crumb_text(crumb)
        else:
            r.violations.append("process died by signal %d in %s: %s" % (-rc, crumb_text(crumb), first_lines(err, 6)))
    elif rc == 0 and r.report:
        return
    else:
        r.inconclusive = "process ended with %s in %s: %s" % (rc, crumb_text(crumb), first_lines(err[-1200:]))


def run_leg_shard(pid, leg, shard, binname, built):
    r = Result(leg, shard)
    if _stop.is_set():
        r.inconclusive = "stopped"
        return r
    kind = leg["kind"]
    shards = leg.get("shards", 1)
    leg = dict(leg, shard_no=shard + leg.get("shard_base", 0))
    secs = leg.get("time", (90 if kind == "miri" else 40) if not THOROUGH else 240)
    name = leg["name"]
    tmp = os.path.join(BUILD, "run", "%s-%s-%d-%d" % (pid, name, shard, os.getpid()))
    os.makedirs(os.path.dirname(tmp), exist_ok=True)
    outfile, crumb = tmp + ".json", tmp + ".crumb"
    for f in (outfile, crumb):
        if os.path.exists(f):
            os.remove(f)
    env = {"VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "MON_SHARD": str(shard), "MON_SHARDS": str(shards),
           "MON_TIME": str(secs), "MON_SCALE": str(leg.get("scale", 100)), "MON_OUT": outfile, "MON_CRUMB": crumb,
           "MON_TRACE": "1"}
    env.update(leg.get("env", {}))
    cmd, benv, exe = leg_build_cmd(leg, binname)
    hard = leg.get("hard", secs * 4 + 240)
    mem = None
    if kind == "miri":
        env.update(benv)
    else:
        cmd = [exe]
        if kind in ("dev", "release"):
            mem = 12 << 30
        env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:report_signal_unsafe=0"
    r.cmd, r.env = cmd, env
    rc, out, err = run_proc(cmd, env=env, timeout=hard, mem=mem)
    if _stop.is_set() and rc in (None, -9):
        r.inconclusive = "stopped"
    else:
        judge(r, rc, out, err, outfile, crumb)
    for f in (outfile, crumb):
        if os.path.exists(f):
            os.remove(f)
    return r


class Rejected(str):
    pass


def build_leg(leg, binname):
    cmd, env, exe = leg_build_cmd(leg, binname)
    if leg["kind"] == "miri":
        return None
    rc, out, err = run_proc(cmd, env=env, timeout=700)
    if rc != 0 and leg.get("typed") and rc is not None and re.search(r"could not compile `mon`", err) and re.search(r"error\[E0(277|308|599|282|283|271|61|432|412|425|433)\]", err):
        # the library compiles, the well-typed programs of the monitor against it do not
        return Rejected("programs within the rules are rejected by the compiler (%s build): %s" % (leg["name"], first_lines(err, 16)))
    if rc != 0:
        return "build of %s failed (%s): %s" % (leg["name"], rc, first_lines(err, 40))
    return None


# ------------------------------------------------------------------ known findings

def known_findings(pid):
    """-> list of (key, text) of unrepaired findings."""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------ verdict

def write_replay(pid, n, d):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, "%s-%d.json" % (pid, n))
    json.dump(d, open(path, "w"), indent=1)
    return path


def write_evidence(pid, cov, nviol, level):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": PLAN[pid].get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, sort_keys=True)


def finish(pid, violations, inconclusive, cov, level):
    """violations: list of dicts for the replay files."""
    write_evidence(pid, cov, len(violations), level)
    if violations:
        for i, v in enumerate(violations[:5]):
            path = write_replay(pid, i, v)
            print("# " + v["message"].replace("\n", "\n#   ")[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if inconclusive:
        for m in inconclusive[:6]:
            print("INCONCLUSIVE property=%s %s" % (pid, m.replace("\n", " | ")[:1500]), flush=True)
        return 3
    print("OK property=%s tier=%s seed=%d evaluations=%s distinct=%s wall=%.1fs" %
          (pid, TIER, SEED, cov.get("evaluations"), cov.get("distinct_nontrivial"), time.time() - T0), flush=True)
    return 0


def monitor_check(pid, extra=None):
    plan = PLAN[pid]
    legs = [dict(l) for l in plan["legs"] if THOROUGH or not l.get("thorough_only")]
    for l in legs:
        l.setdefault("name", l["kind"])
        l.setdefault("typed", plan.get("typed", False))
        if THOROUGH and "thorough" in l:
            l.update(l["thorough"])
    violations, inconclusive = [], []
    results = []
    with cf.ThreadPoolExecutor(16) as pool, cf.ThreadPoolExecutor(9) as runpool:
        def whole(leg):
            e = build_leg(leg, leg.get("bin", plan.get("bin")))
            if e:
                return e, []
            fs = [runpool.submit(run_leg_shard, pid, leg, s, leg.get("bin", plan.get("bin")), None) for s in range(leg.get("shards", 1))]
            rs = []
            for f in fs:
                r = f.result()
                rs.append(r)
                if r.violations and not _stop.is_set():
                    # one witness is enough: give the others a moment, then stop them
                    threading.Timer(8, lambda: (_stop.set(), kill_all())).start()
            return None, rs
        futs = [pool.submit(whole, l) for l in legs]
        if extra:
            futs.append(pool.submit(extra))
        for f in futs:
            e, rs = f.result()
            if isinstance(e, Rejected):
                violations.append({"property": pid, "message": str(e), "how": "build the harness (harness/) against the tree"})
            elif e:
                inconclusive.append(e)
            results += rs
    _stop.set()
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": plan.get("rule", ""), "samples": [], "monitor_events": {}, "legs": {}, "workloads": {}}
    per_leg = {}
    known = dict(known_findings(pid))
    seen_known = {}
    for r in results:
        name = r.leg["name"]
        for v in r.violations:
            violations.append({"property": pid, "message": "[%s] %s" % (name, v), "leg": r.leg, "shard": r.shard, "tier": TIER, "seed": SEED,
                               "cmd": r.cmd, "env": r.env,
                               "how": "python3 check.py replay <this file>  (rebuilds the leg and runs the recorded case)"})
        for k, v in sorted(((r.report or {}).get("findings") or {}).items()):
            if k in known:
                if k not in seen_known:
                    seen_known[k] = v
            else:
                violations.append({"property": pid, "message": "[%s] [key=%s] %s" % (name, k, v), "leg": r.leg, "shard": r.shard, "tier": TIER, "seed": SEED,
                                   "cmd": r.cmd, "env": r.env, "key": k,
                                   "how": "python3 check.py replay <this file>  (rebuilds the leg and runs the recorded case)"})
        if r.inconclusive and r.inconclusive != "stopped":
            inconclusive.append("[%s/%d] %s" % (name, r.shard, r.inconclusive))
        if r.report:
            d = per_leg.setdefault(name, {"evaluations": 0, "distinct": 0, "processes": 0, "max_wall": 0})
            d["evaluations"] += r.report["evaluations"]
            d["distinct"] += r.report["distinct"]
            d["processes"] += 1
            d["max_wall"] = max(d["max_wall"], r.report["wall"])
            cov["evaluations"] += r.report["evaluations"]
            for k, v in r.report["events"].items():
                cov["monitor_events"][k] = cov["monitor_events"].get(k, 0) + v
            for k, (n, s) in r.report["workloads"].items():
                w = cov["workloads"].setdefault(k, {"cases": 0})
                w["cases"] += n
                if len(cov["samples"]) < 40 and s and s not in cov["samples"] and sum(1 for x in cov["samples"] if x.startswith(k + "[")) < 2:
                    cov["samples"].append(s)
            for n in r.report["notes"][:4]:
                cov.setdefault("notes", [])
                if len(cov["notes"]) < 20 and n not in cov["notes"]:
                    cov["notes"].append(n)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, known[k]), flush=True)
    if seen_known:
        cov["known_findings_observed"] = {k: v[:300] for k, v in seen_known.items()}
    cov["legs"] = per_leg
    cov["distinct_nontrivial"] = max([d["distinct"] for d in per_leg.values()] or [0])
    if not violations:
        for l in legs:
            if l["name"] not in per_leg or per_leg[l["name"]]["evaluations"] == 0:
                inconclusive.append("leg %s observed nothing" % l["name"])
        for ev in plan.get("must_observe", []):
            if cov["monitor_events"].get(ev, 0) == 0:
                inconclusive.append("monitor event never observed: " + ev)
    return violations, inconclusive, cov


def setup():
    """Prove the toolchain works offline: build one monitor in every configuration."""
    for leg in (dict(kind="dev"), dict(kind="release"), dict(kind="asan"), dict(kind="tsan")):
        e = build_leg(dict(leg, name=leg["kind"]), "c03")
        if e:
            print(e)
            return 3
    rc, out, err = run_proc(["cargo", "+nightly", "miri", "setup"], timeout=900)
    print(first_lines(out + err, 5))
    return 0 if rc == 0 else 3


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        if "leg" not in d:
            print(d.get("how"))
            return 0
        os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(d["seed"]), d["tier"]
        e = build_leg(d["leg"], d["leg"].get("bin", PLAN[d["property"]].get("bin")))
        if e:
            print(e)
            return 3
        env = dict(d["env"])
        m = re.search(r"case (\d+) ", d["message"]) or re.search(r"CASE (\d+) ", d["message"])
        if m:
            env["MON_CASE"] = m.group(1)
        env["MON_VERBOSE"] = "1"
        env.pop("MON_OUT", None)
        rc, out, err = run_proc(d["cmd"], env=env)
        print(out[-4000:])
        print(err[-6000:])
        print("exit", rc)
        return 0
    if sys.argv[1] == "setup":
        return setup()
    pid = sys.argv[1]
    plan = PLAN[pid]
    level = plan.get("level", "exploration")
    if "runner" in plan:
        import importlib
        mod = importlib.import_module(plan["runner"])
        violations, inconclusive, cov = mod.run(pid, sys.modules[__name__])
    else:
        violations, inconclusive, cov = monitor_check(pid)
    return finish(pid, violations, inconclusive, cov, level)


if __name__ == "__main__":
    sys.modules.setdefault("check", sys.modules["__main__"])
    rc = 3
    try:
        rc = main()
    finally:
        kill_all()
    sys.stdout.flush()
    os._exit(rc)
