#!/usr/bin/env python3
"""bugs.py [-j N] [id ...]: run each planted bug's property check against it, in a private mount namespace
where /repo is a patched copy and /verif a copy of the committed state (build cache included)."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/ns"
args = sys.argv[1:]
J = 1
if args[:1] == ["-j"]:
    J = int(args[1]); args = args[2:]
ids = args or sorted(os.listdir(HERE + "/seeded"))


def prepare(slot):
    d = "%s/%d" % (S, slot)
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        shutil.copy("/repo/Cargo.lock", d + "/repo/")
    subprocess.run(["rsync" if shutil.which("rsync") else "cp"] + (["-a", "--delete", "--exclude", "build", "--exclude", ".git", HERE + "/", d + "/verif/"] if shutil.which("rsync") else ["-a", HERE, d + "/"]), check=True)
    return d


slots = list(range(J))


def one(i):
    slot = slots.pop()
    try:
        d = prepare(slot)
        m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", d + "/repo", "apply", "%s/seeded/%s/patch.diff" % (HERE, i)], check=True)
        p = subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && python3 check.py %s" % (d, d, m["property"])],
                           capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        hit = "VIOLATION property=%s " % m["property"] in p.stdout and p.returncode == 1
        first = [l for l in p.stdout.splitlines() if l.startswith("#")][:1] or p.stdout.splitlines()[-2:] or p.stderr.splitlines()[-2:]
        print("%-30s %s %s rc=%s %s" % (i, m["property"], "CAUGHT" if hit else "MISSED", p.returncode, first[0][:200] if first else ""), flush=True)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
    finally:
        slots.append(slot)


with cf.ThreadPoolExecutor(J) as ex:
    list(ex.map(one, ids))
