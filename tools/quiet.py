#!/usr/bin/env python3
"""quiet.py [-j N] PATCH.diff [Cxx ...]: run the checks (all, or the named ones) against /repo with a
behaviour-preserving patch applied, in a private mount namespace as tools/bugs.py does, and print every check
that is not quiet.  An authoring aid: no check reads it or the patches under tools/refactor."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/nq"
args = sys.argv[1:]
J = 1
if args[:1] == ["-j"]:
    J = int(args[1]); args = args[2:]
patch = os.path.abspath(args[0])
ids = args[1:] or [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
slots = list(range(J))


def prepare(slot):
    d = "%s/%d" % (S, slot)
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        shutil.copy("/repo/Cargo.lock", d + "/repo/")
    subprocess.run(["git", "-C", d + "/repo", "fetch", "-q"], check=True)
    subprocess.run(["git", "-C", d + "/repo", "reset", "-q", "--hard", "origin/HEAD"], check=True)
    subprocess.run(["git", "-C", d + "/repo", "apply", patch], check=True)
    if shutil.which("rsync"):
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "build", "--exclude", ".git", HERE + "/", d + "/verif/"], check=True)
    else:
        os.makedirs(d + "/verif", exist_ok=True)
        for n in os.listdir(HERE):
            if n not in (".git", "build", "seeded"):
                subprocess.run(["cp", "-a", HERE + "/" + n, d + "/verif/"], check=True)
    return d


for s in slots:
    prepare(s)


def one(c):
    slot = slots.pop()
    try:
        d = "%s/%d" % (S, slot)
        p = subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 900 python3 check.py %s" % (d, d, c)],
                           capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        if p.returncode == 0 and "VIOLATION" not in p.stdout:
            print("%s quiet   %s" % (c, p.stdout.strip().splitlines()[-1][:120]), flush=True)
        else:
            print("%s ALARM   rc=%s\n%s\n%s" % (c, p.returncode, p.stdout[-2500:], p.stderr[-1500:]), flush=True)
    finally:
        slots.append(slot)


with cf.ThreadPoolExecutor(J) as ex:
    list(ex.map(one, ids))
