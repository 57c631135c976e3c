#!/usr/bin/env python3
"""plant.py DEFS.py [id ...]: write /verif/seeded/<id>/ from definitions and confirm each in a scratch copy.

DEFS.py defines BUGS: list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo=<rust main.rs>
 or demo_accept/demo_reject (programs), features, profile ("dev"/"release"), miri (flags)).
Used at authoring time only; no check reads it.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCR = "/tmp/plant"

RUN = r'''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken.   (cwd: the repository)
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d)
mkdir "$T/src"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies.indexing]
path = "$R"
default-features = false
features = [@FEATURES@]
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings"
go() { # go PROGRAM COMMAND...
    cp "$D/$1" "$T/src/main.rs"; shift
    timeout 280 "$@" --offline -q --manifest-path "$T/Cargo.toml" --target-dir "$T/target"
}
'''
PLAIN = 'go demo.rs cargo run @REL@\n'
MIRI = 'export MIRIFLAGS="@FLAGS@ -Zmiri-disable-isolation"\ngo demo.rs cargo +nightly miri run\n'
REJECT = r'''go accepted.rs cargo run || { echo "program within the rules is rejected or fails"; exit 2; }
[ -e "$D/forbidden.rs" ] || exit 0
if go forbidden.rs cargo build 2> "$T/err"; then
    echo "forbidden program is accepted"; "$T/target/debug/demo"; exit 1
fi
if ! grep -q '^error' "$T/err"; then cat "$T/err"; echo "no verdict"; exit 3; fi
exit 0
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def scratch():
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    os.makedirs(SCR)
    sh(["git", "-C", "/repo", "worktree", "prune"])
    rc, o = sh(["git", "clone", "-q", "/repo", SCR + "/repo"])
    assert rc == 0, o
    for d in ("target",):
        if os.path.exists("/repo/" + d):
            sh(["cp", "-a", "/repo/" + d, SCR + "/repo/"])
    if not os.path.exists(SCR + "/repo/Cargo.lock") and os.path.exists("/repo/Cargo.lock"):
        sh(["cp", "/repo/Cargo.lock", SCR + "/repo/"])
    os.makedirs(SCR + "/vp")
    for f in ("env.sh", "build.sh", "test.sh", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", SCR + "/repo").replace("/opt/vp", SCR + "/vp")
        open(SCR + "/vp/" + f, "w").write(s)


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    scratch()
    R = SCR + "/repo"
    tmp = SCR + "/tmp"
    for b in defs:
        if only and b["id"] not in only:
            continue
        sh(["git", "checkout", "-q", "--", "."], cwd=R)
        for f, old, new in b["edits"]:
            s = open(os.path.join(R, f)).read()
            n = s.count(old)
            if n != 1:
                print(b["id"], "EDIT", "matches", n, old[:60]); break
            open(os.path.join(R, f), "w").write(s.replace(old, new))
        else:
            rc, diff = sh(["git", "diff"], cwd=R)
            d = os.path.join(SEEDED, b["id"])
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            open(d + "/patch.diff", "w").write(diff)
            feats = ", ".join('"%s"' % x for x in b.get("features", ["use_std", "experimental_pointer_ranges"]))
            s = RUN.replace("@FEATURES@", feats)
            if "accepted" in b:
                open(d + "/accepted.rs", "w").write(b["accepted"])
                if b.get("forbidden"):
                    open(d + "/forbidden.rs", "w").write(b["forbidden"])
                s += REJECT
            else:
                open(d + "/demo.rs", "w").write(b["demo"])
                if "miri" in b:
                    s += MIRI.replace("@FLAGS@", b["miri"])
                else:
                    s += PLAIN.replace("@REL@", "--release" if b.get("profile") == "release" else "")
            open(d + "/demo.sh", "w").write(s)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            rc, o = sh(["bash", SCR + "/vp/build.sh"])
            if rc:
                print(b["id"], "DOES NOT BUILD", o[-1500:]); continue
            rc, o = sh(["bash", SCR + "/vp/test.sh", SCR + "/out.json"])
            passed = set(json.load(open(SCR + "/out.json"))["passed"])
            miss = stable - passed
            os.makedirs(tmp, exist_ok=True)
            rc1, o1 = sh(["bash", d + "/demo.sh"], cwd=R, env={"TMPDIR": tmp})
            sh(["git", "checkout", "-q", "--", "."], cwd=R)
            rc0, o0 = sh(["bash", d + "/demo.sh"], cwd=R, env={"TMPDIR": tmp})
            shutil.rmtree(tmp)
            ok = not miss and rc0 == 0 and rc1 != 0
            print(b["id"], "OK" if ok else "BAD", "missing=%s clean=%d patched=%d" % (sorted(miss)[:4], rc0, rc1), flush=True)
            print("    " + "\n    ".join(o1.strip().splitlines()[-4:]))
            if rc0:
                print("  clean: " + o0[-800:])
            if not ok:
                shutil.rmtree(d)
    sh(["git", "checkout", "-q", "--", "."], cwd=R)


main()
