#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-s START/STEP] [FILE...]: small mutants of the library, kept when they compile and pass its tests; which native
monitors notice each.  Authoring aid only (no check uses it).  Works in /tmp/mut on copies."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf, random, threading, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/mut"
FILES = ["algorithms", "container", "container_traits", "index_error", "indexing", "lib", "macro_utils", "pointer", "pointer_ext", "proof"]
BINS = ["c%02d" % i for i in range(1, 21)]

REPL = [  # (regex, replacements)
    (r"(?<![<>=!\-])<=(?!=)", ["<", "=="]), (r"(?<![<>=!\-])>=(?!=)", [">", "=="]),
    (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]),
    (r"(?<![=!<>])==(?!=)", ["!=", ">=", "<="]), (r"!=", ["=="]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r" / ", [" * "]), (r" \* ", [" + "]), (r" % ", [" / "]),
    (r"\+ 1\b", ["+ 2", "+ 0"]), (r"- 1\b", ["- 2", "- 0"]), (r"\+= 1\b", ["+= 2"]), (r"-= 1\b", ["-= 2"]),
    (r"/ 2\b", ["/ 3"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"&&", ["||"]), (r"\|\|(?! )", []), (r" \|\| ", [" && "]),
    (r"\.start\b(?!\()", [".end"]), (r"\.end\b(?!\()", [".start"]),
    (r"\bOk\(", []), (r"\bif (?!let)([^{]+) \{", [r"if !(\1) {", r"if true {", r"if false {"]),
    (r"\bwhile (?!let)([^{]+) \{", [r"while false {"]),
    (r"\bLess\b", ["Greater", "Equal"]), (r"\bGreater\b", ["Less", "Equal"]), (r"\bEqual\b", ["Less", "Greater"]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"\bfirst\(\)", ["last()"]), (r"\blast\(\)", ["first()"]),
    (r"\bwrapping_add\b", ["saturating_add", "wrapping_sub"]), (r"\bwrapping_sub\b", ["saturating_sub", "wrapping_add"]),
    (r"\bsaturating_sub\b", ["wrapping_sub"]), (r"\bchecked_add\(([^()]+)\)", [r"wrapping_add(\1).into()"]),
    (r"\.next\(\)", [".next_back()"]), (r"\.next_back\(\)", [".next()"]),
    (r"\.rev\(\)", [""]), (r"\blen\(\)", ["len() - 1", "len() + 1", "len().max(1)"]),
    (r"\bupper_half\b", ["lower_half"]), (r"\boffset\(([^()]+)\)", [r"offset(\1 + 1)"]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["3", "1"]),
    (r"\bstride\b", ["1"]), (r"\bsome\b", []), (r"\bbreak;", [""]), (r"\bcontinue;", [""]),
    (r"\bi, j\b", ["j, i", "i, i"]), (r"\bself, other\b", ["other, self"]),
    (r"\ba\b", ["b"]), (r"\bb\b", ["a"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]),
    (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bself\b(?=\.(start|end|index|len))", ["other"]),
    (r"\bstart\b(?![:(])", ["end"]), (r"\bend\b(?![:(])", ["start"]),
    (r"\bsplit_at\b", []), (r"\bsplit_after\b", ["split_at"]), (r"\bbefore\b", ["after"]), (r"\bafter\b", ["before"]),
    (r"\bget_unchecked_mut\b", []), (r"\bNonEmpty\b", ["Unknown"]), (r"\bUnknown\b", ["NonEmpty"]),
    (r"\bProofAdd::Sum\b", ["NonEmpty"]), (r"\bP::Sum\b", ["P"]),
]


def stripped(line):
    i = line.find("//")
    return line if i < 0 else line[:i]


def mutants():
    out = []
    for f in FILES:
        src = open("/repo/src/%s.rs" % f).read().split("\n")
        end = len(src)
        depth_skip = None
        for n, l in enumerate(src):
            if re.match(r"\s*#\[(cfg\(test\)|test)\]", l):
                depth_skip = n
                # skip the item that follows: to the first line that is "}" at column of the attribute
                col = len(l) - len(l.lstrip())
                end_n = next((m for m in range(n + 1, len(src)) if src[m].rstrip() == " " * col + "}"), len(src))
                depth_skip = (n, end_n)
            if depth_skip and depth_skip[0] <= n <= depth_skip[1]:
                continue
            code = stripped(l)
            if not code.strip() or code.strip().startswith(("#", "use ", "pub use", "extern", "debug_assert", "assert", "*", "/*")):
                continue
            seen = set()
            for rx, reps in REPL:
                for m in re.finditer(rx, code):
                    for r in reps:
                        new = code[:m.start()] + m.expand(r) + code[m.end():]
                        if new != code and new not in seen:
                            seen.add(new)
                            out.append((f, n, l, new))
            if code.rstrip().endswith(";") and not re.match(r"\s*(let|return|type|pub|fn|const|impl|where|struct|break|continue)\b", code):
                out.append((f, n, l, re.match(r"\s*", code).group(0) + ";"))
            # swap with the next statement
            if n + 1 < len(src) and code.rstrip().endswith(";") and stripped(src[n + 1]).rstrip().endswith(";") and len(code) - len(code.lstrip()) == len(src[n + 1]) - len(src[n + 1].lstrip()) and "fn " not in code and "use " not in code:
                out.append((f, n, l, src[n + 1] + "\n" + code, n + 1))
            # arguments swapped
            for m in re.finditer(r"\(([\w.&*]+), ([\w.&*]+)\)", code):
                if m.group(1) != m.group(2) and ":" not in m.group(0):
                    new = code[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + code[m.end():]
                    if new not in seen:
                        seen.add(new); out.append((f, n, l, new))
    return out


ENV = dict(os.environ, RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="0", RUST_BACKTRACE="0")


def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "timeout"


def prepare(slot):
    d = "%s/%d" % (S, slot)
    if not os.path.exists(d + "/repo"):
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", d + "/repo/")
    else:
        for f in FILES:
            shutil.copy("/repo/src/%s.rs" % f, d + "/repo/src/")
    if os.path.exists(d + "/harness"):
        shutil.rmtree(d + "/harness/src")
        shutil.copytree(HERE + "/harness/src", d + "/harness/src")
    else:
        shutil.copytree(HERE + "/harness", d + "/harness")
    s = open(HERE + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % d)
    open(d + "/harness/Cargo.toml", "w").write(s)
    return d


def judge(d, mu, jobs):
    f, n, old, new = mu[:4]
    path = d + "/repo/src/%s.rs" % f
    src = open("/repo/src/%s.rs" % f).read().split("\n")
    assert src[n] == old
    src[n] = new
    if len(mu) > 4:
        src[mu[4]] = ""
    r = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}
    open(path, "w").write("\n".join(src))
    try:
        rc, o = sh(["cargo", "build", "--offline", "-q", "--features", "experimental_pointer_ranges"], d + "/repo", 120)
        if rc != 0:
            r["state"] = "no build"; return r
        rc, o = sh(["cargo", "test", "--offline", "-q", "--features", "experimental_pointer_ranges", "--lib", "--tests"], d + "/repo", 60)
        if rc != 0:
            r["state"] = "tests"; return r
        rc, o = sh(["cargo", "test", "--offline", "-q", "--features", "experimental_pointer_ranges", "--doc", "--", "--skip", "copy_and_clone"], d + "/repo", 60)
        if rc != 0:
            r["state"] = "tests"; return r
        hits, msg = [], {}

        def run(b):
            rc, o = sh(["cargo", "build", "--offline", "-q", "--bin", b, "--features", "std,ptr", "--target-dir", d + "/target", "-j", str(jobs)], d + "/harness", 400, dict(ENV, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_OPT_LEVEL="1"))
            if rc != 0:
                return "does not compile"
            env = dict(ENV, VERIF_SEED="1", VERIF_TIER="quick", MON_TIME="2", MON_SCALE="200", MON_OUT=d + "/" + b + ".json")
            rc, o = sh([d + "/target/debug/" + b], d, 150, env)
            if rc is None:
                return "timeout"
            if rc == 0:
                rep = json.load(open(d + "/" + b + ".json"))
                if b == "c16":
                    known = set(re.findall(r"property=C16 key=(\S+)", open(HERE + "/KNOWN_FINDINGS").read()))
                    new = [k for k in rep["findings"] if k not in known]
                    return "finding " + new[0] if new else None
                return None
            m = re.search(r"MONITOR-VIOLATION (.*)", o)
            return "rc %s %s" % (rc, m.group(1)[:200] if m else o[-200:])
        first = {"algorithms": "c14 c16 c17 c18 c15 c20", "container": "c10 c09 c04 c06 c03 c01 c11 c12", "indexing": "c06 c05 c07 c08 c02 c13 c04", "pointer": "c19 c20", "pointer_ext": "c19 c20"}.get(f, "").split()
        for b in first + [b for b in BINS if b not in first]:
            m = run(b)
            if m:
                msg[b] = m
                if m != "timeout":
                    hits.append(b)
                    break
        r["state"] = "caught" if hits else "SURVIVED"
        r["hits"] = hits
        r["msg"] = msg
        return r
    finally:
        shutil.copy("/repo/src/%s.rs" % f, path)


def main():
    out = sys.argv[1]
    a = sys.argv[2:]
    J, start, step, files = 4, 0, 1, []
    while a:
        x = a.pop(0)
        if x == "-j": J = int(a.pop(0))
        elif x == "-s": start, step = map(int, a.pop(0).split("/"))
        else: files.append(x)
    ms = [m for m in mutants() if not files or m[0] in files]
    random.Random(7).shuffle(ms)
    ms = ms[start::step]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done]
    print(len(ms), "mutants", flush=True)
    if out == "-":
        return
    slots = list(range(J))
    for s in slots: prepare(s)
    lock = threading.Lock()

    def one(m):
        with lock: s = slots.pop()
        try:
            r = judge("%s/%d" % (S, s), m, max(1, 8 // J))
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
        except Exception as e:
            print("ERR", m, repr(e), flush=True)
        finally:
            with lock: slots.append(s)
    with cf.ThreadPoolExecutor(J) as ex:
        list(ex.map(one, ms))


if __name__ == "__main__":
    main()
