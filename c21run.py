"""C21-C23: attack programs against the library as it is now, and their nearest counterparts within the rules.

A counterpart must compile, run to its end natively and be free of undefined behaviour in the interpreter.
An attack program must obtain no execution; one that does is executed natively and in the interpreter, and what
was observed is the witness.
"""
import concurrent.futures as cf
import os, re, shutil
import progs

BATCHES = 8
MAIN = """
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let only = std::env::var("ONLY").ok();
    for (n, f) in ALL {
        if only.as_ref().map_or(false, |o| o != n) { continue }
        println!("RUN {}", n);
        if let Err(e) = std::panic::catch_unwind(*f) {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("PANIC {}: {}", n, m);
        }
    }
    println!("END");
}
"""
CARGO = """[package]
name = "witness"
version = "0.1.0"
edition = "2021"
publish = false
[dependencies]
indexing = { path = "%s", default-features = false, features = ["use_std", "experimental_pointer_ranges"] }
[profile.dev]
opt-level = 0
debug = 0
incremental = false
[workspace]
"""


def whole(src):
    return "#![allow(warnings)]\n" + progs.PRE + src + "\nfn main() { run() }\n"


def batch(ps):
    out = ["#![allow(warnings)]"]
    for i, (name, src) in enumerate(ps):
        out.append("mod p%d {%s%s\n}" % (i, progs.PRE, src))
    out.append("static ALL: &[(&str, fn())] = &[%s];" % ", ".join('("%s", p%d::run)' % (n.replace('"', "'"), i) for i, (n, _) in enumerate(ps)))
    return "\n".join(out) + MAIN


def codes(err):
    return sorted(set(re.findall(r"error\[(E\d+)\]", err))) or ["other" if "error" in err else "none"]


class Lab:
    def __init__(self, pid, ck):
        self.ck = ck
        self.dir = os.path.join(ck.BUILD, pid.lower())
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        os.makedirs(os.path.join(self.dir, "one"))
        open(os.path.join(self.dir, "Cargo.toml"), "w").write(CARGO % ck.REPO)
        open(os.path.join(self.dir, "src", "lib.rs"), "w").write("pub use indexing;\n")
        self.target = os.path.join(self.dir, "target")

    def cargo(self, cmd, extra, env=None, timeout=None):
        e = {"RUSTFLAGS": self.ck.LINT}
        e.update(env or {})
        return self.ck.run_proc(["cargo"] + cmd + ["--offline", "-q", "--manifest-path", os.path.join(self.dir, "Cargo.toml"), "--target-dir", self.target] + extra, env=e, timeout=timeout)

    def library(self):
        rc, out, err = self.cargo(["build"], ["--lib"])
        if rc != 0:
            return "the library does not build: " + self.ck.first_lines(err, 20)
        deps = os.path.join(self.target, "debug", "deps")
        self.rlib = [os.path.join(deps, f) for f in os.listdir(deps) if re.match(r"libindexing-[0-9a-f]+\.rlib$", f)]
        return None if len(self.rlib) == 1 else "library artefact not found"

    def rustc(self, i, src, emit):
        f = os.path.join(self.dir, "one", "w%d.rs" % i)
        open(f, "w").write(whole(src))
        exe = f[:-3] + (".rmeta" if emit == "metadata" else ".exe")
        cmd = ["rustc", "--edition", "2021", "--crate-name", "w%d" % i, "--crate-type", "bin", "--emit", emit, "-A", "warnings", "--extern", "indexing=" + self.rlib[0],
               "-L", "dependency=" + os.path.dirname(self.rlib[0]), "-o", exe, f]
        rc, out, err = self.ck.run_proc(cmd, timeout=120)
        if emit == "metadata" and os.path.exists(exe):
            os.remove(exe)
        if rc not in (0, 1):
            err += "\ncompiler ended with %s" % rc
        return rc, err, exe

    def miri(self, name, only=None, timeout=None):
        env = {"MIRIFLAGS": "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation", "RUSTUP_TOOLCHAIN": "nightly"}
        if only:
            env["ONLY"] = only
        return self.ck.run_proc(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(self.dir, "Cargo.toml"), "--target-dir", self.target, "--bin", name],
                                env=dict(env, RUSTFLAGS=self.ck.LINT), timeout=timeout)


def run(pid, ck):
    violations, inconclusive = [], []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "monitor_events": {}, "legs": {}, "rule": ck.PLAN[pid]["rule"]}
    ev = cov["monitor_events"]

    def count(k, n=1):
        ev[k] = ev.get(k, 0) + n
    lab = Lab(pid, ck)
    e = lab.library()
    if e:
        return violations, [e], cov
    all_ = progs.programs(pid)
    attacks = [(n, progs.pick(s, True)) for n, s in all_ if "\x01" in s]
    controls, seen = [], set()
    for n, s in all_:
        c = progs.pick(s, False)
        if c not in seen:
            seen.add(c)
            controls.append((n, c))

    def violate(name, msg, src, **k):
        violations.append(dict({"property": pid, "program": name, "source": whole(src), "message": "%s: %s" % (name, msg),
                                "how": "compile the source against the library (features use_std, experimental_pointer_ranges) and run it natively and under Miri"}, **k))
    # ---- counterparts
    groups = [controls[i::BATCHES] for i in range(BATCHES)]

    def put(i, ps):
        open(os.path.join(lab.dir, "src", "bin", "b%d.rs" % i), "w").write(batch(ps))

    def one_control(x):
        i, (n, s) = x
        rc, err, _ = lab.rustc(100000 + i, s, "metadata")
        return n, s, rc, err

    for i, ps in enumerate(groups):
        put(i, ps)
    with cf.ThreadPoolExecutor(8) as pool:
        rc, out, err = lab.cargo(["build"], ["--bins"])
        if rc is None:
            return violations, ["building the counterparts timed out"], cov
        if rc != 0:
            bad = set()
            for n, s, rc1, err1 in pool.map(one_control, list(enumerate(controls))):
                if rc1 == 1:
                    bad.add(n)
                    count("counterparts refused")
                    violate(n, "a program within the rules is rejected by the compiler: " + ck.first_lines(err1, 14), s)
                elif rc1 != 0:
                    inconclusive.append("%s: %s" % (n, ck.first_lines(err1[-600:])))
            if not bad:
                return violations, inconclusive + ["the counterparts do not build together: " + ck.first_lines(err, 20)], cov
            groups = [[p for p in g if p[0] not in bad] for g in groups]
            for i, ps in enumerate(groups):
                put(i, ps)
            rc, out, err = lab.cargo(["build"], ["--bins"])
            if rc != 0:
                return violations, inconclusive + ["the counterparts do not build: " + ck.first_lines(err, 20)], cov

        def judge(i, how, res):
            rc, out, err = res
            lines = out.splitlines()
            runs = [l[4:] for l in lines if l.startswith("RUN ")]
            src = {n.replace('"', "'"): s for n, s in groups[i]}
            last = runs[-1] if runs else None
            for l in lines:
                if l.startswith("PANIC "):
                    n = next((n for n in src if l[6:].startswith(n + ": ")), last)
                    violate(n, "a program within the rules panics (%s): %s" % (how, l), src[n])
            if rc == 0 and lines and lines[-1] == "END":
                return runs
            m = ck.MIRI_BAD.search(err)
            if how == "Miri" and m:
                violate(last, "a program within the rules: Miri: " + ck.first_lines(err[err.find(m.group(0)):], 12), src.get(last, ""))
            elif how != "Miri" and rc is not None and rc < 0:
                violate(last, "a program within the rules died by signal %d" % -rc, src.get(last, ""))
            else:
                inconclusive.append("batch %d (%s) ended with %s in %s: %s" % (i, how, rc, last, ck.first_lines(err[-1000:])))
            return runs

        def native(i):
            return judge(i, "native", ck.run_proc([os.path.join(lab.target, "debug", "b%d" % i)], timeout=120, mem=6 << 30))

        def interp(i):
            return judge(i, "Miri", lab.miri("b%d" % i))

        def attack(x):
            i, (n, s) = x
            return n, s, lab.rustc(i, s, "metadata")
        nat = pool.map(native, range(BATCHES))
        first = pool.submit(interp, 0)
        atk = [pool.submit(attack, x) for x in enumerate(attacks)]
        first.result()
        itp = [first] + [pool.submit(interp, i) for i in range(1, BATCHES)]
        ran = sum(map(len, nat))
        accepted = []
        for f in atk:
            n, s, (rc, err, _) = f.result()
            if rc == 1:
                count("attack programs refused")
                for c in codes(err):
                    count("refused with " + c)
            elif rc == 0:
                count("attack programs accepted")
                accepted.append((n, s))
            else:
                inconclusive.append("%s: %s" % (n, ck.first_lines(err[-600:])))
        count("counterparts executed", ran)
        count("counterparts interpreted", sum(len(f.result()) for f in itp))
    # ---- attacks which got an execution
    for k, (n, s) in enumerate(accepted):
        seen = "not executed"
        if k < 6:
            rc, err, exe = lab.rustc(k, s, "link")
            if rc == 0:
                rc, out, err = ck.run_proc([exe], timeout=30, mem=4 << 30)
                seen = "native run ended with %s%s" % (rc, ": " + ck.first_lines(err, 4) if err.strip() else "")
            open(os.path.join(lab.dir, "src", "bin", "attack%d.rs" % k), "w").write(whole(s))
            rc, out, err = lab.miri("attack%d" % k, timeout=90)
            m = ck.MIRI_BAD.search(err)
            seen += "; in Miri: " + (ck.first_lines(err[err.find(m.group(0)):], 10) if m else "ended with %s" % rc)
        violate(n, "a program that breaks the rules is accepted (%s)" % seen, s)
    cov["evaluations"] = len(attacks) + len(controls)
    cov["distinct_nontrivial"] = len({s for _, s in attacks}) + len(controls)
    step = max(1, len(attacks) // 30)
    cov["samples"] = ["attack: " + n for n, _ in attacks[::step]] + ["accepted and executed: " + n for n, _ in controls[::max(1, len(controls) // 10)]]
    cov["legs"] = {"compiler": {"attack programs": len(attacks)}, "native": {"programs": len(controls)}, "Miri": {"programs": len(controls)}}
    if not violations and (ev.get("counterparts executed", 0) != len(controls) or ev.get("counterparts interpreted", 0) != len(controls)):
        inconclusive.append("only %s of %d counterparts executed, %s interpreted" % (ev.get("counterparts executed"), len(controls), ev.get("counterparts interpreted")))
    for f in os.listdir(os.path.join(lab.dir, "one")):
        os.remove(os.path.join(lab.dir, "one", f))
    return violations, inconclusive, cov
