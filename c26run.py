"""C26: every operation in an interpreter process of its own (Tree Borrows), because the interpreter stops at the
first undefined behaviour; plus the monitors of other properties under the same interpreter."""
import concurrent.futures as cf
import re
from plan import miri, TREE, NOALIAS, dev

ALIAS = re.compile(r"Undefined Behavior: .*(is forbidden|Tree Borrows)|help: .*Tree Borrows")


def run(pid, ck):
    leg = miri(1, flags=TREE, features="std,ptr", bin="c26", name="per operation", hard=300)

    seq = {}

    def extra():
        d = dev(1, features="std,ptr", bin="c26")
        d["name"] = "list"
        e = ck.build_leg(d, "c26")
        if e:
            return e, []
        _, _, exe = ck.leg_build_cmd(d, "c26")
        rc, out, err = ck.run_proc([exe], env={"MON_OP": "list"}, timeout=60)
        ops = [l.split(" ", 2)[1:] for l in out.splitlines() if l.startswith("OP ")]
        if rc != 0 or len(ops) < 40:
            return "the list of operations could not be read", []
        seq.update({o[1]: i for i, o in enumerate(ops)})
        # the first one also compiles
        results = [one(*ops[0])]
        with cf.ThreadPoolExecutor(8) as pool:
            results += list(pool.map(lambda o: one(*o), ops[1:]))
        return None, results

    def one(kind, op):
        l = dict(leg, env={"MON_OP": op})
        if kind == "index":
            l["features"] = "std,ptr"
        r = ck.run_leg_shard(pid, l, seq[op], "c26", None)
        r.shard = 0
        keep = []
        for v in r.violations:
            if v.startswith("Miri: ") and ALIAS.search(v):
                rep = r.report = r.report or {"violations": [], "evaluations": 1, "distinct": 1, "nontrivial": 1, "wall": 0.0, "events": {"operations stopped by the interpreter": 1},
                                              "workloads": {}, "notes": [], "findings": {}}
                rep["findings"]["tree-borrows:" + re.sub(r"[ ,<>]+", "-", op).strip("-")] = "%s: %s" % (op, v[:700])
            else:
                keep.append("[%s] %s" % (op, v))
        r.violations = keep
        if r.report and r.report["findings"] and not keep:
            # the rest of the operation, with aliasing not tracked: no other undefined behaviour, no leak
            l2 = dict(l, miriflags=NOALIAS)
            r2 = ck.run_leg_shard(pid, l2, 10000 + seq[op], "c26", None)
            if r2.report and not r2.violations and not r2.inconclusive:
                r2.report["findings"] = r.report["findings"]
                r2.report["events"]["operations stopped by the interpreter"] = 1
                r.report = r2.report
            r.violations += ["[%s, aliasing not tracked] %s" % (op, v) for v in r2.violations]
            r.inconclusive = r.inconclusive or r2.inconclusive
        if r.report:
            r.report["workloads"] = {"operation: " + op: [r.report["evaluations"], "operation: %s" % op]}
        return r

    return ck.monitor_check(pid, extra)
