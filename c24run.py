"""C24: the concurrent workloads under race detectors, then programs that would share with another thread what must
not be shared (and their counterparts, which must run)."""
import c21run


def run(pid, ck):
    violations, inconclusive, cov = ck.monitor_check(pid)
    if violations:
        return violations, inconclusive, cov
    v, i, c = c21run.run(pid, ck)
    cov["evaluations"] += c["evaluations"]
    cov["distinct_nontrivial"] += c["distinct_nontrivial"]
    cov["samples"] += c["samples"][:20]
    for k, n in c["monitor_events"].items():
        cov["monitor_events"]["sharing programs: " + k] = n
    for k, n in c["legs"].items():
        cov["legs"]["sharing programs, " + k] = n
    return v, inconclusive + i, cov
