#!/usr/bin/env python3
"""sigmut.py OUT.jsonl [-j N]: loosen one signature at a time (brand, proof, mutability, mode, bound) and see which
loosenings that compile and pass the tests are seen by C21, C22 or C23 (in private mount namespaces, like bugs.py)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys
HERE = "/verif"
S = "/tmp/sg"
OUT = sys.argv[1]
J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 3
ENV = dict(os.environ, RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings")
FILES = ["container", "indexing", "pointer", "algorithms", "container_traits", "lib", "proof"]
TY = r"\b(PIndex|PRange|PSlice|Index|Range|Container)<'id"


def heads(lines):
    """(first, last) line numbers of fn signatures and impl headers, outside tests."""
    i = 0
    while i < len(lines):
        if lines[i].startswith("#[cfg(test)]") or lines[i].startswith("#[test]"):
            # skip the item
            d = 0; seen = False
            while i < len(lines):
                d += lines[i].count("{") - lines[i].count("}")
                seen |= "{" in lines[i]
                i += 1
                if seen and d == 0: break
            continue
        if re.match(r"\s*(pub(\(crate\))? )?(unsafe )?(fn|impl|trait|pub unsafe trait|unsafe impl)\b", lines[i]):
            j = i
            while "{" not in lines[j] and ";" not in lines[j]: j += 1
            yield i, j
            i = j
        i += 1


def muts():
    for f in FILES:
        p = "src/%s.rs" % f
        lines = open("/repo/" + p).read().split("\n")
        for a, b in heads(lines):
            h = "\n".join(lines[a:b + 1])
            isfn = re.match(r"\s*(pub(\(crate\))? )?(unsafe )?fn", h)
            seen = set()

            def out(kind, new):
                if new != h and new not in seen:
                    seen.add(new)
                    return dict(file=p, line=a + 1, kind=kind, old=h, new=new, a=a, b=b)
            if isfn:
                m = re.search(r"\)\s*(->|where|\{|$)", h)
                # parameters: up to the arrow or the where clause
                arrow = h.find("->") if "->" in h else len(h)
                w = h.find("where") if "where" in h else len(h)
                first = min(x for x in (arrow, w, len(h)))
                # closures in the where clause contain arrows
                if w < arrow: arrow = len(h)
                for t in re.finditer(TY, h[:first]):
                    yield out("brand", h[:t.start()] + t.group(1) + "<'_" + h[t.end():])
                for t in re.finditer(TY, h[w:] if w < len(h) else ""):
                    s = w + t.start()
                    yield out("brand-where", h[:s] + t.group(1) + "<'_" + h[w + t.end():])
                for pat, rep, kind in [(r"\bIndex<'id>", "Index<'id, Unknown>", "proof-in"), (r"\bPIndex<'id, T>", "PIndex<'id, T, Unknown>", "proof-in"), (r", NonEmpty>", ", Unknown>", "proof-in"),
                                       (r"&mut self", "&self", "shared"), (r"\bself\b(?!:)", None, None)]:
                    if rep is None: continue
                    for t in re.finditer(pat, h[:first]): yield out(kind, h[:t.start()] + rep + h[t.end():])
                ret = (arrow, w if w > arrow else len(h))
                for pat, rep in [(r"\bIndex<'id, (Unknown|P|Q)>", "Index<'id>"), (r"\bRange<'id(, (P|Q|Unknown))?>", "Range<'id, NonEmpty>"), (r"\bPIndex<'id, T, (Unknown|P|Q)>", "PIndex<'id, T>"), (r"\b(PRange|PSlice)<'id, T(, (P|Q|Unknown))?>", r"\1<'id, T, NonEmpty>"),
                                 (r"<\(P, Q\) as ProofAdd>::Sum", "NonEmpty"), (r"<\(P, Q\) as ProofAdd>::Sum", "P"), (r"<\(P, Q\) as ProofAdd>::Sum", "Q"), (r"<'id\b", "<'static"), (r"&'b ", "&'static "), (r"&mut ", "&'static mut "), (r"&(?!mut|')", "&'static ")]:
                    for t in re.finditer(pat, h[ret[0]:ret[1]]):
                        yield out("result", h[:ret[0] + t.start()] + t.expand(rep) + h[ret[0] + t.end():])
            else:
                hits = list(re.finditer(TY, h))
                for t in hits: yield out("brand-impl", h[:t.start()] + t.group(1) + "<'_" + h[t.end():])
                hits = [t for t in re.finditer(r"<'id\b|\bfor '", h)]
                for t in hits: yield out("brand-impl", h[:t.start()] + "<'_" + h[t.end():])
                for pat, rep, kind in [(r"\bIndex<'id>", "Index<'id, Unknown>", "proof-in"), (r"\bPIndex<'id, T>", "PIndex<'id, T, Unknown>", "proof-in"), (r", NonEmpty>", ", Unknown>", "proof-in"), (r"Container<'id, (\w+)>", r"Container<'id, \1, crate::container::OnlyIndex>", "mode"),
                                       (r"'a mut ", "'a ", "shared"), (r"ContiguousMut for &'a mut", "ContiguousMut for &'a", "shared")]:
                    for t in re.finditer(pat, h): yield out(kind, h[:t.start()] + t.expand(rep) + h[t.end():])
                # generalise the proof or the mode of the whole impl
                if re.search(r", NonEmpty>", h) and re.match(r"impl<'id(, T)?>", h):
                    yield out("proof-impl", re.sub(r"^impl<('id(, T)?)>", r"impl<\1, PP>", h).replace(", NonEmpty>", ", PP>"))
                if re.search(r"Container<'id, (\w+)>", h):
                    yield out("mode", re.sub(r"Container<'id, (\w+)>", r"Container<'id, \1, MM>", re.sub(r"^((?:unsafe )?impl<[^>]*)>", r"\1, MM>", h)))
                if "OnlyIndex" in h:
                    yield out("mode", re.sub(r"OnlyIndex", "MM", re.sub(r"^((?:unsafe )?impl<[^>]*)>", r"\1, MM>", h)))
                    yield out("mode", re.sub(r", OnlyIndex", "", h))
            # bounds
            for t in re.finditer(r" \+ FixedLength", h): yield out("bound", h[:t.start()] + h[t.end():])
            for t in re.finditer(r"\bContiguousMut<", h): yield out("bound", h[:t.start()] + "Contiguous<" + h[t.end():])
            for t in re.finditer(r"\bGetUncheckedMut\b", h): yield out("bound", h[:t.start()] + "GetUnchecked" + h[t.end():])
            for t in re.finditer(r"\bFixedLength\b", h): yield out("bound", h[:t.start()] + "Trustworthy" + h[t.end():])
            for t in re.finditer(r"\bT: 'b,", h): yield out("bound", h[:t.start()] + h[t.end():])
            for t in re.finditer(r"&'(a|b) ", h): yield out("life", h[:t.start()] + "&" + h[t.end():])
            for t in re.finditer(r"for<'id[^>]*> ", h): yield out("bound", h[:t.start()] + h[t.end():])


slots = list(range(J))
done = set()
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))


def prep(k):
    d = "%s/%d" % (S, k)
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        shutil.copy("/repo/Cargo.lock", d + "/repo/")
        subprocess.run(["cp", "-a", HERE, d + "/verif"], check=True)
    return d


def one(m):
    k = slots.pop()
    try:
        d = prep(k)
        r = d + "/repo"
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        L = open(r + "/" + m["file"]).read().split("\n")
        L[m["a"]:m["b"] + 1] = m["new"].split("\n")
        src = "\n".join(L)
        variants = [src]
        if m["kind"] == "result":  # let the body make any proof
            body = "\n".join(L[m["a"]:])
            e = re.search(r"\n    \}\n", body)
            e = e.end() if e else len(body)
            variants.append("\n".join(L[:m["a"]]) + "\n" + re.sub(r"\bRange::from\(", "Range::from_any(", body[:e]) + body[e:])
        for v in variants:
            open(r + "/" + m["file"], "w").write(v)
            c = subprocess.run(["cargo", "check", "--offline", "-q", "--features", "experimental_pointer_ranges"], cwd=r, env=ENV, capture_output=True)
            if c.returncode == 0: break
        else:
            m["result"] = "does not compile"
            return
        c = subprocess.run(["cargo", "test", "--offline", "-q", "--features", "experimental_pointer_ranges", "--lib"], cwd=r, env=ENV, capture_output=True)
        if c.returncode == 0: c = subprocess.run(["cargo", "test", "--offline", "-q", "--features", "experimental_pointer_ranges", "--doc", "--", "--skip", "copy_and_clone"], cwd=r, env=ENV, capture_output=True)
        if c.returncode: m["result"] = "tests fail"; return
        m["result"] = "MISSED"; m["runs"] = {}
        order = ["C22", "C21", "C23"] if m["kind"].startswith("proof") or m["kind"] == "result" else ["C23", "C21", "C22"] if m["kind"] in ("bound", "mode", "shared", "life") else ["C21", "C22", "C23"]
        for pid in order[:2 if "-a" in sys.argv else 1]:
            p = subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && python3 check.py %s" % (d, d, pid)],
                               capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            m["runs"][pid] = p.stdout.strip().split("\n")[-1][:200]
            if "VIOLATION property=" in p.stdout: m["result"] = "caught " + pid; return
    finally:
        slots.append(k)
        with open(OUT, "a") as f: f.write(json.dumps(m) + "\n")


ms = [m for m in muts() if m and (m["file"], m["line"], m["new"]) not in done]
import random
# what cannot mean anything: comments, hidden lifetimes of whole implementations, methods whose trait fixes the types
ms = [m for m in ms if not (m["kind"] == "life" and not re.search(r"\bfn\b", m["new"])) and "Hash for" not in m["new"] and not re.search(r"fn (index|index_mut|fmt|eq|cmp|partial_cmp|lt|hash|next|next_back|from|into|into_iter|clone)\b", m["new"]) and not ("//-> (" in m["new"] and m["kind"] == "result") and not (m["file"].endswith("container.rs") and "ops::" in m["new"] and "usize>" in m["new"])]
random.Random(1).shuffle(ms)
if "-n" in sys.argv: print(len(ms)); sys.exit()
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(one, ms))
