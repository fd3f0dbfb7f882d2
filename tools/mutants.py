#!/usr/bin/env python3
"""Mutation survey of the machinery (development tool; no registered check uses it).

  mutants.py list                    all single-token mutants of the non-test sources
  mutants.py survive N SEED OUT      samples N of them, keeps those that build and pass the stable tests (OUT: JSON lines)
  mutants.py check IN OUT            runs the quick checks of the file's properties on each, until one reports it

All in scratch copies under /tmp/mutw*; K=<workers>.
"""
import json, os, random, re, shutil, subprocess, sys, queue, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seed import sh, fresh, ENV
SRC = "/repo/geokit/src"
MAP = [("math/", "C28 C01"), ("transformations/xyz", "C18 C19 C31"), ("transformations/", "C19"), ("quantities/angle", "C04 C01 C20"),
       ("quantities/length", "C04 C20"), ("quantities/scale", "C18 C04"), ("cs/s1", "C03 C20"), ("cs/azimuth", "C01 C06 C20"),
       ("cs/cartesian", "C05 C06 C20 C21 C07"), ("cs/geodetic", "C01 C02 C05 C06 C20 C07"), ("units", "C04"),
       ("cyl/transverse", "C14 C15 C16 C07"), ("cyl/web", "C13 C15 C16 C07"), ("cyl/mercator", "C13 C15 C16 C07"),
       ("projections/mod", "C17 C13 C14 C15 C07"), ("prime_meridian", "C12 C10 C07 C20"), ("ellipsoid", "C11 C12 C07 C20 C08"),
       ("geodetic_datum", "C08 C09 C10 C12 C07 C20"), ("geodesics/", "C22 C23 C24 C06 C20"), ("geometry/", "C25 C27 C26"),
       ("crs/", "C21 C06 C19 C07 C27 C31"), ("bin/", "C29")]
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
         (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" && ", " || "), (r" \|\| ", " && "), (r"\+= ", "-= "), (r"-= ", "+= "),
         (r"\*= ", "/= "), (r"/= ", "*= "), (r"\.sin\(\)", ".cos()"), (r"\.cos\(\)", ".sin()"), (r"\.abs\(\)", ""), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"([(=,] *)-([a-z0-9])", r"\1\2"), (r"\b([a-z_]+)\.0\b", r"\1.1"), (r"\.normalized\(\)", ""),
         (r"\b(\d+)\.0\b", "BUMP"), (r"\b(\d+\.\d*[1-9])\b", "BUMPF"), (r"\bif ([^{]+) \{", "IFT"), (r"\bif ([^{]+) \{", "IFF"), (r"\[(\d)\]", "IDX"),
         (r"\blon\b", "lat"), (r"\blat\b", "lon"), (r"\.a\(\)", ".b()"), (r"\.b\(\)", ".a()"), (r"\bhoriz_unit\b", "height_unit"), (r"e-(\d+)", "EXP")]

def listing():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if not f.endswith(".rs"):
                continue
            for i, line in enumerate(open(p).read().split("\n")):
                if line.strip().startswith("#[cfg(test)]"):
                    break
                if line.strip().startswith(("//", "#", "use ", "///")) or "assert" in line:
                    continue
                code = line.split("//")[0]
                for (pat, rep) in RULES:
                    for m in re.finditer(pat, code):
                        r = rep
                        if rep == "BUMP":
                            r = "%d.0" % (int(m.group(1)) + 1)
                        elif rep == "BUMPF":
                            r = repr(float(m.group(1)) * (1 + 1e-6))
                        elif rep == "IFT":
                            if " let " in " " + m.group(1): continue
                            r = "if (%s) || true {" % m.group(1)
                        elif rep == "IFF":
                            if " let " in " " + m.group(1): continue
                            r = "if (%s) && false {" % m.group(1)
                        elif rep == "IDX":
                            r = "[%d]" % ((int(m.group(1)) + 1) % 3)
                        elif rep == "EXP":
                            r = "e-%d" % max(1, int(m.group(1)) - 3)
                        else:
                            r = m.expand(rep)
                        new = line[:m.start()] + r + line[m.end():]
                        if new != line:
                            out.append(dict(file=rel, line=i, old=line, new=new))
    return out

def put(w, m, back=False):
    p = f"{w}/repo/geokit/src/{m['file']}"
    ls = open(p).read().split("\n")
    assert ls[m["line"]] == (m["new"] if back else m["old"])
    ls[m["line"]] = m["old"] if back else m["new"]
    open(p, "w").write("\n".join(ls))

def pool(K, verif):
    q = queue.Queue()
    for k in range(K):
        w = f"/tmp/mutw{k}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        fresh(w + "/repo")
        if verif:
            sh(f"mkdir {w}/verif && cd {ROOT} && cp -a *.py spec harness known_findings.txt {w}/verif/ && cp -a target {w}/verif/ 2>/dev/null")
        q.put(w)
    return q

def each(fn, todo, K, verif, outp):
    q = pool(K, verif)
    def one(m):
        w = q.get()
        try:
            put(w, m)
            try:
                return fn(w, m)
            finally:
                put(w, m, True)
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(K) as ex, open(outp, "a") as o:
        for r in ex.map(one, todo):
            if r:
                o.write(json.dumps(r) + "\n")
                o.flush()
    for k in range(K):
        shutil.rmtree(f"/tmp/mutw{k}")

def survive(n, seed, outp):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ms = listing()
    random.Random(seed).shuffle(ms)
    seen = {}
    for m in ms:  # round robin over the files
        m["k"] = seen[m["file"]] = seen.get(m["file"], 0) + 1
    ms.sort(key=lambda m: m.pop("k"))
    def fn(w, m):
        e = dict(ENV, CARGO_TARGET_DIR=w + "/t", CARGO_INCREMENTAL="1", RUST_BACKTRACE="0")
        t = sh(f"timeout 120 cargo test --workspace --no-fail-fast --offline --lib --bins --tests -- --test-threads 2 > {w}/t.log 2>&1; rm -f {w}/o.json; python3 /opt/vp/results.py {w}/o.json cargo:{w}/t.log", cwd=w + "/repo", env=e)
        try:
            o = json.load(open(w + "/o.json"))
        except Exception:
            return None
        lost = [x for x in stable if x not in o["passed"]]
        # documentation tests are not run here
        return None if any(not x.startswith("doc:") for x in lost) else m
    each(fn, ms[:n], int(os.environ.get("K", "3")), False, outp)

def check(inp, outp):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    ms = [m for m in ms if (m["file"], m["line"], m["new"]) not in done]
    def fn(w, m):
        props = next(ps for (k, ps) in MAP if k in m["file"]).split()
        res = {}
        for p in props:
            r = sh(f"timeout 900 python3 vk.py check {p}", cwd=w + "/verif", env=dict(os.environ, VK_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            res[p] = r.returncode
            if r.returncode == 1:
                return dict(m, caught=p, res=res)
        return dict(m, caught=None, res=res)
    each(fn, ms, int(os.environ.get("K", "3")), True, outp)

if __name__ == "__main__":
    if sys.argv[1] == "list":
        l = listing()
        print(len(l))
        import collections
        print(collections.Counter(m["file"] for m in l))
    elif sys.argv[1] == "survive":
        survive(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else:
        check(sys.argv[2], sys.argv[3])
