#!/usr/bin/env python3
"""Driver: builds the probe against /repo, records behaviour of the real code, and lets the Quint specification
judge every recorded event.  Usage: vk.py check <ID> | vk.py replay <file> | vk.py setup | vk.py selftest"""
import fcntl, hashlib, json, os, re, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

sys.set_int_max_str_digits(0)

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VK_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
TARGET = os.path.join(ROOT, "target")
S = 10 ** 30
FB = 10 ** 53
FOFF = 5 * 10 ** 52
NAN, INF, BIGV = 4 * 10 ** 49, 3 * 10 ** 49, 2 * 10 ** 49
JOBS = 8

from vkprops import PROPS  # noqa: E402


class ToolError(Exception):
    pass


class Undefined(ToolError):
    """the specification gives no meaning to what the code answered"""


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


# ---------------------------------------------------------------------------------------------- build
def env_build():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET,
             RUSTFLAGS="--cfg geokit_verif -Awarnings", RUST_BACKTRACE="0")
    return e


def build():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = sh(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(ROOT, "harness"), env=env_build())
        if p.returncode != 0:
            raise ToolError("probe does not build against /repo:\n" + p.stdout[-4000:])
    return os.path.join(TARGET, "debug", "geoprobe")


def build_bin(name):
    """builds a binary target of /repo itself"""
    with open(os.path.join(WORK, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = sh(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml"),
                "-p", "geokit", "--bin", name], env=env_build())
        if p.returncode != 0:
            raise ToolError("cannot build %s:\n%s" % (name, p.stdout[-3000:]))
    return os.path.join(TARGET, "debug", name)


def literals():
    """numeric literals of the current sources: a generation dictionary (never used to judge)"""
    out = set()
    for d, _, fs in os.walk(os.path.join(REPO, "geokit", "src")):
        for f in fs:
            if f.endswith(".rs"):
                with open(os.path.join(d, f), errors="replace") as fh:
                    txt = fh.read()
                txt = re.sub(r"//[^\n]*", "", txt)
                for t in re.findall(r"(?<![\w.])(\d[\d_]*\.?[\d_]*(?:[eE][+-]?\d+)?)", txt):
                    try:
                        v = float(t.replace("_", ""))
                    except ValueError:
                        continue
                    if v == v and v < 1e18:
                        out.add(v)
    path = os.path.join(WORK, "dict.txt")
    with open(path + ".%d" % os.getpid(), "w") as fh:
        fh.write("\n".join(repr(v) for v in sorted(out)))
    os.replace(path + ".%d" % os.getpid(), path)
    return path, len(out)


# ---------------------------------------------------------------------------------------------- traces
def fx(tok):
    """exact fixed-point image of a float token"""
    v = float(tok)
    if v != v:
        return NAN
    if v in (float("inf"), float("-inf")):
        return INF if v > 0 else -INF
    if abs(v) >= 1e18:
        return BIGV if v > 0 else -BIGV
    n, d = v.as_integer_ratio()
    return (2 * n * S + d) // (2 * d)


class Ev:
    __slots__ = ("op", "inp", "out")

    def __init__(self, op, inp, out):
        self.op, self.inp, self.out = op, inp, out

    def key(self):
        return (self.op, tuple(self.inp))

    def show(self):
        return {"op": self.op, "in": self.inp, "out": self.out}


def read_events(path):
    evs, cnt = [], {}
    with open(path) as fh:
        for line in fh:
            if line.startswith("E "):
                l, r = line[2:].split("|")
                l = l.split()
                evs.append(Ev(int(l[0]), l[1:], r.split()))
            elif line.startswith("C "):
                _, k, v = line.split()
                cnt[k] = int(v)
    return evs, cnt


def pack(ev, ni, no):
    fs = [ev.op * S] + [fx(t) for t in ev.inp] + [0] * (ni - len(ev.inp)) \
        + [fx(t) for t in ev.out] + [0] * (no - len(ev.out))
    v = 0
    for f in reversed(fs):
        v = v * FB + f + FOFF
    return v


def split_histories(evs):
    """list of segments; op 0 marks the start of a history"""
    segs, cur = [], []
    if not any(e.op == 0 for e in evs):
        return [[e] for e in evs]
    for e in evs:
        if e.op == 0 and cur:
            segs.append(cur)
            cur = []
        cur.append(e)
    if cur:
        segs.append(cur)
    return segs


TEMPLATE = """module tr {
  import fx.* from "%(rel)s/fx"
  import %(spec)s.* from "%(rel)s/%(spec)s"
  pure val NI: int = %(ni)d
  pure val NO: int = %(no)d
  pure val EB: int = FB ^ (NI + NO + 1)
  pure val D: List[(int, int)] = [
%(lits)s
  ]
  var i: int
  var st: St
  var bad: List[(int, int, int)]
  /// replays one packed chunk of recorded events against the specification
  pure def runChunk(k: int, s: St, n: int, v: int): { s: St, bad: List[(int, int, int)] } = {
    val z = range(0, n).foldl({ s: s, v: v, bad: List() }, (acc, j) => {
      val ev = decode(acc.v %% EB, NI, NO)
      val res = if (ev.op == 0) (st0, 0) else judge(acc.s, ev)      // op 0: a new history starts
      { s: res._1, v: acc.v / EB, bad: if (res._2 == 0) acc.bad else acc.bad.append((k, j, res._2)) }
    })
    { s: z.s, bad: z.bad }
  }
  action init = all { i' = 0, st' = st0, bad' = List() }
  action step = all {
    i < D.length(),
    val z = runChunk(i, st, D[i]._1, D[i]._2)
    all { i' = i + 1, st' = z.s, bad' = bad.concat(z.bad) }
  }
}
"""


# calibration: the largest measured/allowed ratio per clause, on the same events
CALIB = TEMPLATE.replace("""      val res = if""", """      val ms = if (ev.op == 0) List() else clauses(acc.s, ev)
      val res = if""").replace("""if (res._2 == 0) acc.bad else acc.bad.append((k, j, res._2))""",
                         """ms.foldl(acc.bad, (b, m) => b.append((k * 100000 + j, m._1, if (m._3 == 0) m._2 else (m._2 * 1000000) / m._3)))""")


def write_trace(path, spec, segs, ni, no, tmpl=None):
    """packs segments into chunks; returns the list of chunks (each a list of events)"""
    per = max(4, 30000 // (53 * (ni + no + 1)))
    chunks, cur = [], []
    for seg in segs:
        for e in seg:
            cur.append(e)
            if len(cur) >= per:
                chunks.append(cur)
                cur = []
    if cur:
        chunks.append(cur)
    lits = []
    B = FB ** (ni + no + 1)
    for c in chunks:
        v = 0
        for e in reversed(c):
            v = v * B + pack(e, ni, no)
        lits.append("    (%d, %d)" % (len(c), v))
    with open(path, "w") as fh:
        fh.write((tmpl or TEMPLATE) % dict(rel=os.path.relpath(SPEC, os.path.dirname(path)), spec=spec, ni=ni, no=no,
                                 lits=",\n".join(lits)))
    return chunks


def itf_int(x):
    return int(x["#bigint"]) if isinstance(x, dict) else int(x)


def run_trace(path, chunks, timeout=780, raw=False):
    itf = path[:-4] + ".itf.json"
    p = sh(["quint", "run", "--main=tr", "--max-samples=1", "--n-traces=1", "--max-steps=%d" % len(chunks),
            "--seed=1", "--verbosity=1", "--out-itf=" + itf, path], timeout=timeout,
           env=dict(os.environ, NODE_OPTIONS="--max-old-space-size=3500"))
    if not os.path.exists(itf):
        if re.search(r"QNT5\d\d", p.stdout) and "Runtime error" in p.stdout:
            raise Undefined("quint cannot evaluate %s:\n%s" % (path, p.stdout[-3000:]))
        raise ToolError("quint failed on %s:\n%s" % (path, p.stdout[-3000:]))
    with open(itf) as fh:
        d = json.load(fh)
    last = d["states"][-1]
    if itf_int(last["i"]) != len(chunks):
        raise ToolError("quint stopped early on %s (%s of %d):\n%s" % (path, last["i"], len(chunks), p.stdout[-3000:]))
    res = []
    if raw:
        for t in last["bad"]:
            k, code, m = [itf_int(x) for x in t["#tup"]]
            res.append((chunks[k // 100000][k % 100000], code, m))
        os.remove(itf)
        return len(d["states"]), res
    for t in last["bad"]:
        k, j, code = [itf_int(x) for x in t["#tup"]]
        res.append((chunks[k][j], code, chunks[k][: j + 1]))
    os.remove(itf)
    return len(d["states"]), res


def judge_events(pid, evs, wd, tag, cfg, calib=False):
    """has the specification judge all events; returns (states, bad list)"""
    ni = max([cfg["ni"]] + [len(e.inp) for e in evs])
    no = max([cfg["no"]] + [len(e.out) for e in evs])
    segs = split_histories(evs)
    total = sum(len(s) for s in segs)
    per = max(4, 30000 // (53 * (ni + no + 1)))
    maxfile = min(per * 60, max(1, -(-total // JOBS)))
    files, cur, n = [], [], 0
    for s in segs:
        cur.append(s)
        n += len(s)
        if n >= maxfile:
            files.append(cur)
            cur, n = [], 0
    if cur:
        files.append(cur)

    def run(path, hist):
        ch = write_trace(path, cfg["spec"], hist, ni, no, CALIB if calib else None)
        try:
            return run_trace(path, ch, raw=calib)
        finally:
            os.remove(path)

    def one(k):
        path = os.path.join(wd, "%s_%03d.qnt" % (tag, k))
        hist = files[k]
        try:
            return run(path, hist)
        except Undefined as e:
            # an answer of a shape that no behaviour of the specification has: find the history
            if calib:
                raise
            while len(hist) > 1:
                half = hist[: len(hist) // 2]
                try:
                    run(path, half)
                    hist = hist[len(hist) // 2:]
                except Undefined:
                    hist = half
            log("the specification has no such behaviour: %s" % str(e)[-600:])
            return 0, [(hist[0][-1], 999, hist[0])]

    states, bad = 0, []
    with ThreadPoolExecutor(JOBS) as ex:
        for st, b in ex.map(one, range(len(files))):
            states += st
            bad += b
    return states, bad, total


# ---------------------------------------------------------------------------------------------- MBT
def model_traces(cfg, wd, seed, tier):
    """behaviours generated from the specification's own state machine -> scripts for the probe"""
    m = cfg["mbt"]
    n = m["traces"][tier == "thorough"]
    steps = m["steps"]
    out = os.path.join(wd, "mbt_{seq}.itf.json")
    p = sh(["quint", "run", "--main=" + m["main"], "--max-samples=%d" % n, "--n-traces=%d" % n,
            "--max-steps=%d" % steps, "--seed=%d" % (seed * 7919 + 11), "--verbosity=1",
            "--invariant=" + m["inv"], "--out-itf=" + out, os.path.join(SPEC, m["file"] + ".qnt")])
    fs = sorted(f for f in os.listdir(wd) if f.startswith("mbt_") and f.endswith(".itf.json"))
    if p.returncode != 0 or not fs:
        raise ToolError("the specification model itself fails:\n" + p.stdout[-3000:])
    script, states = [], 0
    for f in fs:
        with open(os.path.join(wd, f)) as fh:
            d = json.load(fh)
        states += len(d["states"])
        script.append("0")
        for s in d["states"]:
            last = s["last"]
            op = itf_int(last["op"])
            if op == 0:
                continue
            args = [itf_int(x) for x in last["args"]]
            script.append("%d %s" % (op, " ".join(repr(float(Fraction(x, S))) for x in args)))
        os.remove(os.path.join(wd, f))
    return script, states, len(fs)


def run_probe(cmd, path):
    """the probe's events; a probe that dies on the way leaves the call it was making (or had just made)"""
    p = sh(cmd)
    if p.returncode == 0 and os.path.exists(path):
        return read_events(path)
    last = path + ".last"
    if (p.returncode == 101 or p.returncode in (-6, -11, -8, -4, -7)) and os.path.exists(last):
        d = struct.unpack("512d", open(last, "rb").read(4096))
        if d[0] > 0:
            log("the process died (%d): %s" % (p.returncode, p.stdout[-600:].strip()))
            # to the specification this is a call that never came back
            return [Ev(int(d[0]), [repr(x) for x in d[2:2 + int(d[1])]], ["3.0"])], {"hang": 1}
    raise ToolError("probe failed: rc=%s\n%s" % (p.returncode, p.stdout[-2000:]))


def run_script(probe, pid, lines, wd, tag):
    sp, op = os.path.join(wd, tag + ".script"), os.path.join(wd, tag + ".ev")
    with open(sp, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    return run_probe([probe, "script", pid, sp, op], op)


# ---------------------------------------------------------------------------------------------- the specification itself
def self_tests():
    """the specification against published worked examples and its own identities"""
    p = sh(["quint", "test", "--main=published", os.path.join(SPEC, "published.qnt")])
    if p.returncode != 0:
        raise ToolError("the specification fails its published examples:\n" + p.stdout[-3000:])


def prove(cfg, wd):
    """Apalache: inductive invariants of the unbounded models, bounded checks of the finite ones (thorough tier)"""
    done = []
    for main, kind, steps in cfg.get("proofs", []):
        flag = "--inductive-invariant=inv" if kind == "inductive" else "--invariant=inv"
        try:
            p = sh(["quint", "verify", "--main=" + main, flag, "--max-steps=%d" % steps, "--verbosity=1",
                    os.path.join(SPEC, main + ".qnt")], timeout=400, cwd=wd)
        except subprocess.TimeoutExpired:
            done.append("%s: %s, no answer in 400 s" % (main, kind))
            continue
        if "[violation]" in p.stdout or "found a counterexample" in p.stdout:
            raise ToolError("the specification model %s violates its invariant:\n%s" % (main, p.stdout[-3000:]))
        done.append("%s: %s%s" % (main, kind, "" if kind == "inductive" else ", %d steps" % steps)
                    + (", holds" if p.returncode == 0 else ", Apalache gave no answer"))
    return done


# ---------------------------------------------------------------------------------------------- findings
def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                m = re.match(r"known: property=\S+ op=(\d+) in=\[(.*?)\] code=(\d+) (.*)", line)
                if m:
                    res.append(dict(op=int(m[1]), inp=m[2].split(), code=int(m[3]), text=m[4]))
    return res


def is_known(ev, code, kf):
    for k in kf:
        if k["op"] == ev.op and k["code"] == code and len(k["inp"]) == len(ev.inp) and \
                all(float(a) == float(b) for a, b in zip(k["inp"], ev.inp)):
            return k
    return None


# ---------------------------------------------------------------------------------------------- check
def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    probe = build()
    dpath, ndict = literals()
    wd = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    pool = ThreadPoolExecutor(1)
    fut = pool.submit(model_traces, cfg, wd, seed, tier) if cfg.get("mbt") else None
    try:
        evf = os.path.join(wd, "trace.ev")
        if cfg.get("external"):
            evs, cnt = cfg["external"](globals(), wd, seed, tier)
        else:
            evs, cnt = run_probe([probe, "gen", pid, str(seed), tier, dpath, evf], evf)
        mbt_states = mbt_n = 0
        proofs = []
        if tier == "thorough":
            self_tests()
            proofs = prove(cfg, wd)
        states, bad, total = judge_events(pid, evs, wd, "t", cfg)
        if fut is not None:
            script, mbt_states, mbt_n = fut.result()
        if mbt_n and not cnt.get("hang"):
            mevs, mcnt = run_script(probe, pid, script, wd, "mbt")
            cnt["mbt_executed"] = sum(1 for e in mevs if e.op != 0)
            st2, bad2, tot2 = judge_events(pid, mevs, wd, "m", cfg)
            states, bad, total, evs = states + st2, bad + bad2, total + tot2, evs + mevs
    finally:
        pool.shutdown(wait=True)
        if not os.environ.get("VK_KEEP"):
            import shutil
            shutil.rmtree(wd, ignore_errors=True)
    kf = known_findings(pid)
    fresh, seen = [], set()
    for ev, code, hist in bad:
        k = is_known(ev, code, kf)
        if k:
            if k["text"] not in seen:
                seen.add(k["text"])
                log("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
        else:
            fresh.append((ev, code, hist))
    total = sum(1 for e in evs if e.op != 0) if not cfg.get("external") else total
    nz = [e for e in evs if e.op != 0]
    distinct = len({e.key() for e in nz})
    ok_status = sum(1 for e in nz if e.out and float(e.out[0]) == 0.0)
    samples = [e.show() for e in nz[:: max(1, len(nz) // 5)][:5]]
    hist_n = sum(1 for e in evs if e.op == 0)
    cov = {
        "evaluations": cnt.get("executed", total) + cnt.get("mbt_executed", 0),
        "distinct_nontrivial": distinct,
        "rule": cfg["rule"] + " Non-trivial: a distinct (operation, input) pair whose recorded result was judged by the specification.",
        "judged_by_specification": total,
        "returned_a_value": ok_status,
        "states": states,
        "transitions": total,
        "traces_validated_against_impl": max(hist_n, 1) if hist_n else total,
        "per_operation": {k: v for k, v in cnt.items() if k.startswith("op")},
        "dictionary_literals": ndict,
        "samples": samples,
    }
    if mbt_n:
        cov["model_behaviours_replayed"] = mbt_n
        cov["model_states_generated"] = mbt_states
    if proofs:
        cov["model_checked_with_apalache"] = proofs
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + [
            "Quint's simulator evaluates the specification's integer arithmetic correctly.",
            "The recorder reports the values the public API returned."],
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(evd, fh, indent=1)
    if fresh:
        rp = os.path.join(WORK, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%d.json" % (pid, seed))
        with open(path, "w") as fh:
            json.dump({"property": pid, "violations": [
                {"clause": c, "event": e.show(), "history": [h.show() for h in hist[-40:]]}
                for e, c, hist in fresh[:50]]}, fh, indent=1)
        for e, c, _ in fresh[:5]:
            log("  clause %d: op %d in=%s out=%s" % (c, e.op, e.inp, e.out))
        log("%d violating events" % len(fresh))
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    log("%s ok: %d executed, %d judged, %d states, %.1fs" % (pid, cov["evaluations"], total, states, evd["wall_s"]))
    return 0


def calibrate(pid):
    """prints, per operation and clause, the events closest to their allowance"""
    cfg = PROPS[pid]
    probe = build()
    dpath, _ = literals()
    wd = os.path.join(WORK, "cal-%s-%d" % (pid, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    evf = os.path.join(wd, "trace.ev")
    sh([probe, "gen", pid, os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick"), dpath, evf])
    evs, cnt = read_events(evf)
    t0 = time.time()
    _, ms, total = judge_events(pid, evs, wd, "c", cfg, calib=True)
    best = {}
    for ev, code, m in ms:
        best.setdefault((ev.op, code), []).append((m, ev))
    log("%d events judged in %.1fs" % (total, time.time() - t0), cnt)
    for (op, code), l in sorted(best.items()):
        l.sort(key=lambda x: -x[0])
        q = [l[min(len(l) - 1, k)][0] / 1e6 for k in (0, 1, 5, 20, len(l) // 2)]
        log("op %d clause %d: n=%d ratios %s" % (op, code, len(l), " ".join("%.3g" % x for x in q)))
        for m, ev in l[:2]:
            if m > 100000:
                log("     ", ev.inp, "->", ev.out)
    import shutil
    shutil.rmtree(wd, ignore_errors=True)
    return 0


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    probe = build()
    wd = os.path.join(WORK, "replay-%d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    lines = []
    for v in d["violations"]:
        lines.append("0")
        for h in v["history"]:
            lines.append("%d %s" % (h["op"], " ".join(h["in"])))
    evs, _ = run_script(probe, pid, lines, wd, "r")
    _, bad, _ = judge_events(pid, evs, wd, "r", PROPS[pid])
    for e, c, _ in bad:
        log("clause %d: op %d in=%s out=%s" % (c, e.op, e.inp, e.out))
    log("%d of the replayed events violate the specification" % len(bad))
    return 1 if bad else 0


def main():
    try:
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "calibrate":
            return calibrate(sys.argv[2])
        if sys.argv[1] == "setup":
            build()
            self_tests()
            return 0
    except ToolError as e:
        log("ERROR:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("ERROR: timeout", e.cmd[:3])
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
