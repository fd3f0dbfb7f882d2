"""Runs the sampling program of /repo (built from the current tree) and records what it writes."""
import math, random, subprocess
KINDS = ["xyz", "lon-lat", "lon-lat-height"]


def external(G, wd, seed, tier):
    exe = G["build_bin"]("sample_s2")
    Ev = G["Ev"]
    rnd = random.Random(seed)
    evs, cnt = [], {"executed": 0}

    def run(args):
        cnt["executed"] += 1
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return 99, ""
        return p.returncode, p.stdout

    def one(kind, count, a, invf, mpu, rpu, explicit):
        args = [str(count)] + ([KINDS[kind]] if kind or explicit else [])
        if explicit:
            opt = rnd.choice(["-a", "--semi-major-axis"])
            args += [opt, repr(a), "--inverse-flattening", repr(invf) if invf else "inf", "--meter-per-unit", repr(mpu),
                     "--rad-per-unit", repr(rpu)]
        rc, out = run(args)
        lines = out.splitlines()
        rows, mal = [], 0
        for l in lines:
            try:
                v = [float(t) for t in l.split()]
            except ValueError:
                v = []
            if len(v) != (2 if kind == 1 else 3):
                mal += 1
            else:
                rows.append(v)
        evs.append(Ev(0, [], []))
        evs.append(Ev(1, [repr(float(x)) for x in (count, kind, a, invf, mpu, rpu)],
                      ["0.0" if rc == 0 else "1.0", repr(float(len(lines))), repr(float(mal)), repr(float(len(lines) - len(set(lines))))] +
                      [repr(float(len(rows) - len({v[k] for v in rows}))) if rows and k < len(rows[0]) else "0.0" for k in range(3)]))
        # of a long run, an even sample of the lines is judged one by one
        keep = rows if len(rows) <= 6000 else rows[::len(rows) // 2000 + 1]
        for v in keep:
            evs.append(Ev(2, [], ["0.0"] + [repr(x) for x in v]))
        evs.append(Ev(3, [], ["0.0"]))

    DEF = (6378137., 298.257223563, 1.0, math.pi / 180)
    n = 4000 if tier == "thorough" else 700
    for k in range(3):
        one(k, n, *DEF, False)
        one(k, n, rnd.uniform(1, 1e7), rnd.choice([1.5, 2., 3., 10., rnd.uniform(1.2, 400)]), rnd.choice([0.3048, 1000., rnd.uniform(.1, 10)]),
            rnd.choice([1., math.pi / 200, rnd.uniform(.001, 2)]), True)
        one(k, n, 6371000., 0, 0.3048006096012192, 1., True)
        one(k, n, 1., 1.25, 1., math.pi / 180, True)
    for c in [0, 1, 2, 7, 99] + [rnd.randrange(100, 3000) for _ in range(3)]:
        one(rnd.randrange(3), c, *DEF, rnd.random() < .5)
    for c in ([70000, 2 ** 17 + 5] if tier == "thorough" else [65536 + rnd.randrange(1, 9)]):
        for k in range(3):
            one(k, c, *DEF, False)
    for args in ([], ["-1"], ["x"], ["10", "llh"], ["10", "lonlat"], ["5", "xyz", "extra"], ["3", "xyz", "-a", "big"],
                 ["3", "xyz", "--inverse-flattening"], ["3", "xyz", "--unknown", "1"], ["4294967296"], ["1.5"]):
        rc, _ = run(args)
        evs.append(Ev(0, [], []))
        evs.append(Ev(4, [], ["0.0" if rc == 0 else "1.0"]))
    return evs, cnt
