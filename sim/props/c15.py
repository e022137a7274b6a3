"""C15: demodulators undo any noise below half the minimum distance; soft outputs are the exact posteriors."""

import math
from fractions import Fraction

from .. import codes, objects
from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 35000, "thorough": 200000}
TIME_UNIT = "symbols transmitted"
RULE = ("A random constellation (all families, random parameters, custom point sets, one to several dimensions) with a "
        "labeling when its order allows one; each symbol of the stream gets its own disturbance: none, a seeded AWGN "
        "draw through the library's own channel, a push of up to 0.499 of the minimum distance towards a neighbour or "
        "in a random direction, a jump onto a decision boundary, to the origin, far away or (hard decisions) beyond "
        "the integer range; the stream is demodulated in batches of random layout, order and multiplicity.")
STUBS = ["medium: seeded disturbance of every symbol", "transport: seeded batching, reordering and duplication"]
ASSUMPTIONS = ["nearest means nearest up to a relative perturbation of 1e-12 of the received point",
               "posteriors are compared in the log domain up to the rounding of the squared distances",
               "noise power and prior powers are positive doubles between 1e-3 and 1e6"]
PROBES = ["push-neighbour", "push-random", "awgn", "boundary", "origin", "far", "huge", "axis", "reorder", "duplicate",
          "multi-dim", "priors", "zero-prior", "labeled", "real-values", "whole-values", "bad-length", "saturated", "wide-labels", "bulk"]
SHRINK = ["sched", "sched.*", "symbols", "queries"]


def gen_const(rng, tier):
    s = objects.gen_constellation(rng, max_order=32)
    r = rng.random()
    if s["kind"] == "CrossQAM" and r < 0.3:
        s["args"][0] = 128
    elif s["kind"] == "PAM" and r < 0.3:
        s["args"][0] = rng.choice([16, 32, 64, 7, 6])
    elif s["kind"] == "PSK" and r < 0.3:
        s["args"][0] = rng.choice([32, 64, 5, 6, 7, 12])
    elif s["kind"] == "QAM" and r < 0.25:
        s["args"][0] = rng.choice([64, 16, [2, 8], [8, 2], [4, 8], [1, 4], [4, 1], [3, 7]])
    elif s["kind"] == "ASK" and r < 0.3:
        s["args"][0] = rng.choice([16, 5, 6, 32])
    elif s["kind"] in ("Orthogonal", "Simplex", "Biorthogonal") and r < 0.3:
        s["args"][0] = rng.choice([8, 16, 10])
    if rng.random() < 0.004:  # hundreds of points
        s = {"kind": "QAM", "args": [rng.choice([256, 1024, [16, 32], [32, 8]]), 2.0, 0.0]} if r < 0.4 else \
            {"kind": "PAM", "args": [rng.choice([128, 256, 512]), 1.0]} if r < 0.6 else \
            {"kind": "PSK", "args": [rng.choice([128, 256, 512]), 1.0, 0.0]} if r < 0.8 else \
            {"kind": "CrossQAM", "args": [512, 2.0, 0.0]}
    if s["kind"] in ("PSK", "QAM", "ASK", "CrossQAM") and rng.random() < 0.4:
        s["args"][-1] = rng.choice([0.5, -0.125, 0.75, 1.0, 0.3333, -2.25, 1 / 16, 0.9])
    if s["kind"] not in ("custom", "custom-complex", "APSK", "QAM") and rng.random() < 0.25:
        s["args"][1] = rng.choice([1e-3, 0.1, 3.0, 1e3, 7.7])
    return s


def labelings(rng, s):
    M = objects.constellation_order(s)
    m = M.bit_length() - 1
    if M != 1 << m or m == 0 or m > 10:
        return None
    if m > 7:
        return rng.choice([{"kind": "reflected", "m": m}, {"kind": "rect", "bits": [m // 2, m - m // 2]}])
    for _ in range(20):
        lab = objects.gen_labeling(rng, m)
        if objects.labeling_bits(lab) == m:
            return lab
    return {"kind": "natural", "m": m}


def generate(rng, tier):
    s = gen_const(rng, tier)
    while objects.constellation_order(s) < 2:
        s = gen_const(rng, tier)
    M, N = objects.constellation_order(s), objects.constellation_dim(s)
    lab = labelings(rng, s)
    n = rng.randint(1, 12 if M <= 64 else 3)
    symbols = []
    for _ in range(n):
        kind = rng.choice(["none", "push-neighbour", "push-neighbour", "push-random", "push-random", "awgn", "boundary",
                           "boundary", "origin", "far", "far", "axis", "huge"])
        symbols.append({"i": rng.randrange(M), "kind": kind, "to": rng.randrange(M), "gseed": rng.getrandbits(30),
                        "amt": rng.choice([0.499, 0.4999, 0.49, 0.3, 0.1]),
                        "mag": rng.choice([3.0, 30.0, 1e3, 1e6]),
                        "hmag": rng.choice([1e19, 1e25, 1e100, 1e300, 9.3e18])})
    queries = []
    for _ in range(rng.randint(1, 3)):
        pri = None
        if rng.random() < 0.6:
            w = [rng.choice([1, 2, 3, 5, 0.1]) for _ in range(M)]
            if rng.random() < 0.4:
                for j in range(M):
                    if rng.random() < 0.3:
                        w[j] = 0
            if sum(w) == 0:
                w[0] = 1
            pri = [v / sum(w) for v in w]
        queries.append({"np": rng.choice([1.0, 0.5, 0.1, 2.0, 10.0, 1e-3, 100.0, 1e6, 0.37]), "priors": pri})
    sched = codes.gen_batches(rng, n) + codes.gen_batches(rng, n)
    return {"const": s, "lab": lab, "symbols": symbols, "queries": queries, "sched": sched,
            "lay": [codes.gen_shape(rng, len(b)) for b in sched],
            "forms": [rng.choice(["float64", "list", "readonly", "strided", "fortran"]) for _ in sched],
            "bforms": [rng.choice(codes.INT_FORMS) for _ in sched],
            "real": rng.random() < 0.12, "whole": rng.random() < 0.16, "wdt": rng.choice(["int64", "int16", "int8"]),
            "wide": gen_wide(rng) if rng.random() < 0.08 else None, "ask_d": rng.random() < 0.5,
            "bulk": {"n": max(2, min(rng.choice([300, 1025, 5000, 20000, 70000]), 2**21 // (M * N))),
                     "stride": rng.choice([1, 3, 5, 7, 11])} if rng.random() < 0.02 else None}


def gen_wide(rng):
    """A labeling with many bits per symbol and a few of its indices."""
    m = rng.randint(8, 12)
    r = rng.random()
    if r < 0.4:
        lab = {"kind": "reflected", "m": m}
    elif r < 0.6:
        lab = {"kind": "natural", "m": m}
    elif r < 0.8:
        a = rng.randint(1, m - 1)
        lab = {"kind": "rect", "bits": [a, m - a]}
    else:
        a = rng.randint(1, m - 1)
        lab = {"kind": "product", "parts": [{"kind": rng.choice(["natural", "reflected"]), "m": x} for x in (a, m - a)]}
    return {"lab": lab, "idx": [rng.choice([rng.getrandbits(m), 2**m - 1, 1 << rng.randrange(m)])
                                for _ in range(rng.randint(1, 12))]}


def run_wide(p, run, np):
    lab, idx = objects.build_labeling(p["lab"]), p["idx"]
    m = objects.labeling_bits(p["lab"])
    run.real.add("komm." + type(lab).__name__)
    run.fault("wide-labels")
    bits = np.asarray(lab.indices_to_bits(idx))
    run.check(bits.shape == (m * len(idx),), "shape", lambda: f"{lab!r}.indices_to_bits: {bits.shape}")
    back = np.asarray(lab.bits_to_indices(bits))
    run.check(back.tolist() == idx, "labeling", lambda: f"{lab!r}: indices {idx} come back as {back.tolist()}")
    words = {tuple(r) for r in bits.reshape(-1, m).tolist()}
    run.check(len(words) == len(set(idx)), "labeling", lambda: f"{lab!r}: indices {idx} share labels")
    run.reach(f"wide:{p['lab']['kind']}:{m}")


def own_min_distance(pts):
    import numpy as np

    if len(pts) > 64:
        a = np.array(pts)
        best = min(float(np.min(np.sqrt(np.sum(np.abs(a[i + 1:] - a[i]) ** 2, axis=1)))) for i in range(len(a) - 1))
        return best
    best = math.inf
    for i in range(len(pts)):
        for j in range(i):
            best = min(best, math.sqrt(sum(abs(a - b) ** 2 for a, b in zip(pts[i], pts[j]))))
    return best


def disturb(sy, pts, d, complex_, np, run):
    """-> (received point, must be decided as the sent symbol?)"""
    import random

    x = np.array(pts[sy["i"]])
    N = len(x)
    g = random.Random(sy["gseed"])
    k = sy["kind"]

    def direction():
        while True:
            v = np.array([complex(g.gauss(0, 1), g.gauss(0, 1)) if complex_ else g.gauss(0, 1) for _ in range(N)])
            n = float(np.sqrt(np.sum(np.abs(v) ** 2)))
            if n > 1e-3:
                return v / n

    to = np.array(pts[sy["to"] if sy["to"] != sy["i"] else (sy["i"] + 1) % len(pts)])
    if k == "push-neighbour":
        near = sorted((float(np.sum(np.abs(np.array(q) - x) ** 2)), j) for j, q in enumerate(pts) if j != sy["i"])
        cut = [j for dist, j in near if dist <= near[0][0] * 1.001]
        q = np.array(pts[cut[sy["to"] % len(cut)]]) - x
        return x + q / float(np.sqrt(np.sum(np.abs(q) ** 2))) * d * sy["amt"], True
    if k == "push-random":
        return x + direction() * d * sy["amt"], True
    if k == "boundary":
        return (x + to) / 2, False
    if k == "origin":
        return x * 0, False
    if k == "far":
        return x + direction() * d * sy["mag"], False
    if k == "axis":
        v = np.zeros(N, dtype=complex if complex_ else float)
        v[g.randrange(N)] = g.choice([1, -1, 1j, -1j] if complex_ else [1, -1])
        return v * d * sy["mag"], False
    if k == "huge":
        v = direction() if g.random() < 0.5 else np.array([g.choice([1, -1, 1j, -1j] if complex_ else [1, -1])] * N)
        return v * sy["hmag"], False
    if k == "awgn":
        import komm

        ch = komm.GaussianChannel((sy["amt"] * d) ** 2 / 4, rng=np.random.default_rng(sy["gseed"]))
        y = np.asarray(ch.transmit(x))
        return y, float(np.sqrt(np.sum(np.abs(y - x) ** 2))) < 0.499 * d
    return x, True


def exact(z):
    return (Fraction(float(z.real)), Fraction(float(z.imag))) if isinstance(z, complex) else (Fraction(float(z)), Fraction(0))


def sqdist(y, q):
    t = Fraction(0)
    for a, b in zip(y, q):
        (ar, ai), (br, bi) = exact(a), exact(b)
        t += (ar - br) ** 2 + (ai - bi) ** 2
    return t


def root(x):
    try:
        return math.sqrt(x)
    except OverflowError:
        return math.inf


GENERIC = {"custom", "custom-complex", "APSK", "CrossQAM"}


def execute(p, run):
    import numpy as np

    if p.get("wide"):
        run_wide(p["wide"], run, np)
    s = p["const"]
    const = objects.build_constellation(s)
    cx = objects.constellation_complex(s)
    M, N = objects.constellation_order(s), objects.constellation_dim(s)
    run.real.update({"komm." + type(const).__name__})
    run.check(const.order == M and const.dimension == N, "parameters",
              lambda: f"{const!r}: order {const.order}, dimension {const.dimension}; expected {M}, {N}")
    table = np.asarray(const.indices_to_symbols(np.arange(M)))
    run.check(table.shape == (M * N,), "shape", lambda: f"{const!r}: {M} indices give {table.shape}")
    pts = [list(map(complex if cx else float, row)) for row in table.reshape(M, N)]
    true_d = own_min_distance(pts)
    if true_d < 1e-9:
        raise Invalid("coincident points")
    d = float(const.minimum_distance()) if p["ask_d"] else true_d
    run.check(abs(d - true_d) <= 1e-6 * true_d or d <= true_d, "minimum-distance",
              lambda: f"{const!r}.minimum_distance() = {d}, but two of its points are {true_d} apart")
    lab = None
    if p["lab"]:
        lab = objects.build_labeling(p["lab"])
        m = objects.labeling_bits(p["lab"])
        run.real.add("komm." + type(lab).__name__)
        run.fault("labeled")
    stream = []
    for sy in p["symbols"]:
        if sy["i"] >= M or sy["to"] >= M:
            raise Invalid("index")
        if sy["kind"] == "huge" and s["kind"] not in ("PAM", "ASK", "QAM"):
            sy = {**sy, "kind": "far"}
        y, safe = disturb(sy, pts, d, cx, np, run)
        y = y.astype(complex if cx else float)
        if p.get("real") and cx:
            y = y.real + 0j
        if p.get("whole"):
            y = np.round(y)
            if p.get("wdt", "int64") != "int64":
                lim = np.iinfo(p["wdt"])
                y = np.clip(y.real, lim.min, lim.max) + (1j * np.clip(y.imag, lim.min, lim.max) if cx else 0)
        if p.get("real") or p.get("whole"):
            gap = y - np.array(pts[sy["i"]])
            safe = sy["kind"] != "huge" and float(np.sqrt(np.sum(np.abs(gap) ** 2))) < 0.499 * d
            run.fault("real-values", int(bool(p.get("real") and cx)))
            run.fault("whole-values", int(bool(p.get("whole"))))
        stream.append({"i": sy["i"], "y": list(map(complex if cx else float, y)), "safe": safe, "kind": sy["kind"]})
        run.fault(sy["kind"], int(sy["kind"] != "none"))
        run.now += 1
    if lab is not None:
        words = [[int(b) for b in np.asarray(lab.indices_to_bits([t["i"]]))] for t in stream]
        run.check(all(len(w) == m for w in words), "shape", lambda: f"{lab!r}.indices_to_bits")
        full = [tuple(int(b) for b in np.asarray(lab.indices_to_bits([i]))) for i in range(M)]
        run.check(len(set(full)) == M, "labeling", lambda: f"{lab!r}: two indices share a label")
    diam = max(math.sqrt(sum(abs(a - b) ** 2 for a, b in zip(pts[0], q))) for q in pts) * 2
    scale = max(math.sqrt(sum(abs(a) ** 2 for a in q)) for q in pts) + true_d
    ref = []
    for t in stream:
        mag = math.sqrt(sum(Fraction(abs(v)) ** 2 for v in t["y"])) if max(map(abs, t["y"])) < 1e150 else \
            max(map(abs, t["y"])) * 2
        D = [sqdist(t["y"], q) for q in pts]
        tol = 4 * Fraction(1e-12) * Fraction(mag + scale) * Fraction(diam)
        if s["kind"] in GENERIC:
            tol += 16 * Fraction(2.0**-52) * Fraction(mag + scale) ** 2
        lo = min(D)
        ref.append({"D": D, "near": {i for i in range(M) if D[i] <= lo + tol}, "mag": mag, "lo": lo})
    one_by_one = {}
    seen = []
    for b, batch in enumerate(p["sched"]):
        batch = [i for i in batch if i < len(stream)]
        if not batch:
            continue
        for i in batch:
            run.fault("duplicate", int(i in seen))
            run.fault("reorder", int(bool(seen) and i < max(seen)))
            seen.append(i)
        form = p["forms"][b] if b < len(p["forms"]) else "float64"
        lay = p["lay"][b] if b < len(p["lay"]) else []
        # transmit side, batched
        idx, lead, per = codes.lay_out([[stream[i]["i"]] for i in batch], lay)
        run.fault("multi-dim", int(len(lead) > 0))
        run.reach(f"const:{s['kind']}:{M}:{N}:{form}:{len(lead)}")
        if lab is not None:
            bits_in, _, _ = codes.lay_out([words[i] for i in batch], lay)
            arg = codes.form_array(bits_in, p["bforms"][b] if b < len(p["bforms"]) else "int64")
            before = snapshot(arg)
            got = np.asarray(lab.bits_to_indices(arg))
            run.check(snapshot(arg) == before, "modified-argument", lambda: f"{lab!r}.bits_to_indices modified its input")
            run.check(got.tolist() == idx, "labeling",
                      lambda: f"{lab!r}: bits {show(bits_in)} map to {show(got)}, but came from indices {show(idx)}")
            got = np.asarray(lab.indices_to_bits(idx))
            run.check(got.tolist() == bits_in, "labeling",
                      lambda: f"{lab!r}: indices {show(idx)} give {show(got)} in a batch, {show(bits_in)} alone")
        sent = np.asarray(const.indices_to_symbols(idx))
        want, _, _ = codes.lay_out([pts[stream[i]["i"]] for i in batch], lay)
        run.check(sent.shape == tuple(lead) + (per * N,) and np.array_equal(sent, np.array(want)), "depends-on-batch",
                  lambda: f"{const!r}: indices {show(idx)} give {show(sent)}")
        # receive side
        data, lead, per = codes.lay_out([stream[i]["y"] for i in batch], lay)
        y = (np.array(data) if form == "float64" else codes.form_array(data, form))
        if p.get("real") and cx:
            y = np.real(y) if form != "list" else np.real(y).tolist()
        if p.get("whole") and (p.get("real") or not cx) and np.max(np.abs(y)) < 2**53:
            y = np.asarray(y).astype(p.get("wdt", "int64")) if form != "list" else np.asarray(y).astype(int).tolist()
        before = snapshot(y)
        hard = np.asarray(const.closest_indices(y))
        run.check(hard.shape == tuple(lead) + (per,), "shape",
                  lambda: f"{const!r}.closest_indices: input {np.shape(y)}, output {hard.shape}")
        near = np.asarray(const.closest_symbols(y))
        run.check(near.shape == np.shape(y), "shape",
                  lambda: f"{const!r}.closest_symbols: input {np.shape(y)}, output {near.shape}")
        run.log(hard.tolist())
        for i, h, c in zip(batch, hard.reshape(-1).tolist(), near.reshape(-1, N)):
            t, r = stream[i], ref[i]
            run.check(0 <= h < M, "not-a-symbol", lambda: f"{const!r}: received {t['y']} decided as index {h}")
            if t["safe"]:
                run.check(h == t["i"], "wrong-decision",
                          lambda: f"{const!r}: symbol {t['i']} = {pts[t['i']]} disturbed ({t['kind']}) by "
                                  f"{math.sqrt(r['D'][t['i']]):.6g} < d/2 = {d / 2:.6g} to {t['y']} is decided as {h}")
            run.check(h in r["near"], "not-nearest",
                      lambda: f"{const!r}: received {t['y']} decided as symbol {h} at distance "
                              f"{root(r['D'][h]):.9g}; the nearest is at {root(r['lo']):.9g}")
            run.check(np.array_equal(c, np.array(pts[h])) or list(c) == pts[h], "not-nearest",
                      lambda: f"{const!r}: received {t['y']}: closest index {h}, closest symbol {list(c)}")
            k = ("hard", i)
            run.check(one_by_one.setdefault(k, h) == h or len(r["near"]) > 1, "depends-on-batch",
                      lambda: f"{const!r}: received {t['y']} decided {one_by_one[k]} in one batch, {h} in another")
        if lab is not None:
            out = np.asarray(lab.indices_to_bits(hard)).reshape(-1, m)
            for i, w in zip(batch, out.tolist()):
                if stream[i]["safe"]:
                    run.check(w == words[i], "wrong-bits",
                              lambda: f"{const!r} with {lab!r}: bits {words[i]} came back as {w}")
        # soft outputs
        soft = [i for i in batch if stream[i]["kind"] != "huge"]
        if len(soft) != len(batch):
            lead, per = [], len(soft)
            if not soft:
                continue
            y = np.array([v for i in soft for v in stream[i]["y"]])
            before = snapshot(y)
        q = p["queries"][b % len(p["queries"])] if p["queries"] else None
        if q is None:
            continue
        pri = q["priors"]
        if pri is not None and len(pri) != M:
            raise Invalid("priors")
        with np.errstate(all="ignore"):
            post = np.asarray(const.posteriors(y, q["np"], pri) if pri is not None else const.posteriors(y, q["np"]))
        run.check(post.shape == tuple(lead) + (per * M,), "shape",
                  lambda: f"{const!r}.posteriors: input {np.shape(y)}, output {post.shape}")
        run.log(np.round(post, 7).tolist())
        run.fault("priors", int(pri is not None))
        run.fault("zero-prior", int(pri is not None and min(pri) == 0))
        w = pri or [1 / M] * M
        for i, row in zip(soft, post.reshape(-1, M).tolist()):
            check_posterior(run, const, s, stream[i]["y"], ref[i], row, w, q["np"], cx, scale)
        run.check(snapshot(y) == before, "modified-argument", lambda: f"{const!r} modified the received array")
        if lab is not None:
            before = snapshot(post)
            L = np.asarray(lab.marginalize(post))
            run.check(snapshot(post) == before, "modified-argument", lambda: f"{lab!r}.marginalize modified its input")
            run.check(L.shape == tuple(lead) + (per * m,), "shape", lambda: f"{lab!r}.marginalize: {post.shape} -> {L.shape}")
            for i, row, ls in zip(soft, post.reshape(-1, M).tolist(), L.reshape(-1, m).tolist()):
                for j in range(m):
                    p0 = math.fsum(row[a] for a in range(M) if full[a][j] == 0)
                    p1 = math.fsum(row[a] for a in range(M) if full[a][j] == 1)
                    if p0 == 0 or p1 == 0:
                        run.fault("saturated")
                        ok = ls[j] == (math.inf if p1 == 0 else -math.inf)
                    else:
                        want = math.log(p0) - math.log(p1)
                        ok = abs(ls[j] - want) <= 1e-9 * (1 + abs(want))
                        want = round(want, 9)
                    run.check(ok, "wrong-llr",
                              lambda: f"{lab!r}: posteriors {show(row)} give LLR {ls[j]} for bit {j}; exact: "
                                      f"Pr[0] = {p0}, Pr[1] = {p1}")
    if p.get("bulk") and stream:
        run_bulk(p, run, np, const, lab, stream, ref, pts, words if lab is not None else None)
    if N > 1 and stream:
        flat = [v for t in stream for v in t["y"]][:-1]
        for name, fn in (("closest_indices", const.closest_indices), ("posteriors", lambda v: const.posteriors(v, 1.0))):
            run.fault("bad-length")
            try:
                out = fn(np.array(flat))
            except ValueError:
                continue
            run.check(False, "bad-length-accepted", lambda: f"{const!r}.{name} accepts {len(flat)} reals: {show(out)}")


def run_bulk(p, run, np, const, lab, stream, ref, pts, words):
    """One very long transmission in a single call: every symbol as when it is alone."""
    n, stride, M, N = int(p["bulk"]["n"]), int(p["bulk"]["stride"]), len(pts), len(pts[0])
    stream = [(t, r) for t, r in zip(stream, ref) if t["kind"] != "huge"]
    if not stream:
        return
    k = len(stream)
    order = (np.arange(n) * stride + np.arange(n) // 17) % k
    y1 = np.array([t["y"] for t, _ in stream])
    idx1 = np.array([t["i"] for t, _ in stream])
    run.fault("bulk")
    run.now += n

    def compare(name, got, one, exact=True, skip=()):
        want = np.asarray(one)[order]
        got = np.asarray(got)
        run.check(got.shape == (want.size,), "shape", lambda: f"{name} of {n} symbols: {got.shape}")
        got = got.reshape(want.shape)
        bad = got != want if exact else ~np.isclose(got, want, rtol=1e-6, atol=1e-12, equal_nan=True)
        bad = bad.reshape(n, -1).any(axis=1) & ~np.isin(order, list(skip))
        where = np.nonzero(bad)[0]
        run.check(where.size == 0, "depends-on-batch",
                  lambda: f"{const!r}: {name}: symbol {where[0]} of {n} in one call gives {show(got[where[0]])}, "
                          f"alone {show(want[where[0]])}")

    ties = {j for j, (_, r) in enumerate(stream) if len(r["near"]) > 1}
    alone = lambda f: [np.asarray(f(y)) for y in y1]
    compare("indices_to_symbols", const.indices_to_symbols(idx1[order]), [pts[i] for i in idx1])
    big = y1[order].reshape(-1)
    compare("closest_indices", const.closest_indices(big), [int(v[0]) for v in alone(const.closest_indices)], True, ties)
    compare("closest_symbols", const.closest_symbols(big), alone(const.closest_symbols), True, ties)
    with np.errstate(all="ignore"):
        q = p["queries"][0] if p["queries"] else {"np": 1.0, "priors": None}
        pri = () if q["priors"] is None else (q["priors"],)
        one = np.array(alone(lambda v: const.posteriors(v, q["np"], *pri)))
        # far points: the exponent's rounding is amplified; judged elsewhere against the exact rule
        rough = {j for j, (t, r) in enumerate(stream) if (float(r["mag"]) + 1) ** 2 / q["np"] > 1e7}
        post = np.asarray(const.posteriors(big, q["np"], *pri))
    compare("posteriors", post, one, False, rough | ties)
    if lab is not None:
        w1 = np.array([words[i] for i in range(len(words)) if p["symbols"][i]["kind"] != "huge"])
        if len(w1) == k:
            compare("indices_to_bits", lab.indices_to_bits(idx1[order]), w1)
            compare("bits_to_indices", lab.bits_to_indices(w1[order].reshape(-1)), idx1)
        compare("marginalize", lab.marginalize(one[order].reshape(-1)),
                [np.asarray(lab.marginalize(r)) for r in one], False)


def check_posterior(run, const, s, y, r, row, w, power, cx, scale):
    """Every reported posterior against the exact Bayes rule, within what rounding of the distances allows."""
    var = power if cx else 2 * power
    base = min((float((D - r["lo"]) / Fraction(var)) - math.log(v)) for D, v in zip(r["D"], w) if v > 0)
    e = [-(float((D - r["lo"]) / Fraction(var)) - math.log(v)) + base if v > 0 else -math.inf for D, v in zip(r["D"], w)]
    z = math.fsum(math.exp(t) for t in e)
    far = float(max(r["D"]))
    slack = 1e-9 + 32 * 2.0**-52 * (far + (r["mag"] + scale) ** 2) / var
    for a, got in enumerate(row):
        want = e[a] - math.log(z)
        if want == -math.inf:
            ok = got == 0
        elif got == 0:
            ok = want - slack < -650
        elif not 0 < got <= 1 + 1e-9:
            ok = False
        else:
            ok = abs(math.log(got) - want) <= slack * 2 + 1e-12 * abs(want) or max(math.log(got), want) < -650
        run.check(ok, "wrong-posterior",
                  lambda: f"{const!r}, noise power {power}, priors {show(w)}: received {y}: posterior of symbol {a} is "
                          f"{got}, Bayes gives {math.exp(want) if want > -700 else 0.0}")
    run.check(abs(math.fsum(row) - 1) < 1e-9, "wrong-posterior", lambda: f"{const!r}: posteriors {show(row)} sum to {sum(row)}")
