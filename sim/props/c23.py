"""C23: what a signal set and a labeling report is what streams over them measure."""

import cmath
import math
import random

import numpy as np

from .. import codes, objects
from ..core import Invalid
from ..util import show
from . import c15

RUNS = {"quick": 20000, "thorough": 150000}
TIME_UNIT = "symbols"
RULE = ("A random constellation of any family (single-point rings and axes included) and, where its order allows one, a "
        "labeling.  A source whose symbols occur exactly as often as its priors say is shuffled and sent in random "
        "pieces and layouts; a meter on the line measures points, mean and energy; an adversary who knows the points "
        "pushes symbols towards their nearest neighbours, by just less and just more than half the least distance, and "
        "bits are read back through the labeling.  Between the pieces the set is asked, in any order, for its matrix, "
        "order, dimension, mean, energy (with and without priors) and minimum distance.  Oracle: the documented points.")
STUBS = ["line: exact meter", "adversary: pushes towards the nearest neighbour"]
ASSUMPTIONS = ["amplitudes and distances are positive", "relative 1e-9 of the largest point"]
PROBES = ["balanced", "push-under", "push-over", "gray-step", "zero-prior", "single-point", "cut", "priors", "labeled", "large"]
SHRINK = ["asks", "w", "pushes", "cuts"]


def generate(rng, tier):
    while True:
        s = c15.gen_const(rng, tier)
        if rng.random() < 0.08:
            s = rng.choice([{"kind": "PSK", "args": [1, 1.5, 0.1]}, {"kind": "PAM", "args": [1, 2.0]},
                            {"kind": "QAM", "args": [[1, rng.randint(2, 5)], [rng.choice([0.5, 1.0, 3.0]), 1.0], 0.1]},
                            {"kind": "QAM", "args": [[rng.randint(2, 5), 1], [1.0, rng.choice([0.5, 1.0, 3.0])], 0.0]},
                            {"kind": "APSK", "args": [[1, rng.randint(2, 8)], [rng.choice([0.0, 0.3]), 2.0], 0.2]},
                            {"kind": "APSK", "args": [[4, 12], [1.0, 2.5], [0.125, 1 / 24]]},
                            {"kind": "ASK", "args": [1, 1.0, 0.3]}, {"kind": "Biorthogonal", "args": [2, 1.5]},
                            {"kind": "Orthogonal", "args": [1, 2.0]}, {"kind": "Simplex", "args": [2, 2.0]},
                            {"kind": "Constellation", "matrix": [[0.5], [0.5], [2.0]]} | {"kind": "custom"}])
        if rng.random() < 0.03:  # many points without a closed form
            k = rng.randint(2, 4)
            if rng.random() < 0.6:
                s = {"kind": "APSK", "args": [[rng.randint(8, 60) for _ in range(k)],
                                              sorted(rng.sample(range(20, 60), k)), rng.choice([0.0, 0.1])]}
                s["args"][1] = [a / 20 for a in s["args"][1]]
            else:
                g = sorted(rng.sample(range(1600), rng.randint(65, 180)), key=lambda _: rng.random())
                s = {"kind": "custom", "matrix": [[v % 40 / 2, v // 40 / 4] for v in g]}
        M = objects.constellation_order(s)
        if M <= 300 or rng.random() < 0.02:
            break
    lab = c15.labelings(rng, s)
    w = rng.choice([[1] * M, [rng.randint(1, 6) for _ in range(M)], [rng.choice([0, 0, 1, 4]) for _ in range(M)]])
    if not any(w):
        w[rng.randrange(M)] = 3
    asks = [rng.choice(["matrix", "size", "mean", "mean", "energy", "energy", "distance", "mean-w", "energy-w", "labels"])
            for _ in range(rng.randint(3, 12))]
    return {"const": s, "lab": lab, "w": w, "order": rng.getrandbits(32), "cuts": sorted(rng.random() for _ in range(rng.choice([0, 1, 3]))),
            "pushes": [{"i": rng.randrange(M), "f": rng.choice([0.1, 0.4, 0.49, 0.499]), "over": rng.random() < 0.4}
                       for _ in range(rng.choice([0, 3, 10]))], "asks": asks,
            "at": [rng.random() for _ in asks], "form": rng.choice(codes.INT_FORMS), "layout": rng.choice(["flat", "rows", "column"]),
            "gray": rng.random() < 0.5}


def documented(s):
    """The points the documentation promises, as rows (complex numbers: one-dimensional)."""
    k, a = s["kind"], s.get("args")
    turn = lambda phi: cmath.exp(2j * math.pi * phi)
    pam = lambda M, d: [(2 * i - M + 1) * d / 2 for i in range(M)]
    if k == "custom":
        return [list(map(float, r)) for r in s["matrix"]]
    if k == "custom-complex":
        h = len(s["matrix"][0]) // 2
        return [[complex(r[j], r[h + j]) for j in range(h)] for r in s["matrix"]]
    if k == "PAM":
        return [[x] for x in pam(*a)]
    if k == "ASK":
        return [[i * a[1] * turn(a[2])] for i in range(a[0])]
    if k == "PSK":
        return [[a[1] * turn(i / a[0] + a[2])] for i in range(a[0])]
    if k == "APSK":
        ph = a[2] if isinstance(a[2], (list, tuple)) else [a[2]] * len(a[0])
        return [[A * turn(i / M + f)] for M, A, f in zip(a[0], a[1], ph) for i in range(M)]
    if k == "QAM":
        Mi, Mq = a[0] if isinstance(a[0], (list, tuple)) else (math.isqrt(a[0]),) * 2
        di, dq = a[1] if isinstance(a[1], (list, tuple)) else (a[1],) * 2
        return [[complex(x, y) * turn(a[2])] for x in pam(Mi, di) for y in pam(Mq, dq)]
    if k == "CrossQAM":
        m = a[0].bit_length() - 1
        L = 3 * 2 ** ((m - 3) // 2)
        lim = 2 ** ((m - 1) // 2) / 2 * a[1]
        g = pam(L, a[1])
        return [[complex(x, y) * turn(a[2])] for x in g for y in g if not (abs(x) > lim and abs(y) > lim)]
    M, A = a
    if k == "Orthogonal":
        return [[A * (i == j) for j in range(M)] for i in range(M)]
    if k == "Simplex":
        return [[A * ((i == j) - 1 / M) for j in range(M)] for i in range(M)]
    return [[A * (i == j) - A * (i == j + M // 2) for j in range(M // 2)] for i in range(M)]


def words_of(spec):
    """The documented labeling matrix, as tuples of bits."""
    k = spec["kind"]
    if k == "custom":
        return [tuple(r) for r in spec["matrix"]]
    if k in ("natural", "reflected"):
        m = spec["m"]
        return [tuple((v >> (m - 1 - j)) & 1 for j in range(m)) for v in
                ((i ^ i >> 1) if k == "reflected" else i for i in range(2**m))]
    parts = [words_of(x) for x in (spec["parts"] if k == "product" else [{"kind": "reflected", "m": b} for b in spec["bits"]])]
    rows = [()]
    for p in parts:
        rows = [r + w for r in rows for w in p]
    return rows


def execute(p, run):
    s = p["const"]
    M, N = objects.constellation_order(s), objects.constellation_dim(s)
    if len(p["w"]) != M or not any(p["w"]):
        raise Invalid("priors")
    const = objects.build_constellation(s)
    run.real.add("komm." + type(const).__name__)
    doc = documented(s)
    pts = np.array(doc)
    size = max(1e-300, float(np.abs(pts).max()))
    eps = 1e-9 * size
    d2 = (np.abs(pts[:, None, :] - pts[None]) ** 2).sum(axis=2)
    np.fill_diagonal(d2, np.inf)
    d_min = float(np.sqrt(d2.min())) if M > 1 else None
    if M > 1 and 0 < d_min < 1e-6 * size:
        raise Invalid("points too close")
    run.fault("large", int(M > 64))
    run.fault("single-point", int(M == 1 or s["kind"] == "APSK" and 1 in s["args"][0] or
                                  s["kind"] == "QAM" and isinstance(s["args"][0], list) and 1 in s["args"][0]))
    lab = words = None
    if p["lab"]:
        lab, words = objects.build_labeling(p["lab"]), words_of(p["lab"])
        run.real.add("komm." + type(lab).__name__)
        run.fault("labeled")
    W = sum(p["w"])
    rng = random.Random(p["order"])
    stream = [i for i, w in enumerate(p["w"]) for _ in range(w)]
    rng.shuffle(stream)
    uniform = list(range(M))
    rng.shuffle(uniform)

    def near(got, want, what, scale=1.0):
        got, want = np.asarray(got), np.asarray(want)
        run.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= eps * scale)), what,
                  lambda: f"{const!r}: {what} {got.tolist()}, but the line shows {want.tolist()}")

    def send(indices):
        """What the line shows for these symbols, sent in pieces."""
        cuts = [0, *sorted({int(f * len(indices)) for f in p["cuts"]}), len(indices)]
        out = []
        for i, j in zip(cuts, cuts[1:]):
            if i == j:
                continue
            run.fault("cut", int(i > 0))
            x = np.array(indices[i:j])
            x = x.reshape(1, -1) if p["layout"] == "rows" else x.reshape(-1, 1) if p["layout"] == "column" else x
            out.append(np.asarray(const.indices_to_symbols(x)).reshape(-1, N))
        run.now += len(indices)
        return np.concatenate(out)

    def ask(q):
        if q == "matrix":
            near(const.matrix, pts, "matrix")
        elif q == "size":
            run.check((const.order, const.dimension) == (M, N), "size", lambda: f"{const!r}: {const.order}, {const.dimension}")
        elif q in ("mean", "energy"):
            got = const.mean() if q == "mean" else const.mean_energy()
            r = send(uniform)
            near(got, r.sum(axis=0) / M if q == "mean" else (np.abs(r) ** 2).sum() / M, q, 1 if q == "mean" else size)
        elif q in ("mean-w", "energy-w"):
            run.fault("priors")
            run.fault("zero-prior", int(0 in p["w"]))
            pri = [w / W for w in p["w"]]
            got = const.mean(pri) if q == "mean-w" else const.mean_energy(pri)
            r = send(stream)
            near(got, r.sum(axis=0) / W if q == "mean-w" else (np.abs(r) ** 2).sum() / W, q, 1 if q == "mean-w" else size)
        elif q == "distance":
            if M > 1:
                near(const.minimum_distance(), d_min, "minimum distance")
        elif lab is not None:
            m = len(words[0])
            run.check((lab.num_bits, lab.cardinality) == (m, M), "label-size", lambda: f"{lab!r}")
            run.check(np.asarray(lab.matrix).astype(int).tolist() == [list(w) for w in words], "label-matrix",
                      lambda: f"{lab!r}: {np.asarray(lab.matrix).tolist()}, documented {words}")
            inv = lab.inverse_mapping
            run.check(len(inv) == M and all(inv[w] == i for i, w in enumerate(words)), "label-inverse", lambda: f"{lab!r}: {inv}")

    todo = sorted(zip(p["at"], p["asks"]))
    for f, q in todo:
        if f < 0.5:
            ask(q)
    # the whole stream, point by point
    run.fault("balanced")
    seen = send(stream)
    near(seen, pts[stream], "points")
    if lab is not None:
        bits = np.array([b for i in stream for b in words[i]])
        got = np.asarray(lab.bits_to_indices(codes.form_array(bits.tolist(), p["form"])))
        run.check(got.tolist() == stream, "bits-to-symbols", lambda: f"{lab!r}: {show(bits)} selects {show(got)}, not {show(stream)}")
        back = np.asarray(lab.indices_to_bits(np.array(stream)))
        run.check(np.array_equal(back.ravel(), bits), "symbols-to-bits", lambda: f"{lab!r}: {show(stream)} stands for {show(back)}")
    # the adversary
    if M > 1 and d_min > 0:
        for c in p["pushes"]:
            i = c["i"] % M
            j = int(d2[i].argmin())
            if c["over"]:
                y, want = pts[i] + (pts[j] - pts[i]) * (1 - c["f"]), j
                run.fault("push-over")
            else:
                y, want = pts[i] + (pts[j] - pts[i]) / np.sqrt(d2[i, j]) * (c["f"] * d_min), i
                run.fault("push-under")
            got = np.asarray(const.closest_indices(y)).ravel().tolist()
            run.check(got == [want], "push", lambda: f"{const!r}: {pts[i]} pushed towards {pts[j]} to {y} is taken for {got}")
    if p["gray"] and lab is not None and p["lab"]["kind"] in ("reflected", "rect") and M <= 64 and d_min:
        gray_steps(s, p, lab, const, pts, run)
    for f, q in todo:
        if f >= 0.5:
            ask(q)
    run.log(stream[:40], d_min, M)
    run.reach(f"set:{s['kind']}|{M}|{N}|{p['lab'] and p['lab']['kind']}|{len(set(p['w']))}|{sorted(set(p['asks']))}")


def gray_steps(s, p, lab, const, pts, run):
    """A symbol taken for its neighbour along an axis (or round the circle) costs exactly one bit."""
    M = len(pts)
    if s["kind"] in ("PAM", "ASK") and p["lab"]["kind"] == "reflected":
        steps = [(i, i + 1) for i in range(M - 1)]
    elif s["kind"] == "PSK" and p["lab"]["kind"] == "reflected":
        steps = [(i, (i + 1) % M) for i in range(M)]
    elif s["kind"] == "QAM" and p["lab"]["kind"] == "rect":
        Mi, Mq = s["args"][0] if isinstance(s["args"][0], list) else (math.isqrt(M),) * 2
        if [Mi, Mq] != [2**b for b in p["lab"]["bits"]]:
            return
        steps = [(a * Mq + b, a * Mq + b + 1) for a in range(Mi) for b in range(Mq - 1)] + \
                [(a * Mq + b, a * Mq + b + Mq) for a in range(Mi - 1) for b in range(Mq)]
    else:
        return
    for i, j in steps:
        y = pts[i] + (pts[j] - pts[i]) * 0.6
        k = np.asarray(const.closest_indices(y))
        a, b = (np.asarray(lab.indices_to_bits(x)).ravel() for x in (np.array([i]), k))
        run.fault("gray-step")
        run.check(int((a != b).sum()) == 1, "gray", lambda: f"{const!r} with {lab!r}: {pts[i]} pushed to {y}: {a} becomes {b}")
