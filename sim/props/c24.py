"""C24: a designed quantiser has no better neighbour, and its reported error is the one its streams suffer."""

import numpy as np

from ..core import Invalid

RUNS = {"quick": 6000, "thorough": 20000}
TIME_UNIT = "samples"
RULE = ("A source with a random piecewise linear density (with gaps, peaks, one-sided, far from the origin, tiny or huge "
        "range, not vanishing outside it) feeds a quantiser: Lloyd-Max designed for it or for another source, uniform, or "
        "with arbitrary cells, wholly or partly outside the range.  A stream with exactly the source's proportions is "
        "sent through it in pieces and its error measured; an adversary proposes competitors with levels or thresholds "
        "moved.  Questions (levels, thresholds, reported error for several sources) come in any order.  Oracle: exact "
        "integrals of the polynomial pieces.")
STUBS = ["source: exact proportions", "adversary: neighbouring quantisers"]
ASSUMPTIONS = ["densities continuous inside the range", "integration within the error of the trapezoidal rule used",
               "midpoints within a thousandth of the mean cell width"]
PROBES = ["stream", "competitor", "lloyd-max", "uniform", "scalar", "mismatched", "outside", "empty-cell", "far", "tiny-or-huge",
          "coarse", "cut", "unbounded-density"]
SHRINK = ["asks", "rivals", "cuts"]


def gen_density(rng):
    k = rng.choice([1, 1, 2, 3, 5])
    xs = sorted(rng.sample(range(-40, 41), k + 1))
    hs = [rng.choice([0, 1, 1, 2, 3, rng.randint(1, 9)]) for _ in xs]
    if rng.random() < 0.3:
        hs = [1] * len(xs)
    if rng.random() < 0.15:  # a gap
        hs = [rng.choice([1, 2]), 0, 0, rng.choice([1, 3])]
        xs = sorted(rng.sample(range(-40, 41), 4))
    if not any(hs):
        hs[rng.randrange(len(hs))] = 2
    return {"x": xs, "h": hs, "open": rng.random() < 0.4}


def generate(rng, tier):
    kind = rng.choice(["lloyd", "lloyd", "uniform", "scalar"])
    L = rng.choice([2, 2, 3, 4, 5, 8]) if rng.random() < 0.9 else rng.choice([12, 16])
    p = {"kind": kind, "src": gen_density(rng), "other": gen_density(rng), "L": L,
         "scale": rng.choice([1.0, 0.25, 0.25, 1e-3, 1e-9, 1e6]), "shift": rng.choice([0, 0, 0, 100, -1000, 20000]),
         "cuts": sorted(rng.random() for _ in range(rng.choice([0, 1, 3]))), "n": rng.choice([400, 1500]),
         "ppi": rng.choice([None, None, None, 1025, 300]),
         "asks": [rng.choice(["levels", "mse", "mse", "mse-other"]) for _ in range(rng.randint(2, 5))],
         "rivals": [{"what": rng.choice(["level", "threshold"]), "i": rng.randrange(16), "f": rng.choice([-0.3, -0.1, 0.05, 0.2, 0.5])}
                    for _ in range(rng.choice([2, 6]))]}
    if kind == "uniform":
        p["step"], p["off"] = rng.choice([1, 4, 5, 10, 30]), rng.choice([0.0, 0.5, -0.5, 3, -7])
    elif kind == "scalar":
        L = rng.choice([1, 2, 3, 5, 9])
        v = sorted(rng.sample(range(-60, 61), 2 * L - 1))
        p["levels"], p["thr"] = v[0::2], v[1::2]
        if rng.random() < 0.3:  # narrow cells where the source is, wide ones around
            p["shift"], p["scale"] = 0, rng.choice([1.0, 0.01])
            a = rng.randint(200, 4000)
            p["src"] = {"x": [-a, -2, rng.choice([-1, 0, 1]), 2, a], "h": [0, 0, 5, 0, 0], "open": False}
            v = sorted(rng.sample(range(-30, 31), 2 * rng.choice([2, 3, 4]) - 1))
            v = [x / 10 for x in v]
            p["levels"], p["thr"] = [-a / 2, *v[0::2], a / 2], [-3.5, *v[1::2], 3.5]
    return p


class Source:
    def __init__(self, d, scale, shift):
        self.x = (np.array(d["x"], dtype=float) + shift) * scale
        h = np.array(d["h"], dtype=float)
        area = float(((h[1:] + h[:-1]) / 2 * np.diff(self.x)).sum())
        if not area > 0:
            raise Invalid("no mass")
        self.h = h / area
        self.open = d["open"]
        self.range = (float(self.x[0]), float(self.x[-1]))

    def pdf(self, t):
        t = np.asarray(t, dtype=float)
        return np.interp(t, self.x, self.h) if self.open else np.interp(t, self.x, self.h, left=0.0, right=0.0)

    def pieces(self, a, b):
        """The polynomial pieces of the density between a and b."""
        a, b = max(a, self.range[0]), min(b, self.range[1])
        if a >= b:
            return
        cut = [a, *[v for v in self.x if a < v < b], b]
        for u, v in zip(cut, cut[1:]):
            m = (u + v) / 2
            yield u, v, *(float(np.interp(t, self.x, self.h)) for t in (u, m, v))

    def moment(self, a, b, f):
        """Exact integral of f times the density (f: polynomial of degree two at most; Simpson's rule)."""
        return sum((v - u) / 6 * (f(u) * p + 4 * f((u + v) / 2) * q + f(v) * r) for u, v, p, q, r in self.pieces(a, b))

    def mse(self, levels, thr):
        ends = [-np.inf, *thr, np.inf]
        return sum(self.moment(a, b, lambda t: (t - y) ** 2) for y, a, b in zip(levels, ends, ends[1:]))

    def samples(self, n):
        """n samples in exact proportion: the quantiles of (i + 1/2) / n."""
        mass = np.concatenate([[0.0], np.cumsum((self.h[1:] + self.h[:-1]) / 2 * np.diff(self.x))])
        u = (np.arange(n) + 0.5) / n * mass[-1]
        k = np.clip(np.searchsorted(mass, u, side="right") - 1, 0, len(self.x) - 2)
        w = np.diff(self.x)[k]
        a, s, r = self.h[k], (self.h[k + 1] - self.h[k]) / w, u - mass[k]
        t = 2 * r / np.maximum(a + np.sqrt(np.maximum(a * a + 2 * s * r, 0)), 1e-300)
        return np.clip(self.x[k] + np.minimum(t, w), *self.range)


def execute(p, run):
    import komm

    scale, shift = p["scale"], p["shift"]
    src, other = Source(p["src"], scale, shift), Source(p["other"], scale, shift)
    lo, hi = src.range
    run.fault("far", int(abs(shift) >= 100))
    run.fault("tiny-or-huge", int(not 1e-2 < scale < 1e2))
    run.fault("unbounded-density", int(src.open))
    kind, L = p["kind"], p["L"]
    if kind == "lloyd":
        q = komm.LloydMaxQuantizer(src.pdf, src.range, L)
        run.fault("lloyd-max")
    elif kind == "uniform":
        q = komm.UniformQuantizer(L, p["step"] * scale, p["off"] + round(shift / p["step"]))
        run.fault("uniform")
    else:
        q = komm.ScalarQuantizer([(v + shift) * scale for v in p["levels"]], [(v + shift) * scale for v in p["thr"]])
        run.fault("scalar")
    run.real.add("komm." + type(q).__name__)
    levels, thr = np.array(q.levels, dtype=float), np.array(q.thresholds, dtype=float)
    run.check(len(thr) == len(levels) - 1, "size", lambda: f"{levels.tolist()} with {thr.tolist()}")
    run.fault("outside", int(len(thr) > 0 and (thr[0] < lo or thr[-1] > hi)))
    ppi = p["ppi"] or 4096
    run.fault("coarse", int(p["ppi"] is not None))

    def width(s):
        return max(s.range[1] - s.range[0], abs(levels[0] - s.range[1]), abs(levels[-1] - s.range[0]))

    def slack(s, points):
        """Bound on the trapezoidal rule's error (and rounding far from the origin)."""
        w, total = width(s), 0.0
        slopes = np.abs(np.diff(s.h) / np.diff(s.x))
        ends = np.concatenate([[s.range[0]], np.clip(thr, *s.range), [s.range[1]]])
        for y, a, b in zip(levels, ends, ends[1:]):
            if b > a:
                reach = max(abs(a - y), abs(b - y))
                inner = s.x[(s.x > a) & (s.x < b)]
                top = float(np.interp(np.concatenate([inner, [a, b]]), s.x, s.h).max())
                slope = max([v for v, u, x in zip(slopes, s.x, s.x[1:]) if x > a and u < b], default=0.0)
                knots = len(inner)
                h = (b - a) / (points - 1)
                total += h * h * ((b - a) / 12 * (2 * top + 4 * reach * slope) + knots * 2 * slope * reach**2)
        return 2 * total + 1e-12 * w * w + 1e-14 * (abs(lo) + abs(hi)) ** 2

    if kind == "lloyd":
        cell = (hi - lo) / L
        mass = [src.moment(a, b, lambda t: 1.0) for a, b in zip([lo, *thr], [*thr, hi])]
        run.fault("empty-cell", int(min(mass) < 1e-9))
        run.check(bool(np.all(np.diff(levels) >= 0) and np.all((levels >= lo - 1e-9 * cell) & (levels <= hi + 1e-9 * cell))), "order",
                  lambda: f"{p['src']}: levels {levels.tolist()}, range {src.range}")
        mid = (levels[1:] + levels[:-1]) / 2
        run.check(bool(np.all(np.abs(thr - mid) <= 1e-3 * cell)), "midpoints",
                  lambda: f"{p['src']} on {src.range}, {L} levels: thresholds {thr.tolist()}, midpoints {mid.tolist()}")
        for y, a, b, m in zip(levels, [lo, *thr], [*thr, hi], mass):
            if m < 1e-6:
                continue
            c = src.moment(a, b, lambda t: t - y) / m
            run.check(abs(c) <= 1e-3 * cell, "centroid", lambda: f"{p['src']} on {src.range}, {L} levels: level {y} of the cell "
                      f"from {a} to {b}, whose mean is {y + c}")
        own = src.mse(levels, thr)
        for r in p["rivals"]:
            lv, th = levels.copy(), thr.copy()
            if r["what"] == "level":
                lv[r["i"] % L] += r["f"] * cell
            elif L > 1:
                i = r["i"] % (L - 1)
                th[i] += r["f"] * (th[i] - levels[i] if r["f"] < 0 else levels[i + 1] - th[i])
            run.fault("competitor")
            riv = src.mse(lv, th)
            run.check(own <= riv + 1e-5 * cell**2 + slack(src, 4096), "beaten", lambda: f"{p['src']} on {src.range}: error {own}, but {r} "
                      f"gives {riv}: {levels.tolist()}, {thr.tolist()}")

    def reported(s):
        args = (s.pdf, s.range) if p["ppi"] is None else (s.pdf, s.range, p["ppi"])
        got, want = q.mean_squared_error(*args), s.mse(levels, thr)
        run.check(abs(got - want) <= slack(s, ppi) + 1e-9 * want, "reported-error",
                  lambda: f"{type(q).__name__} {levels.tolist()}, {thr.tolist()} on {s.x.tolist()}, {s.h.tolist()}: "
                  f"reported error {got}, but {want}")
        run.fault("mismatched", int(s is other))
        return want

    def stream():
        x = src.samples(p["n"])
        cuts = [0, *sorted({int(f * len(x)) for f in p["cuts"]}), len(x)]
        out = []
        for a, b in zip(cuts, cuts[1:]):
            if a < b:
                run.fault("cut", int(a > 0))
                out.append(np.asarray(q.quantize(x[a:b])))
        y = np.concatenate(out)
        run.now += len(x)
        run.fault("stream")
        got = float(((y - x) ** 2).mean())
        # the error as a function of the quantile varies by at most twice its largest value in each cell
        ends = np.concatenate([[lo], np.clip(thr, lo, hi), [hi]])
        var = sum(2 * max((a - v) ** 2, (b - v) ** 2) for v, a, b in zip(levels, ends, ends[1:]) if a < b)
        want = src.mse(levels, thr)
        run.check(abs(got - want) <= var / len(x) + 1e-9 * (want + width(src) ** 2), "measured-error",
                  lambda: f"{type(q).__name__} {levels.tolist()}, {thr.tolist()} on {src.x.tolist()}: measured {got}, exact {want}")

    for a in p["asks"]:
        if a == "levels":
            run.check(np.array_equal(q.levels, levels) and np.array_equal(q.thresholds, thr), "changed", lambda: "levels changed")
        elif a == "mse":
            reported(src)
        else:
            reported(other)
    stream()
    run.log(levels, thr)
    run.reach(f"quantiser:{kind}|{len(levels)}|{len(p['src']['x'])}|{p['scale']}|{p['shift']}|{src.open}|{p['ppi']}|"
              f"{'>' if len(thr) and thr[-1] > hi else ''}{'<' if len(thr) and thr[0] < lo else ''}")
