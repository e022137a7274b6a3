"""C17: a pulse-shaped waveform link recovers every symbol, whatever the timing, the cutting and the losses."""

import math
from fractions import Fraction

import numpy as np

from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 16000, "thorough": 160000}
TIME_UNIT = "symbol periods"
RULE = ("Symbol streams of several users are shaped segment by segment (sampling-rate expansion, convolution with the "
        "taps of a random pulse), the segments delivered late, out of order, twice or never to an overlap-add buffer; "
        "receivers sample at the symbol instants after an arbitrary delay, at wrong instants, through a matched filter, "
        "in the frequency domain or through a saturating converter.  Oracle: own superposition of own waveforms, "
        "integrated from the documented spectra; own cells of the converter.")
STUBS = ["medium: simulated sample buffer with delay, loss, duplication and bounded noise",
         "receiver clock: simulated timing error"]
ASSUMPTIONS = ["the value exactly on a discontinuity (edges of rectangular waveforms and spectra) is claimed only where it is "
               "exactly representable", "floating-point agreement within 1e-8 (2e-5 next to removable singularities)"]
PROBES = ["delay", "lost-segment", "duplicate-segment", "reorder", "cut", "timing-error", "singular-instant", "matched-filter",
          "frequency-domain", "converter", "saturation", "bounded-noise", "offset", "axis", "mode"]
SHRINK = ["order", "dup", "lost", "timing", "freqs", "adc.x"]

ALPHAS = [0, 0.05, 0.1, 0.2, 0.22, 0.25, 0.3, 0.35, 0.5, 0.5, 0.75, 0.9, 1, 1]


def gen_pulse(rng):
    cls = rng.choice(["Sinc", "RC", "RC", "RC", "Beau", "Beau", "Beau", "Gauss", "Rect", "Man"])
    p = {"cls": cls, "root": False}
    if cls in ("RC", "Beau"):
        p["a"] = rng.choice(ALPHAS) if rng.random() < 0.7 else round(rng.uniform(0.02, 1), 6)
        p["root"] = rng.random() < 0.5
    if cls == "Sinc":
        p["root"] = rng.random() < 0.2
    if cls == "Gauss":
        p["a"] = rng.choice([0.25, 0.5, 1, 1.0, 2.5, 0.3])
    if cls == "Rect":
        p["a"] = rng.choice([1, 1.0, 0.5, 0.25, 0.75, 0.3, 0.9])
    return p


def gen_time(rng, p):
    """An instant at which a receiver with a bad clock looks."""
    r = rng.random()
    a = p.get("a") or 1
    if r < 0.25 and p["cls"] in ("RC", "Beau"):
        return rng.choice([1, -1]) * rng.choice([1 / (2 * a), 1 / (4 * a), 1 / a]) * rng.choice(
            [1, 1, 1 + 1e-3, 1 - 1e-4, 1 + 1e-6, 1 + 1e-9])
    if r < 0.4:
        return float(rng.randint(-12, 12)) if rng.random() < 0.8 else float(rng.randint(-300, 300))
    if r < 0.5:
        return rng.choice([0.0, 1e-12, -1e-9, 1e-6, 1e-3, 0.5, 0.25, -0.5])
    return rng.uniform(-15, 15) if rng.random() < 0.8 else rng.uniform(-300, 300)


def generate(rng, tier):
    p = {"pulse": gen_pulse(rng)}
    finite = p["pulse"]["cls"] in ("Rect", "Man")
    p["sps"] = rng.choice([1, 2, 3, 4, 5, 8, 10, 16])
    if p["pulse"]["cls"] == "Man" and p["sps"] < 2:
        p["sps"] = 4
    p["span"] = None if finite and rng.random() < 0.6 else [-rng.choice([0, 1, 3, 8, 12, 20]), rng.choice([1, 2, 5, 8, 12, 20])]
    if rng.random() < 0.1 and not finite:
        p["span"] = [rng.randint(-9, 0), rng.randint(1, 9)]
    p["users"] = rng.choice([0, 0, 0, 1, 2, 3])  # 0: a one-dimensional stream
    p["axis"] = rng.choice([-1, 0, 1]) if p["users"] else -1
    p["deep"] = rng.choice([-3, -2, -1, 0, 1, 2]) if p["users"] and rng.random() < 0.25 else None  # a third axis
    p["ahead"] = rng.random() < 0.5
    p["levels"] = rng.choice([2, 2, 4, 8])
    p["complex"] = rng.random() < 0.3
    L = rng.choice([1, 2, 5, 12, 30, 60, 60, 300 if tier == "thorough" else 120])
    if rng.random() < 0.01:  # a long stream
        L, p["users"], p["deep"], p["axis"], p["sps"] = rng.choice([700, 1500]), 0, None, -1, rng.choice([2, 2, 4])
    n = max(1, p["users"])
    p["sym"] = [[rng.randrange(p["levels"] ** (2 if p["complex"] else 1)) for _ in range(L)] for _ in range(n)]
    p["form"] = rng.choice(["int", "float", "list", "int8", "readonly"])
    cuts, left = [], L
    while left:
        c = min(left, rng.choice([1, 2, 5, 20, left]))
        cuts.append(c)
        left -= c
    p["cuts"] = cuts
    order = list(range(len(cuts)))
    if rng.random() < 0.6:
        rng.shuffle(order)
    p["order"] = order
    p["dup"] = [rng.choice(order)] if rng.random() < 0.2 else []
    p["lost"] = rng.sample(order, rng.randint(1, min(2, len(order)))) if rng.random() < 0.25 else []
    p["delay"] = rng.choice([0, 0, 1, 2, 3, 7, 50, rng.randrange(200)])
    p["swap"] = rng.random() < 0.3
    p["noise"] = rng.choice([0, 0, 0.5, 0.9, 0.99])
    p["nseed"] = rng.getrandbits(30)
    p["timing"] = [gen_time(rng, p["pulse"]) for _ in range(rng.randint(1, 5))]
    p["tform"] = rng.choice(["array", "scalar", "list", "matrix", "empty"])
    p["freqs"] = [rng.choice([0.0, 0.1, 0.25, -0.3, 0.49, -0.51, 0.6, 0.9, -1.2, 3.0, rng.uniform(-1.1, 1.1)])
                  for _ in range(rng.randint(1, 4))]
    p["nfft"] = rng.choice([None, None, 1, 7, 16, 64])
    p["adc"] = gen_adc(rng)
    p["fo"] = [rng.randint(1, 7), rng.randrange(7)]
    p["mode"] = rng.choice(["full", "full", "same", "valid"])
    p["history"] = rng.choice([0, 0, 1])
    return p


def gen_adc(rng):
    kind = rng.choice(["riser", "tread", "offset", "scalar", "scalar"])
    d = {"kind": kind, "L": rng.choice([2, 2, 3, 4, 5, 8, 16, 255, 256, 300]),
         "step": rng.choice([1, 1.0, 0.5, 0.25, 0.1, 2, 3.7]), "off": rng.choice([0.0, 0.5, -0.5, 0.25, -1, 3, 0.1])}
    if kind == "scalar":
        v = sorted(rng.sample(range(-60, 60), 2 * rng.choice([1, 2, 3, 5, 9]) + 1))
        d["levels"], d["thr"] = [x / 4 for x in v[0::2]], [x / 4 for x in v[1::2]]
        d.pop("L")
    d["x"] = [rng.choice([0.0, -0.0, 1e300, -1e300, 1e-300, "inf", "-inf", rng.gauss(0, 2), rng.gauss(0, 30),
                          rng.randint(-12, 12) / 4, rng.randint(-40, 40) * d["step"] / 2]) for _ in range(rng.randint(1, 30))]
    return d


# --------------------------------------------------------------------- own pulses

def bands(p):
    """The positive-frequency half of a band-limited spectrum: (low, high, function, cusp at the high end)."""
    a = p.get("a", 0) or 0
    power = 0.5 if p["root"] else 1
    f1, f2 = (1 - a) / 2, (1 + a) / 2
    out = [(0.0, f1, None)]
    if a == 0:
        return [(0.0, 0.5, None)]
    if p["cls"] == "RC":
        out.append((f1, f2, lambda f: (0.5 * (1 + np.cos(np.pi * (f - f1) / a))) ** power))
    else:
        b = 2 * math.log(2) / a
        out.append((f1, 0.5, lambda f: np.exp(-b * (f - f1)) ** power))
        out.append((0.5, f2, lambda f: (-np.expm1(-b * (f2 - f))) ** power))
    return out


NODES, WEIGHTS = np.polynomial.legendre.leggauss(24)


def integrate(p, t, power=1):
    """2 * int_0^inf S(f)^power cos(2 pi f t) df."""
    t = np.asarray(t, dtype=float)
    total = np.zeros(t.shape)
    top = float(np.max(np.abs(t), initial=0.0))
    for lo, hi, fn in bands(p):
        if hi <= lo:
            continue
        if fn is None:
            x = 2 * np.pi * hi * t
            small = np.abs(x) < 1e-6
            total += 2 * hi * np.where(small, 1 - x**2 / 6, np.sin(x) / np.where(small, 1, x))
            continue
        # f = hi - v^2, so that the square root's cusp at hi does no harm; panels of 24 nodes each
        panels = int((hi - lo) * top / 4) + 3
        cut = np.linspace(0, math.sqrt(hi - lo), panels + 1)
        half = (cut[1:] - cut[:-1])[:, None] / 2
        v = (cut[:-1, None] + half * (NODES + 1)).ravel()
        f = hi - v**2
        g = (half * WEIGHTS).ravel() * 2 * v * fn(f) ** power
        total += 2 * np.cos(2 * np.pi * t[..., None] * f) @ g
    return total


def wave(p, t):
    """Own waveform, and where it is not claimed (next to a discontinuity)."""
    t = np.asarray(t, dtype=float)
    cls, a = p["cls"], p.get("a")
    none = np.zeros(t.shape, dtype=bool)
    if cls in ("Sinc", "RC", "Beau"):
        return integrate(p, t), none
    if cls == "Gauss":
        b = a / math.sqrt(math.log(2))
        return np.exp(-2 * (math.pi * b * t) ** 2), none
    if cls == "Rect":
        edge = (np.abs(t) < 1e-9) & (t != 0) | (np.abs(t - a) < 1e-9) & (not exact(a))
        return ((t >= 0) & (t < a)).astype(float), edge
    edge = (np.abs(t * 2 - np.round(t * 2)) < 1e-9) & (t * 2 != np.round(t * 2))
    return np.where((t >= 0) & (t < 0.5), -1.0, np.where((t >= 0.5) & (t < 1), 1.0, 0.0)), edge


def exact(a):
    return Fraction(a).denominator <= 8


def correlation(p, tau):
    tau = np.abs(np.asarray(tau, dtype=float))
    cls, a = p["cls"], p.get("a")
    if cls in ("Sinc", "RC", "Beau"):
        return integrate(p, tau, 2)
    if cls == "Gauss":
        b = a / math.sqrt(math.log(2))
        return np.exp(-((math.pi * b * tau) ** 2)) / (2 * math.sqrt(math.pi) * b)
    if cls == "Rect":
        return np.maximum(0.0, a - tau)
    return np.where(tau < 0.5, 1 - 3 * tau, np.where(tau < 1, tau - 1, 0.0))


def spectrum(p, f):
    cls, a = p["cls"], p.get("a")
    if cls in ("Sinc", "RC", "Beau"):
        for lo, hi, fn in bands(p):
            if lo <= abs(f) < hi:
                return 1.0 if fn is None else float(fn(np.float64(abs(f))))
        return 0.0
    if cls == "Gauss":
        b = a / math.sqrt(math.log(2))
        return math.exp(-0.5 * (f / b) ** 2) / (math.sqrt(2 * math.pi) * b)

    def piece(lo, hi):
        if f == 0:
            return hi - lo
        w = -2j * math.pi * f
        return (np.exp(w * hi) - np.exp(w * lo)) / w

    return piece(0, a) if cls == "Rect" else piece(0.5, 1) - piece(0, 0.5)


def build(p):
    import komm

    cls = p["cls"]
    if cls == "Sinc":
        q = komm.SincPulse()
    elif cls == "RC":
        q = komm.RaisedCosinePulse(p["a"])
    elif cls == "Beau":
        q = komm.BeaulieuPulse(p["a"])
    elif cls == "Gauss":
        q = komm.GaussianPulse(p["a"])
    elif cls == "Rect":
        q = komm.RectangularPulse(p["a"])
    else:
        q = komm.ManchesterPulse()
    return q.root() if p["root"] else q


def tolerance(p, t):
    """Next to removable singularities the library may use the limit."""
    a = p.get("a")
    t = np.abs(np.asarray(t, dtype=float))
    tol = np.full(t.shape, 1e-8)
    if p["cls"] == "RC" and a:
        for s in (0, 1 / (2 * a), 1 / (4 * a), 1 / a):
            tol[np.abs(t - s) <= 2e-5 * max(1, s)] = 2e-5
    return tol


def shaped(values, form):
    """The same instants in one of many guises -> (argument, shape of the answer)."""
    a = np.array(values, dtype=float)
    if form == "scalar":
        return float(a[0]), a[0]
    if form == "list":
        return a.tolist(), a
    if form == "matrix":
        a = np.stack([a, a[::-1]])
        return a, a
    if form == "empty":
        return np.array([]), np.array([])
    return a, a


def execute(p, run):
    import komm

    P, sps = p["pulse"], p["sps"]
    pulse = build(P)
    name = f"{P['cls']}({P.get('a', '')}){'.root()' if P['root'] else ''}"
    run.real.update({"komm." + type(pulse).__name__.lstrip("_"), "sampling_rate_expand", "sampling_rate_compress", "convolve"})
    if p["history"]:
        pulse.energy(), pulse.taps(2, (0, 3)), pulse.waveform(np.arange(4.0))
    span = tuple(p["span"]) if p["span"] else None
    lo, hi = span or (0, 1)

    # the filter
    grid = np.array([k / sps for k in range(lo * sps, hi * sps + 1)])
    taps = np.asarray(pulse.taps(sps, span) if span else pulse.taps(samples_per_symbol=sps))
    own, edge = wave(P, grid)
    run.check(taps.shape == grid.shape, "taps-shape", lambda: f"{name}.taps({sps}, {span}) has shape {taps.shape}")
    bad = (np.abs(taps - own) > tolerance(P, grid)) & ~edge
    run.check(not bad.any(), "taps", lambda: f"{name}.taps({sps}, {span}): {show(taps[bad][:4])} instead of "
                                             f"{show(own[bad][:4])} at {show(grid[bad][:4])}")
    own = np.where(edge, taps, own)
    if p["history"] and taps.flags.writeable:  # a caller scales the filter it got; the next one gets a fresh filter
        kept = taps.copy()
        taps *= 3
        again = np.asarray(pulse.taps(sps, span) if span else pulse.taps(samples_per_symbol=sps))
        run.check(np.array_equal(again, kept), "taps-shared", lambda: f"{name}.taps({sps}, {span}) returned a filter that "
                                                                     f"another caller had scaled")
        taps = kept

    # the transmitters
    users, axis = p["users"], p["axis"] if p["deep"] is None else p["deep"]
    if len(p["sym"]) != max(1, users) or len({len(r) for r in p["sym"]}) != 1:
        raise Invalid("symbols")
    M = p["levels"]
    alphabet = 2 * np.arange(M) - (M - 1)
    sym = np.array(p["sym"])
    if sym.max(initial=0) >= M ** (2 if p["complex"] else 1) or sum(p["cuts"]) != sym.shape[1]:
        raise Invalid("symbols")
    a = alphabet[sym % M] + 1j * alphabet[sym // M] if p["complex"] else alphabet[sym]
    L = a.shape[1]

    def arrange(x):
        """(users, time) -> the caller's layout."""
        if not users:
            return x[0]
        if p["deep"] is not None:
            return np.moveaxis(np.stack([x, x[::-1]]), -1, axis)
        return x.T if axis == 0 else x

    def restore(x):
        """The caller's layout -> (users, time)."""
        x = np.asarray(x)
        if not users:
            return x[None]
        if p["deep"] is not None:
            x = np.moveaxis(x, axis, -1)
            run.check(np.array_equal(x[0], x[1][::-1]), "axis", "the two planes of a stack were treated differently")
            return x[0]
        return x.T if axis == 0 else x

    def present(x):
        x = arrange(x)
        form = p["form"]
        if form == "list":
            return x.tolist()
        if form == "float" and not p["complex"]:
            return x.astype(float)
        if form == "int8" and not p["complex"]:
            return x.astype(np.int8)
        if form == "readonly":
            x = x.copy()
            x.setflags(write=False)
        return x

    run.fault("axis", int(axis not in (-1, arrange(a).ndim - 1)))
    total = p["delay"] + L * sps + len(taps) - 1
    buffer = np.zeros((max(1, users), total), dtype=complex)
    want = np.zeros_like(buffer)
    starts = np.concatenate([[0], np.cumsum(p["cuts"])]).tolist()
    seen = set()
    alive = np.zeros(L, dtype=bool)
    held = {}

    def expand(i):
        arg = present(a[:, starts[i]:starts[i + 1]])
        before = snapshot(arg)
        up = komm.sampling_rate_expand(arg, sps, axis=axis) if axis != -1 else komm.sampling_rate_expand(arg, sps)
        run.check(snapshot(arg) == before, "input-modified", "sampling_rate_expand modified its input")
        return up

    if p["ahead"]:  # the transmitter expands every segment before it filters the first
        held = {i: expand(i) for i in p["order"] if i < len(p["cuts"])}
    run.fault("delay", int(p["delay"] > 0))
    run.fault("reorder", int(p["order"] != sorted(p["order"])))
    for i in [*p["order"], *p["dup"]]:
        if i >= len(p["cuts"]):
            raise Invalid("segment")
        if i in p["lost"]:
            run.fault("lost-segment")
            continue
        piece = a[:, starts[i]:starts[i + 1]]
        up = held.get(i)
        if up is None:
            up = expand(i)
        tb, ub = snapshot(taps), snapshot(up)
        out = komm.convolve(up, taps, axis=axis) if p["swap"] and not users else komm.convolve(taps, up, axis=axis)
        run.check((snapshot(taps), snapshot(up)) == (tb, ub), "input-modified", "convolve modified its input")
        run.fault("cut")
        out = restore(out)
        run.check(out.shape == (max(1, users), piece.shape[1] * sps + len(taps) - 1), "shape",
                  lambda: f"segment of {piece.shape} became {out.shape}")
        if i in seen:  # the receiver knows the segment already
            run.fault("duplicate-segment")
            run.check(np.array_equal(out, kept[i]), "repeat-differs", lambda: f"segment {i} shaped twice differs")
            continue
        if not seen:
            kept = {}
        seen.add(i)
        kept[i] = out
        s = p["delay"] + starts[i] * sps
        buffer[:, s:s + out.shape[1]] += out
        for k in range(piece.shape[1]):
            want[:, s + k * sps:s + k * sps + len(own)] += piece[:, k:k + 1] * own
        alive[starts[i]:starts[i + 1]] = True
        run.now += piece.shape[1]
    tol = 1e-7 * M + 2e-5 * M * (P["cls"] == "RC")
    run.log(np.round(buffer, 6).tolist() if buffer.size < 3000 else buffer.shape)
    off = np.abs(buffer - want)
    run.check(off.max(initial=0) <= tol * 4, "superposition",
              lambda: f"{name}, {sps} samples per symbol, span {span}: sample {int(off.argmax())} is off by {off.max()}")

    # the receiver samples at the symbol instants (the peak of the pulse is at -lo*sps samples into the filter)
    first = p["delay"] - lo * sps
    nyquist = not P["root"] and P["cls"] in ("Sinc", "RC", "Beau") or P["cls"] == "Sinc"
    live = a * alive
    sure = nyquist and hi > 0 or P["cls"] == "Rect" and (P["a"] == 1 or P["a"] * sps > 1e-3)
    data = buffer if p["complex"] else buffer.real
    off0 = first % sps
    run.fault("offset", int(off0 > 0))
    dl = arrange(data)
    got = restore(komm.sampling_rate_compress(dl, sps, off0, axis) if users else
                  komm.sampling_rate_compress(dl, factor=sps, offset=off0))
    run.check(np.array_equal(got, data[:, off0::sps]), "compress", "sampling_rate_compress lost or moved samples")
    got = got[:, first // sps: first // sps + L]
    if sure:
        d = np.abs(got - live)
        run.check(d.max(initial=0) < 4 * tol, "symbol-recovery",
                  lambda: f"{name}: symbols {show(live.ravel()[:6])} sampled as {show(got.ravel()[:6])}, off by {d.max()}")
    run.reach(f"link:{P['cls']}|{P.get('a')}|{P['root']}|{sps}|{span}|{p['delay'] % sps}|{axis}|{bool(p['lost'])}")

    # matched filter with the same pulse turned around; bounded noise below the decision margin
    r = np.convolve(own, own[::-1]) / sps
    mid = len(own) - 1
    isi = r[mid % sps::sps]
    gain = r[mid]
    spill = (np.abs(isi).sum() - abs(gain)) * (M - 1) + abs(gain - 1) * (M - 1)
    if P["root"] and spill < 0.9:
        run.fault("matched-filter")
        limit = p["noise"] * (1 - spill)
        run.fault("bounded-noise", int(limit > 0))
        g = np.random.default_rng(p["nseed"])
        mf = restore(komm.convolve(taps[::-1], arrange(data), axis=axis)) / sps
        at = mf[:, p["delay"] + mid:][:, ::sps][:, :L]
        at = at + limit * g.uniform(-1, 1, at.shape) + (1j * limit * g.uniform(-1, 1, at.shape) if p["complex"] else 0)

        def decide(v):
            return np.clip(np.round((v + M - 1) / 2), 0, M - 1)

        sent = sym * alive
        hat = decide(at.real) + M * decide(at.imag) if p["complex"] else decide(at)
        wrong = (hat != sent) & alive
        run.check(not wrong.any(), "matched-filter-decision",
                  lambda: f"{name}, span {span}: symbol {np.argwhere(wrong)[0]} decided as {hat[wrong][0]}, "
                          f"sent {sent[wrong][0]}, intersymbol interference at most {spill:.3f}")

    # receivers with a bad clock
    arg, ts = shaped(p["timing"], p["tform"])
    before = snapshot(arg)
    val = np.asarray(pulse.waveform(arg))
    mine, edge = wave(P, ts)
    run.fault("timing-error", int(np.size(ts)))
    run.fault("singular-instant", int((tolerance(P, ts) > 1e-8).sum()))
    run.check(snapshot(arg) == before, "input-modified", f"{name}.waveform modified its input")
    run.check(val.shape == np.shape(mine), "shape", lambda: f"{name}.waveform({show(arg)}) has shape {val.shape}")
    run.check(bool(np.all((np.abs(val - mine) <= tolerance(P, ts)) | edge)), "waveform",
              lambda: f"{name}.waveform({show(arg)}) = {show(val)}, expected {show(mine)}")
    cor, mine = np.asarray(pulse.autocorrelation(arg)), correlation(P, ts)
    run.check(cor.shape == np.shape(mine) and bool(np.all(np.abs(cor - mine) <= tolerance(P, ts))), "autocorrelation",
              lambda: f"{name}.autocorrelation({show(arg)}) = {show(cor)}, expected {show(mine)}")
    whole = [int(x) for x in np.ravel(np.round(ts))][:8]
    if whole:
        v, (m, edge) = np.asarray(pulse.waveform(np.array(whole))), wave(P, whole)
        run.check(bool(np.all((np.abs(v - m) <= tolerance(P, whole)) | edge)), "waveform",
                  lambda: f"{name}.waveform({whole}) = {show(v)}, expected {show(m)}")

    # receivers in the frequency domain
    fs = [f for f in p["freqs"] if all(abs(abs(f) - e) > 1e-7 for b in (bands(P) if P["cls"] in ("Sinc", "RC", "Beau") else [])
                                       for e in b[:2] if e)]
    if fs:
        run.fault("frequency-domain", len(fs))
        arg, f = shaped(fs, "array" if p["tform"] == "empty" else p["tform"])
        mine = np.array([spectrum(P, x) for x in np.ravel(f)]).reshape(np.shape(f))
        got = np.asarray(pulse.spectrum(arg))
        run.check(got.shape == mine.shape and bool(np.all(np.abs(got - mine) < 1e-7)), "spectrum",
                  lambda: f"{name}.spectrum({show(arg)}) = {show(got)}, expected {show(mine)}")
        got = np.asarray(pulse.energy_spectral_density(arg))
        run.check(got.shape == mine.shape and bool(np.all(np.abs(got - np.abs(mine) ** 2) < 1e-7)), "energy-density",
                  lambda: f"{name}.energy_spectral_density({show(arg)}) = {show(got)}, expected {show(np.abs(mine) ** 2)}")
    e = float(correlation(P, 0.0))
    run.check(abs(float(pulse.energy()) - e) < 1e-8, "energy", lambda: f"{name}.energy() = {pulse.energy()}, expected {e}")
    x = data[0][:40] if data.shape[1] else np.zeros(1)
    n = p["nfft"] or x.size
    S, F = komm.fourier_transform(x, 0.25, nfft=p["nfft"])
    ks = np.arange(n) - n // 2
    xx = np.concatenate([x, np.zeros(max(0, n - x.size))])[:n]
    mine = 0.25 * np.exp(-2j * np.pi * np.outer(ks, np.arange(n)) / n) @ xx
    run.check(S.shape == (n,) and np.allclose(S, mine, atol=1e-7 * (1 + np.abs(xx).sum())) and
              np.allclose(F, ks / (n * 0.25)), "fourier-transform",
              lambda: f"fourier_transform of {show(x)} with nfft={p['nfft']}: {show(S)} at {show(F)}")

    if users and data.size:
        S2, F2 = komm.fourier_transform(arrange(data), 0.5, axis=axis)
        mine = np.fft.fftshift(np.fft.fft(data, axis=-1), axes=-1) * 0.5
        run.check(np.allclose(restore(S2), mine, atol=1e-9 * (1 + np.abs(data).sum())) and
                  np.allclose(F2, (np.arange(data.shape[1]) - data.shape[1] // 2) / (data.shape[1] * 0.5)),
                  "fourier-transform", lambda: f"fourier_transform of {data.shape} along axis {axis}")

    # other sampling phases, other convolution modes
    f, o = p["fo"][0], p["fo"][1] % p["fo"][0]
    up = np.asarray(komm.sampling_rate_expand(present(a), f, o, axis))
    ref = np.zeros((a.shape[0], L * f), dtype=a.dtype)
    ref[:, o::f] = a
    run.check(np.array_equal(restore(up), ref), "expand", lambda: f"sampling_rate_expand(factor={f}, offset={o})")
    back = komm.sampling_rate_compress(up, f, o, axis)
    run.check(np.array_equal(restore(back), a), "expand-compress", lambda: f"factor {f}, offset {o}")
    if p["mode"] != "full" and L:
        run.fault("mode")
        got = restore(komm.convolve(taps, present(a), axis, p["mode"]))
        full = np.zeros((a.shape[0], L + len(taps) - 1), dtype=complex)
        for k in range(L):
            full[:, k:k + len(taps)] += a[:, k:k + 1] * taps
        big, small = max(L, len(taps)), min(L, len(taps))
        ref = full[:, (small - 1) // 2:][:, :big] if p["mode"] == "same" else full[:, small - 1:big]
        run.check(got.shape == ref.shape and np.allclose(got, ref, atol=1e-9 * M * len(taps)), "convolve-mode",
                  lambda: f"convolve of {len(taps)} taps with {a.shape}, axis {axis}, mode {p['mode']}: {got.shape}")
    convert(p["adc"], data.real.ravel()[:60], run)


def convert(d, samples, run):
    """A converter that saturates: every sample goes to the level of its cell."""
    import komm

    if d["kind"] == "scalar":
        q = komm.ScalarQuantizer(d["levels"], d["thr"])
        levels, thr = d["levels"], d["thr"]
    else:
        n, s = d["L"], d["step"]
        off = {"riser": 0.0 if n % 2 == 0 else -0.5, "tread": 0.0 if n % 2 else -0.5}.get(d["kind"], d["off"])
        q = komm.UniformQuantizer.mid_riser(n, s) if d["kind"] == "riser" else \
            komm.UniformQuantizer.mid_tread(n, s) if d["kind"] == "tread" else komm.UniformQuantizer(n, s, d["off"])
        levels = [(Fraction(i) - Fraction(n - 1, 2) + Fraction(off)) * Fraction(s) for i in range(n)]
        thr = [(x + y) / 2 for x, y in zip(levels, levels[1:])]
    run.real.add("komm." + type(q).__name__)
    run.fault("converter")
    fl, ft = np.array([float(v) for v in levels]), np.array([float(v) for v in thr])
    tiny = 1e-12 * (1 + np.abs(fl).max())
    run.check(q.levels.shape == fl.shape and bool(np.all(np.abs(q.levels - fl) <= tiny)), "converter-levels",
              lambda: f"{d}: levels {show(q.levels)}")
    run.check(q.thresholds.shape == ft.shape and bool(np.all(np.abs(q.thresholds - ft) <= tiny)), "converter-thresholds",
              lambda: f"{d}: thresholds {show(q.thresholds)}")
    x = np.concatenate([np.array([float(v) for v in d["x"]]), samples])
    cell = np.array([int((q.thresholds <= v).sum()) for v in x])
    h = len(x) // 2
    got = np.concatenate([np.ravel(q.digitize(x[:h])), np.ravel(q.digitize(x[h:].tolist()))])
    run.check(np.array_equal(got, cell), "converter-cell", lambda: f"{d}: digitize({show(x)}) = {show(got)}, cells {show(cell)}")
    val = np.asarray(q.quantize(x.reshape(1, -1))).ravel()
    run.check(np.array_equal(val, q.levels[cell]), "converter-value", lambda: f"{d}: quantize({show(x)}) = {show(val)}")
    inside = (x >= fl[0]) & (x <= fl[-1])
    run.fault("saturation", int((~inside).sum()))
    if d["kind"] != "scalar":
        err = np.abs(val[inside] - x[inside])
        run.check(bool(np.all(err <= d["step"] / 2 * (1 + 1e-9) + tiny)), "converter-error", lambda: f"{d}: error {err.max()}")
    one = q.quantize(float(x[0]))
    run.check(float(one) == val[0], "converter-value", lambda: f"{d}: quantize({x[0]}) = {one}")
