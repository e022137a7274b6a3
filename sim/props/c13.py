"""C13: channels only inject the faults their law allows, at the stated rate."""

import math

from .. import bitgen, core
from ..util import snapshot

RUNS = {"quick": 28000, "thorough": 250000}
TIME_UNIT = "symbols transmitted"
RULE = ("Either a scripted bit generator (all-zero, all-one, and words next to every threshold of the law, mixed with "
        "seeded ones) drives a few transmissions of arbitrary shape and type and every output symbol must be possible "
        "given its input; or a seeded NumPy generator drives long transmissions, cut into calls of random lengths, "
        "whose transition frequencies must match the law overall and conditioned on the position in the stream, the "
        "position in the call, the previous symbols, the previous damage and the previous call.")
STUBS = ["bit generator: every word scripted (extreme runs)"]
ASSUMPTIONS = ["frequencies are judged by the Chernoff bound at exponent 30 (2e-13) per comparison, Gaussian moments at 6.5 sigma"]
PROBES = ["narrow-type", "folded", "extreme-word", "impossible-event", "certain-event", "scalar", "empty", "long", "gauss", "erased", "flipped",
          "zero-noise", "complex"]
SHRINK = ["calls", "script", "calls.*.x"]
MAX = 30.0  # Chernoff exponent


def gen_channel(rng):
    kind = rng.choice(["bsc", "bec", "z", "dmc", "gauss", "gauss"])
    if kind == "dmc":
        big = rng.random() < 0.12
        m, n = (rng.randint(4, 20), rng.randint(5, 40)) if big else (rng.randint(1, 4), rng.randint(1, 5))
        P = []
        for _ in range(m):
            w = [rng.choice([0, 0, 1, 2, 7]) for _ in range(n)]
            w[rng.randrange(n)] += 1
            P.append([x / sum(w) for x in w])
        return {"kind": kind, "P": P}
    if kind == "gauss":
        return {"kind": kind, "p": rng.choice([0.0, 1.0, 0.25, 2.0, 1e-6, 1e6, 0.01])}
    return {"kind": kind, "p": rng.choice([0.0, 1.0, 0.5, 0.1, 0.25, 0.9, 0.03, 1e-3, 0.999, 1e-12, 2.0**-53, 1 - 2.0**-53])}


def law(c):
    """Own transition matrix; None for the Gaussian channel."""
    if c["kind"] == "dmc":
        return c["P"]
    p = c["p"]
    return {"bsc": [[1 - p, p], [p, 1 - p]], "bec": [[1 - p, 0, p], [0, 1 - p, p]], "z": [[1, 0], [p, 1 - p]],
            "gauss": None}[c["kind"]]


def generate(rng, tier):
    c = gen_channel(rng)
    P = law(c)
    rows = len(P) if P else 2
    if rng.random() < 0.7:
        calls = []
        for _ in range(rng.randint(1, 6)):
            shape = rng.choice([[rng.randint(1, 9)], [rng.randint(1, 9)], [2, 3], [2, 1, 3], [], [0], [3, 0]])
            size = math.prod(shape)
            if size and rng.random() < 0.02:
                reps = rng.choice([200, 700, 1500])
            else:
                reps = 1
            d = {"shape": shape, "rep": reps, "x": [rng.randrange(rows) if P else rng.randint(-9, 9) / 2 for _ in range(size)],
                 "form": rng.choice(["int64", "list", "uint8", "int32", "readonly", "strided", "fortran", "flipped"] if P else
                                    ["float64", "list", "float32", "readonly", "strided", "fortran", "flipped", "int64", "int8"])}
            if not P and rng.random() < 0.5:
                d["y"] = [rng.randint(-9, 9) / 2 for _ in range(size)]
                d["form"] = rng.choice(["complex128", "complex64", "list", "readonly", "strided", "fortran", "flipped"])
            elif d["form"] in ("int64", "int8"):
                d["x"] = [int(v) for v in d["x"]]
            if P and c["kind"] in ("bsc", "bec", "z") and rng.random() < 0.2:
                d["form"] = "bool"
            calls.append(d)
        near = [0, bitgen.M64, 1, bitgen.M64 - 1, 1 << 11, 1 << 63]
        for row in P or []:
            acc = 0.0
            for v in row:
                acc += v
                near += bitgen.words_near(min(acc, 1.0))
        script = [rng.choice(near) if rng.random() < 0.8 else rng.getrandbits(64) for _ in range(rng.randint(0, 40))]
        return {"mode": "extreme", "ch": c, "calls": calls, "script": script, "pool": near,
                "gseed": rng.getrandbits(32), "rate": rng.choice([0.0, 0.1, 0.3])}
    slow = c["kind"] == "dmc"
    total = rng.choice([3000, 6000, 12000]) if slow else rng.choice([40000] * 8 + [120000] * 8 + [1500000])
    style = rng.choice(["one", "short", "mixed", "same"])
    per = {"one": total, "short": rng.randint(1, 8) * (1 if slow else 4), "same": rng.choice([50, 400]), "mixed": 0}[style]
    pattern = rng.choice(["random", "random", "constant", "alternating"])
    return {"mode": "long", "ch": c, "total": total, "per": per, "pattern": pattern, "xseed": rng.getrandbits(32),
            "complex": rng.random() < 0.5, "xt": rng.choice(["wide", "wide", "narrow", "int"]), "fold": rng.random() < 0.3, "bg": rng.choice(["PCG64", "MT19937", "Philox", "SFC64"]),
            "gseed": rng.getrandbits(32), "calls": []}


def build(c, rng):
    import komm

    k = c["kind"]
    if k == "dmc":
        return komm.DiscreteMemorylessChannel(c["P"], rng=rng)
    if k == "gauss":
        return komm.GaussianChannel(c["p"], rng=rng)
    return {"bsc": komm.BinarySymmetricChannel, "bec": komm.BinaryErasureChannel, "z": komm.ZChannel}[k](c["p"], rng=rng)


def form(d):
    import numpy as np

    x = np.array(d["x"], dtype=float if "." in str(d["x"]) else int).reshape(d["shape"])
    if "y" in d:
        x = x + 1j * np.array(d["y"]).reshape(d["shape"])
    if d["rep"] > 1:
        x = np.concatenate([np.atleast_1d(x)] * d["rep"])
    f = d["form"]
    if f == "list":
        return x.tolist()
    if f == "readonly":
        x.setflags(write=False)
        return x
    if f == "fortran":  # column-major, as a block interleaver leaves it
        return np.asfortranarray(x)
    if f == "flipped":
        return np.flip(np.flip(x).copy()) if x.ndim else x
    if f == "strided":
        y = np.repeat(x, 2, axis=-1)[..., ::2] if x.ndim else x
        return y
    return x.astype(f)


def exponent(k, n, p):
    """Chernoff exponent of seeing k of n at probability p (infinite if impossible)."""
    if n == 0:
        return 0.0
    q = k / n
    t = 0.0
    if q > 0:
        if p <= 0:
            return math.inf
        t += q * math.log(q / p)
    if q < 1:
        if p >= 1:
            return math.inf
        t += (1 - q) * math.log((1 - q) / (1 - p))
    return n * t


def execute(p, run):
    import numpy as np

    c = p["ch"]
    P = law(c)
    run.real.add("transmit of " + c["kind"])
    if p["mode"] == "extreme":
        gen, bits = bitgen.generator(p["script"], p["gseed"], p["rate"], p["pool"])
        ch = build(c, gen)
        for d in p["calls"]:
            if math.prod(d["shape"]) != len(d["x"]):
                raise core.Invalid("shape")
            x = form(d)
            before = snapshot(x)
            y = ch.transmit(x)
            run.check(snapshot(x) == before, "modified-argument", lambda: f"{ch!r}.transmit modified its input")
            ya, xa = np.asarray(y), np.asarray(x)
            run.check(ya.shape == xa.shape, "shape",
                      lambda: f"{ch!r}.transmit of an input of shape {xa.shape} has shape {ya.shape}")
            run.now += xa.size
            if not d["shape"]:
                run.fault("scalar")
            if xa.size == 0:
                run.fault("empty")
            run.log(ya.tolist())
            if P is None:
                run.fault("gauss", xa.size)
                if "y" in d:
                    run.fault("complex")
                run.check(bool(np.all(np.isfinite(ya))), "not-finite", lambda: f"{ch!r}: {ya}")
                run.check(np.iscomplexobj(ya) == np.iscomplexobj(xa), "type",
                          lambda: f"{ch!r}: complex input {np.iscomplexobj(xa)}, complex output {np.iscomplexobj(ya)}")
                if c["p"] == 0:
                    run.fault("zero-noise")
                    run.check(bool(np.array_equal(ya, xa)), "zero-noise", lambda: f"{ch!r}: {xa} -> {ya}")
                continue
            run.check(ya.dtype.kind in "iu", "type", lambda: f"{ch!r} returned {ya.dtype}")
            for a, b in zip(xa.ravel().tolist(), ya.ravel().tolist()):
                a = int(a)
                ok = 0 <= b < len(P[a]) and P[a][b] > 0
                run.check(ok, "impossible-symbol",
                          lambda: f"{ch!r}: input {a} came out as {b}, which has probability 0 (scripted words "
                                  f"{p['script'][:6]})")
                if any(v == 1 for v in P[a]):
                    run.fault("certain-event")
                if any(v == 0 for v in P[a]):
                    run.fault("impossible-event")
                if b != a:
                    run.fault("erased" if c["kind"] == "bec" else "flipped")
                run.reach(f"seen:{c['kind']}:{a}>{b}")
        run.fault("extreme-word", bits.extremes)
        return
    # long transmission
    rng = np.random.Generator(getattr(np.random, p["bg"])(p["gseed"]))
    ch = build(c, rng)
    src = np.random.default_rng(p["xseed"])
    N = p["total"]
    sizes = []
    left = N
    while left:
        n = min(left, p["per"] or int(src.choice([1, 2, 3, 7, 20, 500, 3000])))
        sizes.append(n)
        left -= n
    if len(sizes) > 4000:
        sizes = sizes[:4000]
        N = sum(sizes)
    if P is None:
        x = src.choice([-1.0, 1.0, 3.0], size=N)
        if p["complex"]:
            x = x + 1j * src.choice([-1.0, 1.0], size=N)
    elif p["pattern"] == "constant":
        x = np.full(N, int(src.integers(len(P))))
    elif p["pattern"] == "alternating":
        x = np.arange(N) % len(P)
    else:
        x = src.integers(len(P), size=N)
    xt = p.get("xt", "wide")
    if P is not None:
        x = x.astype({"wide": int, "narrow": np.uint8, "int": np.int32}[xt])
    elif xt == "narrow":
        x = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    elif xt == "int" and not np.iscomplexobj(x):
        x = x.astype(np.int8)
    run.fault("narrow-type", int(xt != "wide"))
    parts, pos = [], 0
    for n in sizes:
        piece = x[pos:pos + n]
        if p.get("fold") and n % 2 == 0:  # the same symbols as two rows
            run.fault("folded")
            piece = piece.reshape(2, n // 2)
            z = np.asarray(ch.transmit(np.asfortranarray(piece) if n % 4 else piece))
            run.check(z.shape == (2, n // 2), "shape", lambda: f"{ch!r}: shape {z.shape}")
            parts.append(z.ravel())
        else:
            parts.append(np.asarray(ch.transmit(piece)))
        pos += n
    y = np.concatenate(parts)
    run.check(y.shape == x.shape, "shape", lambda: f"{ch!r}: {x.shape} -> {y.shape}")
    run.now += N
    run.fault("long")
    first = np.zeros(N, dtype=bool)
    first[np.cumsum([0] + sizes[:-1])] = True
    last = np.append(first[1:], True)
    idx = np.arange(N)
    run.reach(f"law:{c['kind']}:{c.get('p', len(c.get('P', [])))}:{p['pattern']}:{p['per']}")
    run.log(np.round(y[:200], 6).tolist(), str(np.sum(y)))
    if P is None:
        gauss(p, run, ch, c["p"], x, y, first, sizes, np)
        return
    groups = {"overall": np.ones(N, bool), "first symbol of a call": first, "last symbol of a call": last,
              "even positions": idx % 2 == 0, "odd positions": idx % 2 == 1, "first half": idx < N // 2,
              "second half": idx >= N // 2, "first tenth": idx < N // 10}
    hit = y != x
    for lag in (1, 2, 3, 7):
        h = np.zeros(N, bool)
        h[lag:] = hit[:-lag]
        groups[f"after damage {lag} symbols earlier"] = h
        g = np.zeros(N, bool)
        g[lag:] = ~hit[:-lag]
        groups[f"after no damage {lag} symbols earlier"] = g
    if len(P) > 1:
        g = np.zeros(N, bool)
        g[1:] = x[:-1] == 0
        groups["after input 0"] = g
    if len(set(sizes)) == 1 and len(sizes) > 1:
        h = np.zeros(N, bool)
        h[sizes[0]:] = hit[:-sizes[0]]
        groups["after damage at the same place of the previous call"] = h
    for name, g in groups.items():
        for a in range(len(P)):
            sel = g & (x == a)
            n = int(sel.sum())
            if n == 0:
                continue
            counts = np.bincount(y[sel], minlength=len(P[a]))
            run.check(len(counts) == len(P[a]), "impossible-symbol", lambda: f"{ch!r}: output {counts.size - 1}")
            for b, pr in enumerate(P[a]):
                k = int(counts[b])
                if pr == 0 or pr == 1:
                    run.check(k == (n if pr else 0), "impossible-symbol",
                              lambda: f"{ch!r}: {a} -> {b} has probability {pr} and happened {k} of {n} times")
                    continue
                e = exponent(k, n, pr)
                run.check(e < MAX, "wrong-rate",
                          lambda: f"{ch!r} ({name}, calls of {p['per'] or 'random'} symbols, {p['pattern']} input): "
                                  f"{a} -> {b} happened {k} of {n} times, stated probability {pr}; exponent {e:.1f}")
    run.fault("erased" if c["kind"] == "bec" else "flipped", int(hit.sum()))


def gauss(p, run, ch, var, x, y, first, sizes, np):
    z = y - x
    N = len(z)
    run.fault("gauss", N)
    if var == 0:
        run.fault("zero-noise")
        run.check(bool(np.all(z == 0)), "zero-noise", lambda: f"{ch!r}: zero noise power altered the signal")
        return
    if np.iscomplexobj(x):
        run.fault("complex")
        run.check(np.iscomplexobj(y), "type", lambda: f"{ch!r}: complex in, real out")
        comps = {"real part": z.real / math.sqrt(var / 2), "imaginary part": z.imag / math.sqrt(var / 2)}
    else:
        run.check(not np.iscomplexobj(y), "type", lambda: f"{ch!r}: real in, complex out")
        comps = {"noise": z / math.sqrt(var)}
    tol = 1e-6
    if var <= 1e-6:
        tol = 1e-3  # rounding of x + z
    s = 6.5
    T = {}
    for name, w in comps.items():
        groups = {"overall": w, "first of each call": w[first], "even": w[::2], "odd": w[1::2], "first half": w[:N // 2],
                  "second half": w[N // 2:], "input positive": w[x.real > 0], "input negative": w[x.real < 0]}
        for g, v in groups.items():
            n = len(v)
            if n < 200:
                continue
            T[f"{name}, {g}: mean"] = (v.mean(), 0, s / math.sqrt(n))
            T[f"{name}, {g}: power"] = ((v * v).mean(), 1, s * math.sqrt(2 / n))
        T[f"{name}: third moment"] = ((w**3).mean(), 0, s * math.sqrt(15 / N))
        T[f"{name}: fourth moment"] = ((w**4).mean(), 3, s * math.sqrt(96 / N))
        for lag in (1, 2, 3):
            T[f"{name}: correlation at lag {lag}"] = ((w[lag:] * w[:-lag]).mean(), 0, s / math.sqrt(N - lag))
            T[f"{name}: power correlation at lag {lag}"] = ((w[lag:]**2 * w[:-lag]**2).mean(), 1, s * math.sqrt(8 / (N - lag)))
        T[f"{name}: correlation with the input"] = ((w * x.real).mean() / math.sqrt((x.real**2).mean()), 0, s / math.sqrt(N))
        if len(set(sizes)) == 1 and len(sizes) > 1:
            L = sizes[0]
            T[f"{name}: correlation with the previous call"] = ((w[L:] * w[:-L]).mean(), 0, s / math.sqrt(N - L))
    if len(comps) == 2:
        a, b = comps.values()
        T["correlation of real and imaginary parts"] = ((a * b).mean(), 0, s / math.sqrt(N))
        T["power correlation of real and imaginary parts"] = ((a * a * b * b).mean(), 1, s * math.sqrt(8 / N))
        T["correlation of real with next imaginary part"] = ((a[1:] * b[:-1]).mean(), 0, s / math.sqrt(N - 1))
    for k, (v, want, t) in T.items():
        run.check(abs(v - want) <= t + tol, "wrong-noise-law",
                  lambda: f"{ch!r}, {N} symbols in calls of {p['per'] or 'random length'}: {k} is {v:.5f} (normalised), "
                          f"should be {want} +- {t:.5f}")
