"""C02: maximum-likelihood decoders never return a worse codeword than another one."""

import numpy as np

from .. import codes, gf2
from ..util import show, snapshot

RUNS = {"quick": 22000, "thorough": 110000}
TIME_UNIT = "bit periods"
RULE = ("A random code, a random maximum-likelihood decoder offered for it, 1-5 received words: codewords hit by "
        "bursts, scattered flips, erased (zero-reliability) positions, tied or saturated reliabilities, or pure "
        "noise; decoded in random batches.  Oracle: own enumeration of the code (span of the encoded unit "
        "messages) or own coset-weight table.")
STUBS = ["medium: seeded burst/noise/erasure injector"]
ASSUMPTIONS = ["soft values are small dyadic rationals so that metrics are exact in floating point",
               "zero-terminated multi-input encoders with unequal register lengths are excluded (finding F1)"]
PROBES = ["long-trellis", "beyond-radius", "zero-reliability", "tie", "burst", "noise"]
SHRINK = ["frames", "lay", "frames.*.e", "frames.*.m"]


def generate(rng, tier):
    while True:
        r = rng.random()
        fam = ["Term"] if r < 0.4 else ["SPC"] if r < 0.5 else None
        big = rng.random() < 0.15
        s = codes.gen_code(rng, fam, max_k=rng.choice([4, 7, 10, 12]), big=big)
        n, k, _ = codes.info(s)
        hard = [x for x in codes.hard_decoders(s) if x not in ("berlekamp", "reed")]
        soft = [x for x in codes.soft_decoders(s) if x != "reed-soft"]
        if hard + soft:
            break
    dec = rng.choice(hard + soft)
    soft = dec in ("exhaustive-soft", "viterbi-soft", "wagner")
    frames = []
    for _ in range(rng.randint(1, 5)):
        m = codes.gen_message(rng, k)
        f = {"m": m, "e": [], "kind": rng.choice(["burst", "scatter", "noise", "scatter", "clean"])}
        if f["kind"] == "burst":
            a, ln = rng.randrange(n), rng.randint(1, n)
            f["e"] = [(a + i) % n for i in range(ln) if rng.random() < 0.7]
        elif f["kind"] == "scatter":
            f["e"] = sorted(rng.sample(range(n), rng.randint(0, n)))
        elif f["kind"] == "noise":
            f["e"] = [i for i in range(n) if rng.getrandbits(1)]
        if soft:
            mode = rng.choice(["wide", "tied", "erased", "mixed", "all-zero", "saturated", "ints"])
            if mode == "tied":
                w = [rng.choice([1.0, 2.0])] * n
            elif mode == "erased":
                w = [0.0 if rng.random() < 0.5 else rng.randint(1, 12) / 4 for _ in range(n)]
            elif mode == "all-zero":
                w = [0.0] * n
            elif mode == "saturated":
                w = [1048576.0 if rng.random() < 0.5 else rng.randint(0, 8) / 4 for _ in range(n)]
            elif mode == "ints":
                w = [float(rng.randint(0, 3)) for _ in range(n)]
            else:
                w = [rng.randint(0, 40) / 4 for _ in range(n)]
            f["w"] = w
        frames.append(f)
    return {"code": s, "dec": dec, "frames": frames, "lay": codes.gen_shape(rng, len(frames)),
            "form": rng.choice(codes.FLOAT_FORMS if soft else codes.INT_FORMS)}


def coset_weights(rows, n):
    """Own table: minimum weight of every coset, by breadth-first search over own syndromes."""
    H = gf2.null_space(rows, n)
    cols = [sum((h >> j & 1) << i for i, h in enumerate(H)) for j in range(n)]
    m = len(H)
    w = {0: 0}
    layer, d = [0], 0
    while len(w) < 1 << m:
        d += 1
        nxt = []
        for s in layer:
            for c in cols:
                if s ^ c not in w:
                    w[s ^ c] = d
                    nxt.append(s ^ c)
        layer = nxt
    return H, w


def execute(p, run):
    s, dec = p["code"], p["dec"]
    n, k, _ = codes.info(s)
    code = codes.build(s)
    run.real.update({"komm." + type(code).__name__, "encode", "decoder " + dec})
    unit = [[int(i == j) for j in range(k)] for i in range(k)]
    rows = [gf2.row_int(code.encode(np.array(u))) for u in unit]
    run.check(gf2.rank(rows) == k, "encoder-not-injective", lambda: f"{code!r}: unit codewords are dependent")

    def encode(u):
        x = 0
        for b, r in zip(u, rows):
            if b:
                x ^= r
        return x

    soft = bool(p["frames"]) and "w" in p["frames"][0]
    received = []
    for f in p["frames"]:
        if len(f["m"]) != k:
            from ..core import Invalid
            raise Invalid("message")
        v = gf2.int_row(encode(f["m"]), n)
        for e in f["e"]:
            v[e] ^= 1
        if f["e"]:
            run.fault(f["kind"], 1)
            run.fault("flip", len(f["e"]))
        if soft:
            v = [(1 - 2 * b) * w for b, w in zip(v, f["w"])]
            run.fault("zero-reliability", sum(1 for x in v if x == 0))
        received.append(v)
        run.now += n
    if not received:
        return
    if soft:
        received = codes.quantise(received, p["form"])
        run.fault("quantised", int(p["form"] in codes.QUANTISED))
    decoder = codes.build_decoder(dec, code)
    data, lead, per = codes.lay_out(received, p["lay"])
    x = codes.form_array(data, p["form"])
    before = snapshot(x)
    out = decoder.decode(x)
    run.check(snapshot(x) == before, "input-modified", f"{dec} modified its input")
    out = np.asarray(out)
    run.log(out.tolist())
    run.check(out.shape == tuple(lead) + (per * k,), "shape",
              lambda: f"{dec} of {code!r}: output shape {out.shape}, expected {tuple(lead) + (per * k,)}")
    run.check(bool(np.isin(out, [0, 1]).all()), "not-binary", lambda: f"{dec} of {code!r}: {show(out)}")
    got = out.reshape(len(received), k).astype(int).tolist()
    words = gf2.span(rows) if k <= 12 else None
    long = words is None and s["cls"] == "Term"
    table = coset_weights(rows, n) if words is None and not soft and not long else None
    if long:
        run.fault("long-trellis")
        cn = gf2.conv_params(s["conv"])[1]

        def least(v, price):
            return gf2.trellis_best(s["conv"], s["h"], s["mode"], [
                [sum(price(a, y >> j & 1) for j, a in enumerate(v[t:t + cn])) for y in range(2**cn)]
                for t in range(0, n, cn)])
    for v, u in zip(received, got):
        c = encode(u)
        if not soft:
            r = gf2.row_int(v)
            mine = (c ^ r).bit_count()
            if words is not None:
                dists = [(w ^ r).bit_count() for w in words]
                best = min(dists)
                ties = dists.count(best)
            elif long:
                best, ties = least(v, lambda a, b: int(a) ^ b), 1
            else:
                H, tab = table
                best, ties = tab[sum(((h & r).bit_count() & 1) << i for i, h in enumerate(H))], 1
            run.reach(f"hard:{codes.label(s)}|{dec}|{best}")
            if ties > 1:
                run.fault("tie")
            run.check(mine == best, "not-nearest",
                      lambda: f"{dec} of {code!r}: received {show(v)} decoded to {u} at distance {mine}, "
                              f"but a codeword at distance {best} exists")
            run.fault("beyond-radius", int(best > 0))
        else:
            cb = gf2.int_row(c, n)
            mine = sum(-a if b else a for a, b in zip(v, cb))
            if words is not None:
                signs = 1 - 2 * ((np.array(words)[:, None] >> np.arange(n)) & 1) if n < 63 else \
                    1 - 2 * np.array([gf2.int_row(w, n) for w in words])
                corr = signs @ np.array(v)
                best = float(corr.max())
                ties = int((corr == best).sum())
            elif long:
                best, ties = -least(v, lambda a, b: a if b else -a), 1
            else:  # single parity check: closed form
                absv = [abs(a) for a in v]
                odd = sum(1 for a in v if a < 0) % 2
                best = sum(absv) - (2 * min(absv) if odd else 0)
                ties = 1
            run.reach(f"soft:{codes.label(s)}|{dec}|{ties > 1}|{n}")
            if ties > 1:
                run.fault("tie")
            run.check(mine == best, "not-maximum-correlation",
                      lambda: f"{dec} of {code!r}: received {show(v)} decoded to {u} with correlation {mine}, "
                              f"but a codeword with correlation {best} exists")
            run.fault("beyond-radius", int(any(a * (1 - 2 * b) < 0 for a, b in zip(v, cb))))
