"""C06: streaming Viterbi decoding is independent of chunking and exact below its limits."""

import random

import numpy as np

from .. import codes, gf2
from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 14000, "thorough": 90000}
TIME_UNIT = "symbol periods"
RULE = ("1-3 streams encoded from random initial states by one shared encoder, damaged by isolated flips, bursts or "
        "graded soft noise (or nothing), cut into random whole-symbol chunks whose processing by separate streaming "
        "decoders is interleaved.  Oracle: own set-valued Viterbi recursion giving, for each instant, every symbol "
        "that some best survivor selects; plus equality with an uncut decoder.")
STUBS = ["medium: seeded bit/soft-noise injector", "segmentation and multiplexing: seeded schedule"]
ASSUMPTIONS = ["the first `traceback_length` outputs (warm-up) are only required to be independent of chunking",
               "soft values are integers or dyadic so that metrics are exact"]
PROBES = ["flip", "cut", "multiplex", "unique-decision", "tie-decision", "nonzero-initial-state", "multi-bit-input",
          "long-stream", "scaled"]
SHRINK = ["order", "streams", "streams.*.e", "streams.*.long.L", "tau"]


def generate(rng, tier):
    while True:
        c = codes.gen_conv(rng, max_states=rng.choice([1, 2, 3, 3, 4]), k_max=2)
        k, n, nus = gf2.conv_params(c)
        sigma = gf2.conv_state_bits(c)
        if 2 ** (sigma + k) <= 64:
            break
    soft = rng.random() < 0.45
    tau = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
    streams = []
    if rng.random() < 0.04:
        return generate_long(rng, c, k, n, sigma, soft)
    for _ in range(rng.randint(1, 3)):
        L = rng.choice([1, 5, 12, 25, 45])
        u = [rng.getrandbits(1) for _ in range(L * k)]
        nb = L * n
        r = rng.random()
        e = []
        if r < 0.35:
            e = sorted(rng.sample(range(nb), min(nb, rng.randint(1, 3))))
        elif r < 0.5:
            a = rng.randrange(nb)
            e = sorted({min(a + i, nb - 1) for i in range(rng.randint(1, 6))})
        elif r < 0.6:
            e = [i for i in range(nb) if rng.random() < 0.5]
        st = {"u": u, "s0": rng.choice([0, rng.randrange(2**sigma)]), "e": e}
        if soft:
            st["w"] = [rng.choice([0, 1, 2, 3, 4, 4, 4, 8]) / 2 if rng.random() < 0.8 else 2.0 for _ in range(nb)]
        streams.append(st)
    order = []
    for i, s in enumerate(streams):
        left = len(s["u"]) // k
        while left:
            cnt = min(left, rng.choice([1, 1, 2, 3, 8, left]))
            if rng.random() < 0.05:
                order.append([i, 0])
            order.append([i, cnt])
            left -= cnt
    rng.shuffle(order)  # (pieces are taken in stream order; only sizes and interleaving are shuffled)
    form = rng.choice(codes.FLOAT_FORMS if soft else codes.INT_FORMS)
    amp = 0
    if form in AMP_INTEGER:
        amp = rng.choice(AMP_INTEGER[form]) if soft else 0
    elif soft:
        amp = rng.choice([0, 0, 0, 8, -8, 20])
    return {"conv": c, "tau": tau, "soft": soft, "streams": streams, "order": order, "form": form,
            "share_code": rng.random() < 0.7, "amp": amp}


# An integer receiver delivers whole numbers: the half steps are scaled by a power of two that fits the type.
AMP_INTEGER = {"int8": [1, 3, 4], "int16": [1, 6, 12], "int64": [1, 10, 30]}


def generate_long(rng, c, k, n, sigma, soft):
    """One stream that runs for thousands of symbol periods, with regular or random damage."""
    L = rng.choice([1500, 3000, 6000])
    L = max(300, min(L, 60000 // 2 ** (sigma + k)))
    st = {"long": {"L": L, "seed": rng.getrandbits(32), "every": rng.choice([0, 3, 7, 11, 20, 20, 50]),
                   "noisy": soft and rng.random() < 0.7},
          "u": [], "e": [], "s0": rng.choice([0, rng.randrange(2**sigma)])}
    order, left = [], L
    while left > 0:
        cnt = min(left, rng.choice([1, 10, 100, 1000, left]))
        order.append([0, cnt])
        left -= cnt
    return {"conv": c, "tau": rng.choice([5, 8, 12, 20]), "soft": soft, "streams": [st], "order": order,
            "form": "float64" if soft else "int64", "share_code": True,
            "amp": rng.choice([0, 0, 10, 24]) if soft else 0}


def unroll(st, k, n):
    """The stream of a long run: message bits, flips and reliabilities drawn from its seed."""
    g = random.Random(st["long"]["seed"])
    L, every = st["long"]["L"], st["long"]["every"]
    u = [g.getrandbits(1) for _ in range(L * k)]
    e = [i * n + g.randrange(n) for i in range(every, L, every)] if every else []
    w = [g.choice([1, 2, 3, 4, 4, 8]) / 2 for _ in range(L * n)] if st["long"]["noisy"] else [2.0] * (L * n)
    return {**st, "u": u, "e": e, "w": w}


def reference(trans, outs, n, z, s0, tau):
    """allowed[t] = set of inputs x_{t-tau} selected by some best path of length t+1 (None while t < tau)."""
    S, X = len(trans), len(trans[0])
    INF = float("inf")
    metrics = [[INF] * S]
    metrics[0][s0] = 0
    cost = []
    for row in z:
        m, ct, new = metrics[-1], [], [INF] * S
        for y in range(2**n):
            ct.append(sum(row[j] if (y >> j) & 1 else 0 for j in range(n)))
        for s in range(S):
            if m[s] == INF:
                continue
            for x in range(X):
                v = m[s] + ct[outs[s][x]]
                if v < new[trans[s][x]]:
                    new[trans[s][x]] = v
        cost.append(ct)
        metrics.append(new)
    allowed = []
    for t in range(len(z)):
        if t < tau:
            allowed.append(None)
            continue
        best = min(metrics[t + 1])
        states = {s for s in range(S) if metrics[t + 1][s] == best}
        xs = set()
        for u in range(t, t - tau - 1, -1):
            xs, prev = set(), set()
            for s in range(S):
                if metrics[u][s] == INF:
                    continue
                for x in range(X):
                    if trans[s][x] in states and metrics[u][s] + cost[u][outs[s][x]] == metrics[u + 1][trans[s][x]]:
                        prev.add(s)
                        xs.add(x)
            states = prev
        allowed.append(xs)
    return allowed


def execute(p, run):
    import komm

    c, tau, soft = p["conv"], p["tau"], p["soft"]
    k, n, _ = gf2.conv_params(c)
    sigma = gf2.conv_state_bits(c)
    code = codes.build_conv(c)
    run.real.update({"komm." + type(code).__name__, "ViterbiStreamDecoder"})
    A, B, C, D = (np.asarray(x).astype(int) for x in code.state_space_representation())
    trans, outs = [], []
    for s in range(2**sigma):
        sb = np.array([(s >> i) & 1 for i in range(sigma)], dtype=int)
        tr, ou = [], []
        for x in range(2**k):
            xb = np.array([(x >> i) & 1 for i in range(k)])
            ou.append(sum(int(b) << i for i, b in enumerate((sb @ C + xb @ D) % 2)))
            tr.append(sum(int(b) << i for i, b in enumerate((sb @ A + xb @ B) % 2)))
        trans.append(tr)
        outs.append(ou)
    streams = [unroll(st, k, n) if "long" in st else st for st in p["streams"]]
    run.fault("long-stream", sum("long" in st for st in streams))
    received, exact = [], []
    for st in streams:
        L = len(st["u"]) // k
        s0 = np.array([(st["s0"] >> i) & 1 for i in range(sigma)], dtype=int)
        v, _ = code.encode_with_state(np.array(st["u"][: L * k]), s0)
        v = [int(b) for b in v]
        if len(v) != L * n:
            run.check(False, "encode-shape", f"{code!r}: {len(v)} output bits for {L} symbols")
        for e in st["e"]:
            if e >= len(v):
                raise Invalid("flip position")
            v[e] ^= 1
        run.fault("flip", len(st["e"]))
        run.fault("nonzero-initial-state", int(st["s0"] != 0))
        run.fault("multi-bit-input", int(k > 1))
        if soft:
            r = [(1 - 2 * b) * w for b, w in zip(v, st["w"])]
            exact.append([[int(2 * a) for a in r[t * n:(t + 1) * n]] for t in range(L)])
            r = [a * 2.0 ** p.get("amp", 0) for a in r]  # exact: the oracle need not know
            if p["form"] in AMP_INTEGER and not 1 <= p.get("amp", 0) <= AMP_INTEGER[p["form"]][-1]:
                raise Invalid("integers cannot carry these values")
            run.fault("scaled", int(p.get("amp", 0) != 0))
            run.fault("quantised", int(p["form"] in AMP_INTEGER))
        else:
            r = v
            # Hamming metric up to a constant per step: +1 for choosing bit 1 where 0 was received, -1 otherwise
            exact.append([[1 - 2 * a for a in r[t * n:(t + 1) * n]] for t in range(L)])
        received.append(r)
    itype = "soft" if soft else "hard"

    def decoder(st):
        cc = code if p["share_code"] else codes.build_conv(c)
        return komm.ViterbiStreamDecoder(cc, traceback_length=tau, state=st["s0"], input_type=itype)

    decs = [decoder(st) for st in streams]
    pos, got, last = [0] * len(streams), [[] for _ in streams], None

    def feed(i, cnt):
        nonlocal last
        piece = received[i][pos[i] * n:(pos[i] + cnt) * n]
        x = codes.form_array(piece, p["form"]) if piece else np.array([], dtype=int)
        before = snapshot(x)
        out = np.asarray(decs[i].decode(x))
        run.check(snapshot(x) == before, "input-modified", "decode modified its input")
        run.check(out.size == len(piece) // n * k, "chunk-length",
                  lambda: f"{code!r}: chunk of {len(piece) // n} symbols gives {out.size} bits")
        got[i] += out.astype(int).ravel().tolist()
        pos[i] += len(piece) // n
        run.now += len(piece) // n
        run.fault("cut")
        run.fault("multiplex", int(last not in (None, i)))
        last = i

    for i, cnt in p["order"]:
        if i < len(streams):
            feed(i, cnt)
    for i, st in enumerate(streams):
        left = len(st["u"]) // k - pos[i]
        if left:
            feed(i, left)
    for i, st in enumerate(streams):
        L = len(st["u"]) // k
        run.log(got[i])
        allowed = reference(trans, outs, n, exact[i], st["s0"], tau)
        for t in range(tau, L):
            b = got[i][t * k:(t + 1) * k]
            run.check(all(v in (0, 1) for v in b), "not-binary", lambda: f"{code!r}: {b}")
            x = sum(v << j for j, v in enumerate(b))
            if len(allowed[t]) == 1:
                run.fault("unique-decision")
            else:
                run.fault("tie-decision")
            run.check(x in allowed[t], "not-best-survivor",
                      lambda: f"{code!r} traceback {tau} state {st['s0']} {itype}: received {show(received[i])}; output "
                              f"symbol {t} is {x}, best survivors allow {sorted(allowed[t])}")
            if not st["e"] and not soft and len(allowed[t]) == 1:
                u = st["u"][(t - tau) * k:(t - tau + 1) * k]
                run.check(b == u, "clean-stream", lambda: f"{code!r}: undamaged stream decoded {b}, sent {u} at {t}")
        if L:
            whole = np.asarray(decoder(st).decode(np.array(received[i]))).astype(int).ravel().tolist()
            run.check(whole == got[i], "depends-on-chunks",
                      lambda: f"{code!r} traceback {tau}: chunks {[cc for j, cc in p['order'] if j == i]} give "
                              f"{show(got[i])}, one call gives {show(whole)}")
        run.reach(f"stream:{c['cls']}|{k}|{sigma}|{tau}|{itype}|{min(len(st['e']), 4)}|{st['s0']}")
