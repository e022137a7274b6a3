"""C08: trellis and successive-cancellation inference is exact under any noise."""

import itertools
import math

import numpy as np

from .. import codes, gf2
from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 45000, "thorough": 250000}
TIME_UNIT = "symbol periods"
RULE = ("Random finite-state machines (unreachable states, parallel transitions, forbidden outputs) observed through "
        "seeded noise, with random priors and initial/final conditions, queried several times through one shared "
        "object; or noisy/erased/saturated soft words of random terminated convolutional codes (BCJR) and polar codes "
        "(successive cancellation).  Oracle: own enumeration of every path, every codeword, or every future of the "
        "decided bits.")
STUBS = ["medium: seeded metric noise, erasures and impossible symbols"]
ASSUMPTIONS = ["observations with zero total probability are not claimed",
               "log-likelihood ratios of magnitude beyond the exponent range of float64 are not claimed",
               "zero-terminated multi-input encoders with unequal register lengths are excluded (finding F1)"]
PROBES = ["deep", "strong", "viterbi", "forward-backward", "bcjr", "sc", "parallel-transitions", "impossible-output", "zero-prior",
          "restricted-start", "restricted-end", "zero-reliability", "tie", "wrong-decision"]
SHRINK = ["queries", "queries.*.z", "frames"]


def gen_machine(rng, tier):
    S, X = rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 2, 3, 4])
    Y = rng.randint(1, 5)
    if rng.random() < 0.25:
        c = codes.gen_conv(rng, max_states=2, k_max=2, wide=False)
        return {"conv": c}
    T = [[rng.randrange(S) for _ in range(X)] for _ in range(S)]
    if rng.random() < 0.4 and X > 1:
        for s in range(S):
            T[s][1] = T[s][0]
    return {"T": T, "O": [[rng.randrange(Y) for _ in range(X)] for _ in range(S)]}


def gen_dist(rng, n):
    r = rng.random()
    if r < 0.3:
        return [1 / n] * n
    if r < 0.5:
        i = rng.randrange(n)
        return [float(i == j) for j in range(n)]
    w = [0 if rng.random() < 0.2 else rng.expovariate(1) + 1e-3 for _ in range(n)]
    if not any(w):
        w[rng.randrange(n)] = 1.0
    return [x / sum(w) for x in w]


def generate(rng, tier):
    kind = rng.choice(["fsm", "fsm", "fsm", "bcjr", "sc"])
    p = {"kind": kind}
    if kind == "fsm":
        p["machine"] = m = gen_machine(rng, tier)
        if "conv" in m:
            k, n, _ = gf2.conv_params(m["conv"])
            S, X, Y = 2 ** gf2.conv_state_bits(m["conv"]), 2**k, 2**n
        else:
            S, X = len(m["T"]), len(m["T"][0])
            Y = max(map(max, m["O"])) + 1
        Lmax = 1
        while S * X ** (Lmax + 1) <= (3000 if tier == "quick" else 20000) and Lmax < 9:
            Lmax += 1
        p["queries"] = []
        deep = rng.random() < 0.04
        for _ in range(1 if deep else rng.randint(1, 4)):
            L = rng.choice([40, 40, 150, 150, 400, 1100, 1500]) if deep else rng.randint(1, Lmax)
            q = {"op": rng.choice(["viterbi", "fb"])}
            if q["op"] == "viterbi":
                style = rng.choice(["dyadic", "hamming", "tied", "inf"])
                q["z"] = [[{"dyadic": rng.randint(-8, 40) / 4, "hamming": rng.randint(0, 2),
                            "tied": 1.0, "inf": None if rng.random() < 0.25 else rng.randint(0, 6) / 2}[style]
                           for _ in range(Y)] for _ in range(L)]
                r = rng.random()
                q["init"] = None if r < 0.3 else [rng.choice([0, 0, 1.5, 3, None]) for _ in range(S)]
                if q["init"] and all(v is None for v in q["init"]):
                    q["init"][rng.randrange(S)] = 0
            else:
                scale = rng.choice([0.1, 1, 5, 60, 300])
                pinf = rng.choice([0, 0, 0.2])
                q["z"] = [[None if rng.random() < pinf else rng.gauss(0, scale) for _ in range(Y)] for _ in range(L)]
                q["priors"] = None if rng.random() < 0.4 else [gen_dist(rng, X) for _ in range(L)]
                q["start"] = None if rng.random() < 0.3 else gen_dist(rng, S)
                q["end"] = None if rng.random() < 0.4 else gen_dist(rng, S)
            p["queries"].append(q)
        return p
    if kind == "bcjr":
        while True:
            big = rng.random() < 0.06
            s = codes.gen_term(rng, max_k=60 if big else 8, max_n=240 if big else 30,
                               modes=["direct-truncation", "zero-termination"], max_states=3)
            if codes.ml_exact_termination(s["conv"], s["mode"]):
                break
        n, k, _ = codes.info(s)
    else:
        mu = rng.choice([1, 2, 3, 3, 4] * 5 + [5, 6, 7, 8])
        n = 2**mu
        k = rng.randint(1, n)
        s = {"cls": "Polar", "mu": mu, "frozen": rng.sample(range(n), n - k)}
    frames = []
    for _ in range(rng.randint(1, 3)):
        m = codes.gen_message(rng, k)
        amp = rng.choice([0.3, 1.0, 3.0, 8.0])
        style = rng.choice(["awgn", "erased", "saturated", "pure-noise", "equal", "all-zero", "strong"])
        w = []
        for _ in range(n):
            if style == "awgn":
                v = amp * (1 + rng.gauss(0, 1))
            elif style == "erased":
                v = 0.0 if rng.random() < 0.4 else amp * (1 + rng.gauss(0, 0.5))
            elif style == "saturated":
                v = rng.choice([12.0, 12.0, -12.0, 0.5])
            elif style == "pure-noise":
                v = rng.gauss(0, amp)
            elif style == "equal":
                v = amp * rng.choice([1, 1, 1, -1])
            elif style == "strong":
                v = rng.choice([1, 1, 1, -1]) * rng.choice([19.0, 19.0, 25.0, 40.0, 40.0, 40.5, 75.0]) * min(1, 8 * amp / n if kind == "bcjr" else 1)
            else:
                v = 0.0
            w.append(v)
        frames.append({"m": m, "w": w, "style": style})
    p.update(code=s, frames=frames, lay=codes.gen_shape(rng, len(frames)), out=rng.choice(["soft", "soft", "hard"]),
             form=rng.choice([f for f in codes.FLOAT_FORMS if f != "float32"]))
    return p


NINF = float("-inf")


def lse(xs):
    xs = list(xs)
    m = max(xs, default=NINF)
    if m == NINF:
        return NINF
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def survivors(T, O, tab, init):
    """Least cost of ending in each state (own recursion)."""
    best = list(init)
    for row in tab:
        new = [math.inf] * len(T)
        for s, cost in enumerate(best):
            for x, d in enumerate(T[s]):
                new[d] = min(new[d], cost + row[O[s][x]])
        best = new
    return best


def walk_costs(T, O, tab, init, xs, end):
    """Costs of the walks that follow the inputs xs from any start and finish in the state end."""
    out = []
    for s, cost in enumerate(init):
        for row, x in zip(tab, xs):
            cost += row[O[s][x]]
            s = T[s][x]
        if s == end:
            out.append(cost)
    return out


def posteriors(T, O, tab, lpri, start, end):
    """log P(input, observation) per step (own recursion in the log domain); None if the observation is impossible."""
    S, X, L = len(T), len(T[0]), len(tab)
    A, B = [list(start)], [list(end)]
    for t in range(L):
        into = [[] for _ in range(S)]
        for s in range(S):
            for x in range(X):
                into[T[s][x]].append(A[t][s] + lpri[t][x] + tab[t][O[s][x]])
        A.append([lse(v) for v in into])
        u = L - 1 - t
        B.append([lse([lpri[u][x] + tab[u][O[s][x]] + B[t][T[s][x]] for x in range(X)]) for s in range(S)])
    B.reverse()
    if lse(A[L][s] + end[s] for s in range(S)) == NINF:
        return None
    return [[lse([A[t][s] + lpri[t][x] + tab[t][O[s][x]] + B[t + 1][T[s][x]] for s in range(S)]) for x in range(X)]
            for t in range(L)]


def num(v, none):
    return none if v is None else float(v)


def run_fsm(p, run):
    import komm

    m = p["machine"]
    if "conv" in m:
        fsm = codes.build_conv(m["conv"]).finite_state_machine()
        T, O = fsm.transitions.tolist(), fsm.outputs.tolist()
    else:
        T, O = m["T"], m["O"]
        fsm = komm.MealyMachine(T, O)
    S, X = len(T), len(T[0])
    if any(len(set(r)) < len(r) for r in T):
        run.fault("parallel-transitions")
    run.real.add("komm.MealyMachine")
    for q in p["queries"]:
        z = q["z"]
        L = len(z)
        if not L:
            raise Invalid("empty")
        run.now += L
        if q["op"] == "viterbi":
            run.fault("viterbi")
            tab = [[num(v, math.inf) for v in row] for row in z]
            run.fault("impossible-output", sum(v == math.inf for r in tab for v in r))
            init = [0.0] * S if q["init"] is None else [num(v, math.inf) for v in q["init"]]
            run.fault("restricted-start", int(math.inf in init))
            arg = None if q["init"] is None else np.array(init)
            before = None if arg is None else snapshot(arg)
            # the observation at time t is t itself: the metric function looks it up
            paths, metrics = fsm.viterbi(np.arange(L), lambda y, t: tab[int(t)][int(y)], arg)
            run.check(arg is None or snapshot(arg) == before, "input-modified", "viterbi changed initial_metrics")
            paths, metrics = np.asarray(paths), np.asarray(metrics, dtype=float)
            run.log(metrics.tolist(), paths.tolist())
            best, reach = [math.inf] * S, {}
            if L > 9:
                run.fault("deep")
                best = survivors(T, O, tab, init)
                run.check(metrics.tolist() == best, "viterbi-metric",
                          lambda: f"T={T} O={O} {L} steps: metrics {metrics.tolist()}, own recursion gives {best}")
                run.check(paths.shape == (L, S), "viterbi-shape", lambda: f"{paths.shape}")
                for s in range(S):
                    if best[s] < math.inf:
                        costs = walk_costs(T, O, tab, init, [int(v) for v in paths[:, s]], s)
                        run.check(best[s] in costs, "viterbi-path",
                                  lambda: f"T={T} O={O} {L} steps: the inputs reported for final state {s} cost {costs}, "
                                          f"the minimum is {best[s]}")
                run.reach(f"vit:{S}|{X}|{L}|deep")
                continue
            for s0 in range(S):
                if init[s0] == math.inf:
                    continue
                for xs in itertools.product(range(X), repeat=L):
                    s, cost = s0, init[s0]
                    for t, x in enumerate(xs):
                        cost += tab[t][O[s][x]]
                        s = T[s][x]
                    if cost < best[s]:
                        best[s] = cost
                        reach[s] = {xs}
                    elif cost == best[s] < math.inf:
                        reach[s].add(xs)
            run.check(metrics.tolist() == best, "viterbi-metric",
                      lambda: f"T={T} O={O} costs={show(z)} init={q['init']}: metrics {metrics.tolist()}, "
                              f"exhaustive search gives {best}")
            run.check(paths.shape == (L, S), "viterbi-shape", lambda: f"{paths.shape}")
            for s in range(S):
                if best[s] < math.inf:
                    run.fault("tie", int(len(reach[s]) > 1))
                    got = tuple(int(v) for v in paths[:, s])
                    run.check(got in reach[s], "viterbi-path",
                              lambda: f"T={T} O={O} costs={show(z)} init={q['init']}: for final state {s} inputs {got}, "
                                      f"but the optimal ones are {sorted(reach[s])[:4]}")
            run.reach(f"vit:{S}|{X}|{L}|{sum(b < math.inf for b in best)}")
        else:
            tab = [[num(v, NINF) for v in row] for row in z]
            start = q["start"] or [1 / S] * S
            end = q["end"] or [1 / S] * S
            priors = q["priors"] or [[1 / X] * X] * L
            if len(priors) != L:
                if len(priors) < L:
                    raise Invalid("priors")
                priors = priors[:L]
            run.fault("impossible-output", sum(v == NINF for r in tab for v in r))
            run.fault("zero-prior", sum(v == 0 for r in priors for v in r))
            run.fault("restricted-start", int(0 in start))
            run.fault("restricted-end", int(0 in end))
            acc = [[[] for _ in range(X)] for _ in range(L)]
            lg = lambda v: math.log(v) if v > 0 else NINF
            if L > 9:
                run.fault("deep")
                acc = posteriors(T, O, tab, [[lg(v) for v in row] for row in priors], [lg(v) for v in start],
                                 [lg(v) for v in end])
                if acc is None:
                    run.log("impossible")
                    continue
                acc = [[[v] for v in row] for row in acc]
            for s0 in range(S if L <= 9 else 0):
                if start[s0] == 0:
                    continue
                for xs in itertools.product(range(X), repeat=L):
                    s, v = s0, lg(start[s0])
                    for t, x in enumerate(xs):
                        v += lg(priors[t][x]) + tab[t][O[s][x]]
                        s = T[s][x]
                    v += lg(end[s])
                    if v > NINF:
                        for t, x in enumerate(xs):
                            acc[t][x].append(v)
            if not any(acc[0]):
                run.log("impossible")
                continue
            run.fault("forward-backward")
            want = []
            for row in acc:
                ls = [lse(r) for r in row]
                tot = lse(ls)
                want.append([math.exp(v - tot) for v in ls])
            kw = {}
            if q["priors"] is not None:
                kw["input_priors"] = np.array(priors)
            if q["start"] is not None:
                kw["initial_state_distribution"] = np.array(start)
            if q["end"] is not None:
                kw["final_state_distribution"] = np.array(end)
            before = {k: snapshot(v) for k, v in kw.items()}
            got = np.asarray(fsm.forward_backward(np.arange(L), lambda y, t: tab[int(t)][int(y)], **kw))
            run.check({k: snapshot(v) for k, v in kw.items()} == before, "input-modified",
                      "forward_backward changed its arguments")
            run.log(got.shape)
            run.check(got.shape == (L, X), "posterior-shape", lambda: f"{got.shape}")
            run.check(bool(np.allclose(got, want, rtol=1e-7, atol=1e-9)), "posterior",
                      lambda: f"T={T} O={O} loglik={show(z)} priors={show(q['priors'])} start={q['start']} "
                              f"end={q['end']}: posteriors {show(got)}, exact {show(want)}")
            run.reach(f"fb:{S}|{X}|{L}|{'p' if q['priors'] else ''}{'s' if q['start'] else ''}{'e' if q['end'] else ''}")


def close(a, b, tol):
    return abs(a - b) <= tol + 1e-7 * abs(b)


def trellis_llrs(T, O, v, s, n, k):
    """Bit log-likelihood ratios of a terminated convolutional code by the own forward-backward recursion."""
    ck, cn, _ = gf2.conv_params(s["conv"])
    S, L = len(T), n // cn
    tab = [[0.5 * math.fsum(a if not y >> j & 1 else -a for j, a in enumerate(v[t * cn:(t + 1) * cn]))
            for y in range(2**cn)] for t in range(L)]
    start = [0.0] + [NINF] * (S - 1)
    end = start if s["mode"] == "zero-termination" else [0.0] * S
    post = posteriors(T, O, tab, [[0.0] * 2**ck] * L, start, end)[:k // ck]
    return [lse(row[x] for x in range(2**ck) if not x >> j & 1) - lse(row[x] for x in range(2**ck) if x >> j & 1)
            for row in post for j in range(ck)]


def successive(v, frozen, mine):
    """Log-likelihood ratio of each unfrozen input of the polar transform given the decisions before it."""
    frozen, it, out = set(frozen), iter(mine), []

    def down(v, first):
        # returns the re-encoded decisions of this subtree
        if len(v) == 1:
            if first in frozen:
                return [0]
            out.append(v[0])
            return [next(it)]
        h = len(v) // 2
        a = down([minus(x, y) for x, y in zip(v[:h], v[h:])], first)
        b = down([y - x if d else y + x for x, y, d in zip(v[:h], v[h:], a)], first + h)
        return [x ^ y for x, y in zip(a, b)] + b

    down([float(x) for x in v], 0)
    return out


def minus(x, y):
    """log of P(x + y = 0) / P(x + y = 1) for independent bits with the given ratios."""
    if min(abs(x), abs(y)) < 1:
        return 2 * math.atanh(math.tanh(x / 2) * math.tanh(y / 2))
    return lse([x + y, 0.0]) - lse([x, y])


def execute(p, run):
    if p["kind"] == "fsm":
        return run_fsm(p, run)
    s, kind = p["code"], p["kind"]
    n, k, _ = codes.info(s)
    if not p["frames"]:
        return
    code = codes.build(s)
    dec = codes.build_decoder(kind if p["out"] == "hard" else kind + "-soft", code)
    run.real.update({"komm." + type(code).__name__, "komm." + type(dec).__name__})
    deep = k > 8 if kind == "bcjr" else n > 16
    run.fault("deep", int(deep))
    if deep and kind == "bcjr":
        fsm = code.convolutional_code.finite_state_machine()
        T, O = fsm.transitions.tolist(), fsm.outputs.tolist()
    elif deep:
        pass
    elif kind == "bcjr":
        msgs = np.array(list(itertools.product([0, 1], repeat=k)))
        words = np.array([gf2.terminated_encode(s["conv"], s["h"], s["mode"], m.tolist()) for m in msgs])
    else:
        active = [i for i in range(n) if i not in s["frozen"]]
        rows = np.array([gf2.int_row(codes.polar_row(s["mu"], i), n) for i in range(n)])
        # all inputs u with u_0 as the most significant bit: futures of a prefix are contiguous
        allu = (np.arange(2**n)[:, None] >> np.arange(n)[::-1]) & 1
        allw = allu @ rows % 2
    received = []
    for f in p["frames"]:
        if len(f["m"]) != k:
            raise Invalid("message")
        c = code.encode(np.array(f["m"]))
        v = [(1 - 2 * int(b)) * w for b, w in zip(c, f["w"])]
        received.append(v)
        run.fault(f["style"])
        run.fault("zero-reliability", sum(x == 0 for x in v))
        run.now += n
    # bit posteriors are probabilities inside BCJR, so log-likelihood ratios beyond 700 are out of its range
    received = codes.quantise(received, p["form"], cap=600 // n if kind == "bcjr" else 2**40)
    run.fault("quantised", int(p["form"] in codes.QUANTISED))
    data, lead, per = codes.lay_out(received, p["lay"])
    x = codes.form_array(data, p["form"])
    before = snapshot(x)
    out = np.asarray(dec.decode(x))
    run.fault(kind)
    run.check(snapshot(x) == before, "input-modified", f"{kind} modified its input")
    run.check(out.shape == tuple(lead) + (per * k,), "shape", lambda: f"{kind} of {code!r}: {out.shape}")
    got = out.reshape(len(received), k).tolist()
    run.log(np.round(out, 6).tolist() if kind == "bcjr" else np.sign(out).tolist())
    for v, lo, f in zip(received, got, p["frames"]):
        if deep and kind == "bcjr":
            want = trellis_llrs(T, O, v, s, n, k)
        elif deep:
            mine = [int(a) if p["out"] == "hard" else int(a < 0) for a in lo]
            want = successive(v, s["frozen"], mine)
        elif kind == "bcjr":
            loglik = 0.5 * ((1 - 2 * words) @ np.array(v))
            want = []
            for i in range(k):
                want.append(lse(loglik[msgs[:, i] == 0].tolist()) - lse(loglik[msgs[:, i] == 1].tolist()))
        else:
            loglik = 0.5 * ((1 - 2 * allw) @ np.array(v))
            want, lo_it, base, size = [], iter(lo), 0, 2**n
            for i in range(n):
                size //= 2
                if i in s["frozen"]:
                    continue_with = 0
                else:
                    # future bits are uniform for the decoder, as SC treats frozen ones as unknown
                    a, b = loglik[base:base + size], loglik[base + size:base + 2 * size]
                    ma, mb = a.max(), b.max()
                    L = (ma + math.log(np.exp(a - ma).sum())) - (mb + math.log(np.exp(b - mb).sum()))
                    want.append(L)
                    mine = next(lo_it)
                    continue_with = int(mine) if p["out"] == "hard" else int(mine < 0)
                base += size * continue_with
        desc = lambda: f"{kind} of {code!r}: received {show(v)} gives {show(lo)}, exact values {show(want)}"
        tol = 1e-7 if kind == "bcjr" else 1e-11 * (1 + max(map(abs, v)))
        for i, (a, b) in enumerate(zip(lo, want)):
            if p["out"] == "soft":
                run.check(close(a, b, tol), f"{kind}-soft-output", desc)
            elif abs(b) > 10 * tol:
                run.check(a == int(b < 0), f"{kind}-hard-output", desc)
            else:
                run.check(a in (0, 1), "not-binary", desc)
                run.fault("tie")
            run.fault("wrong-decision", int((b < 0) != bool(f["m"][i])))
        run.reach(f"{kind}:{codes.label(s)}|{n}|{k}|{f['style']}")
