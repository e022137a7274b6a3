"""C14: sources and Markov chains emit only possible histories, with the stated law."""

import math

from .. import bitgen, core, objects
from .. import source_codes as sc
from .c13 import exponent

RUNS = {"quick": 15000, "thorough": 90000}
TIME_UNIT = "steps and symbols"
RULE = ("A random Markov chain (absorbing, irreducible, periodic, reducible, deterministic) or memoryless source, "
        "driven either by a scripted bit generator (all-zero, all-one and words next to every threshold, mixed with "
        "seeded ones) through several calls, each history being checked step by step; or by a seeded NumPy generator "
        "through long or many simulations, whose frequencies (by state, by previous state, by place in the path and "
        "in the call, absorbing states and times) must match the law and the chain's own analytical answers.")
STUBS = ["bit generator: every word scripted (extreme runs)"]
ASSUMPTIONS = ["frequencies are judged by the Chernoff bound at exponent 30", "analytical answers: relative 1e-7"]
PROBES = ["slow-absorption", "extreme-word", "impossible-event", "certain-event", "absorbed", "refused", "empty", "starts-absorbed", "long",
          "absorption-law", "stationary-law", "emit"]
SHRINK = ["calls", "script"]
MAX = 30.0


def gen_pmf(rng):
    n = rng.randint(1, 6) if rng.random() < 0.85 else rng.randint(7, 48)
    if rng.random() < 0.4:
        w = [rng.choice([0, 0, 1, 3]) for _ in range(n)]
        w[rng.randrange(n)] += 1
        return [x / sum(w) for x in w]
    return sc.gen_pmf(rng, max(2, n))


def slow_chain(rng):
    """An absorbing chain that takes hundreds or thousands of steps to be absorbed."""
    n = rng.randint(2, 5)
    eps = rng.choice([0.01, 0.003, 0.001, 0.0005, 0.0003])
    P = []
    for i in range(n - 1):
        w = [rng.randint(0, 4) for _ in range(n - 1)]
        w[(i + 1) % (n - 1)] += 1
        P.append([x / sum(w) * (1 - eps) for x in w] + [eps])
    P.append([0.0] * (n - 1) + [1.0])
    order = list(range(n))
    rng.shuffle(order)
    return {"P": [[P[a][b] for b in order] for a in order]}


def sticky_chain(rng):
    """An irreducible chain of groups of states that are hardly ever left."""
    n = rng.randint(2, 6)
    eps = rng.choice([1e-2, 1e-3, 1e-4, 1e-5])
    P = []
    for i in range(n):
        w = [rng.randint(0, 3) * (i // 2 == j // 2) for j in range(n)]
        w[i] += 1
        P.append([x / sum(w) * (1 - eps * (1 + i)) for x in w])
        P[i][(i + 1) % n] += eps * (1 + i)
    order = list(range(n))
    rng.shuffle(order)
    return {"P": [[P[a][b] for b in order] for a in order]}


def generate(rng, tier):
    if rng.random() < 0.015:
        spec = {"fam": "markov", **(sticky_chain(rng) if rng.random() < 0.7 else slow_chain(rng))}
        return {"mode": "long", "spec": spec, "gseed": rng.getrandbits(32), "bg": rng.choice(["PCG64", "MT19937", "Philox"]),
                "calls": [], "per": rng.choice([5, 40, 100000]), "s": rng.randrange(len(spec["P"])),
                "what": "absorb" if objects.markov_absorbing(spec["P"]) else "path"}
    if rng.random() < 0.015:
        spec = {"fam": "markov", **slow_chain(rng)}
        n = len(spec["P"])
        return {"mode": "extreme", "spec": spec, "pool": [0, bitgen.M64], "script": [], "gseed": rng.getrandbits(32),
                "rate": 0.0, "calls": [{"op": rng.choice(["absorb", "absorb", "simulate"]), "s": rng.randrange(n),
                                        "steps": rng.choice([5, 3000])} for _ in range(rng.randint(1, 3))]}
    dms = rng.random() < 0.3
    spec = {"fam": "dms", "pmf": gen_pmf(rng)} if dms else {"fam": "markov", **objects.gen_markov(rng, 6 if rng.random() < 0.85 else 24)}
    P = [spec["pmf"]] if dms else spec["P"]
    if rng.random() < 0.65:
        calls = []
        for _ in range(rng.randint(1, 6)):
            if dms:
                calls.append({"op": "emit", "shape": rng.choice([None, 0, 1, rng.randint(0, 12), [2, 3], [], [0, 2],
                                                                 [2, 1, 2], rng.choice([3, 3, 3, 1500])])})
            else:
                n = len(P)
                calls.append({"op": rng.choice(["simulate", "simulate", "absorb"]), "s": rng.randrange(n),
                              "steps": rng.choice([0, 1, 2, rng.randint(0, 40), rng.choice([40] * 6 + [1500])])})
        near = [0, bitgen.M64, 1, bitgen.M64 - 1, 1 << 11, 1 << 63]
        for row in P:
            acc = 0.0
            for v in row:
                acc += v
                near += bitgen.words_near(min(acc, 1.0))
        return {"mode": "extreme", "spec": spec, "calls": calls, "pool": near,
                "script": [rng.choice(near) if rng.random() < 0.8 else rng.getrandbits(64) for _ in range(rng.randint(0, 60))],
                "gseed": rng.getrandbits(32), "rate": rng.choice([0.0, 0.1, 0.3])}
    p = {"mode": "long", "spec": spec, "gseed": rng.getrandbits(32), "bg": rng.choice(["PCG64", "MT19937", "Philox"]),
         "calls": [], "per": rng.choice([1, 2, 5, 40, 100000])}
    if not dms:
        p["what"] = rng.choice(["path", "absorb"]) if objects.markov_absorbing(P) else "path"
        p["s"] = rng.randrange(len(P))
    return p


def absorbing(P):
    return [i for i in range(len(P)) if P[i][i] == 1]


def analysis(P, np):
    """Own absorption analysis: transient states, N, t, B."""
    ab = absorbing(P)
    tr = [i for i in range(len(P)) if i not in ab]
    A = np.array(P)
    N = np.linalg.solve(np.eye(len(tr)) - A[np.ix_(tr, tr)], np.eye(len(tr)))
    return ab, tr, A, N, N.sum(axis=1), N @ A[np.ix_(tr, ab)]


def execute(p, run):
    import komm
    import numpy as np

    spec = p["spec"]
    dms = spec["fam"] == "dms"
    P = [spec["pmf"]] if dms else spec["P"]
    if p["mode"] == "extreme":
        gen, bits = bitgen.generator(p["script"], p["gseed"], p["rate"], p["pool"])
        obj = objects.build(spec, gen)
        can_absorb = not dms and objects.markov_absorbing(P)
        for c in p["calls"]:
            if dms:
                emit(obj, spec, c, run, np)
                continue
            s = c["s"]
            if c["op"] == "simulate":
                out = np.asarray(obj.simulate(s, c["steps"]))
                run.check(out.shape == (c["steps"],), "wrong-length",
                          lambda: f"{obj!r}.simulate({s}, {c['steps']}) has shape {out.shape}")
                if c["steps"] == 0:
                    run.fault("empty")
            else:
                try:
                    out = np.asarray(obj.simulate_until_absorption(s))
                except ValueError:
                    run.check(not can_absorb, "refused", lambda: f"{obj!r} is absorbing, but simulation until "
                                                                 f"absorption from {s} is refused")
                    run.fault("refused")
                    continue
                run.check(can_absorb, "not-refused", lambda: f"{obj!r} is not absorbing, but simulation until "
                                                             f"absorption returned {out.tolist()}")
                ab = absorbing(P)
                run.check(out.ndim == 1 and out.size >= 1 and out[-1] in ab and not any(x in ab for x in out[:-1].tolist()),
                          "not-first-absorption", lambda: f"{obj!r}: until absorption from {s}: {out.tolist()}")
                run.fault("starts-absorbed" if s in ab else "absorbed")
                run.fault("slow-absorption", int(out.size > 300))
            path = out.tolist()
            run.now += len(path)
            run.log(path)
            run.check(out.dtype.kind in "iu", "type", lambda: f"{obj!r}: states of type {out.dtype}")
            if path:
                run.check(path[0] == s, "wrong-start", lambda: f"{obj!r}: simulation from {s} starts in {path[0]}")
            for a, b in zip(path, path[1:]):
                run.check(0 <= b < len(P) and P[a][b] > 0, "impossible-step",
                          lambda: f"{obj!r}: step {a} -> {b} has probability 0; path {path[:30]} from words {p['script'][:6]}")
                run.fault("certain-event" if P[a][b] == 1 else "open-event")
                if any(v == 0 for v in P[a]):
                    run.fault("impossible-event")
                run.reach(f"step:{len(P)}:{a}>{b}")
        run.fault("extreme-word", bits.extremes)
        return
    rng = np.random.Generator(getattr(np.random, p["bg"])(p["gseed"]))
    obj = objects.build(spec, rng)
    run.real.add("komm." + type(obj).__name__)
    if dms:
        N = 40000 if p["per"] >= 5 else 8000
        parts = [np.asarray(obj.emit(min(p["per"], N))) for _ in range(max(1, N // p["per"]))]
        y = np.concatenate(parts)
        N = len(y)
        idx = np.arange(N)
        groups = {"overall": idx >= 0, "even": idx % 2 == 0, "first half": idx < N // 2,
                  "first of a call": idx % p["per"] == 0, "last of a call": idx % p["per"] == p["per"] - 1}
        for lag in (1, 2, p["per"]):
            if lag < N:
                for v in range(min(3, len(P[0]))):
                    g = np.zeros(N, bool)
                    g[lag:] = y[:-lag] == v
                    groups[f"{lag} after symbol {v}"] = g
        for name, g in groups.items():
            law_check(run, y[g], P[0], f"{obj!r}, emit({p['per']}), {name}", np)
        run.now += N
        run.fault("emit", len(parts))
        run.fault("long")
        run.log(y[:100].tolist())
        return
    if p["what"] == "path":
        long_path(p, P, obj, run, np)
    else:
        absorb_many(p, P, obj, run, np)
    del komm


def emit(obj, spec, c, run, np):
    pmf, s = spec["pmf"], c["shape"]
    arg = tuple(s) if isinstance(s, list) else s
    out = np.asarray(obj.emit() if s is None else obj.emit(arg))
    want = (1,) if s is None else tuple(s) if isinstance(s, list) else (s,)
    run.check(out.shape == want, "wrong-shape", lambda: f"{obj!r}.emit({arg}) has shape {out.shape}")
    run.fault("emit")
    if out.size == 0:
        run.fault("empty")
    run.now += out.size
    run.log(out.tolist())
    for b in out.ravel().tolist():
        run.check(0 <= b < len(pmf) and pmf[b] > 0, "impossible-symbol",
                  lambda: f"{obj!r} emitted {b}, which has probability 0")
        run.reach(f"emit:{len(pmf)}:{b}")
        run.fault("certain-event" if pmf[b] == 1 else "open-event")


def law_check(run, y, pmf, what, np):
    n = len(y)
    if n == 0:
        return
    counts = np.bincount(y, minlength=len(pmf))
    run.check(len(counts) == len(pmf), "impossible-symbol", lambda: f"{what}: symbol {len(counts) - 1}")
    for b, pr in enumerate(pmf):
        pr = min(max(float(pr), 0.0), 1.0)
        k = int(counts[b])
        if pr < 1e-13 or pr > 1 - 1e-13:
            run.check(k == (n if pr > 0.5 else 0), "impossible-symbol",
                      lambda: f"{what}: {b} has probability {pr} and happened {k} of {n} times")
            continue
        e = exponent(k, n, pr)
        run.check(e < MAX, "wrong-law",
                  lambda: f"{what}: {b} happened {k} of {n} times, stated probability {pr}; exponent {e:.1f}")


def long_path(p, P, obj, run, np):
    total = 12000 if p["per"] > 5 else 4000
    n = len(P)
    steps = []  # (previous, state, next, index in call)
    s = p["s"]
    left = total
    while left > 0:
        L = min(p["per"] + 1, left + 1)
        path = np.asarray(obj.simulate(s, L)).tolist()
        run.check(len(path) == L and path[0] == s, "wrong-path", lambda: f"{obj!r}.simulate({s}, {L}) = {path[:20]}")
        for t in range(len(path) - 1):
            steps.append((path[t - 1] if t else -1, path[t], path[t + 1], t))
        left -= L - 1
        s = path[-1] if p["per"] < 50 else s
        if p["per"] < 50 and P[s][s] == 1:
            s = p["s"]  # restart instead of staying absorbed
    a = np.array(steps)
    run.now += len(steps)
    run.fault("long")
    run.log(a[:50].tolist())
    for i in range(n):
        sel = a[a[:, 1] == i]
        law_check(run, sel[:, 2], P[i], f"{obj!r}: steps from {i}, simulate({p['per'] + 1})", np)
        law_check(run, sel[sel[:, 3] == 0][:, 2], P[i], f"{obj!r}: first steps from {i}, simulate({p['per'] + 1})", np)
        law_check(run, sel[sel[:, 3] % 2 == 1][:, 2], P[i], f"{obj!r}: odd steps from {i}", np)
        for j in range(n):
            law_check(run, sel[sel[:, 0] == j][:, 2], P[i], f"{obj!r}: steps {j}, {i} -> ?", np)
    # the chain's own stationary answer
    if all(len(objects.reachable(P, i)) == n for i in range(n)):
        pi = np.asarray(obj.stationary_distribution())
        A = np.array(P)
        M = np.vstack([A.T - np.eye(n), np.ones(n)])
        own = np.linalg.lstsq(M, np.append(np.zeros(n), 1), rcond=None)[0]
        run.check(bool(np.allclose(pi, own, rtol=1e-7, atol=1e-9)), "stationary",
                  lambda: f"{obj!r}: stationary distribution {pi} instead of {own}")
        run.fault("stationary-law")


def absorb_many(p, P, obj, run, np):
    ab, tr, A, N, t, B = analysis(P, np)
    if p["s"] in ab or not tr:
        s = tr[0] if tr else None
        if s is None:
            return
    else:
        s = p["s"]
    # the chain's own answers
    for name, own in (("mean_number_of_visits", N), ("mean_time_to_absorption", t), ("absorption_probabilities", B)):
        got = np.asarray(getattr(obj, name)())
        run.check(got.shape == own.shape and bool(np.allclose(got, own, rtol=1e-7, atol=1e-9)), "analysis",
                  lambda: f"{obj!r}.{name}() = {got.tolist()} instead of {own.tolist()}")
    row = tr.index(s)
    mean = float(t[row])
    if mean > 60:
        return
    R = int(min(2500, 25000 / max(mean, 1)))
    ends, times, visits = [], [], np.zeros(len(tr))
    for _ in range(R):
        path = np.asarray(obj.simulate_until_absorption(s)).tolist()
        ends.append(path[-1])
        times.append(len(path) - 1)
        for x in path[:-1]:
            visits[tr.index(x)] += 1
    run.now += sum(times)
    run.fault("absorption-law")
    run.fault("long")
    run.log(ends[:50], times[:50])
    law = np.zeros(len(P))
    law[ab] = B[row]
    law_check(run, np.array(ends), law, f"{obj!r}: absorbing state from {s}", np)
    times = np.array(times)
    Q = A[np.ix_(tr, tr)]
    d = np.zeros(len(tr))
    d[row] = 1
    surv = 1.0
    for k in range(1, 12):
        d = d @ Q
        surv = float(d.sum())
        law_check(run, (times > k).astype(int), [1 - surv, surv], f"{obj!r}: absorption later than {k} steps from {s}", np)
    var = float(((2 * N - np.eye(len(tr))) @ t - t * t)[row])
    run.check(abs(times.mean() - mean) <= 9 * math.sqrt(max(var, 0) / R) + 1e-9, "absorption-time",
              lambda: f"{obj!r}: mean absorption time from {s} is {times.mean()} over {R} runs instead of {mean}")


del core
