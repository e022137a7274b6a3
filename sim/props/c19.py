"""C19: a convolutional stream withstands exactly the damage its free distance and non-catastrophicity promise."""

from heapq import heappop, heappush
from itertools import combinations

import numpy as np

from .. import codes, gf2
from ..core import Invalid
from ..util import show

RUNS = {"quick": 20000, "thorough": 150000}
TIME_UNIT = "symbol periods"
RULE = ("A random full-rank convolutional encoder (three classes; feedback, common factors, delays, catastrophic ones "
        "included), a message stream encoded in random pieces and ended in the zero state; an adversarial channel "
        "that knows the code strikes it: at most half the free distance (placed at random or along the least detour of "
        "the trellis), or exactly the free distance (turning it into another coded stream).  The receiver is the "
        "library's Viterbi algorithm.  Oracle: own trellis, own search for the least detour (one that rejoins the "
        "stream or stays silent for ever after) and for silent cycles driven by nonzero inputs.")
STUBS = ["channel: an adversary with an explicit flip list", "segmentation: seeded schedule"]
ASSUMPTIONS = ["generator matrices of full rank"]
PROBES = ["flip", "at-half-distance", "detour", "endless-detour", "catastrophic", "non-catastrophic", "hidden-mode", "cut"]
SHRINK = ["u", "flips", "cuts", "asks"]


def det(M):
    if len(M) == 1:
        return M[0][0]
    d = 0
    for j, a in enumerate(M[0]):
        if a:
            d ^= gf2.pmul(a, det([row[:j] + row[j + 1:] for row in M[1:]]))
    return d


def full_rank(c):
    if c["cls"] != "Conv":
        return True
    M = c["ff"]  # feedback only scales the rows
    return any(det([[row[j] for j in js] for row in M]) for js in combinations(range(len(M[0])), len(M)))


def generate(rng, tier):
    while True:
        p = draw(rng, tier)
        if full_rank(p["conv"]):
            return p


def draw(rng, tier):
    c = codes.gen_conv(rng, max_states=rng.choice([1, 2, 3, 4, 5, 6]), k_max=rng.choice([1, 1, 2, 2, 3]))
    if rng.random() < 0.3:  # a common factor: catastrophic, or cancelled by the feedback
        f = rng.choice([3, 3, 7, 5, 2, 11])
        if c["cls"] == "Low":
            c["g"] = [gf2.pmul(g, f) for g in c["g"]]
        elif c["cls"] == "Conv":
            i = rng.randrange(len(c["ff"]))
            c["ff"][i] = [gf2.pmul(g, f) for g in c["ff"][i]]
            if rng.random() < 0.3 and f & 1:
                fb = c["fb"] or [1] * len(c["ff"])
                fb[i] = gf2.pmul(fb[i], f)
                c["fb"] = fb
        else:
            c["h"] = [gf2.pmul(g, f | 1) for g in c["h"]]
    k, n, nus = gf2.conv_params(c)
    L = rng.choice([1, 2, 5, 10, 20, 40]) if rng.random() < 0.97 else rng.choice([100, 300])
    L = max(1, min(L, 40000 // 2 ** (sum(nus) + k)))
    mode = rng.choice(["random", "burst", "detour", "detour", "bare"])
    return {"conv": c, "u": [rng.randrange(2) for _ in range(L * k)] if rng.random() < 0.8 else [0] * (L * k),
            "mode": mode, "at": rng.random(), "flips": [rng.random() for _ in range(rng.choice([3, 6, 6, 12]))],
            "window": rng.choice([8, 30, 120]), "cuts": sorted(rng.random() for _ in range(rng.choice([0, 1, 3]))),
            "asks": rng.sample(["distance", "catastrophic", "viterbi", "lengths", "distance", "catastrophic"], 6),
            "form": rng.choice(codes.INT_FORMS)}


def silent_states(trans, outs):
    """States from which the output may stay zero for ever."""
    S = set(range(len(trans)))
    while True:
        keep = {s for s in S if any(y == 0 and d in S for d, y in zip(trans[s], outs[s]))}
        if keep == S:
            return S
        S = keep


def least_detour(trans, outs, silent):
    """Least positive weight of an output sequence, and inputs that produce it (ending in a silent state)."""
    best, heap = {}, [(0, 0, False, ())]
    while heap:
        w, s, off, path = heappop(heap)
        if w and s in silent:
            return w, path
        if best.get((s, w > 0), 1 << 60) <= w and (off or path):
            continue
        best[s, w > 0] = w
        for x, (d, y) in enumerate(zip(trans[s], outs[s])):
            if not (s == 0 and x == 0):
                heappush(heap, (w + y.bit_count(), d, True, path + (x,)))
    raise Invalid("no nonzero output")


def silent_drive(trans, outs):
    """A cycle of zero outputs with some nonzero input, reachable from the zero state: (cycle start, its inputs)."""
    reach, todo = {0}, [0]
    while todo:
        for d in trans[todo.pop()]:
            if d not in reach:
                reach.add(d)
                todo.append(d)
    quiet = {s: [(x, d) for x, (d, y) in enumerate(zip(trans[s], outs[s])) if y == 0] for s in reach}
    for s in sorted(reach):
        for x, d in quiet[s]:
            if x == 0:
                continue
            seen, queue = {d: (x,)}, [d]
            while queue and s not in seen:
                a = queue.pop(0)
                for z, b in quiet[a]:
                    if b not in seen:
                        seen[b] = seen[a] + (z,)
                        queue.append(b)
            if s in seen:
                return s, seen[s]
    return None


def path_to(trans, s0, s1):
    seen, queue = {s0: ()}, [s0]
    while queue:
        a = queue.pop(0)
        if a == s1:
            return seen[a]
        for x, d in enumerate(trans[a]):
            if d not in seen:
                seen[d] = seen[a] + (x,)
                queue.append(d)
    return None


def execute(p, run):
    c = p["conv"]
    k, n, nus = gf2.conv_params(c)
    sigma = sum(nus)
    if sigma > 10:
        raise Invalid("too many states")
    trans, outs = gf2.conv_trellis(c)
    silent = silent_states(trans, outs)
    if any(y == 0 and d in silent for d, y in list(zip(trans[0], outs[0]))[1:]):
        raise Invalid("generator matrix is not of full rank")
    d_free, detour = least_detour(trans, outs, silent)
    drive = silent_drive(trans, outs)
    code = codes.build_conv(c)
    run.real.add("komm." + type(code).__name__)
    run.fault("catastrophic" if drive else "non-catastrophic")
    run.fault("hidden-mode", int(len(silent) > 1 and not drive))

    def walk(s, xs):
        out = []
        for x in xs:
            out.append(outs[s][x])
            s = trans[s][x]
        return s, out

    def to_bits(xs, width):
        return [x >> j & 1 for x in xs for j in range(width)]

    u = p["u"][:len(p["u"]) // k * k]
    msg = [sum(u[t * k + j] << j for j in range(k)) for t in range(len(u) // k)]

    # the detour goes on silently for a while: back to the zero state, or round a silent cycle
    end, _ = walk(0, detour)
    drift = list(detour)
    while len(drift) < len(detour) + p["window"]:
        x = next(x for x, (d, y) in enumerate(zip(trans[end], outs[end])) if y == 0 and d in silent)
        drift.append(x)
        end = trans[end][x]
    run.fault("endless-detour", int(end != 0))

    def encoded(xs):
        """The library's encoder, in pieces."""
        b = to_bits(xs, k)
        cuts = [0, *sorted({int(f * (len(xs) + 1)) for f in p["cuts"]}), len(xs)]
        state, got = np.zeros(sigma, dtype=int), []
        for i, j in zip(cuts, cuts[1:]):
            run.fault("cut")
            v, state = code.encode_with_state(codes.form_array(b[i * k:j * k], p["form"]), state)
            got += np.asarray(v).astype(int).tolist()
        return got

    def ask(q):
        if q == "distance":
            got = code.free_distance()
            run.check(got == d_free, "free-distance", lambda: f"{code!r}: free distance {got}, but flipping {d_free} "
                      f"bits turns one coded stream into another (inputs {list(detour)})" if got != d_free else "")
        elif q == "catastrophic":
            got = code.is_catastrophic()
            run.check(bool(got) == (drive is not None), "catastrophic",
                      lambda: f"{code!r}: reported {'' if got else 'non-'}catastrophic, but silent cycles driven by "
                      f"nonzero inputs: {drive}")
        elif q == "lengths" and c["cls"] != "High":
            got = (np.asarray(code.constraint_lengths).tolist(), code.memory_order, code.overall_constraint_length,
                   code.degree)
            run.check(got == (nus, max(nus), sum(nus), sigma), "lengths", lambda: f"{code!r}: {got}, delays {nus}")
        elif q == "viterbi":
            receive()

    def receive():
        s, _ = walk(0, msg)
        tail = list(path_to(trans, s, 0) or ())
        sent = msg + tail
        v = encoded(sent)
        t_max = (d_free - 1) // 2
        mode = p["mode"]
        where = int(p["at"] * len(msg))
        _, pattern = walk(0, detour)
        spots = [(where + t) * n + j for t, y in enumerate(pattern) for j in range(n) if y >> j & 1]
        spots = [e for e in spots if e < len(v)]
        if mode in ("random", "bare"):
            spots = list(range(len(v)))
        elif mode == "burst":
            spots = list(range(where * n, min(len(v), where * n + 3 * t_max)))
        flips = []
        for f in p["flips"][:t_max]:
            if spots and mode != "bare":
                flips.append(spots.pop(int(f * len(spots))))
        r = np.array(v)
        r[flips] ^= 1
        run.fault("flip", len(flips))
        run.fault("at-half-distance", int(len(flips) == t_max > 0))
        run.now += len(sent)
        m0 = np.full(2**sigma, np.inf)
        m0[0] = 0.0
        fsm = code.finite_state_machine()
        run.real.add("MealyMachine.viterbi")
        table = (np.arange(2**n)[:, None] >> np.arange(n)) & 1
        xs, metrics = fsm.viterbi(observed=r.reshape(-1, n), metric_function=lambda y, z: float((table[y] != z).sum()),
                                  initial_metrics=m0)
        got = np.asarray(xs)[:, 0].astype(int).tolist()
        run.log(got, flips)
        run.check(got == sent and metrics[0] == len(flips), "not-corrected",
                  lambda: f"{code!r}: sent {show(sent)}, flips {flips} (free distance {d_free}), the nearest stream "
                          f"found is {show(got)} at {metrics[0]}")

    for q in p["asks"]:
        ask(q)
    # exactly the free distance, and the receiver holds another message's stream
    run.fault("detour")
    where = int(p["at"] * len(msg))
    base = (msg + [0] * len(drift))[:where + len(drift)]
    # linear encoders: the detour adds to whatever is sent
    struck = list(base)
    for t, x in enumerate(drift):
        struck[where + t] ^= x
    a, b = encoded(base), encoded(struck)
    diff = sum(x != y for x, y in zip(a, b))
    run.check(diff == d_free, "detour-weight",
              lambda: f"{code!r}: messages {show(base)} and {show(struck)} are {diff} channel bits apart, not {d_free}")
    run.now += 2 * len(base)
    if drive:
        s, cyc = drive
        lead = list(path_to(trans, 0, s))
        sizes = []
        for turns in (2, 2 + p["window"] // len(cyc)):
            xs = lead + list(cyc) * turns
            v = encoded(xs)
            sizes.append((sum(map(bool, xs)), sum(v)))
        run.check(sizes[0][1] == sizes[1][1] and (sizes[1][0] > sizes[0][0] or p["window"] < len(cyc)), "endless-errors",
                  lambda: f"{code!r}: inputs {lead} then {cyc} repeated: weights {sizes}")
    run.log(d_free, bool(drive), diff)
    run.reach(f"stream:{c['cls']}|{k}|{n}|{sigma}|{d_free}|{bool(drive)}|{p['mode']}|{len(silent)}|{bool(c.get('fb'))}")
