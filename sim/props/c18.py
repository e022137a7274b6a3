"""C18: spread-spectrum receivers separate users, synchronise and measure delays exactly despite damage."""

import cmath
import math

import numpy as np

from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 16000, "thorough": 200000}
TIME_UNIT = "chips"
RULE = ("Transmitters spread symbols with random sequences (registers, Walsh-Hadamard, Zadoff-Chu, Barker, custom) over a "
        "simulated medium that flips, erases, delays, superposes and attenuates chips; receivers join late at any chip, "
        "hand their register over, separate users, find preambles and measure delays.  Oracle: own register recursion, "
        "own sign patterns, own exact phases, own correlators.")
STUBS = ["medium: simulated chip stream with flips, erasures, multipath, interferers and late joins"]
ASSUMPTIONS = ["floating-point agreement within 1e-6 for complex chips, exact for integer chips",
               "flips and erasures stay below the stated fraction of the correlation gap"]
PROBES = ["flip", "erasure", "late-join", "handover", "silent-user", "amplitude", "multipath", "interferer", "negative-shift",
          "far-shift", "normalized", "dead-period", "narrow-type", "asked-again"]
SHRINK = ["flips", "erase", "users", "taps", "shifts", "lost", "asks", "at"]

PRIMITIVE = {2: [7], 3: [11, 13], 4: [19, 25], 5: [37, 41, 47, 55, 59, 61], 6: [67, 91, 97, 103, 109, 115],
             7: [131, 137, 143, 145, 157, 247], 8: [285, 299, 301, 333, 351, 501], 9: [529, 539, 545, 557, 865],
             10: [1033, 1051, 1063, 1279, 2011], 11: [2053, 2071]}
FORMS = ["list", "array", "tuple", "int8", "uint8", "int16", "readonly", "range", "none", "reversed"]


def gen_shifts(rng, L):
    k = rng.choice([0, 1, 2, 5, 12])
    pick = [lambda: rng.randint(-L - 3, L + 3), lambda: rng.choice([0, 1, -1, L, -L, L - 1, 1 - L, L + 1]),
            lambda: rng.randint(-3 * L, 3 * L), lambda: rng.randint(-5, 5)]
    return [rng.choice(pick)() for _ in range(k)]


def gen_asks(rng, L):
    return [[rng.choice(["auto", "cyclic"]), rng.random() < 0.3, rng.choice(FORMS), gen_shifts(rng, L)]
            for _ in range(rng.randint(1, 4))]


def generate(rng, tier):
    kind = rng.choice(["register", "register", "register", "walsh", "walsh", "zadoff", "zadoff", "barker", "custom", "custom"])
    p = {"kind": kind}
    L = 8
    if kind == "register":
        big = 0.004 if tier == "quick" else 0.02
        n = rng.randint(1, 7) if rng.random() < 0.7 else rng.randint(8, 11) if rng.random() < 0.9 else rng.randint(12, 13)
        if rng.random() < big:
            n = rng.choice([14, 15, 16])
        p["n"] = n
        p["how"] = rng.choice(["default", "default", "other", "any"])
        if p["how"] == "other":
            p["poly"] = rng.choice(PRIMITIVE.get(n, [0])) if n in PRIMITIVE else 0
            if not p["poly"]:
                p["how"] = "default"
        if p["how"] == "any":
            p["poly"] = (1 << n) | rng.getrandbits(max(0, n - 1)) << 1 | 1 if n > 1 else 3
        N = L = (1 << n) - 1
        p["start"] = rng.choice([1, 1, 1 << (n - 1), N, rng.randint(1, N), rng.randint(1, N)])
        p["pform"] = rng.choice(["int", "poly"])
        p["join"] = rng.choice([0, 1, N - 1, n, rng.randrange(3 * N + 1)])
        budget = (N + 1) // 2 - 1
        e = rng.choice([0, 0, rng.randint(0, budget), budget])
        f = (budget - e) // 2 if rng.random() < 0.7 else rng.randint(0, (budget - e) // 2)
        where = rng.sample(range(N), min(N, e + f))
        if rng.random() < 0.3:  # a burst
            s = rng.randrange(N)
            where = [(s + i) % N for i in range(min(N, e + f))]
        p["erase"], p["flips"] = where[:e], where[e:e + f]
        p["cells"] = [[rng.randrange(N), rng.choice([-1, 1])] for _ in range(rng.choice([0, 2, 3, min(8, max(1, N // 3))]))]
    elif kind == "walsh":
        m = rng.choice([1, 2, 3, 3, 4, 5, 6]) if rng.random() < 0.9 else rng.choice([7, 8, 9, 10 if tier == "thorough" else 8])
        L = p["L"] = 1 << m
        p["order"] = rng.choice(["natural", "sequency"])
        k = min(L, rng.choice([1, 2, 3, 8, L]))
        T = rng.choice([1, 2, 4, 9])
        p["users"] = [{"index": i, "amp": rng.choice([1, 1, 2, -3, 100, 0.5, 1e3]), "join": rng.choice([0, 0, rng.randrange(T)]),
                       "data": [rng.choice([-1, 1, 1, 0, 3]) for _ in range(T)]} for i in rng.sample(range(L), k)]
        p["lost"] = [rng.randrange(T)] if rng.random() < 0.3 else []
        p["noise"] = rng.choice([0, 0, 0.1, 0.9])
        p["nseed"] = rng.getrandbits(30)
        p["at"] = [rng.randrange(L) for _ in range(3)]
    elif kind == "zadoff":
        L = p["L"] = rng.choice([3, 5, 7, 9, 11, 13, 15, 25, 31, 63, 64 - 1, 139]) if rng.random() < 0.9 else rng.choice(
            [353, 571, 839, 1023, 1297, 2039, 2047, 4093])
        q = rng.choice([1, L - 1, L - 2, 2, (L - 1) // 2, rng.randrange(1, L), rng.randrange(1, L), rng.randrange(1, L)])
        while math.gcd(q, L) != 1:
            q = rng.randrange(1, L)
        p["root"] = q
        k = rng.choice([1, 1, 2, 3])
        p["taps"] = [[rng.randrange(L), rng.choice([1, 0.5, -2, 0.01, 30]), rng.choice([0, 1, -0.5])] for _ in range(k)]
        p["other"] = rng.randrange(1, L) if rng.random() < 0.4 else None
        p["join"] = rng.choice([0, 0, rng.randrange(5 * L)])
    elif kind == "barker":
        L = p["L"] = rng.choice([2, 3, 4, 5, 7, 11, 13])
        at, t = [], rng.randrange(40)
        for _ in range(rng.choice([1, 1, 2, 4])):
            at.append(t)
            t += 2 * L + rng.randrange(30)
        p["at"], p["len"] = at, t + L
        f = (L - 2) // 4 if L > 5 else 0
        p["flips"] = sorted({(i, rng.randrange(L)) for i in range(len(at)) for _ in range(rng.randint(0, f))})
        p["flips"] = [list(x) for x in p["flips"]]
    else:
        L = rng.choice([1, 2, 3, 5, 8, 13, 31, 100, 200])
        p["form"] = rng.choice(["bits", "polar", "complex", "real", "int8", "uint8", "bool", "list", "int16", "float32"])
        p["seed"] = None
        p["x"] = [[rng.randint(-100, 100), rng.randint(-9, 9)] for _ in range(L)]
        if rng.random() < 0.3:
            p["x"] = [[100 if rng.random() < 0.9 else -100, 9] for _ in range(L)]
        p.pop("seed")
        p["twin"] = rng.random() < 0.5
    p["asks"] = gen_asks(rng, L)
    return p


# --------------------------------------------------------------------- own sequences and correlators

def register(poly, start, n):
    """s[i + n] = XOR of s[i + n - t] over the taps t >= 1, begun by the start state read from its highest bit down."""
    s = [start >> (n - 1 - i) & 1 for i in range(n)]
    taps = [t for t in range(1, n + 1) if poly >> t & 1]
    for i in range(n, (1 << n) - 1):
        b = 0
        for t in taps:
            b ^= s[i - t]
        s.append(b)
    return s[:(1 << n) - 1]


def walsh_rows(L, order):
    rows = [[-1 if bin(i & j).count("1") & 1 else 1 for j in range(L)] for i in range(L)]
    if order == "sequency":
        rows.sort(key=lambda r: sum(x != y for x, y in zip(r, r[1:])))
    return rows


def zadoff(L, q):
    return np.array([cmath.exp(-1j * math.pi * (q * n * (n + 1) % (2 * L)) / L) for n in range(L)])


def ref_auto(x, s):
    L = len(x)
    return sum((x[n] * np.conj(x[n - s]) for n in range(max(0, s), min(L, L + s))), 0)


def ref_cyclic(x, s):
    L = len(x)
    return sum((x[n] * np.conj(x[(n - s) % L]) for n in range(L)), 0)


def dress(shifts, form):
    """Shifts as some caller would hold them -> (argument, the shifts meant)."""
    if form == "none":
        return None, None
    if form == "range":
        k = len(shifts)
        return range(-k, k + 1), list(range(-k, k + 1))
    if form == "reversed":
        return np.array(shifts, dtype=int)[::-1], shifts[::-1]
    if form == "tuple":
        return tuple(shifts), shifts
    if form in ("int8", "uint8", "int16"):
        t = np.iinfo(form)
        shifts = [s for s in shifts if t.min <= s <= t.max]
        return np.array(shifts, dtype=form), shifts
    if form == "list":
        return list(shifts), shifts
    a = np.array(shifts, dtype=int)
    if form == "readonly":
        a.setflags(write=False)
    return a, shifts


def correlate(asks, ask, x, run, what):
    """Delayed receivers: ask(cyclic?, shifts, normalized) must be what x measures against itself."""
    x = [complex(v) if isinstance(v, complex) or np.iscomplexobj(v) else v for v in x]
    L = len(x)
    energy = sum(abs(v) ** 2 for v in x)
    answers = []
    for which, normalized, form, shifts in asks:
        if L > 300 and (form == "none" or len(shifts) > 5):
            form, shifts = "list", shifts[:3]
        arg, s = dress(shifts, form)
        if s is None:
            s = list(range(L))
        if normalized and not energy:
            continue
        run.fault("negative-shift", sum(v < 0 for v in s))
        run.fault("far-shift", sum(abs(v) >= L for v in s))
        run.fault("normalized", int(normalized))
        run.fault("narrow-type", int(form in ("int8", "uint8", "int16")))
        before = snapshot(arg) if isinstance(arg, np.ndarray) else None
        got = np.asarray(ask(which == "cyclic", arg, normalized))
        if before is not None:
            run.check(snapshot(arg) == before, "input-modified", f"{what}: {which} modified the shifts")
        want = [(ref_cyclic if which == "cyclic" else ref_auto)(x, v) / (energy if normalized else 1) for v in s]
        run.log([which, normalized, np.round(got, 6).tolist() if got.size < 50 else got.shape])
        run.check(got.shape == (len(s),), "correlation-shape", lambda: f"{what}: {which} at {show(arg)} has shape {got.shape}")
        tol = 1e-9 * (1 + energy) / (max(energy, 1e-300) if normalized else 1)
        run.check(all(abs(g - w) <= tol for g, w in zip(got.tolist(), want)), "correlation",
                  lambda: f"{what}: {which} autocorrelation at {s[:8]} (given as {form}, normalized={normalized}) is "
                          f"{show(got[:8])}, a delayed receiver measures {want[:8]}")
        answers.append((which, arg, normalized, got))
    for which, arg, normalized, got in answers:
        run.fault("asked-again")
        again = np.asarray(ask(which == "cyclic", arg, normalized))
        run.check(np.array_equal(again, got), "repeat-differs", lambda: f"{what}: {which} at {show(arg)} answers differently")


def queries(seq):
    return lambda cyclic, shifts, normalized: (seq.cyclic_autocorrelation if cyclic else seq.autocorrelation)(
        shifts=shifts, normalized=normalized)


def execute(p, run):
    globals()["run_" + p["kind"]](p, run)


def check_bits(seq, bits, run, what):
    run.check(np.asarray(seq.bit_sequence).tolist() == bits, "sequence",
              lambda: f"{what}: bits {show(seq.bit_sequence)}, expected {show(np.array(bits))}")
    run.check(np.asarray(seq.polar_sequence).tolist() == [1 - 2 * b for b in bits], "sequence",
              lambda: f"{what}: polar {show(seq.polar_sequence)}")
    run.check(seq.length == len(bits), "sequence", lambda: f"{what}: length {seq.length}, expected {len(bits)}")


def run_register(p, run):
    import komm

    n, N = p["n"], (1 << p["n"]) - 1
    if not 1 <= p["start"] <= N:
        raise Invalid("start")
    wrap = komm.BinaryPolynomial if p["pform"] == "poly" else int
    run.real.add("komm.LFSRSequence")
    if p["how"] == "default":
        what = f"maximum_length_sequence({n}, {p['start']})"
        seq = komm.LFSRSequence.maximum_length_sequence(n, wrap(p["start"]))
        poly = seq.feedback_polynomial.value
        run.check(poly.bit_length() - 1 == n, "sequence", lambda: f"{what} has feedback polynomial {poly:#b}")
    else:
        poly = p["poly"]
        what = f"LFSRSequence({poly:#b}, {p['start']})"
        seq = komm.LFSRSequence(wrap(poly), start_state_polynomial=wrap(p["start"]))
    own = register(poly, p["start"], n)
    check_bits(seq, own, run, what)
    run.now += N
    s = np.array([1 - 2 * b for b in own])
    run.reach(f"register:{n}|{poly}|{p['start'] % 64}|{len(p['flips'])}|{len(p['erase'])}|{p['join'] % N}")
    if p["how"] != "any":
        # full period: the states met are all different
        spin = np.fft.fft(s.astype(float))
        R = np.round(np.fft.ifft(np.abs(spin) ** 2).real).astype(int)
        run.check(R[0] == N and bool((R[1:] == -1).all()), "period", lambda: f"{what}: not a maximum-length sequence")
        # a receiver joins late and hears one damaged period
        heard = np.array([s[(p["join"] + i) % N] for i in range(N)], dtype=float)
        if len(set(p["flips"]) | set(p["erase"])) != len(p["flips"]) + len(p["erase"]) or \
                2 * len(p["flips"]) + len(p["erase"]) > (N + 1) // 2 - (N > 1) or any(i >= N for i in p["flips"] + p["erase"]):
            raise Invalid("damage")
        heard[p["flips"]] *= -1
        heard[p["erase"]] = 0
        run.fault("flip", len(p["flips"]))
        run.fault("erasure", len(p["erase"]))
        run.fault("late-join", int(p["join"] > 0))
        local = np.asarray(seq.polar_sequence).astype(float)
        level = np.round(np.fft.ifft(np.fft.fft(local) * np.conj(np.fft.fft(heard))).real).astype(int)
        found = int(level.argmax())
        run.check(found == p["join"] % N, "phase", lambda: f"{what}: joined at {p['join']}, found phase {found}, "
                                                          f"{len(p['flips'])} flips, {len(p['erase'])} erasures")
        run.now += N
        # several users on the same register, each at a phase of its own
        cells = {}
        for phase, sign in p["cells"]:
            cells[phase % N] = sign
        if len(cells) - 1 < N - 1 and cells:
            mix = sum((sign * np.roll(np.asarray(seq.polar_sequence), ph) for ph, sign in cells.items()), np.zeros(N, int))
            for ph, sign in cells.items():
                if len(cells) - 1 < N:
                    v = int(np.dot(mix, np.roll(local, ph)))
                    run.check((v > 0) == (sign > 0), "separation", lambda: f"{what}: user at phase {ph} sent {sign}, "
                                                                           f"correlation {v}")
    # the register is handed over in mid-stream and goes on identically
    if N <= 4095 and all(poly >> t & 1 for t in (0, n)):
        j = p["join"] % N
        if j + n <= N or p["how"] != "any":
            state = sum(own[(j + i) % N] << (n - 1 - i) for i in range(n))
            if state:
                run.fault("handover")
                heir = komm.LFSRSequence(poly, state)
                expect = [own[(j + i) % N] for i in range(N)]
                if p["how"] == "any":
                    expect = expect[:N - j]
                got = np.asarray(heir.bit_sequence)[:len(expect)].tolist()
                run.check(got == expect, "handover", lambda: f"{what} handed over at chip {j} in state {state}: continues "
                                                             f"{got[:12]}, expected {expect[:12]}")
    if N <= 1023:
        correlate(p["asks"], queries(seq), s.tolist(), run, what)
        check_bits(seq, own, run, what)


def run_walsh(p, run):
    import komm

    L, order = p["L"], p["order"]
    rows = walsh_rows(L, order)
    T = max((len(u["data"]) for u in p["users"]), default=0)
    run.real.add("komm.WalshHadamardSequence")
    if len({u["index"] for u in p["users"]}) != len(p["users"]) or any(len(u["data"]) != T for u in p["users"]):
        raise Invalid("users")
    made = {}

    def code(i):
        what = f"WalshHadamardSequence({L}, {order!r}, {i})"
        if i not in made:
            made[i] = komm.WalshHadamardSequence(L, order, i) if i or order != "natural" else komm.WalshHadamardSequence(L)
            check_bits(made[i], [int(v < 0) for v in rows[i]], run, what)
        return np.asarray(made[i].polar_sequence)

    run.reach(f"walsh:{L}|{order}|{sorted(u['index'] for u in p['users'])[:6]}|{len(p['users'])}")
    if T:
        air = np.zeros((T, L))
        for u in p["users"]:
            run.fault("amplitude", int(u["amp"] != 1))
            run.fault("late-join", int(u["join"] > 0))
            for t in range(T):
                if t >= u["join"]:
                    air[t] += u["amp"] * u["data"][t] * code(u["index"])
        g = np.random.default_rng(p["nseed"])
        noise = p["noise"] * g.uniform(-1, 1, air.shape)
        for t in p["lost"]:
            if t < T:
                air[t] = 0
                run.fault("dead-period")
        run.now += T * L
        active = {u["index"]: u for u in p["users"]}
        listen = list(active) + [i for i in p["at"] if i < L and i not in active]
        for i in listen:
            run.fault("silent-user", int(i not in active))
            est = (air + noise) @ code(i) / L
            u = active.get(i)
            want = [0 if u is None or t in p["lost"] or t < u["join"] else u["amp"] * u["data"][t] for t in range(T)]
            run.check(bool(np.all(np.abs(est - want) <= p["noise"] + 1e-7)), "separation",
                      lambda: f"length {L}, {order}: user {i} sent {want}, receiver separated {show(est)} "
                              f"({len(active)} active users)")
    seq = made[listen[0]] if made else None
    if seq is not None:
        i = listen[0]
        correlate(p["asks"], queries(seq), rows[i], run, f"WalshHadamardSequence({L}, {order!r}, {i})")
        check_bits(seq, [int(v < 0) for v in rows[i]], run, f"WalshHadamardSequence({L}, {order!r}, {i})")


def run_zadoff(p, run):
    import komm

    L, q = p["L"], p["root"]
    what = f"ZadoffChuSequence({L}, {q})"
    run.real.add("komm.ZadoffChuSequence")
    seq = komm.ZadoffChuSequence(L, q) if q != 1 else komm.ZadoffChuSequence(L)
    own = zadoff(L, q)
    z = np.asarray(seq.sequence)
    run.check(z.shape == (L,) and bool(np.all(np.abs(z - own) < 1e-6)), "sequence", lambda: f"{what}: {show(z)}")
    run.check(seq.length == L, "sequence", lambda: f"{what}: length {seq.length}")
    taps = {}
    for d, re, im in p["taps"]:
        taps[d % L] = complex(re, im)
    strongest = max(taps.values(), key=abs)
    heard = sum((g * np.roll(own, d + p["join"]) for d, g in taps.items()), np.zeros(L, complex))
    run.fault("multipath", len(taps) - 1)
    run.fault("late-join", int(p["join"] > 0))
    r = p["other"]
    slack = 0.0
    if r is not None and math.gcd(abs(q - r), L) == 1 and q != r:
        amp = 0.4 * abs(strongest) / math.sqrt(L)
        other = komm.ZadoffChuSequence(L, r)
        cross = np.abs(np.fft.ifft(np.fft.fft(np.asarray(other.sequence)) * np.conj(np.fft.fft(z))))
        run.check(bool(np.all(np.abs(cross - math.sqrt(L)) < 1e-5 * L)), "cross-correlation",
                  lambda: f"{what} and root {r}: {show(cross)}, expected {math.sqrt(L)}")
        heard = heard + amp * zadoff(L, r)
        slack = amp * math.sqrt(L) / L
        run.fault("interferer")
    run.now += L
    profile = np.fft.ifft(np.fft.fft(heard) * np.conj(np.fft.fft(z))) / L
    want = np.zeros(L, complex)
    for d, g in taps.items():
        want[(d + p["join"]) % L] += g
    run.check(bool(np.all(np.abs(profile - want) <= slack + 1e-6 * sum(abs(g) for g in taps.values()))), "delay",
              lambda: f"{what}: paths {taps} joined at {p['join']}: profile {show(profile)}")
    run.reach(f"zadoff:{L}|{q}|{sorted(taps)[:3]}|{r}|{p['join'] % L}")
    if L <= 400:
        correlate(p["asks"], queries(seq), own.tolist(), run, what)
        run.check(np.array_equal(np.asarray(seq.sequence), z), "repeat-differs", lambda: f"{what}: the sequence changed")


def run_barker(p, run):
    import komm

    L = p["L"]
    what = f"BarkerSequence({L})"
    run.real.add("komm.BarkerSequence")
    seq = komm.BarkerSequence(L)
    s = np.asarray(seq.polar_sequence)
    run.check(s.shape == (L,) and set(s.tolist()) <= {1, -1} and seq.length == L, "sequence", lambda: f"{what}: {show(s)}")
    run.check(np.array_equal(s, 1 - 2 * np.asarray(seq.bit_sequence)), "sequence", lambda: f"{what}: bits and polar disagree")
    side = [abs(ref_auto(s.tolist(), v)) for v in range(1, L)]
    run.check(max(side) <= 1, "sidelobes", lambda: f"{what}: sidelobes {side}")
    at = p["at"]
    if any(b - a < 2 * L for a, b in zip(at, at[1:])) or any(i >= len(at) or k >= L for i, k in p["flips"]) or \
            any(4 * sum(x[0] == i for x in p["flips"]) >= L - 1 for i in range(len(at))) and p["flips"]:
        raise Invalid("damage")
    air = np.zeros(max(p["len"], max(at, default=0) + L) + L, dtype=int)
    for a in at:
        air[a:a + L] += s
    for i, k in p["flips"]:
        air[at[i] + k] *= -1
    run.fault("flip", len(p["flips"]))
    run.fault("late-join", len(at))
    run.now += air.size
    level = np.correlate(air, s, mode="valid")
    bar = L - 2 * max((sum(x[0] == i for x in p["flips"]) for i in range(len(at))), default=0)
    found = [int(i) for i in np.flatnonzero(level >= bar)]
    run.check(found == at, "preamble", lambda: f"{what}: preambles at {at} with flips {p['flips']} found at {found}")
    run.reach(f"barker:{L}|{p['flips'][:3]}|{len(at)}")
    correlate(p["asks"], queries(seq), s.tolist(), run, what)


def run_custom(p, run):
    import komm

    form = p["form"]
    what = f"custom {form} sequence of length {len(p['x'])}"
    if not p["x"]:
        raise Invalid("empty")
    ints = [a for a, _ in p["x"]]
    run.fault("narrow-type", int(form in ("int8", "uint8", "bool", "int16")))

    def make(x):
        ints = [a for a, _ in x]
        if form in ("bits", "polar"):
            run.real.add("komm.BinarySequence")
            if form == "bits":
                b = komm.BinarySequence(bit_sequence=[int(v < 0) for v in ints])
            else:
                b = komm.BinarySequence(polar_sequence=[-1 if v < 0 else 1 for v in ints])
            check_bits(b, [int(v < 0) for v in ints], run, what)
            return queries(b), [-1 if v < 0 else 1 for v in ints]
        if form == "complex":
            run.real.add("komm.ComplexSequence")
            c = komm.ComplexSequence([complex(a, b) / 4 for a, b in x])
            run.check(c.length == len(x), "sequence", f"{what}: length {c.length}")
            return queries(c), [complex(a, b) / 4 for a, b in x]
        run.real.update({"komm.autocorrelation", "komm.cyclic_autocorrelation"})
        if form == "real":
            v, arg = [a / 8 for a in ints], np.array([a / 8 for a in ints])
        elif form == "list":
            v = arg = list(ints)
        elif form == "bool":
            v, arg = [int(a < 0) for a in ints], np.array([a < 0 for a in ints])
        elif form == "uint8":
            v, arg = [a + 100 for a in ints], np.array([a + 100 for a in ints], dtype=np.uint8)
        elif form == "float32":
            v, arg = [float(a) for a in ints], np.array(ints, dtype=np.float32)
        else:
            v, arg = list(ints), np.array(ints, dtype=form)

        def ask(cyclic, shifts, normalized):
            before = snapshot(arg)
            out = (komm.cyclic_autocorrelation if cyclic else komm.autocorrelation)(arg, shifts, normalized)
            run.check(snapshot(arg) == before, "input-modified", f"{what}: the sequence was modified")
            return out

        return ask, v

    asks = p["asks"]
    if form == "float32":
        asks = [a for a in asks if not a[1]]  # single precision: exact only while the values are integers
        if sum(a * a for a in ints) >= 2**24:
            asks = []
    ask, v = make(p["x"])
    run.now += len(v)
    run.reach(f"custom:{form}|{len(v)}")
    if p["twin"]:  # a second sequence asked in between
        other, w = make([[b * 7, a // 12] for a, b in p["x"]][::-1])
        half = len(asks) // 2
        correlate(asks[:half], ask, v, run, what)
        if form != "float32":
            correlate(asks[:2], other, w, run, what + " (twin)")
        correlate(asks[half:], ask, v, run, what)
    else:
        correlate(asks, ask, v, run, what)
