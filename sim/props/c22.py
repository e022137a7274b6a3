"""C22: what a Markov chain reports about itself is what its histories can do, and do on average."""

from fractions import Fraction
from math import gcd

import numpy as np

from .. import bitgen
from ..core import Invalid

RUNS = {"quick": 20000, "thorough": 150000}
TIME_UNIT = "steps"
RULE = ("A random Markov chain with integer weights (periodic, absorbing, reducible with several classes, of extreme "
        "index of primitivity, with rare exits, slow to mix; up to 24 states, shuffled).  The simulator owns the random "
        "bits and steers histories: back to a state as early as possible, round it for a long time, out of its class "
        "if that can be done, from state to state in a chosen number of steps, away from absorption; cut and resumed. "
        "Between the histories the chain is asked for its structure and its averages, in any order, answers being "
        "scribbled on.  Oracle: own graph search, and exact rational linear algebra on the weights.")
STUBS = ["bit generator: every word scripted (steered histories)"]
ASSUMPTIONS = ["averages: relative 1e-7, plus 1e-14 times the square of the longest mean stay", "a state never revisited has no period"]
PROBES = ["steered", "early-return", "late-return", "escape", "exact-length", "avoid-absorption", "cut", "scribbled",
          "rare-exit", "periodic", "extreme-primitivity", "refused", "reducible", "certain-step"]
SHRINK = ["asks", "tours"]
QUERIES = ["accessible", "classes", "irreducible", "stationary", "transient", "recurrent", "regular", "primitivity",
           "absorbing_states", "absorbing", "visits", "time", "absorption", "period", "aperiodic"]


# ---------------------------------------------------------------- chains

def gen_chain(rng):
    kind = rng.choice(["any", "any", "absorbing", "absorbing", "irreducible", "irreducible", "slow", "slow", "periodic",
                       "periodic", "classes", "wielandt", "ring"])
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8]) if rng.random() < 0.95 else rng.randint(9, 24)
    W = [[0] * n for _ in range(n)]

    def w():
        return rng.choice([1, 1, 2, 3, 5, 1 + rng.randrange(50)])

    def ring(states):
        for a, b in zip(states, states[1:] + states[:1]):
            W[a][b] = w()

    dens = rng.choice([0.1, 0.2, 0.4, 0.7])
    if kind in ("any", "absorbing"):
        W = [[w() if rng.random() < dens else 0 for _ in range(n)] for _ in range(n)]
        if kind == "absorbing":
            for i in range(rng.randint(1, max(1, n // 2))):
                W[i] = [int(j == i) for j in range(n)]
    elif kind == "irreducible":
        W = [[w() if rng.random() < dens else 0 for _ in range(n)] for _ in range(n)]
        ring(list(range(n)))
    elif kind == "periodic":
        d = rng.randint(1, n)
        W = [[w() if j % d == (i + 1) % d and rng.random() < dens else 0 for j in range(n)] for i in range(n)]
        ring(list(range(n - n % d)))
        for i in range(n - n % d, n):  # the rest hang on
            W[i][(i + 1) % d] = w()
            if rng.random() < 0.5:
                W[(i - 1) % d][i] = w()
    elif kind == "classes":
        k = rng.randint(1, n)
        part = [rng.randrange(k) for _ in range(n)]
        for c in range(k):
            m = [i for i in range(n) if part[i] == c]
            if m and rng.random() < 0.85:
                ring(m)
        for i in range(n):
            for j in range(n):
                if part[i] < part[j] and rng.random() < dens * 0.6 or part[i] == part[j] and rng.random() < 0.15:
                    W[i][j] = w()
    elif kind == "wielandt":  # two cycles of nearly the same length
        n = max(2, n)
        W = [[0] * n for _ in range(n)]
        ring(list(range(n)))
        W[n - 1 - rng.choice([0, 0, 0, 1 % n])][rng.choice([1, 1, 1, 1, 2]) % n] = w()
    elif kind == "ring":
        ring(list(range(n)))
    elif kind == "slow":  # groups that are hardly ever left
        k = rng.randint(1, n)
        big = rng.choice([20, 100, 10**3, 10**4, 10**5])
        part = [rng.randrange(k) for _ in range(n)]
        for c in range(k):
            m = [i for i in range(n) if part[i] == c]
            if m:
                ring(m)
            for i in m:
                W[i] = [x * big for x in W[i]]
        order = list(range(n))
        rng.shuffle(order)
        for a, b in zip(order, order[1:] + order[:1] * rng.randrange(2)):
            W[a][b] += 1
        if rng.random() < 0.4:
            W[order[-1]] = [int(j == order[-1]) for j in range(n)]
    for i in range(n):
        if not any(W[i]):
            W[i][i if kind == "absorbing" and rng.random() < 0.3 else rng.randrange(n)] = 1
    perm = list(range(n))
    rng.shuffle(perm)
    return [[W[a][b] for b in perm] for a in perm]


def generate(rng, tier):
    n = len(W := gen_chain(rng))
    tours = [{"kind": rng.choice(["early", "late", "escape", "exact", "avoid", "random", "absorb"]), "s": rng.randrange(n),
              "t": rng.randrange(n), "len": rng.choice([0, 1, 2, 5, 20, 20, 60, rng.randrange(200)]), "extra": rng.randrange(4),
              "seed": rng.getrandbits(32), "cuts": sorted(rng.random() for _ in range(rng.choice([0, 0, 1, 3]))),
              "np": rng.random() < 0.3} for _ in range(rng.randint(1, 5))]
    asks = [{"q": rng.choice(QUERIES), "s": rng.randrange(n), "scribble": rng.random() < 0.25, "np": rng.random() < 0.2,
             "at": rng.randrange(len(tours) + 1)} for _ in range(rng.randint(4, 18))]
    return {"W": W, "tours": tours, "asks": asks, "form": rng.choice(["list", "array", "fortran", "view", "tuple"])}


# ---------------------------------------------------------------- oracle

class Truth:
    def __init__(self, W):
        self.W, self.n = W, len(W)
        n = self.n
        self.P = [[Fraction(x, sum(r)) for x in r] for r in W]
        self.nb = [[j for j in range(n) if r[j]] for r in W]
        self.mask = [sum(1 << j for j in nb) for nb in self.nb]
        reach = [1 << i | m for i, m in enumerate(self.mask)]
        for k in range(n):
            for i in range(n):
                if reach[i] >> k & 1:
                    reach[i] |= reach[k]
        self.acc = [{j for j in range(n) if r >> j & 1} for r in reach]
        self.cls = [{j for j in self.acc[i] if i in self.acc[j]} for i in range(n)]
        self.transient = {i for i in range(n) if self.acc[i] != self.cls[i]}
        self.absorbing = {i for i in range(n) if self.nb[i] == [i]}
        self.is_absorbing = bool(self.absorbing) and all(self.absorbing & a for a in self.acc)
        self.period = [self._period(i) for i in range(n)]
        self.irreducible = len(self.cls[0]) == n
        self.primitivity = self._primitivity()

    def step(self, m):
        out = 0
        for i in range(self.n):
            if m >> i & 1:
                out |= self.mask[i]
        return out

    def _period(self, s):
        m, g = 1 << s, 0
        for t in range(1, 3 * self.n + 1):
            m = self.step(m)
            if m >> s & 1:
                g = gcd(g, t)
        return g

    def _primitivity(self):
        """Least number of steps that leads from everywhere to everywhere (None: there is none)."""
        full = (1 << self.n) - 1
        rows = list(self.mask)
        for t in range(1, (self.n - 1) ** 2 + 3):
            if all(r == full for r in rows):
                return t
            rows = [self.step(r) for r in rows]
        return None

    def stationary(self):
        n = self.n
        A = [[self.P[j][i] - (i == j) for j in range(n)] for i in range(n - 1)] + [[Fraction(1)] * n]
        return [r[0] for r in solve(A, [[Fraction(i == n - 1)] for i in range(n)])]

    def absorption(self):
        tr = sorted(self.transient)
        ab = sorted(self.absorbing)
        A = [[(i == j) - self.P[i][j] for j in tr] for i in tr]
        N = solve(A, [[Fraction(i == j) for j in tr] for i in tr])
        t = [sum(r, Fraction(0)) for r in N]
        B = [[sum((N[a][b] * self.P[j][c] for b, j in enumerate(tr)), Fraction(0)) for c in ab] for a in range(len(tr))]
        return N, t, B

    def walk(self, rng, s, target, length):
        """A possible walk of exactly `length` steps from s ending in `target` (any state: None), or None."""
        back = [(1 << self.n) - 1 if target is None else 1 << target]
        for _ in range(length):
            back.append(sum(1 << i for i in range(self.n) if self.mask[i] & back[-1]))
        if not back[length] >> s & 1:
            return None
        path = [s]
        for left in range(length - 1, -1, -1):
            path.append(rng.choice([j for j in self.nb[path[-1]] if back[left] >> j & 1]))
        return path


def solve(A, B):
    n = len(A)
    M = [list(a) + list(b) for a, b in zip(A, B)]
    for c in range(n):
        p = next(i for i in range(c, n) if M[i][c])
        M[c], M[p] = M[p], M[c]
        inv = 1 / M[c][c]
        M[c] = [x * inv if x else x for x in M[c]]
        for i in range(n):
            f = M[i][c]
            if i != c and f:
                M[i] = [x - f * y if y else x for x, y in zip(M[i], M[c])]
    return [r[n:] for r in M]


# ---------------------------------------------------------------- run

def execute(p, run):
    import random

    import komm

    W = p["W"]
    n = len(W)
    if any(not any(r) for r in W):
        raise Invalid("empty row")
    T = Truth(W)
    P = [[x / sum(r) for x in r] for r in W]
    M = {"list": lambda: P, "tuple": lambda: tuple(map(tuple, P)), "array": lambda: np.array(P),
         "fortran": lambda: np.asfortranarray(np.array(P)),
         "view": lambda: np.array([[v for x in r for v in (x, -1.0)] for r in P])[:, ::2]}[p["form"]]()
    gen, bits = bitgen.generator([], 0)
    chain = komm.MarkovChain(M, rng=gen)
    run.real.add("komm.MarkovChain")
    run.fault("periodic", int(any(d > 1 for d in T.period)))
    run.fault("reducible", int(not T.irreducible))
    run.fault("rare-exit", int(max(map(max, W)) >= 1000))
    run.fault("extreme-primitivity", int((T.primitivity or 0) > 2 * n))

    def same(got, want, what, scale=1.0):
        got = np.asarray(got, dtype=float)
        want = np.array([[float(x) for x in r] if isinstance(r, list) else float(r) for r in want])
        if want.size == 0:
            run.check(got.size == 0, what, lambda: f"{chain!r}: {what} {got.tolist()}")
            return
        run.check(got.shape == want.shape and bool(np.allclose(got, want, rtol=1e-7, atol=1e-9 + 1e-14 * scale)), what,
                  lambda: f"{chain!r}: {what} {got.tolist()}, but the average over all histories is {want.tolist()}")

    def ask(a):
        q, s = a["q"], np.int64(a["s"]) if a["np"] else a["s"]
        ans = None
        try:
            if q == "accessible":
                ans = chain.accessible_states_from(s)
                run.check(ans == T.acc[s], "accessible", lambda: f"{chain!r}: from {s} reaches {ans}, not {T.acc[s]}")
            elif q == "classes":
                ans = chain.communicating_classes()
                want = {frozenset(c) for c in T.cls}
                run.check(len(ans) == len(want) and {frozenset(c) for c in ans} == want, "classes",
                          lambda: f"{chain!r}: classes {ans}, not {want}")
            elif q in ("irreducible", "regular", "absorbing"):
                got = getattr(chain, "is_" + q)()
                want = {"irreducible": T.irreducible, "regular": T.primitivity is not None, "absorbing": T.is_absorbing}[q]
                run.check(bool(got) == want, q, lambda: f"{chain!r}: is_{q}() is {got}")
            elif q == "aperiodic":
                if 0 not in T.period:
                    got = chain.is_aperiodic()
                    run.check(bool(got) == all(d == 1 for d in T.period), q, lambda: f"{chain!r}: {got}, {T.period}")
            elif q in ("transient", "recurrent"):
                ans = getattr(chain, q + "_states")()
                want = T.transient if q == "transient" else set(range(n)) - T.transient
                run.check(ans == want, q, lambda: f"{chain!r}: {q} states {ans}, not {want}")
            elif q == "absorbing_states":
                ans = chain.absorbing_states()
                run.check(ans == T.absorbing, q, lambda: f"{chain!r}: absorbing states {ans}, not {T.absorbing}")
            elif q == "period":
                got = chain.period(s)
                run.check(T.period[s] == 0 or got == T.period[s], q,
                          lambda: f"{chain!r}: period of {s} is {got}, but it is revisited at multiples of {T.period[s]}")
            elif q == "primitivity":
                try:
                    got = chain.index_of_primitivity()
                except ValueError:
                    got = None
                    run.fault("refused")
                run.check(got == T.primitivity, q, lambda: f"{chain!r}: index of primitivity {got}, not {T.primitivity}")
            elif q == "stationary":
                try:
                    got = chain.stationary_distribution()
                except NotImplementedError:
                    run.check(not T.irreducible, q, lambda: f"{chain!r}: stationary distribution refused")
                    run.fault("refused")
                    return
                if T.irreducible:
                    same(got, T.stationary(), q, max(map(sum, W)))
                else:  # any answer must be stationary
                    pi = np.asarray(got, dtype=float)
                    run.check(bool(np.allclose(pi @ np.array(P), pi, atol=1e-9) and abs(pi.sum() - 1) < 1e-9), q,
                              lambda: f"{chain!r}: {pi} is not stationary")
            else:
                f = {"visits": chain.mean_number_of_visits, "time": chain.mean_time_to_absorption,
                     "absorption": chain.absorption_probabilities}[q]
                try:
                    got = f()
                except ValueError:
                    run.check(not T.is_absorbing, q, lambda: f"{chain!r} is absorbing, but {q} is refused")
                    run.fault("refused")
                    return
                run.check(T.is_absorbing, q, lambda: f"{chain!r} is not absorbing, but {q} is {got}")
                N, t, B = T.absorption()
                most = float(max(t or [0]))  # inverting loses this factor (and the entries are as large)
                same(got, {"visits": N, "time": t, "absorption": B}[q], q, most if q == "absorption" else most**2)
        finally:
            if a["scribble"] and isinstance(ans, (set, list)):
                run.fault("scribbled")
                for c in ans if isinstance(ans, list) else []:
                    c.add(77)
                ans.clear()

    def words(path):
        out = []
        for a, b in zip(path, path[1:]):
            lo = sum(T.P[a][:b], Fraction(0))
            out.append(int((lo + T.P[a][b] / 2) * 2**64))
        return out

    def tour(c):
        rng = random.Random(c["seed"])
        s, t, kind, path = c["s"], c["t"], c["kind"], None
        if kind == "early":  # back as early as possible, again and again
            path = [s]
            for _ in range(3):
                k = next((k for k in range(1, 3 * n + 1) if T.walk(rng, s, s, k)), None)
                path += T.walk(rng, s, s, k)[1:] if k else []
            run.fault("early-return", int(len(path) > 1))
        elif kind == "late":
            for k in range(c["len"], c["len"] + n + 1):
                path = path or T.walk(rng, s, s, k)
            run.fault("late-return", int(path is not None))
        elif kind == "escape":  # out of the class, if that can be done
            out = sorted(T.acc[s] - T.cls[s])
            if out:
                t = out[t % len(out)]
                path = next(w for k in range(1, n + 1) if (w := T.walk(rng, s, t, k)))
                run.fault("escape")
        elif kind == "exact" and T.primitivity:
            path = T.walk(rng, s, t, T.primitivity + c["extra"])
            run.fault("exact-length")
        elif kind in ("avoid", "absorb"):  # stay away from the absorbing states, then step into one
            free, path = set(range(n)) - T.absorbing, [s]
            while len(path) <= c["len"] and (nx := [j for j in T.nb[path[-1]] if j in free]):
                path.append(rng.choice(nx))
            run.fault("avoid-absorption", int(bool(T.absorbing)))
        path = path or T.walk(rng, s, None, c["len"])
        bits.script, bits.pos, bits.rng = words(path), 0, random.Random(c["seed"] + 1)
        start = np.int64(s) if c["np"] else s
        if kind == "absorb":
            if T.is_absorbing and max(T.absorption()[1] or [0]) < 300:
                got = np.asarray(chain.simulate_until_absorption(start)).tolist()
                history(got, s, path)
                ends = [x in T.absorbing for x in got]
                run.check(ends[-1] and not any(ends[:-1]), "first-absorption", lambda: f"{chain!r} from {s}: {got}")
                return
            elif not T.is_absorbing:
                try:
                    got = chain.simulate_until_absorption(start)
                except ValueError:
                    run.fault("refused")
                else:
                    run.check(False, "not-refused", lambda: f"{chain!r}: absorbed after {got}")
                return
        cuts = [0, *sorted({int(f * len(path)) for f in c["cuts"]}), len(path) - 1]
        got = [s]
        for i, j in zip(cuts, cuts[1:]):
            if j == i:
                continue
            run.fault("cut", int(i > 0))
            bits.pos = len(got) - 1
            piece = np.asarray(chain.simulate(got[-1] if not c["np"] else np.int64(got[-1]), j - i + 1)).tolist()
            run.check(len(piece) == j - i + 1 and piece[0] == got[-1], "piece",
                      lambda: f"{chain!r}.simulate({got[-1]}, {j - i + 1}) = {piece}")
            got += piece[1:]
        history(got, s, path)

    def history(got, s, path):
        run.now += len(got)
        run.log(got)
        run.check(got[0] == s and all(0 <= b < n and W[a][b] for a, b in zip(got, got[1:])), "impossible",
                  lambda: f"{chain!r}: impossible history {got} from {s}")
        run.fault("steered", int(len(path) > 1 and got[:len(path)] == path))
        run.fault("certain-step", sum(len(T.nb[a]) == 1 for a in got[:-1]))
        # the chain's own words about such a history
        seen = {}
        done = set(got)
        mine = chain.accessible_states_from(s)
        run.check(done <= mine, "left-accessible", lambda: f"{chain!r}: history {got} visits {done - mine}, "
                                                          f"reported out of reach of {s}")
        rec, absorbing = chain.recurrent_states(), chain.absorbing_states()
        classes = {x: c for c in chain.communicating_classes() for x in c}
        for k, x in enumerate(got):
            if x in seen:
                d = chain.period(x)
                run.check(d and (k - seen[x]) % d == 0, "period-broken",
                          lambda: f"{chain!r}: {x} has period {d}, yet is visited at steps {seen[x]} and {k} of {got}")
            else:
                seen[x] = k
            if k and got[k - 1] in absorbing:
                run.check(x == got[k - 1], "absorbing-left", lambda: f"{chain!r}: leaves {got[k - 1]} in {got}")
            if k and got[k - 1] in rec:
                run.check(x in classes[got[k - 1]], "recurrent-left",
                          lambda: f"{chain!r}: leaves the class of recurrent {got[k - 1]} in {got}")
        first = {}
        for k, x in enumerate(got):
            if x in first and k - first[x] > 1:
                run.check(all(y in classes[x] for y in got[first[x]:k]), "class-split",
                          lambda: f"{chain!r}: {got[first[x]:k + 1]} returns to {x}, classes {chain.communicating_classes()}")
            first[x] = k
        run.reach(f"history:{n}|{len(seen)}|{len(got).bit_length()}|{len(classes[s])}|{T.period[s]}")

    for k, c in enumerate(p["tours"]):
        for a in p["asks"]:
            if a["at"] == k:
                ask(a)
        tour(c)
    for a in p["asks"]:
        if a["at"] >= len(p["tours"]):
            ask(a)
    run.log(T.primitivity, T.period, len(T.transient))
    run.reach(f"chain:{n}|{len({frozenset(c) for c in T.cls})}|{max(T.period)}|{T.primitivity}|{len(T.absorbing)}")
