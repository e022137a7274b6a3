"""C20: a block code's reported weights, distances and radii are exactly the damage it withstands."""

from math import comb

import numpy as np

from .. import codes, gf2
from ..core import Invalid
from ..util import show

RUNS = {"quick": 16000, "thorough": 150000}
TIME_UNIT = "bit periods"
RULE = ("A random code of any of the 15 families (at most 2^12 codewords), asked for its reported limits in random order "
        "(twins included) between frames that an adversary damages: with a codeword (unnoticed), one flip less, a deepest "
        "hole, half a least-weight codeword, a reported coset leader, or random flips.  Oracle: the span of the encoded "
        "unit messages, own parity checks, own breadth-first search over all syndromes.")
STUBS = ["channel: an adversary with explicit flip lists"]
ASSUMPTIONS = ["coset questions for redundancy at most 12, weights for at most 2^12 codewords"]
PROBES = ["unnoticed", "codeword", "near-codeword", "hole", "half", "leader", "random", "non-leader", "twin", "beyond-packing"]
SHRINK = ["ops"]

QUESTIONS = ["codewords", "weights", "distance", "leaders", "leader-weights", "packing", "covering", "params", "slepian"]


def generate(rng, tier):
    if rng.random() < 0.03:  # beyond enumeration, with limits known in closed form
        return {"closed": rng.choice(["Repetition", "SingleParityCheck"]), "n": rng.randint(14, 66),
                "ops": [[rng.choice(["weights", "distance", "packing", "covering", "leader-weights", "hit", "hit"]),
                         rng.random() < 0.15, [rng.random() for _ in range(rng.choice([1, 5, 33]))]]
                        for _ in range(rng.randint(2, 7))], "form": rng.choice(codes.INT_FORMS)}
    while True:
        s = codes.gen_code(rng, None, max_k=rng.choice([4, 8, 11]))
        n, k, _ = codes.info(s)
        if 1 <= k <= 12 and n <= 62:
            break
    ops = []
    for _ in range(rng.randint(2, 9)):
        if rng.random() < 0.55:
            ops.append(["ask", rng.choice(QUESTIONS), rng.random() < 0.15])
        else:
            kind = rng.choice(["codeword", "near-codeword", "hole", "half", "leader", "random", "random"])
            ops.append(["hit", kind, codes.gen_message(rng, k), [rng.random() for _ in range(6)],
                        rng.choice(["table", "table", "search", "check"])])
    return {"code": s, "ops": ops, "form": rng.choice(codes.INT_FORMS)}


def execute_closed(p, run):
    import komm

    n, rep = p["n"], p["closed"] == "Repetition"
    make = komm.RepetitionCode if rep else komm.SingleParityCheckCode
    code, twin = make(n), make(n)
    run.real.add("komm." + make.__name__)
    d = n if rep else 2
    for q, other, fs in p["ops"]:
        c = twin if other else code
        run.fault("twin", int(other))
        if q == "weights":
            want = [int(w in (0, n)) if rep else comb(n, w) * (w % 2 == 0) for w in range(n + 1)]
            got = np.asarray(c.codeword_weight_distribution()).tolist()
        elif q == "leader-weights":
            want = [comb(n, w) // (1 + (2 * w == n)) * (2 * w <= n) if rep else int(w < 2) for w in range(n + 1)]
            got = np.asarray(c.coset_leader_weight_distribution()).tolist()
        elif q == "hit":
            flips = sorted({int(f * n) for f in fs})
            sent = np.ones(n, dtype=int) if rep and fs[0] < 0.5 else np.zeros(n, dtype=int)
            v = sent.copy()
            v[flips] ^= 1
            run.fault("random")
            run.fault("beyond-packing", int(len(flips) > (d - 1) // 2))
            got = bool(np.asarray(c.check(codes.form_array(v.tolist(), p["form"]))).any())
            want = 0 < len(flips) < n if rep else len(flips) % 2 == 1
            run.now += n
        else:
            want = {"distance": d, "packing": (d - 1) // 2, "covering": n // 2 if rep else 1}[q]
            got = int({"distance": c.minimum_distance, "packing": c.packing_radius, "covering": c.covering_radius}[q]())
        run.check(got == want, q, lambda: f"{c!r} {q}: {show(got)}, should be {show(want)}")
        run.log(q, got)
    run.reach(f"closed:{p['closed']}|{n}")


def execute(p, run):
    import komm

    if "closed" in p:
        return execute_closed(p, run)
    s = p["code"]
    n, k, _ = codes.info(s)
    m = n - k
    code, twin = codes.build(s), codes.build(s)
    run.real.add("komm." + type(code).__name__)
    gen = codes.blocks_of(code.encode(np.eye(k, dtype=int)), k, n)
    run.check(gen is not None, "encode-shape", lambda: f"{code!r}: wrong codeword length")
    rows = [sum(int(b) << j for j, b in enumerate(r)) for r in gen]
    book = np.array(gf2.span(rows), dtype=np.int64)  # in message order
    weights = np.bitwise_count(book).astype(int)
    run.check(int((book == 0).sum()) == 1, "not-injective", lambda: f"{code!r}: two messages share a codeword")
    d = int(np.sort(weights)[1])
    known = set(book.tolist())
    basis = gf2.null_space(rows, n)
    coset = {}

    def syndrome(e):
        return sum(((b & e).bit_count() & 1) << i for i, b in enumerate(basis))

    def cosets():
        """Least weight of an error for every (own) syndrome, and one such error."""
        if not coset:
            cols = np.array([syndrome(1 << j) for j in range(n)])
            lw, who = np.full(2**m, -1), np.zeros(2**m, dtype=np.int64)
            lw[0], level, w = 0, np.array([0]), 0
            while len(level):
                w += 1
                nxt = []
                for j in range(n):
                    t = level ^ cols[j]
                    new = np.unique(t[lw[t] < 0])
                    lw[new] = w
                    who[new] = who[new ^ cols[j]] | (1 << j)
                    nxt.append(new)
                level = np.concatenate(nxt)
            coset.update(lw=lw, who=who)
        return coset["lw"], coset["who"]

    def leaders_of(c):
        return codes.blocks_of(c.coset_leaders(), 2**m, n)

    def ask(q, c):
        if m > 12 and q in ("leaders", "leader-weights", "covering", "slepian"):
            return
        what = lambda: f"{c!r} {q}"
        if q == "codewords":
            got = np.asarray(c.codewords())
            ok = got.shape == (2**k, n) and np.isin(got, (0, 1)).all() and \
                ((got.astype(np.int64) << np.arange(n)).sum(axis=1) == book).all()
            run.check(ok, "codewords", lambda: f"{what()}: {show(got)} are not the encoded messages in order")
        elif q == "weights":
            got = np.asarray(c.codeword_weight_distribution()).tolist()
            want = np.bincount(weights, minlength=n + 1).tolist()
            run.check(got == want, "weights", lambda: f"{what()}: {got}, unnoticed error patterns by weight are {want}")
        elif q == "distance":
            got = c.minimum_distance()
            run.check(got == d, "distance", lambda: f"{what()}: {got}, but {d} flips go unnoticed and no fewer do")
        elif q == "packing":
            got = c.packing_radius()
            run.check(got == (d - 1) // 2, "packing", lambda: f"{what()}: {got}, distance {d}")
        elif q == "leaders":
            lw, _ = cosets()
            got = leaders_of(c)
            run.check(got is not None and np.isin(got, (0, 1)).all(), "leaders-shape", what)
            e = [sum(int(b) << j for j, b in enumerate(r)) for r in got]
            synd = np.array([syndrome(x) for x in e])
            run.check(len(set(synd.tolist())) == 2**m, "leaders-repeat", lambda: f"{what()}: two in one coset")
            bad = np.flatnonzero(np.bitwise_count(np.array(e, dtype=np.int64)) != lw[synd])
            run.check(not len(bad), "leader-not-least", lambda: f"{what()}: {got[bad[0]]} where weight {lw[synd[bad[0]]]} "
                      "would do" if len(bad) else "")
            sy = codes.blocks_of(c.check(got), 2**m, m) if m else None
            if m:
                index = (sy.astype(np.int64) << np.arange(m)).sum(axis=1)
                run.check((index == np.arange(2**m)).all(), "leaders-order", lambda: f"{what()}: syndromes {show(index)}")
        elif q in ("leader-weights", "covering"):
            lw, _ = cosets()
            want = np.bincount(lw, minlength=n + 1).tolist() if q == "leader-weights" else int(lw.max())
            got = c.coset_leader_weight_distribution() if q == "leader-weights" else c.covering_radius()
            got = np.asarray(got).tolist()
            run.check(got == want, q, lambda: f"{what()}: {got}, search over all syndromes gives {want}")
        elif q == "params":
            got = (c.length, c.dimension, c.redundancy, round(float(c.rate), 12))
            run.check(got == (n, k, m, round(k / n, 12)), "params", lambda: f"{what()}: {got}, should be {(n, k, m)}")
            G, H = np.asarray(c.generator_matrix), np.asarray(c.check_matrix)
            run.check(G.shape == (k, n) and (G % 2 == gen).all(), "generator", lambda: f"{what()}: {show(G)}")
            run.check(H.shape == (m, n) and not (G @ H.T % 2).any() and (m == 0 or gf2.rank(
                [gf2.row_int(r) for r in H.tolist()]) == m), "check-matrix", lambda: f"{what()}: {show(H)}")
            try:
                R = np.asarray(c.generator_matrix_right_inverse)
            except NotImplementedError:  # non-systematic cyclic codes do not offer it
                return
            run.check((G @ R % 2 == np.eye(k)).all(), "right-inverse", lambda: f"{what()}: {show(R)}")
        elif q == "slepian" and m + k <= 12:
            arr = komm.SlepianArray(c)
            run.real.add("SlepianArray")
            L = leaders_of(c)
            i, j = (7 * n + k) % 2**m, (5 * n + m) % 2**k
            want = (L[i] + np.array([book[j] >> t & 1 for t in range(n)])) % 2
            run.check((np.asarray(arr.entry(i, j)) == want).all(), "slepian", lambda: f"{what()}: entry {i},{j}")
            col, row = np.asarray(arr.col(j)), np.asarray(arr.row(i))
            run.check(col.shape == (2**m, n) and row.shape == (2**k, n) and (col[i] == want).all()
                      and (row[j] == want).all() and (col == (L + col[0]) % 2).all() and
                      (row[0] == L[i]).all(), "slepian", lambda: f"{what()}: row {i}, column {j}")

    def hit(kind, msg, fs, receiver):
        if len(msg) != k:
            raise Invalid("message")
        pick = lambda seq, f: seq[int(f * len(seq))]
        if kind in ("hole", "leader") and m > 12:
            kind = "random"
        if kind in ("codeword", "near-codeword", "half"):
            of = np.flatnonzero(weights == (d if fs[0] < 0.7 or kind == "half" else pick(weights[1:], fs[1])))
            e = int(book[pick(of, fs[2])])
            on = [j for j in range(n) if e >> j & 1]
            if kind == "near-codeword" and on:
                e ^= 1 << pick(on, fs[3])
            if kind == "half":
                for f in fs[3:]:
                    if len(on) > (d - 1) // 2 + 1:
                        on.pop(int(f * len(on)))
                while len(on) > (d - 1) // 2 + 1:
                    on.pop(len(on) // 2)
                e = sum(1 << j for j in on)
        elif kind == "hole":
            lw, who = cosets()
            e = int(who[pick(np.flatnonzero(lw == lw.max()), fs[0])])
        elif kind == "leader":
            e = sum(int(b) << j for j, b in enumerate(pick(leaders_of(code), fs[0])))
        else:
            e = sum({1 << int(f * n) for f in fs[:1 + int(fs[-1] * 5)]})
        run.fault(kind)
        run.fault("unnoticed", int(e in known))
        run.fault("beyond-packing", int(e.bit_count() > (d - 1) // 2))
        v = (np.array(msg) @ gen + np.array([e >> j & 1 for j in range(n)])) % 2
        x = codes.form_array(v.tolist(), p["form"])
        run.now += n
        noticed = bool(np.asarray(code.check(x)).any())
        run.check(noticed == (e not in known), "notice",
                  lambda: f"{code!r}: error {e:b} {'noticed' if noticed else 'unnoticed'}")
        if m > 12 or receiver == "check" or (receiver == "search" and k > 8):
            return
        lw, _ = cosets()
        least = int(lw[syndrome(e)])
        if least <= (d - 1) // 2 < e.bit_count() or e.bit_count() > least:
            run.fault("non-leader")
        cls = komm.SyndromeTableDecoder if receiver == "table" else komm.ExhaustiveSearchDecoder
        run.real.add(cls.__name__)
        out = np.asarray(cls(code).decode(x)).astype(int).ravel()
        run.check(out.shape == (k,), "decode-shape", lambda: f"{code!r}: {out}")
        far = int(((out @ gen + v) % 2).sum())
        run.check(far == least, "decode-distance", lambda: f"{code!r}: {cls.__name__} of {v.tolist()} gives {out.tolist()} "
                  f"at distance {far}; the nearest is at {least}")
        if receiver == "table":
            L = {sum(int(b) << j for j, b in enumerate(r)) for r in leaders_of(code)}
            good = out.tolist() == list(msg)
            run.check(good == (e in L), "leaders-corrected", lambda: f"{code!r}: error {e:b} is "
                      f"{'' if e in L else 'not '}a coset leader, yet the message is {'' if good else 'not '}recovered")
        run.log(out.tolist())

    for op in p["ops"]:
        if op[0] == "ask":
            run.fault("twin", int(op[2]))
            ask(op[1], twin if op[2] else code)
        else:
            hit(*op[1:])
    run.log(weights.tolist(), d)
    run.reach(f"{s['cls']}:{codes.label(s)}|{n}|{k}|{d}")
