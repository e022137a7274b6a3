"""C21: the archive a source code writes has exactly the promised size, and reads back the only way it can be read."""

from collections import Counter
from fractions import Fraction
from heapq import heapify, heappop, heappush, heapreplace
from itertools import product
from math import fsum, log2, prod

import numpy as np
import komm

from .. import codes
from ..core import Invalid
from ..util import show

RUNS = {"quick": 20000, "thorough": 200000}
TIME_UNIT = "source symbols"
RULE = ("A source code (given word by word, by lengths, or designed by Huffman, Shannon, Fano or Tunstall for a source "
        "of rational statistics) writes records to a simulated store in random segments; the store is cut off at "
        "random points, and an adversary who knows the words looks for a stream that reads in two ways, a source "
        "that no word begins, or a better code.  Oracle: own search over dangling suffixes, own parser that counts "
        "readings, exact integer Huffman and Tunstall constructions, exact rational rates.")
STUBS = ["store: in-memory, cut at an explicit position", "segmentation: seeded schedule"]
ASSUMPTIONS = ["nonempty words", "Shannon lengths are not judged within 1e-9 of a power of two"]
PROBES = ["cut-at-boundary", "cut-inside-word", "ambiguous", "uncovered", "refused", "segment", "worst-case-mix",
          "unsorted-words", "zero-weight", "overfull-lengths", "tie"]
SHRINK = ["message", "cuts", "asks", "segments"]


def gen_words(rng, q, m, style):
    """m nonempty words over q letters: any, prefix-free, suffix-free (uniquely readable but not at once) or dotted."""
    words = set()
    if style in ("tree", "reversed", "almost"):
        words, leaves = set(), [()]
        while len(leaves) < m:
            w = leaves.pop(rng.randrange(len(leaves)))
            leaves += [w + (x,) for x in range(q)]
        rng.shuffle(leaves)
        out = leaves[:m]
        if style == "reversed":
            out = [w[::-1] for w in out]
        if style == "almost":
            i = rng.randrange(m)
            out[i] = tuple(rng.randrange(q) for _ in range(rng.randint(1, 4)))
        return out
    if style == "powers":  # ambiguous only after a long chain of dangling suffixes, if at all
        root = tuple(rng.randrange(q) for _ in range(rng.choice([1, 1, 2, 3])))
        out = [root * e for e in rng.sample(range(1, 12), min(m, rng.choice([2, 2, 3])))]
        while len(out) < m:
            out.append(tuple(rng.randrange(q) for _ in range(rng.randint(1, 9))))
        if rng.random() < 0.4:
            i = rng.randrange(m)
            out[i] = out[i] + (rng.randrange(q),)
        rng.shuffle(out)
        return out
    if style == "long":
        return [tuple(rng.randrange(q) for _ in range(rng.randint(1, 9))) for _ in range(m)]
    if style == "comma":
        return [(0,) * i + (1,) for i in range(m)] if rng.random() < 0.5 else [(1,) + (0,) * i for i in range(m)]
    top = rng.choice([2, 3, 4, 6])
    while len(words) < m:
        words.add(tuple(rng.randrange(q) for _ in range(rng.randint(1, top))))
        top += 0.2 * (rng.random() < 0.2)
        top = int(top) + (rng.random() < 0.1)
    words = list(words)
    rng.shuffle(words)
    if rng.random() < 0.1 and m > 1:
        words[0] = words[1]
    return words


def gen_weights(rng, s):
    style = rng.choice(["any", "any", "equal", "powers", "skew", "few", "zero"])
    if style == "equal":
        w = [1] * s
    elif style == "powers":
        w = [2 ** rng.randrange(6) for _ in range(s)]
    elif style == "skew":
        w = [1] * (s - 1) + [rng.choice([10, 50, 1000])]
    elif style == "few":
        w = [rng.randint(1, 3) for _ in range(s)]
    else:
        w = [rng.randint(0 if style == "zero" else 1, rng.choice([5, 20, 100])) for _ in range(s)]
    if not any(w):
        w[0] = 1
    rng.shuffle(w)
    return w


def generate(rng, tier):
    kind = rng.choice(["words", "words", "words", "lengths", "huffman", "huffman", "shannon", "fano", "dict", "dict",
                       "tunstall", "tunstall"])
    p = {"kind": kind, "q": 2, "form": rng.choice(codes.INT_FORMS)}
    if kind in ("words", "lengths", "dict"):
        q = p["q"] = rng.choice([2, 2, 2, 3, 4])
        while True:
            s, k = rng.choice([2, 2, 3, 3, 4, 5, 7]), rng.choice([1, 1, 1, 2, 2, 3])
            if s**k <= 27:
                break
        if kind == "dict":
            k = 1
        p.update(s=s, k=k)
        if kind == "words":
            style = rng.choice(["any", "any", "tree", "tree", "reversed", "almost", "comma", "powers", "long"])
            p["words"] = [list(w) for w in gen_words(rng, q, s**k, style)]
            p["order"] = rng.random() < 0.4 and rng.sample(range(s**k), s**k) or None
            p["maker"] = rng.choice(["direct", "codewords", "mapping"])
        elif kind == "dict":
            m = rng.randint(2, 12)
            style = rng.choice(["any", "tree", "tree", "full", "full", "full", "reversed", "almost", "comma", "powers"])
            if style == "full":
                m = s + (s - 1) * rng.randint(0, 4)
            p["words"] = [list(w) for w in gen_words(rng, s, m, "tree" if style == "full" else style)]
            p["order"] = rng.sample(range(m), m) if rng.random() < 0.4 else None
            p["slack"] = rng.choice([0, 0, 1])
            p["spread"] = rng.random() < 0.3
            p["maker"] = rng.choice(["direct", "sourcewords"])
        else:
            top = rng.choice([2, 3, 4, 6, 10, 60])
            if rng.random() < 0.7:
                p["lengths"] = [len(w) for w in gen_words(rng, q, s**k, "tree")]
                if rng.random() < 0.4:
                    i = rng.randrange(s**k)
                    p["lengths"][i] = max(1, p["lengths"][i] + rng.choice([-1, -1, 1]))
            else:
                p["lengths"] = [rng.randint(1, top) for _ in range(s**k)]
    else:
        s = rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 11])
        if kind == "tunstall":
            p["k"] = next(n for n in range(1, 9) if 2**n >= s) + rng.choice([0, 0, 1, 1, 2, 3, 4])
        else:
            p["k"] = rng.choice([1, 1, 2, 2, 3, 4])
            while s ** p["k"] > (256 if tier == "quick" else 1500):
                p["k"] -= 1
        p["s"] = s
        if kind == "huffman":
            p["policy"], p["assignment"] = rng.choice(["high", "low"]), rng.choice(["tree", "canonical"])
    s = p["s"]
    if max(s, p["q"]) > 2 and p["form"] == "bool":
        p["form"] = "int64"
    p["weights"] = gen_weights(rng, s)
    if kind == "shannon":
        p["weights"] = [w or 1 for w in p["weights"]]
    p["message"] = [rng.randrange(s) for _ in range(rng.choice([0, 1, 4, 12, 40]))]
    p["segments"] = sorted(rng.random() for _ in range(rng.choice([0, 1, 3])))
    p["cuts"] = [rng.random() for _ in range(rng.choice([1, 2, 4]))]
    p["asks"] = rng.sample(["readable", "prefix", "kraft", "rate", "write", "read", "cover", "mix", "write", "rate"],
                           rng.choice([4, 7, 10, 10]))
    return p


# the adversary and the exact constructions ------------------------------------------------


def ambiguous(words):
    """A stream with two readings, as two lists of word indices, or None."""
    seen, queue = {}, []
    for i, u in enumerate(words):
        for j, v in enumerate(words):
            if i != j and v[:len(u)] == u:
                if len(u) == len(v):
                    return [i], [j]
                d = v[len(u):]
                if d not in seen:  # A is behind by d
                    seen[d] = ([i], [j])
                    queue.append(d)
    while queue:
        d = queue.pop(0)
        a, b = seen[d]
        for i, w in enumerate(words):
            if w == d:
                return a + [i], b
            if d[:len(w)] == w:
                e, nxt = d[len(w):], (a + [i], b)
            elif w[:len(d)] == d:
                e, nxt = w[len(d):], (b, a + [i])
            else:
                continue
            if e not in seen:
                seen[e] = nxt
                queue.append(e)
    return None


def uncovered(words, s):
    """A source sequence that no word begins and that begins no word (or None)."""
    ws, top = set(words), max(map(len, words))
    todo = [()]
    while todo:
        x = todo.pop()
        if x in ws:
            continue
        if len(x) > top:
            return x
        todo += [x + (a,) for a in range(s)]
        if len(todo) > 200000:
            raise Invalid("too large")
    return None


def readings(stream, words, limit=2):
    """Number of readings of a stream (at most limit), and one of them."""
    n = len(stream)
    count, step = [0] * (n + 1), [None] * (n + 1)
    count[n] = 1
    for i in range(n - 1, -1, -1):
        for j, w in enumerate(words):
            if stream[i:i + len(w)] == w and count[i + len(w)]:
                count[i] = min(limit, count[i] + count[i + len(w)])
                step[i] = j
    out, i = [], 0
    while count[0] and i < n:
        out.append(step[i])
        i += len(words[step[i]])
    return count[0], out


def huffman_cost(ws):
    h = list(ws)
    heapify(h)
    total = 0
    while len(h) > 1:
        a = heappop(h)
        b = h[0]
        total += a + b
        heapreplace(h, a + b)
    return total


def tunstall_gain(weights, n):
    """Largest expected word length of a complete prefix-free dictionary of at most 2**n words (exact)."""
    W, s = sum(weights), len(weights)
    heap = [Fraction(-1)]
    gain, size = Fraction(0), 1
    while size + s - 1 <= 2**n:
        x = -heappop(heap)
        gain += x
        for w in weights:
            heappush(heap, -x * Fraction(w, W))
        size += s - 1
    return gain


def entropy(ps):
    return -fsum(float(x) * log2(x) for x in ps if x)


# -----------------------------------------------------------------------------------------


def execute(p, run):
    (execute_vf if p["kind"] in ("dict", "tunstall") else execute_fv)(p, run)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def pieces(p, n, unit):
    edges = [0, *sorted({int(f * (n // unit + 1)) * unit for f in p["segments"]}), n]
    return list(zip(edges, edges[1:]))


def execute_fv(p, run):
    kind, q, s, k = p["kind"], p["q"], p["s"], p["k"]
    weights = p["weights"]
    W = sum(weights)
    if not W:
        raise Invalid("no weight")
    blocks = list(product(range(s), repeat=k))
    pmf = [w / W for w in weights]
    run.fault("zero-weight", int(0 in weights))
    mass = [prod(weights[x] for x in b) for b in blocks]
    words = None
    if kind == "words":
        words = [tuple(w) for w in p["words"]]
        if len(words) != len(blocks) or any(not w or max(w) >= q for w in words):
            raise Invalid("words")
        order = p["order"] or list(range(len(blocks)))
        mapping = {blocks[i]: words[i] for i in order}
        run.fault("unsorted-words", int(order != sorted(order)))
        top = max(max(w) for w in words) + 1
        if p["maker"] == "codewords" and top == q:
            code = komm.FixedToVariableCode.from_codewords(words, source_cardinality=s)
        elif p["maker"] == "mapping" and top == q:
            code = komm.FixedToVariableCode.from_enc_mapping(mapping)
        else:
            code = komm.FixedToVariableCode(s, q, k, mapping)
    elif kind == "lengths":
        lengths = p["lengths"]
        fits = sum(Fraction(1, q**n) for n in lengths) <= 1
        try:
            code = komm.FixedToVariableCode.from_lengths(np.array(lengths), source_cardinality=s, target_cardinality=q)
        except ValueError as e:
            run.fault("overfull-lengths")
            run.check(not fits, "refused-lengths", f"lengths {lengths} over {q} letters refused: {e}")
            run.log("refused")
            return run.reach(f"lengths:{s}|{q}|{k}|refused")
        run.check(fits, "overfull-accepted", lambda: f"lengths {lengths} over {q} letters: {code!r}")
        run.check([len(w) for w in code.codewords] == lengths and list(code.lengths) == lengths, "other-lengths",
                  lambda: f"lengths {lengths} over {q} letters give {code!r}")
    else:
        cls = {"huffman": komm.HuffmanCode, "shannon": komm.ShannonCode, "fano": komm.FanoCode}[kind]
        extra = {"policy": p["policy"], "assignment": p["assignment"]} if kind == "huffman" else {}
        code = cls(pmf, k, **extra)
        run.fault("tie", int(len(set(weights)) < s))
    run.real.add("komm." + type(code).__name__)
    if words is None:
        words = [tuple(map(int, code.enc_mapping[b])) for b in blocks]
    clash = ambiguous(words)
    distinct = sorted(set(words))
    prefix = len(distinct) == len(words) and not any(b[:len(a)] == a for a, b in zip(distinct, distinct[1:]))
    run.fault("ambiguous", int(clash is not None))

    def total():
        return sum(m * len(w) for m, w in zip(mass, words))

    if kind in ("huffman", "shannon", "fano", "lengths"):
        run.check(prefix and all(words), "not-instantaneous", lambda: f"{code!r}: words {show(words)}")
    if kind in ("huffman", "shannon", "fano"):
        H, L = entropy([Fraction(w, W) for w in weights]), total() / W**k / k
        run.check(H - 1e-9 <= L <= H + 1 / k + 1e-9, "length-bound", lambda: f"{code!r}: {L} bits/symbol, entropy {H}")
    if kind == "huffman":
        best = huffman_cost(mass)
        slack = 0 if W**k < 10**12 else 1e-9 * best
        run.check(total() <= best + slack, "not-optimal",
                  lambda: f"{code!r}: the exact mix of {W}**{k} blocks takes {total()} bits, another code {best}")
    if kind == "shannon":
        for m, w in zip(mass, words):
            x = log2(W**k) - log2(m)
            if abs(x - round(x)) > 1e-9 or k == 1 and x == round(x) and (m & -m) == m and (W & -W) == W:
                want = max(1, -int(-x // 1))
                run.check(len(w) == want, "shannon-length", lambda: f"{code!r}: a block of mass {m}/{W**k} has {w}")
            else:
                run.check(len(w) in (max(1, round(x)), round(x) + 1), "shannon-length",
                          lambda: f"{code!r}: a block of mass {m}/{W**k} has {w}")

    msg = p["message"][:len(p["message"]) // k * k]
    sent = [words[blocks.index(tuple(msg[i:i + k]))] for i in range(0, len(msg), k)]

    def write():
        store = []
        for i, j in pieces(p, len(msg), k):
            run.fault("segment")
            store += np.asarray(code.encode(codes.form_array(msg[i:j], p["form"]))).astype(int).tolist()
        run.now += len(msg)
        return tuple(store)

    for ask in p["asks"]:
        if ask == "readable":
            run.check(bool(code.is_uniquely_decodable()) == (clash is None), "readable",
                      lambda: f"{code!r}: reported {code.is_uniquely_decodable()}, two readings: {clash}")
        elif ask == "prefix":
            run.check(bool(code.is_prefix_free()) == prefix, "prefix", lambda: f"{code!r}: reported {code.is_prefix_free()}")
        elif ask == "kraft":
            want = sum(Fraction(1, q**len(w)) for w in words)
            run.check(close(code.kraft_parameter(), float(want)), "kraft",
                      lambda: f"{code!r}: {code.kraft_parameter()} instead of {want}")
        elif ask == "rate":
            want = Fraction(total(), W**k * k)
            got = code.rate(pmf)
            run.check(close(got, float(want)), "rate", lambda: f"{code!r}: rate({pmf}) is {got}; the exact mix takes {want}")
            run.check(list(code.lengths) == [len(w) for w in words] and code.size == len(words), "lengths",
                      lambda: f"{code!r}: lengths {code.lengths}, size {code.size}")
        elif ask == "mix" and clash is None and W**k <= 300:
            # the source emits every block exactly as often as its statistics say
            run.fault("worst-case-mix")
            mix = [x for b, m in zip(blocks, mass) for _ in range(m) for x in b]
            got = len(code.encode(codes.form_array(mix, p["form"])))
            run.check(close(code.rate(pmf) * len(mix), got), "archive-size",
                      lambda: f"{code!r}: {len(mix)} symbols in exact proportion take {got}, rate {code.rate(pmf)}")
            run.now += len(mix)
        elif ask in ("write", "read"):
            if clash is not None:
                run.fault("refused")
                for f in (code.encode, code.decode):
                    try:
                        f(codes.form_array([], "int64") if f == code.decode else codes.form_array(list(blocks[0]), "int64"))
                    except ValueError:
                        continue
                    run.check(False, "ambiguous-accepted", f"{code!r} writes or reads although {clash} are the same stream")
                continue
            stream = write()
            run.check(stream == tuple(x for w in sent for x in w), "stored",
                      lambda: f"{code!r}: {show(msg)} stored as {show(stream)}")
            n, _ = readings(stream, words)
            run.check(n == 1, "readings", lambda: f"{code!r}: {show(msg)} stored as {show(stream)}, which has {n} readings")
            if not prefix or ask == "write":
                continue
            edges = [0]
            for w in sent:
                edges.append(edges[-1] + len(w))
            for f in p["cuts"]:
                if f < 0.5:  # an instantaneous code is readable as soon as a word is complete
                    i = int(2 * f * len(edges))
                    run.fault("cut-at-boundary")
                    got = np.asarray(code.decode(codes.form_array(list(stream[:edges[i]]), p["form"]))).astype(int).tolist()
                    run.check(got == msg[:i * k], "instantaneous",
                              lambda: f"{code!r}: {show(stream[:edges[i]])} read as {show(got)}, written {show(msg[:i * k])}")
                elif len(stream) > len(edges) - 1:
                    inner = sorted(set(range(len(stream))) - set(edges))
                    if not inner:
                        continue
                    at = inner[int((2 * f - 1) * len(inner))]
                    run.fault("cut-inside-word")
                    try:
                        got = code.decode(codes.form_array(list(stream[:at]), p["form"]))
                    except ValueError:
                        continue
                    run.check(False, "torn", f"{code!r}: torn stream {show(stream[:at])} read as {show(got)}")
    run.log([list(w) for w in words], clash, prefix, msg)
    run.reach(f"archive:{kind}|{s}|{q}|{k}|{clash is None}|{prefix}|{len(set(map(len, words)))}|{p.get('maker')}|"
              f"{p.get('policy')}|{p.get('assignment')}|{0 in weights}|{max(map(len, words))}")


def execute_vf(p, run):
    kind, q, s = p["kind"], p["q"], p["s"]
    weights = p["weights"]
    W = sum(weights)
    if not W:
        raise Invalid("no weight")
    pmf = [w / W for w in weights]
    run.fault("zero-weight", int(0 in weights))
    if kind == "dict":
        words = [tuple(w) for w in p["words"]]
        if any(not w or max(w) >= s for w in words) or len(words) < 1:
            raise Invalid("words")
        n = next(n for n in range(1, 30) if q**n >= len(words))
        if p["maker"] == "sourcewords" and max(max(w) for w in words) + 1 == s:
            code = komm.VariableToFixedCode.from_sourcewords(words, target_cardinality=q)
            keys = list(product(range(q), repeat=n))[:len(words)]
        else:
            n += p["slack"]
            keys = list(product(range(q), repeat=n))
            keys = keys[::-1][:len(words)] if p["spread"] else keys[:len(words)]
            order = [i for i in p["order"] or [] if i < len(words)] or list(range(len(words)))
            run.fault("unsorted-words", int(order != sorted(order)))
            if sorted(order) != list(range(len(words))):
                raise Invalid("order")
            code = komm.VariableToFixedCode(q, s, n, {keys[i]: words[i] for i in order})
    else:
        n = p["k"]
        code = komm.TunstallCode(pmf, n)
        keys = list(code.dec_mapping)
        words = [tuple(map(int, code.dec_mapping[y])) for y in keys]
        run.fault("tie", int(len(set(weights)) < s))
    run.real.add("komm." + type(code).__name__)
    clash = ambiguous(words)
    gap = uncovered(words, s)
    distinct = sorted(set(words))
    prefix = len(distinct) == len(words) and not any(b[:len(a)] == a for a, b in zip(distinct, distinct[1:]))
    usable = clash is None and gap is None
    run.fault("ambiguous", int(clash is not None))
    run.fault("uncovered", int(gap is not None))
    mean = sum(Fraction(prod(weights[x] for x in w), W**len(w)) * len(w) for w in words)
    if kind == "tunstall":
        run.check(usable and prefix and len(set(keys)) == len(keys) <= 2**n, "not-complete",
                  lambda: f"{code!r}: words {show(words)}")
        best = tunstall_gain(weights, n)
        run.check(float(mean) >= float(best) * (1 - 1e-9), "not-optimal",
                  lambda: f"{code!r}: {len(words)} words of mean length {float(mean)}, another dictionary has {float(best)}")
    msg = list(p["message"])

    def parse(m):
        """Words that make up m, and what is left."""
        out, i = [], 0
        while True:
            w = next((w for w in words if tuple(m[i:i + len(w)]) == w), None)
            if w is None:
                return out, m[i:]
            out.append(w)
            i += len(w)

    for ask in p["asks"]:
        if ask == "readable":
            run.check(bool(code.is_uniquely_encodable()) == (clash is None), "readable",
                      lambda: f"{code!r}: reported {code.is_uniquely_encodable()}, two readings: {clash}")
        elif ask == "prefix":
            run.check(bool(code.is_prefix_free()) == prefix, "prefix", lambda: f"{code!r}: reported {code.is_prefix_free()}")
        elif ask == "cover":
            run.check(bool(code.is_fully_covering()) == (gap is None), "cover",
                      lambda: f"{code!r}: reported {code.is_fully_covering()}, but the source may emit {gap}")
        elif ask == "rate" and mean:
            got = code.rate(pmf)
            run.check(close(got, float(n / mean)), "rate", lambda: f"{code!r}: rate({pmf}) is {got} instead of {n / mean}")
            run.check(Counter(code.lengths) == Counter(map(len, words)) and code.size == len(words), "lengths",
                      lambda: f"{code!r}: lengths {code.lengths}")
        elif ask == "mix" and usable and prefix:
            top = max(map(len, words))
            if W**top > 3000:
                continue
            # the source emits every word exactly as often as its statistics say
            run.fault("worst-case-mix")
            mix = [x for w in words for _ in range(prod(weights[x] for x in w) * W**(top - len(w))) for x in w]
            got = len(code.encode(codes.form_array(mix, p["form"])))
            run.check(close(code.rate(pmf) * len(mix), got), "archive-size",
                      lambda: f"{code!r}: {len(mix)} symbols in exact proportion take {got}, rate {code.rate(pmf)}")
            run.now += len(mix)
        elif ask in ("write", "read"):
            if not usable:
                run.fault("refused")
                try:
                    code.encode(codes.form_array(list(words[0]), "int64"))
                except ValueError:
                    continue
                run.check(False, "unusable-accepted", f"{code!r} writes although two readings {clash}, uncovered {gap}")
            if not prefix:
                continue
            store, whole, rest = [], [], list(msg)
            for i, j in pieces(p, len(msg), 1):
                # a segment ends where a word ends; the tail of the last is completed to a word
                run.fault("segment")
                part, _ = parse(msg[len(whole):j])
                part = [x for w in part for x in w]
                store += np.asarray(code.encode(codes.form_array(part, p["form"]))).astype(int).tolist()
                whole += part
            tail = msg[len(whole):]
            run.now += len(msg)
            run.check(len(store) == n * len(parse(msg)[0]), "stored-size",
                      lambda: f"{code!r}: {show(msg)} in {len(store)} letters")
            end = np.asarray(code.encode(codes.form_array(tail, p["form"]))).astype(int).tolist()
            run.check(len(end) == n * bool(tail), "stored-size", lambda: f"{code!r}: the tail {tail} in {end}")
            store += end
            got = np.asarray(code.decode(codes.form_array(store, p["form"]))).astype(int).tolist()
            run.check(got[:len(msg)] == msg and tuple(got[len(whole):]) in (words if tail else [()]), "read-back",
                      lambda: f"{code!r}: {show(msg)} read back as {show(got)}")
            runs = parse(msg)[0]
            for f in p["cuts"]:
                at = int(f * (len(store) + 1))
                run.fault("cut-at-boundary" if at % n == 0 else "cut-inside-word")
                kept = sum(map(len, runs[:at // n])) if at // n <= len(runs) else len(got)
                try:
                    back = np.asarray(code.decode(codes.form_array(store[:at], p["form"]))).astype(int).tolist()
                except ValueError:
                    run.check(at % n != 0, "whole-refused", lambda: f"{code!r}: {show(store[:at])} refused")
                    continue
                run.check(at % n == 0 and back == got[:kept], "torn",
                          lambda: f"{code!r}: {show(store[:at])} read as {show(back)}, written {show(got[:kept])}")
    run.log([list(w) for w in words], clash, gap, msg)
    run.reach(f"dictionary:{kind}|{s}|{q}|{n}|{clash is None}|{prefix}|{gap is None}|{len(words)}|{p.get('maker')}|"
              f"{0 in weights}|{max(map(len, words))}")
