"""Source codes: random specifications, builders and messages (used by C07, C09, C10, C11, C16)."""

import itertools

import numpy as np

from . import codes

KINDS = ["huffman", "shannon", "fano", "tunstall", "f2v-tree", "f2v-lengths", "f2v-mapping", "v2f-tree", "v2f-mapping",
         "lz77", "lzss", "lz78", "lzw", "unary", "fibonacci"]


def gen_pmf(rng, n, zeros=True):
    style = rng.choice(["dirichlet", "dyadic", "uniform", "skew", "zero" if zeros else "skew"])
    if style == "uniform":
        w = [1] * n
    elif style == "dyadic":
        w = [1.0]
        while len(w) < n:
            i = rng.randrange(len(w))
            w[i] /= 2
            w.append(w[i])
    elif style == "skew":
        w = [rng.choice([0.001, 0.01, 0.1, 1, 10]) for _ in range(n)]
    elif style == "zero":
        w = [rng.choice([0, 1, 2, 5]) for _ in range(n)]
        w[rng.randrange(n)] = 3
    else:
        w = [rng.expovariate(1) + 1e-6 for _ in range(n)]
    t = sum(w)
    return [x / t for x in w]


def gen_big_pmf(rng):
    """Large alphabets and codewords of more than 32 or 64 bits."""
    if rng.random() < 0.5:
        n = rng.choice([33, 70, 129, 257, 300, 520])
        w = [rng.expovariate(1) + 1e-6 for _ in range(n)] if rng.random() < 0.7 else [1] * n
    else:
        n = rng.choice([20, 34, 40, 66, 90])
        r = rng.choice([0.5, 0.5, 0.4, 0.6])
        w = [r**i * rng.uniform(0.7, 1) for i in range(n)]
        rng.shuffle(w)
    t = sum(w)
    return [x / t for x in w]


def gen_tree(rng, base, min_leaves, max_leaves):
    """Leaves of a random complete tree."""
    leaves = [(x,) for x in range(base)]
    goal = rng.randint(min_leaves, max(min_leaves, max_leaves))
    while len(leaves) < goal:
        i = rng.randrange(len(leaves)) if rng.random() < 0.6 else max(range(len(leaves)), key=lambda j: len(leaves[j]))
        w = leaves.pop(i)
        leaves += [w + (x,) for x in range(base)]
    return leaves


def gen_comb(rng, base):
    """A few long, equal tails hanging from different roots, all siblings being leaves."""
    roots = gen_tree(rng, base, 2, rng.choice([2, 3, 4]))
    path = [rng.randrange(base) for _ in range(rng.choice([20, 35, 40, 66, 70]))]
    if rng.random() < 0.4:
        path = [path[0]] * len(path)
    leaves = []
    hit = rng.sample(range(len(roots)), min(len(roots), rng.choice([1, 2, 2, 3])))
    for i, r in enumerate(roots):
        if i not in hit:
            leaves.append(r)
            continue
        for j, x in enumerate(path):
            leaves += [r + tuple(path[:j]) + (y,) for y in range(base) if y != x]
        leaves.append(r + tuple(path))
    return leaves


def gen_spec(rng, kinds=None, big=0.0):
    """big: probability of large alphabets, deep codewords and wide windows."""
    kind = rng.choice(kinds or KINDS)
    s = {"kind": kind}
    big = big > 0 and rng.random() < big
    if kind in ("huffman", "shannon", "fano"):
        card = rng.choice([2, 2, 3, 3, 4, 5, 7, 12])
        k = rng.choice([1, 1, 2, 3, 4])
        while card**k > 150:
            k -= 1
        s["pmf"] = gen_pmf(rng, card, zeros=kind != "shannon")
        s["k"] = k
        if big:
            s["pmf"] = gen_big_pmf(rng)
            s["k"] = rng.choice([1, 1, 2]) if len(s["pmf"]) <= 40 else 1
        if kind == "huffman":
            s["policy"] = rng.choice(["high", "low"])
            s["assignment"] = rng.choice(["tree", "canonical"])
    elif kind == "tunstall":
        card = rng.choice([2, 2, 3, 4, 5, 6])
        s["pmf"] = gen_pmf(rng, card)
        lo = (card - 1).bit_length()
        s["n"] = rng.choice([None, lo, lo + 1, lo + 2, 5, 6])
        if s["n"] is not None:
            s["n"] = max(s["n"], lo)
        if big:
            s["pmf"] = gen_pmf(rng, rng.choice([2, 3, 9, 17, 33, 100, 300]))
            lo = (len(s["pmf"]) - 1).bit_length()
            s["n"] = rng.choice([None, lo, max(lo, 7), max(lo, 8), max(lo, 9), max(lo, 10)])
    elif kind in ("f2v-tree", "f2v-lengths", "f2v-mapping"):
        card = rng.choice([2, 3, 4])
        k = rng.choice([1, 2, 3])
        while card**k > 27:
            k -= 1
        base = rng.choice([2, 2, 3, 4])
        if big:
            card, k, base = rng.choice([17, 20, 40, 60]), 1, rng.choice([2, 3, 11, 16])
        leaves = gen_tree(rng, base, card**k, card**k + base)
        if big and rng.random() < 0.5:
            base = rng.choice([2, 2, 3])
            leaves = gen_comb(rng, base)
            card = len(leaves) - rng.choice([0, 0, 1])
        rng.shuffle(leaves)
        words = leaves[: card**k]
        if not any(base - 1 in w for w in words):
            words[0] = next(w for w in leaves if base - 1 in w)
            words = list(dict.fromkeys(words))
            words += [w for w in leaves if w not in words]
            words = words[: card**k]
        s.update(card=card, k=k, base=base, words=[list(w) for w in words])
        if kind == "f2v-mapping":
            order = list(range(card**k))
            rng.shuffle(order)
            s["order"] = order
    elif kind in ("v2f-tree", "v2f-mapping"):
        card = rng.choice([2, 2, 3, 4])
        words = gen_tree(rng, card, card, rng.choice([card, 6, 12, 20] + [60, 150] * big))
        if big and rng.random() < 0.3:
            words = gen_comb(rng, card)
        rng.shuffle(words)
        base = rng.choice([2, 2, 3] + [11, 300] * big)
        s.update(card=card, base=base, words=[list(w) for w in words])
        if kind == "v2f-mapping":
            n = next(n for n in itertools.count(1) if base**n >= len(words)) + rng.choice([0, 0, 1])
            s["n"] = n
            s["targets"] = rng.sample(range(base**n), len(words))
    elif kind in ("lz77", "lzss"):
        s["card"] = rng.choice([2, 2, 3, 4, 5, 10, 27, 256])
        s["base"] = rng.choice([2, 2, 2, 2, 3, 4, 10, 16, 300])
        s["S"] = rng.choice([1, 2, 3, 4, 7, 8, 9, 16, 25, 64, 125])
        s["L"] = rng.choice([1, 2, 3, 4, 5, 8, 16, 27])
        if big:
            s["S"], s["L"] = rng.choice([255, 256, 257, 600, 1024, 1500]), rng.choice([9, 60, 255, 256, 300])
        r = rng.random()
        s["buf"] = None if r < 0.6 else [rng.randrange(s["card"]) for _ in range(s["S"])]
    elif kind in ("lz78", "lzw"):
        s["card"] = rng.choice([2, 2, 3, 4, 5, 8, 9, 10, 27, 125, 256, 1000])
        s["base"] = rng.choice([2, 2, 2, 3, 4, 5, 10, 16, 130, 300])
    return s


def build(s):
    import komm

    kind = s["kind"]
    if kind == "huffman":
        return komm.HuffmanCode(codes.ctor(s["pmf"]), s["k"], s["policy"], s["assignment"])
    if kind == "shannon":
        return komm.ShannonCode(codes.ctor(s["pmf"]), s["k"])
    if kind == "fano":
        return komm.FanoCode(codes.ctor(s["pmf"]), s["k"])
    if kind == "tunstall":
        return komm.TunstallCode(codes.ctor(s["pmf"]), s["n"])
    words = [tuple(w) for w in s.get("words", [])]
    if kind == "f2v-tree":
        return komm.FixedToVariableCode.from_codewords(words, source_cardinality=s["card"])
    if kind == "f2v-lengths":
        return komm.FixedToVariableCode.from_lengths([len(w) for w in words], source_cardinality=s["card"],
                                                     target_cardinality=s["base"])
    if kind == "f2v-mapping":
        keys = list(itertools.product(range(s["card"]), repeat=s["k"]))
        return komm.FixedToVariableCode(s["card"], s["base"], s["k"], {keys[i]: words[i] for i in s["order"]})
    if kind == "v2f-tree":
        return komm.VariableToFixedCode.from_sourcewords(words, target_cardinality=s["base"])
    if kind == "v2f-mapping":
        keys = list(itertools.product(range(s["base"]), repeat=s["n"]))
        return komm.VariableToFixedCode(s["base"], s["card"], s["n"],
                                        {keys[t]: w for t, w in zip(s["targets"], words)})
    if kind in ("lz77", "lzss"):
        cls = komm.LempelZiv77Code if kind == "lz77" else komm.LempelZivSSCode
        return cls(search_size=s["S"], lookahead_size=s["L"], source_cardinality=s["card"],
                   target_cardinality=s["base"], search_buffer=s["buf"])
    if kind == "lz78":
        return komm.LempelZiv78Code(s["card"], s["base"])
    if kind == "lzw":
        return komm.LempelZivWelchCode(s["card"], s["base"])
    if kind == "unary":
        return komm.UnaryCode()
    return komm.FibonacciCode()


def cardinality(s):
    if "pmf" in s:
        return len(s["pmf"])
    return s.get("card", 0)


def block(s):
    return s.get("k", 1)


def gen_message(rng, s, max_len=300):
    kind = s["kind"]
    n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60, 120, max_len])
    if kind == "unary":
        return [rng.choice([0, 1, 2, rng.randrange(40), rng.randrange(300)]) for _ in range(min(n, 30))]
    if kind == "fibonacci":
        return [rng.choice([1, 2, 3, rng.randint(1, 100), rng.randint(1, 10**6), rng.randint(1, 2**60),
                            610, 609, 611]) for _ in range(min(n, 20))]
    card = cardinality(s)
    n = n // block(s) * block(s)
    style = rng.choice(["random", "runs", "repeat", "edit", "const", "few"])
    few = [rng.randrange(card) for _ in range(3)]
    if style == "random":
        m = [rng.randrange(card) for _ in range(n)]
    elif style == "const":
        m = [few[0]] * n
    elif style == "few":
        m = [rng.choice(few) for _ in range(n)]
    elif style == "runs":
        m = []
        while len(m) < n:
            m += [rng.randrange(card)] * rng.choice([1, 1, 2, 3, 7, 20])
    else:
        w = [rng.randrange(card) for _ in range(rng.randint(1, 9))]
        m = []
        while len(m) < n:
            m += w
            if style == "edit" and rng.random() < 0.4:
                w = w[:-1] + [rng.randrange(card)] if rng.random() < 0.5 else w + [rng.randrange(card)]
    return m[:n]


def form(data, f):
    if f == "list":
        return list(data)
    if f == "tuple":
        return tuple(data)
    if f == "readonly":
        a = np.array(data, dtype=int)
        a.setflags(write=False)
        return a
    if f == "strided":
        a = np.zeros(2 * len(data), dtype=int)
        a[::2] = data
        return a[::2]
    a = np.array(data, dtype=object if not len(data) else None)
    if not len(data):
        return np.array([], dtype=int)
    if f == "small" and a.max() < 256:
        return a.astype(np.uint8)
    if f == "int16" and a.max() < 2**15:
        return a.astype(np.int16)
    return a.astype(np.int64)


FORMS = ["int64", "list", "tuple", "small", "int16", "readonly", "strided"]


def words_of(code, s):
    """The (sourceword, codeword) pairs of a dictionary code, as the built object states them."""
    if s["kind"] in ("tunstall", "v2f-tree", "v2f-mapping"):
        return [(tuple(x), tuple(y)) for y, x in code.dec_mapping.items()]
    return [(tuple(x), tuple(y)) for x, y in code.enc_mapping.items()]
