"""Every kind of library object: random specifications, builders and queries (used by C09, C10, C11, C12).

A specification and a query are plain JSON; nothing here touches the library until `build` or `ask` runs inside a
simulated run's own process."""

import math

from . import codes, gf2
from . import source_codes as sc

FAMILIES = ["code", "code", "code", "decoder", "decoder", "slepian", "conv", "mealy", "moore", "labeling",
            "constellation", "constellation", "source", "source", "quantizer", "sequence", "field", "poly", "markov",
            "markov", "channel", "dms", "pulse"]

PULSES = {"RectangularPulse": ["width"], "ManchesterPulse": [], "SincPulse": [], "RaisedCosinePulse": ["rolloff"],
          "BeaulieuPulse": ["rolloff"], "GaussianPulse": ["half_power_bandwidth"]}


# ------------------------------------------------------------------------------ generation


def gen_small_code(rng, families=None):
    if families is None and rng.random() < 0.08:  # large enough for more than one batch of codewords
        while True:
            fam = rng.choice(["BlockG", "Hamming", "RM", "Sys", "SPC", "BCH", "Cyc"])
            s = codes.gen_code(rng, [fam] if fam in codes.FAMILIES else None, max_k=12)
            n, k, _ = codes.info(s)
            if k in (11, 12) and n <= 17 and s["cls"] != "Term":
                return s
            if rng.random() < 0.03:
                break
    while True:
        s = codes.gen_code(rng, families, max_k=6)
        n, k, _ = codes.info(s)
        if k <= 6 and n - k <= 8 and n <= 24 and (s["cls"] != "Term" or codes.ml_exact_termination(s["conv"], s["mode"])
                                                  or s["mode"] == "tail-biting"):
            return s


def gen_labeling(rng, m=None):
    kind = rng.choice(["natural", "reflected", "rect", "product", "custom"])
    if kind == "rect" and (m is None or m >= 2):
        a = rng.randint(1, 2) if m is None else rng.randint(1, m - 1)
        b = rng.randint(1, 2) if m is None else m - a
        return {"kind": "rect", "bits": [a, b]}
    if kind == "product" and (m is None or m >= 2):
        parts = []
        left = m or rng.randint(2, 4)
        while left:
            p = rng.randint(1, left)
            parts.append(gen_labeling(rng, p))
            left -= p
        return {"kind": "product", "parts": parts}
    m = m or rng.randint(1, 4)
    if kind == "custom":
        perm = list(range(2**m))
        rng.shuffle(perm)
        return {"kind": "custom", "matrix": [[(v >> i) & 1 for i in range(m)] for v in perm]}
    return {"kind": kind if kind in ("natural", "reflected") else "natural", "m": m}


def labeling_bits(s):
    if s["kind"] == "rect":
        return sum(s["bits"])
    if s["kind"] == "product":
        return sum(labeling_bits(p) for p in s["parts"])
    if s["kind"] == "custom":
        return len(s["matrix"][0])
    return s["m"]


def gen_constellation(rng, max_order=32):
    while True:
        kind = rng.choice(["PAM", "QAM", "QAM", "PSK", "ASK", "APSK", "CrossQAM", "Orthogonal", "Biorthogonal",
                           "Simplex", "custom", "custom-complex"])
        amp = rng.choice([1.0, 0.5, 2.0, 1.3])
        ph = rng.choice([0.0, 0.25, 1 / 8, 0.1])
        if kind == "PAM":
            s = {"args": [rng.choice([2, 4, 8, 3, 5]), amp]}
        elif kind == "QAM":
            a, b = rng.choice([2, 3, 4]), rng.choice([2, 2, 4, 5])
            s = {"args": [[a, b], [amp, rng.choice([amp, 1.5])], ph]} if rng.random() < 0.6 else \
                {"args": [a * a, amp, ph]}
        elif kind == "PSK":
            s = {"args": [rng.choice([2, 3, 4, 8, 16]), amp, ph]}
        elif kind == "ASK":
            s = {"args": [rng.choice([2, 4, 8, 3]), amp, ph]}
        elif kind == "APSK":
            k = rng.randint(1, 3)
            s = {"args": [[rng.choice([1, 4, 4, 8, 12]) for _ in range(k)], [amp * (i + 1) for i in range(k)], ph]}
        elif kind == "CrossQAM":
            s = {"args": [32, amp, ph]}
        elif kind == "Orthogonal":
            s = {"args": [rng.randint(2, 6), amp]}
        elif kind == "Biorthogonal":
            s = {"args": [2 * rng.randint(1, 4), amp]}
        elif kind == "Simplex":
            s = {"args": [rng.randint(2, 6), amp]}
        else:
            M, N = rng.choice([2, 3, 4, 8]), rng.choice([1, 1, 2, 3])
            pts = set()
            while len(pts) < M:
                pts.add(tuple(rng.randint(-8, 8) / 2 for _ in range(N * (2 if "complex" in kind else 1))))
            pts = sorted(pts, key=lambda t: rng.random())
            s = {"matrix": [list(t) for t in pts]}
        s["kind"] = kind
        if constellation_order(s) <= max_order:
            return s


def constellation_order(s):
    if "matrix" in s:
        return len(s["matrix"])
    a = s["args"][0]
    if s["kind"] == "QAM" and isinstance(a, list):
        return a[0] * a[1]
    if s["kind"] == "APSK":
        return sum(a)
    return a


def constellation_dim(s):
    if "matrix" in s:
        return len(s["matrix"][0]) // (2 if "complex" in s["kind"] else 1)
    if s["kind"] in ("Orthogonal", "Simplex"):
        return s["args"][0]
    if s["kind"] == "Biorthogonal":
        return s["args"][0] // 2
    return 1


def constellation_complex(s):
    return s["kind"] in ("QAM", "PSK", "ASK", "APSK", "CrossQAM", "custom-complex")


def gen_transition(rng, n, absorbing=None):
    P = []
    for i in range(n):
        r = rng.random()
        if absorbing is not None and i in absorbing:
            row = [float(i == j) for j in range(n)]
        elif r < 0.2:
            j = rng.randrange(n)
            row = [float(j == c) for c in range(n)]
        elif r < 0.6:
            w = [0 if rng.random() < 0.5 else rng.randint(1, 8) for _ in range(n)]
            if not any(w):
                w[rng.randrange(n)] = 1
            row = [x / sum(w) for x in w]
        else:
            w = [rng.randint(1, 8) for _ in range(n)]
            row = [x / sum(w) for x in w]
        P.append(row)
    return P


def gen_markov(rng, n_max=6):
    n = rng.randint(1, n_max)
    style = rng.choice(["any", "absorbing", "irreducible", "periodic"])
    if style == "absorbing" and n > 1:
        ab = rng.sample(range(n), rng.randint(1, n - 1))
        while True:
            P = gen_transition(rng, n, ab)
            if markov_absorbing(P):
                return {"P": P}
    if style == "irreducible":
        while True:
            P = gen_transition(rng, n)
            if all(len(reachable(P, i)) == n for i in range(n)):
                return {"P": P}
    if style == "periodic" and n > 1:
        p = list(range(n))
        rng.shuffle(p)
        P = [[0.0] * n for _ in range(n)]
        for a, b in zip(p, p[1:] + p[:1]):
            P[a][b] = 1.0
        return {"P": P}
    return {"P": gen_transition(rng, n)}


def reachable(P, i):
    seen, todo = set(), [i]
    while todo:
        s = todo.pop()
        if s not in seen:
            seen.add(s)
            todo += [j for j, v in enumerate(P[s]) if v > 0]
    return seen


def markov_absorbing(P):
    ab = {i for i in range(len(P)) if P[i][i] == 1}
    return bool(ab) and all(reachable(P, i) & ab for i in range(len(P)))


def gen_spec(rng, fam=None):
    fam = fam or rng.choice(FAMILIES)
    s = {"fam": fam}
    if fam == "code" or fam == "slepian":
        s["code"] = gen_small_code(rng)
    elif fam == "decoder":
        while True:
            c = gen_small_code(rng, rng.choice([None, ["RM"], ["BCH"], ["BCH"], ["Term"], ["Term"], ["Term"], ["SPC"], ["Polar"]]))
            decs = codes.hard_decoders(c) + codes.soft_decoders(c)
            if c["cls"] == "Term" and codes.ml_exact_termination(c["conv"], c["mode"]):
                decs += ["bcjr", "bcjr-soft"]
            if c["cls"] == "Polar":
                decs += ["sc", "sc-soft"]
            if decs:
                break
        s.update(code=c, dec=rng.choice(decs))
    elif fam == "conv":
        s["conv"] = codes.gen_conv(rng, max_states=3)
    elif fam in ("mealy", "moore"):
        S, X, Y = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 4)
        s["T"] = [[rng.randrange(S) for _ in range(X)] for _ in range(S)]
        s["O"] = [[rng.randrange(Y) for _ in range(X)] for _ in range(S)] if fam == "mealy" else \
            [rng.randrange(Y) for _ in range(S)]
    elif fam == "labeling":
        s["lab"] = gen_labeling(rng)
    elif fam == "constellation":
        s["con"] = gen_constellation(rng)
    elif fam == "source":
        s["src"] = sc.gen_spec(rng)
    elif fam == "quantizer":
        kind = rng.choice(["scalar", "uniform", "riser", "tread", "lloyd"])
        s["kind"] = kind
        if kind == "scalar":
            L = rng.randint(2, 6)
            v = sorted(rng.sample(range(-20, 21), 2 * L - 1))
            s["levels"], s["thresholds"] = [x / 4 for x in v[0::2]], [x / 4 for x in v[1::2]]
        elif kind == "lloyd":
            s["L"], s["pdf"] = rng.randint(2, 3), rng.choice(["uniform", "triangle"])
        else:
            s["L"], s["step"], s["off"] = rng.randint(2, 8), rng.choice([0.25, 0.5, 1.0]), rng.choice([0.0, 0.5, -0.5])
    elif fam == "sequence":
        kind = rng.choice(["barker", "binary", "polar", "lfsr", "mls", "walsh", "complex", "zc"])
        s["kind"] = kind
        if kind == "barker":
            s["n"] = rng.choice([2, 3, 4, 5, 7, 11, 13])
        elif kind in ("binary", "polar", "complex"):
            s["data"] = [rng.getrandbits(1) for _ in range(rng.randint(1, 12))]
        elif kind == "lfsr":
            s["poly"], s["start"] = rng.choice([[0b1011, 1], [0b10011, 5], [0b111, 2], [0b100101, 0b11]])
        elif kind == "mls":
            s["n"] = rng.randint(2, 5)
        elif kind == "walsh":
            s["n"] = rng.choice([1, 2, 4, 8, 16])
            s["order"], s["i"] = rng.choice(["natural", "sequency"]), rng.randrange(s["n"])
        else:
            s["n"] = rng.choice([3, 5, 7, 13])
            s["i"] = rng.randint(1, s["n"] - 1)
    elif fam == "field":
        m = rng.randint(1, 5)
        s["m"] = m
        s["mod"] = rng.choice([None, None, {2: 0b111, 3: 0b1101, 4: 0b11111, 5: 0b101001}.get(m)])
    elif fam == "markov":
        s.update(gen_markov(rng))
    elif fam == "channel":
        kind = rng.choice(["bsc", "bec", "z", "dmc"])
        s["kind"] = kind
        if kind == "dmc":
            m, n = rng.randint(2, 4), rng.randint(2, 4)
            rows = []
            for _ in range(m):
                w = [rng.choice([0, 1, 2, 5]) for _ in range(n)]
                w[rng.randrange(n)] += 1
                rows.append([x / sum(w) for x in w])
            s["P"] = rows
        else:
            s["p"] = rng.choice([0.0, 0.1, 0.25, 0.5, 0.9, 1.0, 0.01, 0.001])
    elif fam == "dms":
        s["pmf"] = sc.gen_pmf(rng, rng.randint(2, 5))
    elif fam == "pulse":
        s["cls"] = rng.choice(sorted(PULSES))
        s["par"] = rng.choice([1.0, 0.5, 0.25])
        s["root"] = s["cls"] in ("RaisedCosinePulse",) and rng.random() < 0.4
    return s


def pdf(name):
    import numpy as np

    if name == "uniform":
        return lambda x: np.ones_like(np.asarray(x, dtype=float)) / 2
    return lambda x: np.maximum(0.0, 1 - np.abs(x))


def build_labeling(s):
    import komm

    k = s["kind"]
    if k == "natural":
        return komm.NaturalLabeling(s["m"])
    if k == "reflected":
        return komm.ReflectedLabeling(s["m"])
    if k == "rect":
        return komm.ReflectedRectangularLabeling(tuple(s["bits"]))
    if k == "product":
        return komm.ProductLabeling(*[build_labeling(p) for p in s["parts"]])
    return komm.Labeling(codes.ctor(s["matrix"]))


def build_constellation(s):
    import komm
    import numpy as np

    if s["kind"] == "custom":
        return komm.Constellation(codes.ctor(s["matrix"]))
    if s["kind"] == "custom-complex":
        a = np.array(s["matrix"])
        n = a.shape[1] // 2
        return komm.Constellation(a[:, :n] + 1j * a[:, n:])
    args = [tuple(a) if isinstance(a, list) else a for a in s["args"]]
    return getattr(komm, s["kind"] + "Constellation")(*args)


def build(s, rng=None):
    import komm

    fam = s["fam"]
    if fam == "code":
        return codes.build(s["code"])
    if fam == "slepian":
        return komm.SlepianArray(codes.build(s["code"]))
    if fam == "decoder":
        return codes.build_decoder(s["dec"], codes.build(s["code"]))
    if fam == "conv":
        return codes.build_conv(s["conv"])
    if fam == "mealy":
        return komm.MealyMachine(codes.ctor(s["T"]), codes.ctor(s["O"]))
    if fam == "moore":
        return komm.MooreMachine(codes.ctor(s["T"]), codes.ctor(s["O"]))
    if fam == "labeling":
        return build_labeling(s["lab"])
    if fam == "constellation":
        return build_constellation(s["con"])
    if fam == "source":
        return sc.build(s["src"])
    if fam == "quantizer":
        k = s["kind"]
        if k == "scalar":
            return komm.ScalarQuantizer(codes.ctor(s["levels"]), codes.ctor(s["thresholds"]))
        if k == "uniform":
            return komm.UniformQuantizer(s["L"], s["step"], s["off"])
        if k == "riser":
            return komm.UniformQuantizer.mid_riser(s["L"], s["step"])
        if k == "tread":
            return komm.UniformQuantizer.mid_tread(s["L"], s["step"])
        return komm.LloydMaxQuantizer(pdf(s["pdf"]), (-1.0, 1.0), s["L"])
    if fam == "sequence":
        k = s["kind"]
        return {"barker": lambda: komm.BarkerSequence(s["n"]),
                "binary": lambda: komm.BinarySequence(bit_sequence=codes.ctor(s["data"])),
                "polar": lambda: komm.BinarySequence(polar_sequence=codes.ctor([1 - 2 * b for b in s["data"]])),
                "lfsr": lambda: komm.LFSRSequence(s["poly"], s["start"]),
                "mls": lambda: komm.LFSRSequence.maximum_length_sequence(s["n"]),
                "walsh": lambda: komm.WalshHadamardSequence(s["n"], s["order"], s["i"]),
                "complex": lambda: komm.ComplexSequence(codes.ctor([1j if b else 1.5 for b in s["data"]])),
                "zc": lambda: komm.ZadoffChuSequence(s["n"], s["i"])}[k]()
    if fam == "field":
        return komm.FiniteBifield(s["m"], s["mod"]) if s["mod"] else komm.FiniteBifield(s["m"])
    if fam == "poly":
        return komm.BinaryPolynomial
    if fam == "markov":
        return komm.MarkovChain(codes.ctor(s["P"]), rng=rng)
    if fam == "channel":
        kw = {} if rng is None else {"rng": rng}
        return {"bsc": lambda: komm.BinarySymmetricChannel(s["p"], **kw),
                "bec": lambda: komm.BinaryErasureChannel(s["p"], **kw),
                "z": lambda: komm.ZChannel(s["p"], **kw),
                "dmc": lambda: komm.DiscreteMemorylessChannel(codes.ctor(s["P"]), **kw)}[s["kind"]]()
    if fam == "dms":
        return komm.DiscreteMemorylessSource(codes.ctor(s["pmf"]), rng=rng)
    if fam == "pulse":
        names = PULSES[s["cls"]]
        p = getattr(komm, s["cls"])(*[s["par"] for _ in names])
        return p.root() if s.get("root") else p
    raise ValueError(fam)


def real_names(s, obj):
    return "komm." + (obj.__name__ if isinstance(obj, type) else type(obj).__name__)


# --------------------------------------------------------------------------------- queries

CODE0 = ["length", "dimension", "redundancy", "rate", "generator_matrix", "check_matrix",
         "generator_matrix_right_inverse", "minimum_distance", "packing_radius", "codewords",
         "codeword_weight_distribution", "coset_leaders", "coset_leader_weight_distribution", "covering_radius"]
CONV0 = ["degree", "constraint_lengths", "generator_matrix", "memory_order", "num_input_bits", "num_output_bits",
         "overall_constraint_length", "free_distance", "is_catastrophic", "finite_state_machine",
         "state_space_representation"]
SRC_F2V = ["source_cardinality", "target_cardinality", "source_block_size", "size", "enc_mapping", "codewords",
           "lengths", "is_uniquely_decodable", "is_prefix_free", "kraft_parameter"]
SRC_V2F = ["source_cardinality", "target_cardinality", "target_block_size", "size", "dec_mapping", "sourcewords",
           "lengths", "is_fully_covering", "is_uniquely_encodable", "is_prefix_free"]
MARKOV0 = ["num_states", "transition_matrix", "absorbing_states", "absorption_probabilities", "communicating_classes",
           "index_of_primitivity", "is_absorbing", "is_aperiodic", "is_irreducible", "is_regular",
           "mean_number_of_visits", "mean_time_to_absorption", "recurrent_states", "transient_states",
           "stationary_distribution"]


def arr(data, form="int64"):
    return {"arr": data, "f": form}


def iform(rng):
    return rng.choice(["int64", "int64", "list", "uint8", "readonly", "strided", "int32"])


def fform(rng):
    return rng.choice(["float64", "float64", "list", "readonly", "strided", "fortran"])


def bits(rng, n):
    return [rng.getrandbits(1) for _ in range(n)]


def reals(rng, n, scale=4):
    return [rng.randint(-4 * scale, 4 * scale) / 4 + 0.125 for _ in range(n)]


def batch(rng, width, gen):
    b = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.3:
        return [gen(rng, width) for _ in range(b)]
    return gen(rng, width * b)


def gen_query(rng, s, invalid=False):
    """One query (JSON).  `invalid` asks for a call that should be refused or make no sense."""
    fam = s["fam"]
    Q = lambda m, *a, **kw: {"m": m, "a": list(a), "kw": kw}
    if fam == "code":
        n, k, _ = codes.info(s["code"])
        if invalid:
            return rng.choice([Q("encode", arr(bits(rng, k + 1) if k > 1 else [])), Q("check", arr(bits(rng, 2 * n + 1))),
                               Q("inverse_encode", arr([1] + [0] * (n - 1))), Q("project_word", arr([0] * (n + 1))),
                               Q("encode", "abc"), Q("check", None)])
        r = rng.random()
        if r < 0.6:
            names = CODE0 + (["reed_partitions"] if s["code"]["cls"] == "RM" else [])
            return Q(rng.choice(names))
        if r < 0.75:
            return Q("encode", arr(batch(rng, k, bits), iform(rng)))
        if r < 0.85:
            return Q("check", arr(batch(rng, n, bits), iform(rng)))
        if r < 0.92 and s["code"]["cls"] == "BCH":
            return Q("bch_syndrome", {"poly": rng.getrandbits(n)})
        return Q("project_word", arr(batch(rng, n, bits), iform(rng)))
    if fam == "decoder":
        n = codes.info(s["code"])[0]
        if invalid:
            return rng.choice([Q("decode", arr([0] * (n + 1))), Q("decode", "abc"), Q("decode", None),
                               Q("decode", arr([[0.5] * (n + 1)], "float64"))])
        soft = s["dec"].endswith("soft") or s["dec"] in ("wagner", "bcjr", "sc")
        return Q("decode", arr(batch(rng, n, reals), fform(rng)) if soft else arr(batch(rng, n, bits), iform(rng)))
    if fam == "slepian":
        n, k, _ = codes.info(s["code"])
        if invalid:
            return rng.choice([Q("entry", 2 ** (n - k), 0), Q("row", 2 ** (n - k)), Q("entry", 0, 2**k)])
        r = rng.random()
        i, j = rng.randrange(2 ** (n - k)), rng.randrange(2**k)
        if k > 4 or n - k > 5:
            return Q("entry", i, j)
        return Q("entry", i, j) if r < 0.5 else Q("row", i) if r < 0.75 else Q("col", j)
    if fam == "conv":
        k, n, _ = gf2.conv_params(s["conv"])
        sg = gf2.conv_state_bits(s["conv"])
        if invalid:
            return rng.choice([Q("encode", arr(bits(rng, k + 1) if k > 1 else ["x"], "list")), Q("encode", None),
                               Q("encode_with_state", arr(bits(rng, k)), arr([0] * (sg + 1)))])
        r = rng.random()
        if r < 0.6:
            return Q(rng.choice(CONV0))
        u = arr(bits(rng, k * rng.randint(1, 8)), iform(rng))
        return Q("encode", u) if r < 0.8 else Q("encode_with_state", u, arr(bits(rng, sg)))
    if fam in ("mealy", "moore"):
        S, X = len(s["T"]), len(s["T"][0])
        if invalid:
            return rng.choice([Q("process", arr([X + 5]), 0), Q("process", arr([0]), S + 3), Q("process", None, 0)])
        r = rng.random()
        names = ["num_states", "num_input_symbols", "num_output_symbols"]
        if fam == "mealy":
            names += ["input_edges", "output_edges"]
        if r < 0.35:
            return Q(rng.choice(names))
        if r < 0.6 or fam == "moore":
            return Q("process", arr([rng.randrange(X) for _ in range(rng.randint(1, 9))], "int64"), rng.randrange(S))
        Y = max(map(max, s["O"])) + 1
        L = rng.randint(1, 6)
        tab = [[rng.randint(0, 8) / 2 for _ in range(Y)] for _ in range(L)]
        if r < 0.8:
            return Q("viterbi", arr(list(range(L))), {"metric": tab})
        return Q("forward_backward", arr(list(range(L))), {"metric": tab})
    if fam == "labeling":
        m = labeling_bits(s["lab"])
        if invalid:
            return rng.choice([Q("indices_to_bits", arr([2**m + 1])), Q("bits_to_indices", arr([0] * (m + 1))),
                               Q("marginalize", arr([0.5] * (2**m + 1), "float64"))])
        r = rng.random()
        if r < 0.4:
            return Q(rng.choice(["matrix", "num_bits", "cardinality", "inverse_mapping"]))
        if r < 0.65:
            return Q("indices_to_bits", arr([rng.randrange(2**m) for _ in range(rng.randint(1, 6))], iform(rng)))
        if r < 0.85:
            return Q("bits_to_indices", arr(batch(rng, m, bits), iform(rng)))
        return Q("marginalize", arr([rng.randint(1, 9) / 8 for _ in range(2**m * rng.randint(1, 2))], fform(rng)))
    if fam == "constellation":
        M, N = constellation_order(s["con"]), constellation_dim(s["con"])
        if invalid:
            return rng.choice([Q("indices_to_symbols", arr([M + 7])), Q("mean", arr([0.5] * (M + 1), "float64")),
                               Q("posteriors", arr([0.0] * N, "float64"), 1.0, arr([2.0] * M, "float64"))]
                              + ([Q("closest_indices", arr([0.0] * (N + 1), "float64"))] if N > 1 else []))
        r = rng.random()
        w = [rng.randint(1, 5) for _ in range(M)]
        pri = arr([x / sum(w) for x in w], "float64")
        if r < 0.4:
            return Q(rng.choice(["matrix", "order", "dimension", "mean", "mean_energy", "minimum_distance"]))
        if r < 0.5:
            return Q(rng.choice(["mean", "mean_energy"]), pri)
        if r < 0.65:
            return Q("indices_to_symbols", arr([rng.randrange(M) for _ in range(rng.randint(1, 5))], iform(rng)))
        b = rng.randint(1, 3)
        pts = reals(rng, N * b)
        rec = {"cplx": [pts, reals(rng, N * b)]} if constellation_complex(s["con"]) else arr(pts, fform(rng))
        if r < 0.85:
            return Q(rng.choice(["closest_indices", "closest_symbols"]), rec)
        return Q("posteriors", rec, rng.choice([0.5, 1.0, 2.0]), *([pri] if rng.random() < 0.5 else []))
    if fam == "source":
        src = s["src"]
        k = src["kind"]
        if invalid:
            return rng.choice([Q("encode", arr([-1])), Q("decode", "abc"), Q("encode", None),
                               Q("decode", arr([[0, 1], [1, 0]]))])
        r = rng.random()
        f2v = k in ("huffman", "shannon", "fano", "f2v-tree", "f2v-lengths", "f2v-mapping")
        v2f = k in ("tunstall", "v2f-tree", "v2f-mapping")
        if (f2v or v2f) and r < 0.45:
            return Q(rng.choice(SRC_F2V if f2v else SRC_V2F))
        if (f2v or v2f) and r < 0.55:
            return Q("rate", arr([1 / sc.cardinality(src)] * sc.cardinality(src), "float64"))
        if k in ("lz77", "lzss") and r < 0.15:
            return Q(rng.choice(["window_size"] + (["break_even"] if k == "lzss" else [])))
        m = sc.gen_message(rng, src, 60)
        if r < 0.7:
            return Q("encode", arr(m, rng.choice(["int64", "list", "readonly"])))
        if k in ("lz77", "lzss", "lz78") and r < 0.8:
            return Q("source_to_tokens", arr(m, "int64"))
        return {"m": "roundtrip", "a": [arr(m, "int64")], "kw": {}}
    if fam == "quantizer":
        if invalid:
            return rng.choice([Q("digitize", "abc"), Q("quantize", None), Q("mean_squared_error", None, [0, 1])])
        r = rng.random()
        if r < 0.4:
            return Q(rng.choice(["levels", "thresholds"]))
        if r < 0.9:
            return Q(rng.choice(["digitize", "quantize"]), arr(batch(rng, rng.randint(1, 6), reals), fform(rng)))
        return Q("mean_squared_error", {"pdf": rng.choice(["uniform", "triangle"])}, {"tup": [-1.0, 1.0]},
                 points_per_interval=64)
    if fam == "sequence":
        if invalid:
            return Q("autocorrelation", "abc")
        cplx = s["kind"] in ("complex", "zc")
        r = rng.random()
        if r < 0.4:
            return Q(rng.choice(["length", "sequence"] if cplx else ["length", "bit_sequence", "polar_sequence"]))
        return Q(rng.choice(["autocorrelation", "cyclic_autocorrelation"]),
                 **({"shifts": arr([rng.randint(0, 3) for _ in range(3)])} if rng.random() < 0.5 else {}),
                 normalized=rng.random() < 0.5)
    if fam == "field":
        o = 2 ** s["m"]
        if invalid:
            return rng.choice([{"m": "elem", "op": "inverse", "x": 0}, {"m": "elem", "op": "log", "x": 0, "y": 1},
                               {"m": "elem", "op": "foreign", "x": 1}])
        r = rng.random()
        if r < 0.2:
            return Q(rng.choice(["order", "zero", "one", "characteristic", "degree", "modulus"]))
        op = rng.choice(["+", "*", "/", "**", "inverse", "log", "conjugates", "minimal_polynomial", "hash", "=="])
        return {"m": "elem", "op": op, "x": rng.randrange(1, o), "y": rng.randrange(1, o), "e": rng.randint(0, 6)}
    if fam == "poly":
        a, b = rng.getrandbits(rng.randint(1, 12)) | 1, rng.getrandbits(rng.randint(1, 8)) | 1
        if invalid:
            return {"m": "poly", "op": "divmod", "x": a, "y": 0}
        return {"m": "poly", "op": rng.choice(["gcd", "xgcd", "lcm", "divmod", "*", "is_irreducible", "is_primitive",
                                               "exponents", "coefficients", "reciprocal", "evaluate", "degree",
                                               "fraction"]), "x": a, "y": b}
    if fam == "markov":
        n = len(s["P"])
        if invalid:
            return rng.choice([Q("period", n + 3), Q("accessible_states_from", n + 2), Q("simulate", n + 5, 3),
                               Q("simulate_until_absorption", n + 4)])
        r = rng.random()
        if r < 0.75:
            return Q(rng.choice(MARKOV0))
        return Q(rng.choice(["period", "accessible_states_from"]), rng.randrange(n))
    if fam == "channel":
        rows = len(s["P"]) if s["kind"] == "dmc" else 2
        if invalid:
            return rng.choice([Q("mutual_information", arr([0.7] * rows, "float64")), Q("capacity", -1.0),
                               Q("transmit", "abc")])
        r = rng.random()
        if r < 0.4:
            return Q(rng.choice(["input_cardinality", "output_cardinality", "transition_matrix"]))
        if r < 0.7:
            return Q("capacity", *([rng.choice([2.0, "e", 3.0])] if rng.random() < 0.5 else []))
        w = [rng.randint(1, 5) for _ in range(rows)]
        return Q("mutual_information", arr([x / sum(w) for x in w], "float64"))
    if fam == "dms":
        if invalid:
            return rng.choice([Q("entropy_rate", -1.0), Q("emit", "x")])
        return Q(rng.choice(["pmf", "cardinality", "entropy_rate"]))
    if fam == "pulse":
        if invalid:
            return rng.choice([Q("taps", 4, {"tup": []}), Q("waveform", "abc")])
        r = rng.random()
        if r < 0.3:
            return Q(rng.choice(["energy", "support"]))
        if r < 0.8:
            return Q(rng.choice(["waveform", "spectrum", "autocorrelation", "energy_spectral_density"]),
                     arr(reals(rng, rng.randint(1, 5)), fform(rng)))
        return Q("taps", rng.randint(1, 4), {"tup": [-2, 2]})
    raise ValueError(fam)


def decode_arg(a):
    import numpy as np

    if isinstance(a, dict):
        if "arr" in a:
            d = a["arr"]
            if a["f"] == "list":
                return d
            if a["f"] in ("strided", "readonly", "fortran", "uint8", "int32") and np.asarray(d).size == 0:
                return np.asarray(d, dtype=int)
            if a["f"] == "uint8" and np.asarray(d).size and np.asarray(d).max() > 255:
                return np.asarray(d)
            return codes.form_array(d, a["f"]) if np.asarray(d).size else np.array([], dtype=int)
        if "cplx" in a:
            return np.array(a["cplx"][0]) + 1j * np.array(a["cplx"][1])
        if "poly" in a:
            import komm
            return komm.BinaryPolynomial(a["poly"])
        if "pdf" in a:
            return pdf(a["pdf"])
        if "tup" in a:
            return tuple(a["tup"])
        if "metric" in a:
            t = a["metric"]
            return lambda y, z: t[int(z)][int(y)]
    return a


def prepare(q):
    """Arguments of the query, built ahead of time (so that harness work is not part of the call)."""
    return [decode_arg(a) for a in q.get("a", [])], {k: decode_arg(v) for k, v in q.get("kw", {}).items()}


def perform(obj, q, prepared):
    """The raw call on the library."""
    args, kw = prepared
    m = q["m"]
    if m == "elem":
        x = obj(q["x"])
        op = q["op"]
        if op == "inverse":
            return x.inverse()
        if op == "conjugates":
            return x.conjugates()
        if op == "minimal_polynomial":
            return x.minimal_polynomial()
        if op == "hash":
            return hash(x)
        if op == "foreign":
            import komm
            return x + komm.FiniteBifield(obj.degree + 1)(1)
        y = obj(q["y"])
        if op == "log":
            return y.logarithm(x)
        if op == "**":
            return x ** q["e"]
        return {"+": lambda: x + y, "*": lambda: x * y, "/": lambda: x / y, "==": lambda: x == y}[op]()
    if m == "poly":
        import komm
        x, y = obj(q["x"]), obj(q["y"])
        op = q["op"]
        if op in ("gcd", "xgcd", "lcm"):
            return getattr(obj, op)(x, y)
        if op == "divmod":
            return divmod(x, y)
        if op == "*":
            return x * y
        if op == "evaluate":
            return x.evaluate(y)
        if op == "degree":
            return x.degree
        if op == "fraction":
            return komm.BinaryPolynomialFraction(x, y) + komm.BinaryPolynomialFraction(1, x)
        return getattr(x, op)()
    if m == "roundtrip":
        return obj.decode(obj.encode(args[0]))
    v = getattr(obj, m)
    return v(*args, **kw) if callable(v) else v


def image(v):
    """JSON image of a returned value (see util.enc), with machines and callables by their state."""
    from .util import enc

    return enc(v)


def ask(obj, q, buffers=None):
    """-> (image or ['exc'], arguments modified?, the raw value)

    With `buffers`, equal-sized arguments of successive calls are written into the same arrays, as a caller does who
    receives into one buffer."""
    from .util import snapshot

    prepared = prepare(q)
    if buffers is not None:
        import numpy as np

        for i, a in enumerate(prepared[0]):
            if isinstance(a, np.ndarray) and a.flags.writeable and a.flags.c_contiguous and a.size:
                b = buffers.get((i, a.shape, str(a.dtype)))
                if b is None:
                    buffers[i, a.shape, str(a.dtype)] = a
                else:
                    b[...] = a
                    prepared[0][i] = b
                    buffers["reused"] = buffers.get("reused", 0) + 1
    before = [snapshot(a) for a in prepared[0]] + [snapshot(prepared[1][k]) for k in sorted(prepared[1])]
    raw = None
    try:
        raw = perform(obj, q, prepared)
        img = image(raw)
    except Exception as e:  # the kind of error is not compared, only that there is one
        img = ["exc"]
        raw = e
    after = [snapshot(a) for a in prepared[0]] + [snapshot(prepared[1][k]) for k in sorted(prepared[1])]
    return img, before != after, raw


def agree(a, b, tol=1e-9):
    """Equality of two images: exact, except that floats may differ in the last places."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and len(b) == 2 and a[0] == b[0] == "f":
            return close(a[1], b[1], tol)
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b or close(a, b, tol)
    return a == b


def close(a, b, tol):
    try:
        x = float.fromhex(a) if "0x" in a else float(a)
        y = float.fromhex(b) if "0x" in b else float(b)
    except ValueError:
        return a == b
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * (1 + abs(x))


def show_query(q):
    if q["m"] in ("elem", "poly"):
        return f"{q['op']}({q.get('x')}, {q.get('y')})"
    a = ", ".join(str(x.get("arr", x) if isinstance(x, dict) else x)[:80] for x in q.get("a", []))
    return f"{q['m']}({a})"
