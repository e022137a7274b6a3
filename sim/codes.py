"""Random code specifications, their independently computed parameters, and builders."""

from functools import lru_cache

from . import gf2
from .core import canonical

BOSE = {3: [3, 7], 4: [3, 5, 7, 15], 5: [3, 5, 7, 11, 15, 31],
        6: [3, 5, 7, 9, 11, 13, 15, 21, 23, 27, 31, 63],
        # the smaller half of the Bose distances of longer codes
        7: [3, 5, 7, 9, 11, 13, 15, 19, 21, 23, 27, 29, 31, 43, 47, 55, 63, 127],
        8: [3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 37, 39, 43, 45, 47, 51, 53, 55, 59, 61, 63],
        9: [3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31], 10: [3, 5, 7, 9, 11, 13]}


# -------------------------------------------------------------------------------- builders


# when not None: the constructors' matrices are the caller's own arrays, shared by everything built from the same data
CTOR = None


def ctor(data, form="list"):
    """A constructor argument; C09 watches what becomes of the caller's array."""
    if CTOR is None:
        return form_array(data, form)
    import numpy as np

    key = (repr(data), form if form in ("bool", "uint8", "int8") else "")
    if key not in CTOR:
        a = form_array(data, key[1]) if key[1] else np.array(data)
        CTOR[key] = (a, a.tobytes())
    return CTOR[key][0]


def build_conv(c):
    import komm

    if c["cls"] == "Conv":
        return komm.ConvolutionalCode(c["ff"], c["fb"] if c.get("fb") else None)
    if c["cls"] == "Low":
        return komm.LowRateConvolutionalCode(c["g"])
    return komm.HighRateConvolutionalCode(c["h"])


def build(s):
    import komm

    c = s["cls"]
    if c == "BlockG":
        return komm.BlockCode(generator_matrix=ctor(s["G"], s.get("mt", "list")))
    if c == "BlockH":
        return komm.BlockCode(check_matrix=ctor(s["H"], s.get("mt", "list")))
    if c == "Sys":
        return komm.SystematicBlockCode(ctor(s["P"], s.get("mt", "list")), s["info"])
    if c == "Hamming":
        return komm.HammingCode(s["mu"], extended=s["ext"])
    if c == "Simplex":
        return komm.SimplexCode(s["mu"], extended=s["ext"])
    if c == "Golay":
        return komm.GolayCode(extended=s["ext"])
    if c == "Rep":
        return komm.RepetitionCode(s["n"])
    if c == "SPC":
        return komm.SingleParityCheckCode(s["n"])
    if c == "CW":
        return komm.CordaroWagnerCode(s["n"])
    if c == "RM":
        return komm.ReedMullerCode(s["rho"], s["mu"])
    if c == "Lex":
        return komm.Lexicode(s["n"], s["d"])
    if c == "BCH":
        return komm.BCHCode(s["mu"], s["delta"])
    if c == "Cyc":
        kw = {"generator_polynomial": s["g"]} if s["from"] == "g" else {"check_polynomial": s["h"]}
        return komm.CyclicCode(s["n"], systematic=s["sys"], **kw)
    if c == "Polar":
        return komm.PolarCode(s["mu"], s["frozen"])
    if c == "Term":
        return komm.TerminatedConvolutionalCode(build_conv(s["conv"]), s["h"], s["mode"])
    raise ValueError(c)


def label(s):
    c = s["cls"]
    if c == "Term":
        return f"Term/{s['conv']['cls']}/{s['mode']}" + ("/fb" if s["conv"].get("fb") else "")
    if c == "Cyc":
        return f"Cyc/{'sys' if s['sys'] else 'nonsys'}/{s['from']}"
    return c + ("/ext" if s.get("ext") else "")


# ------------------------------------------------------- independent parameters (n, k, d)


@lru_cache(4096)
def _info(key):
    import json

    s = json.loads(key)
    c = s["cls"]
    if c == "BlockG":
        rows = [gf2.row_int(r) for r in s["G"]]
        return len(s["G"][0]), len(rows), gf2.distance(rows, len(s["G"][0]))
    if c == "BlockH":
        n = len(s["H"][0])
        rows = gf2.null_space([gf2.row_int(r) for r in s["H"]], n)
        return n, n - len(s["H"]), gf2.distance(rows, n)
    if c == "Sys":
        k, m = len(s["P"]), len(s["P"][0])
        rows = [(1 << i) | (gf2.row_int(r) << k) for i, r in enumerate(s["P"])]
        return k + m, k, gf2.min_distance(rows)
    if c == "Hamming":
        n = 2 ** s["mu"] - 1
        return n + s["ext"], n - s["mu"], 4 if s["ext"] else 3
    if c == "Simplex":
        mu = s["mu"]
        return (2**mu, mu + 1, 2 ** (mu - 1)) if s["ext"] else (2**mu - 1, mu, 2 ** (mu - 1))
    if c == "Golay":
        return (24, 12, 8) if s["ext"] else (23, 12, 7)
    if c == "Rep":
        return s["n"], 1, s["n"]
    if c == "SPC":
        return s["n"], s["n"] - 1, 2
    if c == "CW":
        return s["n"], 2, -(-2 * s["n"] // 3) - 1
    if c == "RM":
        from math import comb

        return 2 ** s["mu"], sum(comb(s["mu"], i) for i in range(s["rho"] + 1)), 2 ** (s["mu"] - s["rho"])
    if c == "Lex":
        return s["n"], lexicode_dim(s["n"], s["d"]), s["d"]
    if c == "BCH":
        n = 2 ** s["mu"] - 1
        return n, n - gf2.bch_redundancy(s["mu"], s["delta"]), s["delta"]
    if c == "Cyc":
        n, g = s["n"], s["g"]
        k = n - (g.bit_length() - 1)
        return n, k, gf2.distance([g << i for i in range(k)], n)
    if c == "Polar":
        n = 2 ** s["mu"]
        rows = [polar_row(s["mu"], i) for i in range(n) if i not in s["frozen"]]
        return n, len(rows), gf2.distance(rows, n)
    if c == "Term":
        k0, n0, nus = gf2.conv_params(s["conv"])
        h, mode = s["h"], s["mode"]
        n = n0 * (h + (max(nus) if mode == "zero-termination" else 0))
        k = h * k0
        if k > 14 and ml_exact_termination(s["conv"], mode):
            return n, k, gf2.trellis_distance(s["conv"], h, mode)
        return n, k, gf2.distance(term_rows(s), n)
    raise ValueError(c)


def info(s):
    return _info(canonical(s))


def term_rows(s):
    k0, _, _ = gf2.conv_params(s["conv"])
    k = s["h"] * k0
    return [gf2.row_int(gf2.terminated_encode(s["conv"], s["h"], s["mode"],
                                              [int(i == j) for j in range(k)])) for i in range(k)]


def polar_row(mu, i):
    n, row = 2**mu, 0
    for j in range(n):
        if j & ~i == 0:  # binomial parity of the kernel [[1,0],[1,1]]
            row |= 1 << j
    return row


@lru_cache(None)
def lexicode_dim(n, d):
    words, basis = [0], 0
    for i in range(1, 2**n):
        if all((c ^ i).bit_count() >= d for c in words):
            words += [c ^ i for c in words]
            basis += 1
    return basis


# ---------------------------------------------------------------------- random generation


def full_rank(rng, k, n):
    while True:
        rows = [rng.getrandbits(n) for _ in range(k)]
        if gf2.rank(rows) == k:
            return [gf2.int_row(r, n) for r in rows]


def gen_poly(rng, deg, lead=False, const=False):
    p = rng.getrandbits(deg + 1)
    if lead:
        p |= 1 << deg
    if const:
        p |= 1
    return p


def gen_conv(rng, max_states=4, k_max=2, feedback=None, equal_nu=False, classes=("Conv", "Low", "High"),
             wide=True):
    """A random convolutional encoder with at most 2**max_states states and nonzero rows/columns."""
    while True:
        cls = rng.choice(classes)
        if cls == "Low":
            nu = rng.randint(0 if rng.random() < 0.1 else 1, max_states)
            n = rng.randint(2, 3)
            if wide and rng.random() < 0.05:
                n = rng.choice([5, 6, 7, 8, 9, 12])
            g = [gen_poly(rng, nu) for _ in range(n)]
            if any(p == 0 for p in g) or max(p.bit_length() for p in g) - 1 != nu:
                continue
            return {"cls": "Low", "g": g}
        if cls == "High":
            nu = rng.randint(0 if rng.random() < 0.1 else 1, max_states)
            k = rng.randint(1, k_max)
            h = [gen_poly(rng, nu) for _ in range(k)] + [gen_poly(rng, nu, const=True)]
            if any(p == 0 for p in h) or max(p.bit_length() for p in h) - 1 != nu:
                continue
            return {"cls": "High", "h": h}
        k = rng.randint(1, k_max)
        n = rng.randint(k, k + 2) if k > 1 else rng.randint(1 if rng.random() < 0.1 else 2, 3)
        if wide and rng.random() < 0.05:
            n = rng.choice([5, 6, 7, 8, 9, 12])
        use_fb = rng.random() < 0.35 if feedback is None else feedback
        nu_total = rng.randint(0 if rng.random() < 0.15 else 1, max_states)
        if equal_nu:
            nus = [max(nu_total // k, 0)] * k
        else:
            cuts = sorted(rng.randint(0, nu_total) for _ in range(k - 1))
            nus = [b - a for a, b in zip([0] + cuts, cuts + [nu_total])]
        ff, fb = [], []
        for nu in nus:
            ff.append([gen_poly(rng, nu) for _ in range(n)])
            fb.append(gen_poly(rng, rng.randint(0, nu), const=True) if use_fb else 1)
        c = {"cls": "Conv", "ff": ff, "fb": fb if use_fb else None}
        if gf2.conv_params(c)[2] != nus:
            continue
        if gf2.rank([gf2.row_int([p & 1 for p in ps]) for ps in ff]) < k and rng.random() < 0.8:
            continue
        return c


def ml_exact_termination(c, mode):
    """Domain in which the trellis of the terminated code is exactly the code (see DESIGN.md, finding F1)."""
    k, _, nus = gf2.conv_params(c)
    if mode == "direct-truncation":
        return True
    if mode == "zero-termination":
        return k == 1 and c["cls"] != "High" or (c["cls"] == "Conv" and len(set(nus)) == 1) or (
            c["cls"] == "High" and k == 1)
    return False


def gen_term(rng, max_k=10, max_n=40, modes=None, max_states=4):
    while True:
        mode = rng.choice(modes or ["direct-truncation", "zero-termination", "tail-biting"])
        eq = mode == "zero-termination"
        c = gen_conv(rng, max_states=max_states, equal_nu=eq,
                     feedback=False if mode == "tail-biting" else None,
                     classes=("Conv", "Conv", "Low") if mode != "direct-truncation" else ("Conv", "Conv", "Low", "High"))
        if mode == "zero-termination" and not ml_exact_termination(c, mode):
            continue
        k0, n0, nus = gf2.conv_params(c)
        hmax = max_k // k0
        if hmax < 1:
            continue
        s = {"cls": "Term", "conv": c, "h": rng.randint(1, hmax), "mode": mode}
        h = s["h"]
        n = n0 * (h + (max(nus) if mode == "zero-termination" else 0))
        if n > max_n or h * k0 > n:
            continue
        if gf2.rank(term_rows(s)) < h * k0:
            continue
        return s


FAMILIES = ["BlockG", "BlockH", "Sys", "Hamming", "Simplex", "Golay", "Rep", "SPC", "CW", "RM", "Lex",
            "BCH", "Cyc", "Polar", "Term"]


def gen_code(rng, families=None, max_k=10, big=False):
    s = gen_code_spec(rng, families, max_k, big)
    if s["cls"] in ("BlockG", "BlockH", "Sys"):
        s["mt"] = rng.choice(["list", "list"] + INT_FORMS)  # the type of the matrix it is built from
    return s


def gen_huge(rng, f):
    """Codes of the sizes used in practice (None if the family has none)."""
    if f == "BCH":
        mu = rng.choice([7, 7, 8, 8, 9, 10])
        return {"cls": f, "mu": mu, "delta": rng.choice(BOSE[mu])}
    if f == "RM":
        mu, rho = rng.choice([(6, 2), (6, 3), (6, 4), (7, 2), (7, 3), (8, 2)])
        return {"cls": f, "rho": rho, "mu": mu}
    if f == "Hamming":
        return {"cls": f, "mu": rng.choice([7, 8, 9]), "ext": rng.random() < 0.5}
    if f == "SPC":
        return {"cls": f, "n": rng.choice([66, 129, 200, 256])}
    if f == "CW":
        return {"cls": f, "n": rng.choice([33, 64, 130])}
    if f == "Polar":
        mu = rng.choice([6, 6, 7, 8])
        n = 2**mu
        return {"cls": f, "mu": mu, "frozen": rng.sample(range(n), rng.choice([1, n // 2, n // 4, n - 3]))}
    if f in ("BlockG", "BlockH"):
        k, n = rng.randint(10, 50), rng.randint(60, 90)
        return {"cls": f, "G" if f == "BlockG" else "H": full_rank(rng, k, n)}
    if f == "Term":
        while True:
            s = gen_term(rng, max_k=rng.choice([40, 120]), max_n=400, max_states=rng.choice([4, 6]),
                         modes=["direct-truncation", "zero-termination"])
            if s["h"] >= 10:
                return s
    return None


def gen_code_spec(rng, families, max_k, big):
    """One random code specification; `big` allows dimensions too large to enumerate."""
    if big and rng.random() < 0.2:
        s = gen_huge(rng, rng.choice(families or FAMILIES))
        if s is not None:
            return s
    while True:
        f = rng.choice(families or FAMILIES)
        if f == "BlockG":
            if rng.random() < 0.15:
                k, n = rng.randint(1, 4), rng.randint(20, 70)  # long words
            else:
                k = rng.randint(1, max_k if rng.random() < 0.3 else min(max_k, 6))
                n = k + rng.randint(0 if rng.random() < 0.1 else 1, 8)
            return {"cls": f, "G": full_rank(rng, k, n)}
        if f == "BlockH":
            m = rng.randint(1, 8)
            n = m + rng.randint(1, min(max_k, 7))
            return {"cls": f, "H": full_rank(rng, m, n)}
        if f == "Sys":
            k, m = rng.randint(1, min(max_k, 7)), rng.randint(1, 8)
            P = [[rng.getrandbits(1) for _ in range(m)] for _ in range(k)]
            r = rng.random()
            inf = "left" if r < 0.3 else "right" if r < 0.5 else rng.sample(range(k + m), k)
            if not isinstance(inf, str) and rng.random() < 0.5:
                inf.sort()
            return {"cls": f, "P": P, "info": inf}
        if f == "Hamming":
            mu = rng.choice([2, 3, 3, 4] + ([5, 6] if big else []))
            ext = rng.random() < 0.5
            if 2**mu - 1 - mu > max_k and not big:
                continue
            return {"cls": f, "mu": mu, "ext": ext}
        if f == "Simplex":
            return {"cls": f, "mu": rng.randint(2, 5) if rng.random() < 0.9 else rng.choice([6, 7, 8]),
                    "ext": rng.random() < 0.5}
        if f == "Golay":
            if max_k < 12 and not big:
                continue
            return {"cls": f, "ext": rng.random() < 0.5}
        if f == "Rep":
            return {"cls": f, "n": rng.choice([1, 2, 3, 4, 5, 7, 9, 17, 33, 65, 129, 151, 257, 300])}
        if f == "SPC":
            n = rng.choice([2, 3, 4, 5, 6, 8, 9, 11] + ([16, 17, 33, 65] if big else []))
            if n - 1 > max_k and not big:
                continue
            return {"cls": f, "n": n}
        if f == "CW":
            return {"cls": f, "n": rng.randint(2, 20)}
        if f == "RM":
            mu = rng.randint(1, 5)
            rho = rng.randint(0, mu - 1)
            if rng.random() < 0.08:
                mu, rho = rng.choice([(6, 1), (7, 1), (8, 1), (8, 0)])
            s = {"cls": f, "rho": rho, "mu": mu}
            if info(s)[1] > max_k and not big:
                continue
            return s
        if f == "Lex":
            n = rng.randint(1, 10)
            s = {"cls": f, "n": n, "d": rng.randint(1, n)}
            if info(s)[1] > max_k or info(s)[1] == 0:
                continue
            return s
        if f == "BCH":
            mu = rng.choice([3, 4, 4, 5] + ([6] if big else []))
            s = {"cls": f, "mu": mu, "delta": rng.choice(BOSE[mu])}
            if info(s)[1] > max_k and not big:
                continue
            return s
        if f == "Cyc":
            n = rng.choice([3, 5, 6, 7, 7, 9, 10, 12, 14, 15, 15, 17, 21, 23, 31])
            fs = list(gf2.factor((1 << n) | 1))
            rng.shuffle(fs)
            g = 1
            for p in fs[: rng.randint(1, len(fs) - 1)]:
                g = gf2.pmul(g, p)
            h, r = gf2.pdivmod((1 << n) | 1, g)
            k = h.bit_length() - 1
            if r or k < 1 or (k > max_k and not big) or k == n:
                continue
            return {"cls": f, "n": n, "g": g, "h": h, "sys": rng.random() < 0.5, "from": rng.choice("gh")}
        if f == "Polar":
            mu = rng.randint(1, 4 if not big else 5)
            n = 2**mu
            k = rng.randint(1, min(n, max_k) if not big else n)
            s = {"cls": f, "mu": mu, "frozen": rng.sample(range(n), n - k)}
            return s
        if f == "Term":
            return gen_term(rng, max_k=max_k)


# ------------------------------------------------------------------------------- decoders


def hard_decoders(s):
    """Names of hard-decision decoders the library offers for the code (within cost limits)."""
    n, k, _ = info(s)
    out = []
    if k <= 12:
        out.append("exhaustive")
    if 1 <= n - k <= 12:
        out.append("syndrome")
    if s["cls"] == "BCH":
        out += ["berlekamp", "berlekamp"]
    if s["cls"] == "RM":
        out += ["reed", "reed"]
    if s["cls"] == "Term" and ml_exact_termination(s["conv"], s["mode"]):
        out += ["viterbi", "viterbi"]
    return out


def soft_decoders(s):
    n, k, _ = info(s)
    out = []
    if k <= 12:
        out.append("exhaustive-soft")
    if s["cls"] == "RM":
        out += ["reed-soft", "reed-soft"]
    if s["cls"] == "SPC":
        out += ["wagner", "wagner"]
    if s["cls"] == "Term" and ml_exact_termination(s["conv"], s["mode"]):
        out += ["viterbi-soft", "viterbi-soft"]
    return out


def build_decoder(name, code):
    import komm

    return {
        "exhaustive": lambda: komm.ExhaustiveSearchDecoder(code),
        "exhaustive-soft": lambda: komm.ExhaustiveSearchDecoder(code, input_type="soft"),
        "syndrome": lambda: komm.SyndromeTableDecoder(code),
        "berlekamp": lambda: komm.BerlekampDecoder(code),
        "reed": lambda: komm.ReedDecoder(code),
        "reed-soft": lambda: komm.ReedDecoder(code, input_type="soft"),
        "viterbi": lambda: komm.ViterbiDecoder(code),
        "viterbi-soft": lambda: komm.ViterbiDecoder(code, input_type="soft"),
        "wagner": lambda: komm.WagnerDecoder(code),
        "bcjr": lambda: komm.BCJRDecoder(code, output_type="hard"),
        "bcjr-soft": lambda: komm.BCJRDecoder(code, output_type="soft"),
        "sc": lambda: komm.SCDecoder(code, output_type="hard"),
        "sc-soft": lambda: komm.SCDecoder(code, output_type="soft"),
    }[name]()


# --------------------------------------------------------------------- arrays and batches

INT_FORMS = ["int64", "int64", "int32", "int8", "uint8", "bool", "list", "readonly", "strided", "fortran", "uint64",
             "int16", "uint16", ">i4", ">i8"]
QUANTISED = {"int8": (32, 127), "int16": (4096, 32767), "int64": (8, 2**40)}
# the last two are left out where results are compared to floating-point accuracy
FLOAT_FORMS = ["float64", "float64", ">f8", "list", "readonly", "strided", "fortran", "int8", "int16", "int64", "float32"]


def quantise(rows, form, low=True, cap=2**40):
    """What a receiver with an integer front end would deliver (the identity for floating-point forms)."""
    if form not in QUANTISED:
        return rows
    scale, top = QUANTISED[form]
    if cap < top:
        scale, top = min(scale, 3), cap
    return [[max(-top - low, min(top, round(scale * v))) for v in row] for row in rows]


def form_array(data, form):
    """The caller's array in one of many legal guises (data: nested lists)."""
    import numpy as np

    if form == "list":
        return data
    a = np.array(data)
    if form in ("int64", "int32", "int8", "uint8", "bool", "uint64", "float64", "float32", "int16", "uint16", ">i4", ">i8", ">f8"):
        return a.astype(form)
    if form == "readonly":
        a.setflags(write=False)
        return a
    if form == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if form == "fortran":
        return np.asfortranarray(a)
    raise ValueError(form)


def gen_message(rng, k):
    r = rng.random()
    if r < 0.08:
        return [0] * k
    if r < 0.16:
        return [1] * k
    if r < 0.24:
        m = [0] * k
        m[rng.randrange(k)] = 1
        return m
    return [rng.getrandbits(1) for _ in range(k)]


def gen_batches(rng, nframes, dup=True, reorder=True):
    """A delivery schedule: batches of frame indices, out of order and possibly repeated."""
    order = list(range(nframes))
    if reorder and rng.random() < 0.6:
        rng.shuffle(order)
    if dup and rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            order.insert(rng.randrange(len(order) + 1), rng.randrange(nframes))
    batches, i = [], 0
    while i < len(order):
        b = rng.choice([1, 1, 2, 3, 4, len(order)])
        batches.append(order[i:i + b])
        i += b
    return batches


def gen_shape(rng, b):
    """How a batch of b frames is laid out: list of leading dims, last axis holds the rest."""
    opts = [[], [b]]
    for d in range(2, b):
        if b % d == 0:
            opts += [[d], [d, b // d]]
    opts.append([1, b])
    opts.append([1])
    return rng.choice(opts)


def lay_out(rows, lead):
    """rows: list of equal-length lists -> nested list with leading dims `lead`."""
    import numpy as np

    a = np.array(rows)
    width = a.shape[1]
    total = a.shape[0]
    lead = [int(x) for x in lead]
    p = 1
    for x in lead:
        p *= x
    if p == 0 or total % p:
        lead, p = [], 1
    return a.reshape(*lead, (total // p) * width).tolist(), lead, total // p


def blocks_of(out, b, width):
    """Split an output into b rows of the given width (None if its size is wrong)."""
    import numpy as np

    out = np.asarray(out)
    if out.size != b * width:
        return None
    return out.reshape(b, width)
