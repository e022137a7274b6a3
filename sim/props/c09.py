"""C09: answers never depend on what was asked before."""

import gc

from .. import codes, core, gf2, objects
from ..source_codes import cardinality
from ..util import snapshot  # noqa: F401  (used through objects.ask)

PAST = False  # runs make their own histories
RUNS = {"quick": 8000, "thorough": 60000}
TIME_UNIT = "operations"
RULE = ("2-6 live objects of 1-3 kinds (equal twins, and siblings that agree in every dimension but differ in "
        "content; sometimes large objects that differ in one parameter, or small ones that differ in a digit that "
        "is not printed), 6-40 operations in random order: queries, repeated queries, calls with invalid arguments, "
        "an object dropped and replaced by an equal or different one at the same place, garbage collections.  Oracle: "
        "the answer of a fresh object in a fresh process, for every distinct (object, query).")
STUBS = ["host process: object lifetimes and the order of operations are the plan's"]
ASSUMPTIONS = ["floating-point answers are compared with relative tolerance 1e-9, everything else exactly",
               "callers do not modify arrays the library returned to them (some are shared caches)",
               "calls with invalid arguments may raise any Exception; only their after-effects are judged"]
PROBES = ["near-twin", "failed-call", "repeat", "twin", "sibling", "replaced", "collected", "shared-constructor-array",
          "reused-buffer"]
SHRINK = ["ops", "specs"]


def shape_of(s):
    f = s["fam"]
    if f in ("code", "slepian", "decoder"):
        from .. import codes
        return (f, s["code"]["cls"], s.get("dec"), codes.info(s["code"])[:2])
    if f == "conv":
        from .. import gf2
        return (f, gf2.conv_params(s["conv"])[:2])
    if f in ("mealy", "moore"):
        return (f, len(s["T"]), len(s["T"][0]))
    if f == "labeling":
        return (f, objects.labeling_bits(s["lab"]))
    if f == "constellation":
        return (f, s["con"]["kind"])
    if f == "source":
        return (f, s["src"]["kind"], cardinality(s["src"]))
    if f == "markov":
        return (f, len(s["P"]))
    if f == "channel":
        return (f, s["kind"], len(s.get("P", [])))
    if f == "field":
        return (f, s["m"])
    if f == "pulse":
        return (f, s["cls"])
    return (f, s.get("kind"))


def turned(x):
    return x[1:] + x[:1]


def related_conv(rng, c):
    """Another encoder with the same transfer function or the same code, but other states or inputs."""
    if c["cls"] == "Low":
        return {"cls": "Conv", "ff": [c["g"]], "fb": None}
    if c["cls"] == "High":
        *h, q = c["h"]
        return {"cls": "Conv", "ff": [[q if j == i else 0 for j in range(len(h))] + [p] for i, p in enumerate(h)],
                "fb": [q] * len(h)}
    fb = c.get("fb") or [1] * len(c["ff"])
    if len(fb) == 1:
        row, q = c["ff"][0], fb[0]
        if len(row) == 2 and row[0] == q and q & 1 and row[1] and q > 1 and rng.random() < 0.8:
            return {"cls": "High", "h": [row[1], q]}
        if q == 1 and rng.random() < 0.5 and len(row) > 1:
            return {"cls": "Low", "g": row}
        return {"cls": "Conv", "ff": [turned(row)], "fb": c.get("fb")}
    return {"cls": "Conv", "ff": turned(c["ff"]), "fb": turned(fb) if c.get("fb") else None}


def related_code(rng, c):
    c = dict(c)
    k = c["cls"]
    if k == "BlockG":
        c["G"] = turned(c["G"])
    elif k == "BlockH":
        c["H"] = turned(c["H"])
    elif k == "Sys":
        if isinstance(c["info"], str):
            c["info"] = "right" if c["info"] == "left" else "left"
        else:
            c["info"] = turned(c["info"])
    elif k in ("Hamming", "Simplex", "Golay"):
        c["ext"] = not c["ext"]
    elif k == "Cyc":
        if rng.random() < 0.7:
            c["sys"] = not c["sys"]
        else:
            c["from"] = "h" if c["from"] == "g" else "g"
    elif k == "Term":
        from .. import codes
        d = dict(c, mode=rng.choice(["direct-truncation", "zero-termination", "tail-biting"]))
        if rng.random() < 0.4:
            d = dict(c, conv=related_conv(rng, c["conv"]))
        v = d["conv"]
        if d["mode"] != "direct-truncation" and (v["cls"] == "High" or v.get("fb")):
            return None
        if d["mode"] == "zero-termination" and not codes.ml_exact_termination(v, d["mode"]):
            return None
        if gf2.rank(codes.term_rows(d)) < d["h"] * gf2.conv_params(v)[0]:
            return None
        n, dim, _ = codes.info(d)
        return d if n - dim <= 8 and n <= 24 else None
    else:
        return None
    return c


def relative(rng, s):
    """An object that shares most of its content with s: another realisation, a permuted or re-typed matrix."""
    t = dict(s)
    if s["fam"] == "conv":
        t["conv"] = related_conv(rng, s["conv"])
    elif s["fam"] in ("code", "slepian"):
        t["code"] = related_code(rng, s["code"])
        if t["code"] is None:
            return None
        if rng.random() < 0.3:
            t["fam"] = "code"
    elif s["fam"] == "decoder":
        from .. import codes
        other = [d for d in codes.hard_decoders(s["code"]) + codes.soft_decoders(s["code"]) if d != s["dec"]]
        if not other or rng.random() < 0.3:
            return {"fam": "code", "code": s["code"]}
        t["dec"] = rng.choice(other)
    elif s["fam"] in ("mealy", "moore"):
        t["O"] = turned(s["O"])
    elif s["fam"] == "labeling" and s["lab"]["kind"] == "custom":
        t["lab"] = dict(s["lab"], matrix=turned(s["lab"]["matrix"]))
    elif s["fam"] == "constellation" and "matrix" in s["con"]:
        t["con"] = dict(s["con"], matrix=turned(s["con"]["matrix"]))
    elif s["fam"] == "dms":
        t["pmf"] = turned(s["pmf"])
    elif s["fam"] == "channel" and "P" in s:
        t["P"] = turned(s["P"])
    elif s["fam"] == "quantizer" and s["kind"] == "scalar":
        t["levels"] = [x + 0.125 for x in s["levels"]]
        t["thresholds"] = [x + 0.125 for x in s["thresholds"]]
    else:
        return None
    return t


def sibling(rng, s):
    """Another object that looks like s from the outside."""
    if rng.random() < 0.4:
        t = relative(rng, s)
        if t is not None:
            return t
    want, best = shape_of(s), None
    for _ in range(60):
        t = objects.gen_spec(rng, s["fam"])
        if t == s:
            continue
        w = shape_of(t)
        if w == want:
            return t
        if best is None or w[:2] == want[:2]:
            best = t
    return best or objects.gen_spec(rng, s["fam"])


def pmf_of(rng, n):
    w = [rng.randint(1, 60) for _ in range(n)]
    return [x / sum(w) for x in w]


def change_pmf(rng, v, i, tiny):
    """Another distribution that agrees with v except at i and i + 1."""
    v = list(v)
    j = (i + 1) % len(v)
    d = min(v[i], v[j]) / 2
    d = min(d, 4e-8) if tiny else d
    v[i], v[j] = v[i] + d, v[j] - d
    return v


def generate_wide(rng):
    """Near-twins: objects of many parameters (more than NumPy prints in full), or few, that differ in one of them, in
    the middle or in a digit that is not printed."""
    kind = rng.choice(["G", "H", "P", "machine", "labeling", "constellation", "huffman", "f2v", "v2f", "levels", "dmc",
                       "dms", "markov", "sequence", "collide", "collide"])
    tiny = rng.random() < 0.3
    big = not tiny or kind in ("collide", "G", "H", "P", "machine", "labeling", "f2v", "v2f", "sequence")
    Q = lambda m, *a, **kw: {"m": m, "a": list(a), "kw": kw}
    bits, arr = objects.bits, objects.arr

    def mid(n):
        return rng.choice([n // 2, n // 2, rng.randrange(n), min(n - 1, 5)])

    if kind in ("G", "H", "P"):
        k = rng.choice([18, 20, 22])
        n = rng.choice([60, 64, 70])
        rows = [[int(i == j) for j in range(k)] + bits(rng, n - k) for i in range(k)] if kind == "P" else \
            codes.full_rank(rng, k, n)
        if kind == "P":
            base = {"cls": "Sys", "P": [r[k:] for r in rows], "info": rng.choice(["left", "right"])}
        else:
            base = {"cls": "Block" + kind, kind: rows}

        def change():
            key = "P" if kind == "P" else kind
            while True:
                M = [list(r) for r in base[key]]
                M[mid(k)][rng.randrange(3, len(M[0]) - 3)] ^= 1
                if kind == "P" or gf2.rank([gf2.row_int(r) for r in M]) == k:
                    break
            return {"fam": "code", "code": dict(base, **{key: M})}

        first = {"fam": "code", "code": base}
        dim = n - k if kind == "H" else k
        qs = [Q(m) for m in ("generator_matrix", "check_matrix", "generator_matrix_right_inverse")] + \
             [Q("encode", arr(bits(rng, dim))), Q("check", arr(bits(rng, n))), Q("project_word", arr(bits(rng, n)))]
    elif kind == "machine":
        S, X = rng.choice([300, 600]), rng.choice([2, 4])
        fam = rng.choice(["mealy", "moore"])
        # a long cycle, so that a long input visits every state
        T = [[(i + 1) % S] + [rng.randrange(S) for _ in range(X - 1)] for i in range(S)]
        O = [[rng.randrange(9) for _ in range(X)] for _ in range(S)] if fam == "mealy" else \
            [rng.randrange(9) for _ in range(S)]
        first = {"fam": fam, "T": T, "O": O}

        def change():
            i = mid(S)
            if rng.random() < 0.6:
                return dict(first, O=[(([8 - x for x in o] if fam == "mealy" else 8 - o) if j == i else o)
                                      for j, o in enumerate(O)])
            return dict(first, T=[[(i + 2) % S] + t[1:] if j == i else t for j, t in enumerate(T)])

        qs = [Q("process", arr([0] * (S + 5)), 0), Q("process", arr([rng.randrange(X) for _ in range(50)]), mid(S)),
              Q("num_output_symbols")] + ([Q("input_edges"), Q("output_edges")] if fam == "mealy" and S == 300 else [])
    elif kind == "labeling":
        m = rng.choice([8, 9])
        perm = list(range(2**m))
        rng.shuffle(perm)
        rows = [[(v >> i) & 1 for i in range(m)] for v in perm]
        first = {"fam": "labeling", "lab": {"kind": "custom", "matrix": rows}}

        def change():
            i = mid(2**m)
            j = (i + 1) % 2**m
            return {"fam": "labeling", "lab": {"kind": "custom", "matrix":
                    [rows[j] if x == i else rows[i] if x == j else r for x, r in enumerate(rows)]}}

        i = 2**m // 2
        qs = [Q("indices_to_bits", arr(list(range(i - 3, i + 3)))), Q("matrix"), Q("inverse_mapping"),
              Q("bits_to_indices", arr(rows[i] + rows[5])), Q("indices_to_bits", arr(list(range(2**m))))]
    elif kind == "constellation":
        M = rng.choice([300, 520]) if big else 8
        pts = sorted({(rng.randint(-99, 99) / 2, rng.randint(-99, 99) / 2) for _ in range(2 * M)},
                     key=lambda t: rng.random())[:M]
        first = {"fam": "constellation", "con": {"kind": "custom", "matrix": [list(t) for t in pts]}}

        def change():
            i = mid(M)
            return {"fam": "constellation", "con": {"kind": "custom", "matrix": [
                [t[0] + (0.25 if big else 4e-7), t[1]] if j == i else list(t) for j, t in enumerate(pts)]}}

        qs = [Q("indices_to_symbols", arr(list(range(M)))), Q("mean"), Q("mean_energy"), Q("matrix"),
              Q("closest_symbols", arr([x + 0.1 for x in pts[M // 2] + pts[5]], "float64")),
              Q("posteriors", arr(list(pts[M // 2]), "float64"), 0.5)] + [Q("minimum_distance")] * (M < 400)
    elif kind in ("huffman", "f2v", "v2f", "dms"):
        n = (rng.choice([300, 400]) if kind != "dms" else 1200) if big else 5
        v = pmf_of(rng, n)
        if kind == "dms":
            first = {"fam": "dms", "pmf": v}
            change = lambda: {"fam": "dms", "pmf": change_pmf(rng, v, mid(n), tiny)}
            qs = [Q("pmf"), Q("entropy_rate")]
        elif kind == "huffman":
            src = {"kind": rng.choice(["huffman", "shannon", "fano"] + ["tunstall"] * (n < 50)), "pmf": v, "k": 1,
                   "n": 6, "policy": "high", "assignment": rng.choice(["tree", "canonical"])}
            first = {"fam": "source", "src": src}

            def change():
                i, j = mid(n), rng.randrange(n)
                w = list(v)
                w[i], w[j] = w[j], w[i]
                return {"fam": "source", "src": dict(src, pmf=w)}

            qs = [Q("rate", arr(v, "float64"))]
        else:
            from ..source_codes import gen_tree
            words = [list(w) for w in gen_tree(rng, 2, n, n)]
            rng.shuffle(words)
            if kind == "f2v":
                src = {"kind": "f2v-mapping", "card": n, "k": 1, "base": 2, "words": words, "order": list(range(n))}
            else:
                src = {"kind": "v2f-mapping", "card": 2, "base": 2, "n": 9, "words": words,
                       "targets": list(range(n))}
            first = {"fam": "source", "src": src}

            def change():
                i, j = mid(n), rng.randrange(n)
                w = list(words)
                w[i], w[j] = w[j], w[i]
                return {"fam": "source", "src": dict(src, words=w)}

            qs = [Q("dec_mapping" if kind == "v2f" else "enc_mapping")]
        if kind != "dms":
            card = 2 if kind == "v2f" else n
            qs += [Q("encode", arr([rng.randrange(card) for _ in range(40)])), {"m": "roundtrip", "a": [
                arr([rng.randrange(card) for _ in range(60)])], "kw": {}}]
            if kind != "v2f":
                qs.append(Q("encode", arr(list(range(n)))))
    elif kind == "collide":
        # Python hashes -1 and -2 alike
        pick = rng.randrange(3)
        if pick < 2:
            L = rng.randint(2, 5)
            w = sorted([-1.0] + rng.sample([-5.0, -4.0, -3.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0], 2 * L - 2))
            first = {"fam": "quantizer", "kind": "scalar", "levels": w[0::2], "thresholds": w[1::2]}
            change = lambda: dict(first, **{key: [-2.0 if x == -1.0 else x for x in first[key]]
                                            for key in ("levels", "thresholds")})
            x = arr([v / 4 for v in range(-24, 24)], "float64")
            qs = [Q("levels"), Q("thresholds"), Q("quantize", x), Q("digitize", x)]
        else:
            pts = [[-1.0, 0.0]] + [[float(a), float(b)] for a, b in rng.sample([(1, 1), (0, 2), (2, 0), (-3, 1), (0, -3),
                                                                             (3, 3), (0, 0)], rng.choice([1, 3]))]
            first = {"fam": "constellation", "con": {"kind": rng.choice(["custom", "custom-complex"]), "matrix": pts}}
            change = lambda: {"fam": "constellation", "con": dict(first["con"], matrix=[[-2.0, 0.0]] + pts[1:])}
            qs = [Q(m) for m in ("matrix", "mean", "mean_energy", "minimum_distance")] + \
                 [Q("indices_to_symbols", arr([0, 1])), Q("posteriors", arr([-1.4, 0.25], "float64"), 1.0)]
    elif kind == "levels":
        L = 600 if big else 5
        v = [x / 4 for x in range(2 * L - 1)]
        first = {"fam": "quantizer", "kind": "scalar", "levels": v[0::2], "thresholds": v[1::2]}

        def change():
            key, i = rng.choice([("levels", mid(L)), ("thresholds", mid(L - 1))])
            w = list(first[key])
            w[i] += 0.125 if big else 4e-8
            return dict(first, **{key: w})

        qs = [Q("levels"), Q("thresholds"), Q("quantize", arr(v, "float64")),
              Q("digitize", arr([x + 0.0625 for x in v], "float64")),
              Q("quantize", arr([x + 2e-8 for x in v], "float64"))]
    elif kind == "dmc":
        a, b = rng.choice([(30, 40), (4, 300)]) if big else (2, 3)
        P = [pmf_of(rng, b) for _ in range(a)]
        first = {"fam": "channel", "kind": "dmc", "P": P}
        change = lambda: dict(first, P=[change_pmf(rng, r, mid(b), tiny) if i == i0 else r
                                        for i0 in [mid(a)] for i, r in enumerate(P)])
        qs = [Q("transition_matrix"), Q("mutual_information", arr(pmf_of(rng, a), "float64")), Q("capacity")]
    elif kind == "markov":
        n = 34 if big else 3
        P = [pmf_of(rng, n) for _ in range(n)]
        if rng.random() < 0.5:
            P[0] = [1.0] + [0.0] * (n - 1)
        first = {"fam": "markov", "P": P}

        def change():
            i0 = max(1, mid(n))
            return dict(first, P=[change_pmf(rng, r, mid(n), tiny) if i == i0 else r for i, r in enumerate(P)])

        qs = [Q("transition_matrix"), Q("stationary_distribution"), Q("mean_number_of_visits"),
              Q("mean_time_to_absorption"), Q("absorption_probabilities"), Q("recurrent_states")]
    else:
        n = 1200
        d = bits(rng, n)
        first = {"fam": "sequence", "kind": rng.choice(["binary", "polar"]), "data": d}
        change = lambda: dict(first, data=[x ^ 1 if i == i0 else x for i0 in [mid(n)] for i, x in enumerate(d)])
        qs = [Q(m) for m in ("bit_sequence", "polar_sequence")] + \
             [Q("cyclic_autocorrelation", shifts=arr([1, 2, 7]), normalized=True)]
    specs = [first, change()] + ([change()] if rng.random() < 0.4 else []) + ([first] if rng.random() < 0.3 else [])
    ops = []
    for q in rng.sample(qs, min(len(qs), rng.randint(2, 4))):
        who = list(range(len(specs)))
        rng.shuffle(who)
        ops += [["ask", i, q] for i in who]
        if rng.random() < 0.3:
            ops += [["new", who[0], rng.randrange(len(specs))], ["ask", who[0], q]]
    return {"specs": specs, "ops": ops, "arrays": rng.random() < 0.4, "buffers": rng.random() < 0.3, "wide": 1}


def generate(rng, tier):
    if rng.random() < 0.07:
        return generate_wide(rng)
    specs = []
    for _ in range(rng.randint(1, 3)):
        s = objects.gen_spec(rng)
        if s["fam"] == "conv" and rng.random() < 0.3:  # a rate-1/2 recursive systematic encoder
            q = 1 | rng.getrandbits(3) << 1
            s["conv"] = {"cls": "High", "h": [rng.randint(1, 15), q]} if q > 1 else s["conv"]
        specs.append(s)
        for _ in range(rng.randint(0, 2)):
            specs.append(sibling(rng, s))
        if rng.random() < 0.4:
            specs.append(s)
    specs = specs[:6]
    ops, asked = [], []
    n = rng.randint(6, 24 if tier == "quick" else 40)
    for _ in range(n):
        i = rng.randrange(len(specs))
        r = rng.random()
        if r < 0.16:
            ops.append(["bad", i, objects.gen_query(rng, specs[i], True)])
        elif r < 0.24:
            j = i if rng.random() < 0.4 else rng.choice([x for x in range(len(specs))
                                                         if specs[x]["fam"] == specs[i]["fam"]])
            ops.append(["new", i, j])  # slot i now holds an object of specification j
            if rng.random() < 0.5:
                ops.append(["gc", i])
        elif r < 0.34 and specs[i]["fam"] in ("markov", "channel", "dms"):
            ops.append(["act", i, rng.randint(0, 12)])
        elif r < 0.45 and asked:
            a = rng.choice(asked)
            # the same question again, to the same slot or to a twin / sibling that understands it
            others = [x for x in range(len(specs)) if shape_of(specs[x]) == shape_of(specs[a[0]])]
            ops.append(["ask", rng.choice(others), a[1]])
        elif r < 0.65 and asked:
            a = rng.choice(asked)
            q = vary(rng, a[1])
            if q is not None:
                asked.append((a[0], q))
                ops.append(["ask", a[0], q])
                # a long question is often followed by one that differs in a single element
                data = q["a"][0].get("arr") or q["a"][0].get("cplx")[0]
                if len(data) > 1000 and rng.random() < 0.7 and (q2 := vary(rng, q, 0.0)) is not None:
                    ops.append(["ask", a[0], q2])
        else:
            q = objects.gen_query(rng, specs[i])
            asked.append((i, q))
            ops.append(["ask", i, q])
    return {"specs": specs, "ops": ops, "arrays": rng.random() < 0.4, "buffers": rng.random() < 0.3}


FLAT = {"encode", "check", "project_word", "decode", "process", "indices_to_bits", "bits_to_indices", "marginalize",
        "indices_to_symbols", "closest_indices", "closest_symbols", "posteriors", "roundtrip", "digitize", "quantize",
        "waveform", "spectrum", "autocorrelation", "energy_spectral_density", "source_to_tokens"}


def vary(rng, q, r=None):
    """A question that differs from q in one element, in its shape, in its number type or only in its length."""
    if q["m"] not in FLAT or not q.get("a") or not isinstance(q["a"][0], dict):
        return None
    a = q["a"][0]
    key = "arr" if "arr" in a else "cplx" if "cplx" in a else None
    if key is None:
        return None
    data = a[key] if key == "arr" else a[key][0]
    if not data or isinstance(data[0], list) or any(isinstance(v, str) for v in data):
        return None
    real = any(isinstance(v, float) for v in data)
    new = dict(a)
    r = rng.random() if r is None else r
    if r < 0.3:  # one element, often far from both ends
        b = list(data)
        i = rng.choice([len(b) // 2, rng.randrange(len(b))])
        b[i] = b[i] + 0.25 if real else b[i] ^ 1
        data = b
    elif r < 0.45 and key == "arr":
        new["f"] = rng.choice(["float64", "list", "readonly", "fortran", "strided"] if real else
                              ["int64", "int32", "uint8", "list", "readonly", "strided"])
    elif r < 0.6 and key == "arr":
        if q["m"] in ("process", "roundtrip", "source_to_tokens") or (q["m"] == "encode" and len(data) > 24):
            return None
        data = [data, data] if rng.random() < 0.5 else [data]
    elif r < 0.7:
        data = data * 2
    else:  # longer than what NumPy prints in full
        data = data * (1100 // len(data) + 1)
    new[key] = data if key == "arr" else [data, (a[key][1] * (len(data) // len(a[key][1]) + 1))[:len(data)]]
    return dict(q, a=[new] + q["a"][1:])


def build(s):
    import numpy as np

    return objects.build(s, np.random.default_rng(5))


def act(obj, s, size):
    """A random operation; only its after-effects are judged (its law is C12-C14's business)."""
    import numpy as np

    if s["fam"] == "dms":
        obj.emit(size)
    elif s["fam"] == "channel":
        obj.transmit(np.zeros(size, dtype=int))
    else:
        obj.simulate(0, size + 1)
        if objects.markov_absorbing(s["P"]):
            obj.simulate_until_absorption(len(s["P"]) - 1)


def fresh_answer(spec, q):
    def fn():
        img, mod, _ = objects.ask(build(spec), q)
        return {"status": "ok", "img": img, "mod": mod}

    r = core.nested(fn)
    return r


def execute(p, run):
    specs = p["specs"]
    if not specs:
        return
    n = len(specs)
    # phase 1: every distinct question to a fresh object in a fresh process
    held = list(range(n))
    truth = {}
    for op in p["ops"]:
        if op[1] >= n or (op[0] == "new" and op[2] >= n):
            raise core.Invalid("slot")
        if op[0] == "new":
            held[op[1]] = op[2]
        elif op[0] == "ask":
            s = specs[held[op[1]]]
            key = core.canonical([s, op[2]])
            if key not in truth:
                truth[key] = fresh_answer(s, op[2])
                run.check(not truth[key]["mod"], "modified-argument",
                          lambda s=s, q=op[2]: f"{s}: {objects.show_query(q)} modified its arguments")
    run.fault("near-twin", int(bool(p.get("wide"))))
    # phase 2: the same questions in one process, in the plan's order
    held = list(range(n))
    seen = set()
    for i, s in enumerate(specs):
        k = core.canonical(s)
        run.reach("twin" if k in seen else "sibling" if any(t["fam"] == s["fam"] for t in specs[:i]) else "single")
        seen.add(k)
    if p.get("arrays"):
        codes.CTOR = {}
    buffers = {} if p.get("buffers") else None
    live = [build(s) for s in specs]
    kept, trail, done = [], [], set()
    for t, op in enumerate(p["ops"]):
        run.now += 1
        i = op[1]
        s = specs[held[i]]
        fam = s["fam"]
        if op[0] == "gc":
            gc.collect()
            run.fault("collected")
        elif op[0] == "new":
            held[i] = op[2]
            live[i] = None
            live[i] = build(specs[op[2]])
            run.fault("replaced")
            trail.append(f"[{i}]:=new {fam}")
        elif op[0] == "act":
            act(live[i], s, op[2])
            run.fault("random-operation")
            trail.append(f"[{i}].random({op[2]})")
        elif op[0] == "bad":
            img, mod, _ = objects.ask(live[i], op[2])
            if img == ["exc"]:
                run.fault("failed-call")
                run.reach(f"failed:{fam}:{op[2]['m']}")
            run.check(not mod, "modified-argument",
                      lambda: f"{live[i]!r}: failed {objects.show_query(op[2])} modified its arguments")
            trail.append(f"[{i}].{objects.show_query(op[2])}!")
        else:
            q = op[2]
            key = core.canonical([s, q])
            if key in done:
                run.fault("repeat")
            elif len(done) > 0:
                run.fault("history")
            done.add(key)
            img, mod, raw = objects.ask(live[i], q, buffers)
            run.real.add(objects.real_names(s, live[i]))
            run.reach(f"asked:{fam}:{q['m']}:{q.get('op', '')}")
            run.check(not mod, "modified-argument",
                      lambda: f"{live[i]!r}: {objects.show_query(q)} modified its arguments")
            run.check(objects.agree(img, truth[key]["img"]), "history-dependent",
                      lambda: f"{live[i]!r}: {objects.show_query(q)} = {str(img)[:300]} after {trail[-8:]}, but "
                              f"{str(truth[key]['img'])[:300]} when asked first in a fresh process")
            run.log(t, str(img)[:2000])
            if img != ["exc"]:
                kept.append((i, q, img, raw))
            trail.append(f"[{i}].{objects.show_query(q)}")
        for a, before in (codes.CTOR or {}).values():
            run.check(a.tobytes() == before, "constructor-array-modified",
                      lambda: f"an array given to a constructor was modified; last operations {trail[-3:]}")
    run.fault("shared-constructor-array", len(codes.CTOR or {}))
    run.fault("reused-buffer", (buffers or {}).get("reused", 0))
    for i, q, img, raw in kept:
        run.check(objects.image(raw) == img, "result-changed-later",
                  lambda: f"the value returned by {objects.show_query(q)} was {str(img)[:300]} and is now "
                          f"{str(objects.image(raw))[:300]} although only the library ran")
    run.reach("families:" + ",".join(sorted({s["fam"] for s in specs})))
