"""C01: flips within the packing radius are always corrected."""

import numpy as np

from .. import codes
from ..core import Invalid
from ..util import same, show, snapshot

RUNS = {"quick": 26000, "thorough": 130000}
TIME_UNIT = "bit periods"
RULE = ("A random code of one of the library's 15 block-code families, a random decoder offered for it, 1-6 frames "
        "encoded in batches, each damaged with at most t bit flips (t from independently enumerated distance), "
        "delivered in a random order, duplicated and batched in random array layouts.")
STUBS = ["medium: seeded bit/sign flipper", "transport: seeded reorder/duplicate/batch schedule"]
ASSUMPTIONS = ["random codes have k <= 12 for decoders that enumerate; named codes up to n = 128",
               "zero-terminated multi-input encoders with unequal register lengths are excluded (finding F1)"]
PROBES = ["flip", "reorder", "duplicate", "sign-flip", "at-radius", "clean"]
SHRINK = ["sched", "sched.*", "frames.*.e", "frames.*.m", "tx"]

CLEAN_SOFT = {"bcjr", "bcjr-soft", "sc", "sc-soft"}


def generate(rng, tier):
    big = rng.random() < 0.25
    while True:
        r = rng.random()
        fam = None
        if r < 0.12:
            fam = ["BCH"]
        elif r < 0.22:
            fam = ["RM"]
        elif r < 0.40:
            fam = ["Term"]
        elif r < 0.46:
            fam = ["Polar"]
        elif r < 0.52:
            fam = ["SPC"]
        s = codes.gen_code(rng, fam, max_k=12, big=big)
        n, k, d = codes.info(s)
        hard, soft = codes.hard_decoders(s), codes.soft_decoders(s)
        clean = []
        if s["cls"] == "Polar":
            clean = ["sc", "sc-soft"] * 3
        if s["cls"] == "Term" and codes.ml_exact_termination(s["conv"], s["mode"]):
            clean = ["bcjr", "bcjr-soft"]
        names = hard + soft + clean
        if names and d is not None:
            break
    dec = rng.choice(names)
    nf = rng.randint(1, 6 if n < 40 else 3)
    frames = []
    for _ in range(nf):
        m = codes.gen_message(rng, k)
        t = (d - 1) // 2
        f = {"m": m, "e": []}
        if dec == "wagner":
            f["w"] = [rng.randint(2, 9) / 2 for _ in range(n)]
            if rng.random() < 0.8:
                i = rng.randrange(n)
                f["e"] = [i]
                f["w"][i] = rng.choice([0.25, 0.5])
        elif dec in CLEAN_SOFT:
            # the forward-backward algorithm resolves a clean bit only by tanh(w/2)^(weight of its check): weak
            # reliabilities of long words are below floating-point resolution
            f["w"] = [rng.choice([2.0, 4.0, 8.0, 3.5, 1.0, 0.5] if dec.startswith("sc") else
                                 [2.0, 4.0, 8.0, 3.5] if n <= 60 else [4.0, 8.0, 3.5])] * n
        else:
            c = t if rng.random() < 0.6 else rng.randint(0, t)
            if rng.random() < 0.3 and c:  # burst
                a = rng.randrange(n)
                f["e"] = sorted({(a + i) % n for i in range(c)})
            else:
                f["e"] = sorted(rng.sample(range(n), c))
            if dec.endswith("-soft"):
                f["w"] = [rng.choice([0.5, 1.0, 2.0, 3.0])] * n
        frames.append(f)
    sched = codes.gen_batches(rng, nf)
    return {"code": s, "dec": dec, "frames": frames, "d": d,
            "tx": codes.gen_batches(rng, nf, dup=False, reorder=False),
            "tx_form": rng.choice(codes.INT_FORMS),
            "sched": sched, "lay": [codes.gen_shape(rng, len(b)) for b in sched],
            "form": rng.choice(codes.FLOAT_FORMS[:-1] if (dec.endswith("-soft") or dec in CLEAN_SOFT or dec == "wagner")
                               else codes.INT_FORMS)}


def execute(p, run):
    s, dec = p["code"], p["dec"]
    n, k, d = codes.info(s)
    code = codes.build(s)
    run.real.update({"komm." + type(code).__name__, "encode", "decoder " + dec})
    run.check((int(code.length), int(code.dimension)) == (n, k), "parameters",
              lambda: f"{code!r}: (n,k)=({code.length},{code.dimension}), expected ({n},{k})")
    frames = p["frames"]
    sent = {}
    for batch in p["tx"]:
        batch = [i for i in batch if i < len(frames)]
        if not batch:
            continue
        if any(len(frames[i]["m"]) != k for i in batch):
            raise Invalid("message length")
        data, _, _ = codes.lay_out([frames[i]["m"] for i in batch], [])
        v = codes.blocks_of(code.encode(codes.form_array(data, p["tx_form"])), len(batch), n)
        run.check(v is not None, "encode-shape", lambda: f"{code!r}: wrong codeword length")
        for i, row in zip(batch, v):
            sent[i] = row
    decoder = codes.build_decoder(dec, code)
    soft = "w" in frames[0] if frames else False
    seen = []
    for b, batch in enumerate(p["sched"]):
        batch = [i for i in batch if i in sent]
        if not batch:
            continue
        rows = []
        for i in batch:
            row = [int(x) for x in sent[i]]
            for e in frames[i]["e"]:
                row[e] ^= 1
            if soft:
                row = [(1 - 2 * x) * w for x, w in zip(row, frames[i]["w"])]
            rows.append(row)
            run.now += n
            ne = len(frames[i]["e"])
            run.fault("sign-flip" if soft else "flip", ne)
            if i in seen:
                run.fault("duplicate")
            elif seen and i < max(seen):
                run.fault("reorder")
            seen.append(i)
            run.reach("at-radius" if ne and ne == (d - 1) // 2 else "clean" if not ne else "inside",
                      f"frame:{codes.label(s)}|{dec}|{ne}")
        if soft:
            rows = codes.quantise(rows, p["form"], low=False)
        data, lead, per = codes.lay_out(rows, p["lay"][b] if b < len(p["lay"]) else [])
        x = codes.form_array(data, p["form"])
        before = snapshot(x)
        out = decoder.decode(x)
        run.check(snapshot(x) == before, "input-modified", f"{dec} modified its input")
        if dec in ("bcjr-soft", "sc-soft"):
            out = (np.asarray(out) < 0).astype(int)
        want = np.array([frames[i]["m"] for i in batch]).reshape(*lead, per * k)
        run.log(dec, np.asarray(out).tolist())
        run.reach(f"batch:{dec}|{len(lead)}|{min(per, 4)}|{p['form']}")
        run.check(np.shape(out) == want.shape, "shape",
                  lambda: f"{dec} of {code!r}: output shape {np.shape(out)}, expected {want.shape}")
        run.check(same(out, want), "not-corrected",
                  lambda: f"{dec} of {code!r} (d={d}): sent {show(want)}, flips "
                          f"{[frames[i]['e'] for i in batch]}, decoded {show(out)}")
