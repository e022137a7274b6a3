"""C04: frames are processed independently of batching, order, and neighbours' damage."""

import numpy as np

from .. import codes
from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 16000, "thorough": 110000}
TIME_UNIT = "frames delivered"
RULE = ("A random code and operation (encode, check, message extraction, any decoder), 2-7 distinct frames, some "
        "damaged copies of others; reference = each frame alone through fresh objects; then delivered in random "
        "batches, orders, duplicates, array layouts, dtypes and memory orders; plus truncated streams.")
STUBS = ["transport: seeded reorder/duplicate/batch schedule", "medium: seeded corruption of neighbours"]
ASSUMPTIONS = ["soft inputs are dyadic so that results cannot depend on summation order; BCJR/SC outputs are "
               "compared to 1e-9 relative", "bit arrays are integer, boolean or lists (floats are not claimed)"]
PROBES = ["reorder", "duplicate", "neighbour-damage", "truncated-stream", "multi-dim", "bulk-delivery"]
SHRINK = ["sched", "sched.*", "cuts", "frames.*"]

OPS = ["encode", "check", "project", "inverse"]


def generate(rng, tier):
    while True:
        r = rng.random()
        fam = ["Term"] if r < 0.3 else ["Polar"] if r < 0.4 else ["BCH"] if r < 0.46 else ["RM"] if r < 0.52 else \
            ["SPC"] if r < 0.56 else None
        s = codes.gen_code(rng, fam, max_k=rng.choice([4, 8, 11]), big=rng.random() < 0.2)
        n, k, d = codes.info(s)
        if n > 70:
            continue
        extra = []
        if s["cls"] == "Polar":
            extra = ["sc", "sc-soft"]
        if s["cls"] == "Term" and codes.ml_exact_termination(s["conv"], s["mode"]):
            extra = ["bcjr", "bcjr-soft"]
        decs = codes.hard_decoders(s) + codes.soft_decoders(s) + extra
        op = rng.choice(decs) if decs and rng.random() < 0.65 else rng.choice(OPS)
        break
    soft = op.endswith("-soft") or op in ("bcjr", "sc", "wagner")
    nf = rng.randint(2, 7)
    width = k if op == "encode" else n
    frames = []
    for i in range(nf):
        if op == "inverse":
            frames.append({"m": codes.gen_message(rng, k)})
            continue
        if i and rng.random() < 0.4:  # damaged copy of an earlier frame
            b = list(frames[rng.randrange(i)]["x"])
            for e in rng.sample(range(width), rng.randint(1, min(width, 4))):
                b[e] = -b[e] if soft else b[e] ^ 1
            frames.append({"x": b, "damaged": True})
        elif soft:
            frames.append({"x": [rng.randint(-16, 16) / 4 for _ in range(width)]})
        else:
            frames.append({"x": [rng.getrandbits(1) for _ in range(width)]})
    sched = codes.gen_batches(rng, nf) + codes.gen_batches(rng, nf)
    forms = [f for f in codes.FLOAT_FORMS[:-1] if f not in codes.QUANTISED] if soft else codes.INT_FORMS
    integer = rng.choice(list(codes.QUANTISED)) if soft and rng.random() < 0.25 else None
    if integer:  # an integer front end: every delivery in this type, or a wider one
        for f in frames:
            f["x"] = codes.quantise([f["x"]], integer)[0]
        forms = {"int8": ["int8", "int16", "int64", "list", "float64"], "int16": ["int16", "int64", "float64"],
                 "int64": ["int64", "list", "float64"]}[integer]
    return {"code": s, "op": op, "frames": frames, "sched": sched,
            "lay": [codes.gen_shape(rng, len(b)) for b in sched],
            "forms": [rng.choice(forms) for _ in sched],
            "cuts": [rng.randint(1, width - 1) for _ in range(2)] if width > 1 else [],
            "bulk": gen_bulk(rng, s, op, n, k) if rng.random() < 0.05 else None,
            "shared_decoder": rng.random() < 0.7}


def gen_bulk(rng, s, op, n, k):
    """One very long delivery: number of blocks bounded by what the operation costs per block."""
    if op in ("exhaustive", "exhaustive-soft"):
        most = 2**23 // (2**k * n)
    elif op in OPS or op == "syndrome":
        most = 10**6 // n
    elif op in ("wagner", "reed", "reed-soft"):
        most = 9000
    else:
        most = 400
    return {"blocks": rng.choice([rng.randint(50, 400), rng.randint(400, 1500), rng.randint(1500, 20000), 1024, 4096,
                                  10001]) if most > 20000 else rng.randint(max(2, most // 4), max(2, most)),
            "stride": rng.choice([1, 3, 5, 7, 11]), "form": "int64"}


def operation(op, code):
    if op == "encode":
        return code.encode
    if op == "check":
        return code.check
    if op == "project":
        return code.project_word
    if op == "inverse":
        return code.inverse_encode
    return codes.build_decoder(op, code).decode


def execute(p, run):
    s, op = p["code"], p["op"]
    n, k, _ = codes.info(s)
    code = codes.build(s)
    run.real.update({"komm." + type(code).__name__, op})
    w_in = k if op == "encode" else n
    w_out = n if op == "encode" else n - k if op == "check" else k
    frames = []
    for f in p["frames"]:
        if "m" in f:
            if len(f["m"]) != k:
                raise Invalid("message")
            frames.append([int(b) for b in np.asarray(code.encode(np.array(f["m"])))])
        else:
            if len(f["x"]) != w_in:
                raise Invalid("word")
            frames.append(f["x"])
    soft = op.endswith("-soft") or op in ("bcjr", "sc", "wagner")
    fuzzy = op in ("bcjr-soft", "sc-soft")
    alone = []
    for f in frames:
        fresh = operation(op, codes.build(s))
        out = np.asarray(fresh(np.array(f, dtype=float if soft else None)))
        run.check(out.shape == (w_out,), "shape", lambda: f"{op} of {code!r}: one block gives shape {out.shape}")
        alone.append(out)
    fn = operation(op, code)
    seen = []
    for b, batch in enumerate(p["sched"]):
        batch = [i for i in batch if i < len(frames)]
        if not batch:
            continue
        if not p["shared_decoder"]:
            fn = operation(op, code)
        for i in batch:
            run.now += 1
            run.fault("duplicate", int(i in seen))
            run.fault("reorder", int(bool(seen) and i < max(seen)))
            run.fault("neighbour-damage", int(bool(p["frames"][i].get("damaged"))))
            seen.append(i)
        data, lead, per = codes.lay_out([frames[i] for i in batch], p["lay"][b] if b < len(p["lay"]) else [])
        x = codes.form_array(data, p["forms"][b] if b < len(p["forms"]) else "int64")
        before = snapshot(x)
        out = np.asarray(fn(x))
        run.check(snapshot(x) == before, "input-modified", lambda: f"{op} of {code!r} modified the caller's array")
        run.log(out.tolist() if not fuzzy else out.shape)
        run.fault("multi-dim", int(len(lead) > 0))
        run.reach(f"batch:{codes.label(s)}|{op}|{len(lead)}|{p['forms'][b] if b < len(p['forms']) else ''}")
        run.check(out.shape == tuple(lead) + (per * w_out,), "shape",
                  lambda: f"{op} of {code!r}: input {np.shape(x)} gives {out.shape}, expected "
                          f"{tuple(lead) + (per * w_out,)}")
        got = out.reshape(len(batch), w_out)
        for i, row in zip(batch, got):
            ok = np.allclose(row, alone[i], rtol=1e-9, atol=1e-9, equal_nan=True) if fuzzy else \
                np.array_equal(row, alone[i])
            run.check(ok, "depends-on-batch",
                      lambda: f"{op} of {code!r}: block {show(frames[i])} alone gives {show(alone[i])}, but in batch "
                              f"{batch} (layout {lead}, {p['forms'][b] if b < len(p['forms']) else ''}) {show(row)}")
    if p.get("bulk") and frames:
        N, stride = int(p["bulk"]["blocks"]), int(p["bulk"]["stride"])
        order = [(i * stride + i // 17) % len(frames) for i in range(N)]
        x = np.array(frames)[order].reshape(-1)
        out = np.asarray(fn(x))
        run.fault("bulk-delivery")
        run.now += N
        run.log(N)
        run.check(out.shape == (N * w_out,), "shape",
                  lambda: f"{op} of {code!r}: {N} blocks in one call give {out.shape}, expected {(N * w_out,)}")
        got, want = out.reshape(N, w_out), np.array(alone)[order]
        bad = ~np.isclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True) if fuzzy else got != want
        where = np.nonzero(bad.any(axis=1))[0]
        run.check(where.size == 0, "depends-on-batch",
                  lambda: f"{op} of {code!r}: block {int(where[0])} of {N} delivered in one call gives "
                          f"{show(got[where[0]])}, alone {show(want[where[0]])}")
    for c in p["cuts"]:
        if not frames or not 0 < c < w_in:
            continue
        stream = [v for f in frames for v in f][: (len(frames) - 1) * w_in + c]
        run.fault("truncated-stream")
        try:
            out = fn(np.array(stream))
        except ValueError:
            run.log("rejected")
            continue
        run.check(False, "truncated-accepted",
                  lambda: f"{op} of {code!r}: input of length {len(stream)} (block {w_in}) gives {show(out)}")
