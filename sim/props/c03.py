"""C03: corruption below the minimum distance is always detected, never accepted."""

import numpy as np

from .. import codes
from ..core import Invalid
from ..util import same, show, snapshot

RUNS = {"quick": 26000, "thorough": 130000}
TIME_UNIT = "bit periods"
RULE = ("A random code, a stream of 1-8 (sometimes up to 1030) encoded frames of which some are hit by 1..d-1 flips (d enumerated "
        "independently), checked and strictly converted block by block and in batches.")
STUBS = ["medium: seeded bit flipper", "transport: seeded batching"]
ASSUMPTIONS = ["for codes with k > 14 and no closed-form distance the proven lower bound min(d, 5) is used"]
PROBES = ["intact-copy", "long-stream", "undetected-limit", "flip", "clean-stream", "mixed-stream"]
SHRINK = ["frames", "batches", "batches.*", "frames.*.e", "frames.*.m"]


def generate(rng, tier):
    while True:
        r = rng.random()
        fam = ["Cyc"] if r < 0.15 else ["BCH"] if r < 0.22 else ["Term"] if r < 0.35 else None
        s = codes.gen_code(rng, fam, max_k=12, big=rng.random() < 0.35)
        n, k, d = codes.info(s)
        if n <= 300:
            break
    dd = d
    nf = rng.randint(1, 8 if n < 40 else 4)
    frames = []
    rate = rng.choice([0.0, 0.3, 0.6, 1.0])
    long = rng.random() < 0.04
    if long:
        nf = max(2, min(rng.choice([30, 65, 70, 129, 150, 260, 300, 520, 1030]), 9000 // n))
        rate = 0.0
    hit = set(rng.sample(range(nf), rng.choice([0, 1, 1, 1, 2]))) if long else ()
    for i in range(nf):
        e = []
        if dd >= 2 and (rng.random() < rate or i in hit):
            w = rng.choice([1, dd - 1, rng.randint(1, dd - 1)])
            if rng.random() < 0.3:
                a = rng.randrange(n)
                e = sorted({(a + i) % n for i in range(w)})
            else:
                e = sorted(rng.sample(range(n), w))
        frames.append({"m": codes.gen_message(rng, k), "e": e})
    if long:
        cut = rng.choice([nf, nf, nf // 2, nf - 1])
        batches = [list(range(cut)), list(range(cut, nf))] if cut < nf else [list(range(nf))]
    else:
        batches = codes.gen_batches(rng, nf)
    return {"code": s, "d": dd, "frames": frames, "batches": batches,
            "lay": [codes.gen_shape(rng, len(b)) for b in batches],
            "form": rng.choice(codes.INT_FORMS), "clean": rng.choice(["", "", "before", "after"]),
            "strict_first": rng.random() < 0.5}


def execute(p, run):
    s, d = p["code"], p["d"]
    n, k, _ = codes.info(s)
    code = codes.build(s)
    m = n - k
    run.real.update({"komm." + type(code).__name__, "encode", "check", "inverse_encode"})
    frames = p["frames"]
    if not frames or any(len(f["m"]) != k for f in frames):
        raise Invalid("frames")
    sent = codes.blocks_of(code.encode(np.array([f["m"] for f in frames])), len(frames), n)
    run.check(sent is not None, "encode-shape", lambda: f"{code!r}: wrong codeword length")
    got = sent.astype(int).copy()
    for i, f in enumerate(frames):
        for e in f["e"]:
            got[i, e] ^= 1
        run.now += n
        run.fault("flip", len(f["e"]))
        run.fault("undetected-limit", int(len(f["e"]) == d - 1 and d > 1))
        run.reach(f"frame:{codes.label(s)}|n{n}k{k}|{len(f['e'])}")
    for b, batch in enumerate(p["batches"]):
        batch = [i for i in batch if i < len(frames)]
        if not batch:
            continue
        data, lead, per = codes.lay_out(got[batch].tolist(), p["lay"][b] if b < len(p["lay"]) else [])
        x = codes.form_array(data, p["form"])
        before = snapshot(x)
        run.fault("long-stream", int(len(batch) > 64))
        dirty = [bool(frames[i]["e"]) for i in batch]

        def strict():
            try:
                u = code.inverse_encode(x)
            except ValueError:
                run.log("rejected")
                run.check(any(dirty), "clean-rejected",
                          lambda: f"{code!r}: undamaged stream of {len(batch)} blocks was rejected")
                return
            run.log(np.asarray(u).tolist())
            run.check(not any(dirty), "damage-accepted",
                      lambda: f"{code!r} (d={d}): stream with flips {[frames[i]['e'] for i in batch]} was accepted "
                              f"as {show(u)}")
            want = np.array([frames[i]["m"] for i in batch]).reshape(*lead, per * k)
            run.check(same(u, want), "wrong-message",
                      lambda: f"{code!r}: undamaged stream converted to {show(u)}, sent {show(want)}")

        def clean():
            """The receiver has also got, or gets, an intact copy of every damaged frame."""
            syn = np.asarray(code.check(sent[batch].ravel()))
            run.check(not syn.any(), "syndrome", lambda: f"{code!r}: undamaged copies give syndrome {show(syn)}")
            u = np.asarray(code.inverse_encode(sent[batch].ravel()))
            run.check(u.ravel().tolist() == [v for i in batch for v in frames[i]["m"]], "wrong-message",
                      lambda: f"{code!r}: undamaged copies converted to {show(u)}")
            run.fault("intact-copy", len(batch))

        if p.get("clean") == "before":
            clean()
        if p["strict_first"]:
            strict()
        syn = np.asarray(code.check(x))
        run.log(syn.tolist())
        run.check(syn.shape == tuple(lead) + (per * m,), "syndrome-shape",
                  lambda: f"{code!r}: syndrome shape {syn.shape}, expected {tuple(lead) + (per * m,)}")
        syn = syn.reshape(len(batch), m)
        for i, bad, row in zip(batch, dirty, syn):
            run.check(bool(np.any(row != 0)) == bad, "syndrome",
                      lambda: f"{code!r} (d={d}): flips {frames[i]['e']} in codeword {show(sent[i])} give syndrome "
                              f"{show(row)}")
        if not p["strict_first"]:
            strict()
        if p.get("clean") == "after":
            clean()
        run.check(snapshot(x) == before, "input-modified", "check/inverse_encode modified its input")
        run.reach("clean-stream" if not any(dirty) else "mixed-stream" if not all(dirty) else "damaged-stream")
