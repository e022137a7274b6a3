"""C16: a complete link delivers the message exactly when damage stays within limits."""

import heapq
import math
import random

from .. import codes, gf2, objects
from .. import source_codes as sc
from ..core import Invalid
from ..util import show
from . import c06

RUNS = {"quick": 17000, "thorough": 170000}
TIME_UNIT = "slots of the simulated network"
RULE = ("A message is compressed, cut into packets, protected by a random block code (any decoder, or syndrome check "
        "and retransmission) or by a streaming convolutional code, labelled, modulated, damaged by a random medium "
        "(bounded displacement, wrecked symbols, Gaussian, BSC, Z, erasure or two-input memoryless channel) and carried "
        "by a network that loses, delays, reorders and duplicates packets and acknowledgements until the faults stop; "
        "the receiver demodulates and decodes whatever has arrived in batches of random size and reassembles.")
STUBS = ["network: seeded event queue with loss, delay, reordering and duplication", "medium: seeded displacement and "
         "symbol wrecking (the library's own channels in the other modes)",
         "framing and ARQ protocol: part of the simulator; sequence numbers and lengths are never damaged"]
ASSUMPTIONS = ["infinite LLRs are clipped to 700 before soft decoders", "an attempt damaged beyond the stated limit "
               "counts as lost (the simulator knows the bits that were sent)"]
PROBES = ["loss", "ack-loss", "packet-reorder", "packet-duplicate", "wrecked", "displaced", "bit-flip", "erasure", "nack",
          "retransmission", "corrected", "at-radius", "arq", "fec-hard", "fec-soft", "stream", "batch", "late"]
SHRINK = ["msg", "net", "damage"]

SRC = ["huffman", "shannon", "fano", "tunstall", "f2v-tree", "v2f-tree", "lz77", "lzss", "lz78", "lzw", "unary",
       "fibonacci", "f2v-mapping", "v2f-mapping", "f2v-lengths"]


def gen_source(rng):
    while True:
        s = sc.gen_spec(rng, [rng.choice(SRC)])
        if s.get("base", 2) != 2 or s["kind"] == "tunstall" and min(s["pmf"]) == 0:
            continue
        msg = sc.gen_message(rng, s, max_len=90)
        if s["kind"] == "unary":
            msg = [min(v, 40) for v in msg[:8]]
        if s["kind"] in ("lz77", "lzss") and s["S"] > 25 and rng.random() < 0.5:
            continue
        return s, msg


def gen_modulation(rng):
    from .c15 import labelings

    while True:
        s = objects.gen_constellation(rng, max_order=32 if rng.random() < 0.9 else 256)
        M = objects.constellation_order(s)
        lab = labelings(rng, s)
        if M >= 2 and lab:
            return s, lab


def generate(rng, tier):
    src, msg = gen_source(rng)
    mode = rng.choice(["fec-hard", "fec-hard", "fec-soft", "arq", "arq", "stream"])
    p = {"src": src, "msg": msg, "mode": mode, "nseed": rng.getrandbits(40)}
    if mode == "stream":
        while True:
            c = codes.gen_conv(rng, max_states=3, k_max=2)
            k, n, _ = gf2.conv_params(c)
            if 2 ** (gf2.conv_state_bits(c) + k) <= 32:
                break
        p.update(conv=c, tau=rng.choice([0, 3, 5, 8, 12, 20]), block=rng.randint(1, 8))
    else:
        while True:
            fam = rng.choice([None, None, ["BCH"], ["RM"], ["Term"], ["Polar"], ["SPC"]])
            large = rng.random() < 0.12
            s = codes.gen_code(rng, fam, max_k=12 if large else 9, big=large)
            n, k, d = codes.info(s)
            if n > (256 if large else 40) or d is None:
                continue
            if mode == "arq":
                break
            if mode == "fec-hard":
                names = codes.hard_decoders(s)
            else:
                names = codes.soft_decoders(s)
                if s["cls"] == "Polar":
                    names += ["sc", "sc"]
                if s["cls"] == "Term" and codes.ml_exact_termination(s["conv"], s["mode"]) and n <= 40:
                    names += ["bcjr"]
            if names:
                p["dec"] = rng.choice(names)
                break
        p.update(code=s, blocks=rng.randint(1, 5 if n <= 40 else 2))
        if mode == "arq":
            p["strict"] = rng.random() < 0.5
    media = ["none", "displace", "displace", "wreck", "wreck", "awgn"]
    if mode in ("fec-hard", "arq"):
        media += ["bsc", "bsc", "z", "dmc"] + (["bec", "bec"] if mode == "arq" else [])
    if mode == "fec-soft":
        media = ["none", "displace", "displace"]
    p["medium"] = rng.choice(media)
    if p["medium"] in ("bsc", "z", "dmc", "bec"):
        p["p"] = rng.choice([0.02, 0.05, 0.1, 0.2])
    else:
        p["const"], p["lab"] = gen_modulation(rng)
    p["snr"] = rng.choice([60, 100, 150])
    p["damage"] = rng.choice([0, 0.3, 0.7, 1.0])
    p["net"] = {"loss": rng.choice([0, 0, 0.1, 0.3, 0.6]), "dup": rng.choice([0, 0.1, 0.4]),
                "ack": rng.choice([0, 0.2, 0.5]), "delay": rng.choice([1, 3, 20]), "stop": rng.choice([0, 50, 200, 400]),
                "window": rng.choice([1, 2, 4, 100]), "timeout": rng.choice([3, 10, 45]), "poll": rng.choice([1, 2, 7])}
    return p


# ------------------------------------------------------------------------------ physical layer


class Phy:
    """Bits of one packet -> medium -> what the receiver sees, plus what the simulator knows about the damage."""

    def __init__(self, p, run, rng):
        import komm
        import numpy as np

        self.p, self.run, self.rng, self.np = p, run, rng, np
        self.medium = p["medium"]
        if self.medium in ("bsc", "z", "dmc", "bec"):
            gen = np.random.default_rng(rng.getrandbits(40))
            pr = p["p"]
            self.ch = {"bsc": lambda: komm.BinarySymmetricChannel(pr, rng=gen), "z": lambda: komm.ZChannel(pr, rng=gen),
                       "bec": lambda: komm.BinaryErasureChannel(pr, rng=gen),
                       "dmc": lambda: komm.DiscreteMemorylessChannel([[1 - pr, pr], [pr / 2, 1 - pr / 2]], rng=gen)}[self.medium]()
            run.real.add("komm." + type(self.ch).__name__)
            self.m = 1
            return
        self.const, self.lab = objects.build_constellation(p["const"]), objects.build_labeling(p["lab"])
        run.real.update({"komm." + type(self.const).__name__, "komm." + type(self.lab).__name__})
        self.m, self.N = objects.labeling_bits(p["lab"]), objects.constellation_dim(p["const"])
        self.cx = objects.constellation_complex(p["const"])
        M = objects.constellation_order(p["const"])
        self.pts = np.asarray(self.const.indices_to_symbols(np.arange(M))).reshape(M, self.N)
        D = np.sqrt(np.sum(np.abs(self.pts[:, None] - self.pts[None]) ** 2, axis=-1)) + np.eye(M) * 1e9
        self.d = float(D.min())
        if self.d < 1e-6:
            raise Invalid("coincident points")
        self.words = [[int(b) for b in np.asarray(self.lab.indices_to_bits([i]))] for i in range(M)]
        self.table = {tuple(w): i for i, w in enumerate(self.words)}
        self.noise = None
        if self.medium == "awgn":
            self.noise = komm.GaussianChannel(self.d**2 / p["snr"] * 2, rng=np.random.default_rng(rng.getrandbits(40)))

    def pad(self, n):
        return -n % self.m

    def send(self, bits, budget, faulty):
        """bits of the packet; budget[b] = how many bits of block b may be damaged (None: no limit kept).
        -> (what the receiver gets, hard bits as the simulator computes them or None if unclear)"""
        np, rng, run = self.np, self.rng, self.run
        if self.medium in ("bsc", "z", "dmc", "bec"):
            if not faulty:
                return list(bits), list(bits)
            y = [int(v) for v in np.asarray(self.ch.transmit(np.array(bits, dtype=int)))]
            run.fault("erasure", sum(v == 2 for v in y))
            run.fault("bit-flip", sum(v != 2 and v != b for v, b in zip(y, bits)))
            return y, y
        full = list(bits) + [0] * self.pad(len(bits))
        idx = np.asarray(self.lab.bits_to_indices(full))
        own = [self.table[tuple(full[j:j + self.m])] for j in range(0, len(full), self.m)]
        run.check(idx.tolist() == own, "labeling", lambda: f"{self.lab!r}: {full} -> {idx}")
        x = np.asarray(self.const.indices_to_symbols(idx)).reshape(-1, self.N)
        y = x.astype(complex if self.cx else float)
        hard = list(own)
        if faulty and self.medium != "none":
            if self.noise is not None:
                y = np.asarray(self.noise.transmit(y.ravel())).reshape(-1, self.N)
                for j in range(len(y)):
                    dist = np.sqrt(np.sum(np.abs(y[j] - self.pts) ** 2, axis=1))
                    a = np.argsort(dist)
                    if dist[a[1]] - dist[a[0]] < 1e-9 * self.d:
                        return y.ravel(), None
                    hard[j] = int(a[0])
                run.fault("displaced", len(y))
            else:
                if self.medium == "wreck" and budget is not None and rng.random() < self.p["damage"]:
                    left = list(budget)
                    width = self.width
                    for j in rng.sample(range(len(own)), len(own)):
                        w = rng.randrange(len(self.pts))
                        diff = [j * self.m + i for i in range(self.m) if self.words[w][i] != self.words[own[j]][i]]
                        need = {}
                        for b in diff:
                            if b < len(bits):
                                need[b // width] = need.get(b // width, 0) + 1
                        if all(left[b] >= c for b, c in need.items()):
                            for b, c in need.items():
                                left[b] -= c
                            hard[j] = w
                            y[j] = self.pts[w]
                            run.fault("wrecked", int(w != own[j]))
                amp = 0.3 if self.p["mode"] == "fec-soft" else 0.499
                for j in range(len(y)):
                    v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) if self.cx else rng.gauss(0, 1)
                                  for _ in range(self.N)])
                    n = float(np.sqrt(np.sum(np.abs(v) ** 2)))
                    if n > 1e-3:
                        y[j] = y[j] + v / n * self.d * amp * rng.choice([1, 1, 0.5, 0])
                run.fault("displaced", len(y))
        out = [b for i in hard for b in self.words[i]]
        return y.ravel(), out[:len(bits)]

    def receive(self, packets, nbits, soft):
        """Demodulates several packets in one call -> per packet its bits (or LLRs)."""
        np = self.np
        if self.medium in ("bsc", "z", "dmc", "bec"):
            return [list(y) for y in packets]
        y = np.concatenate(packets)
        if soft:
            post = self.const.posteriors(y, self.d**2 / self.p["snr"])
            v = np.clip(np.asarray(self.lab.marginalize(post)), -700, 700)
        else:
            v = np.asarray(self.lab.indices_to_bits(self.const.closest_indices(y)))
        per = nbits + self.pad(nbits)
        self.run.check(v.shape == (per * len(packets),), "shape", lambda: f"{self.const!r}: {y.shape} -> {v.shape}")
        return [v[i * per:i * per + nbits].tolist() for i in range(len(packets))]


# ------------------------------------------------------------------------------ network and protocol


def network(p, run, rng, count, transmit, process):
    """Selective repeat over a lossy network.  transmit(seq, faulty) -> payload; process(list of (seq, payload)) ->
    list of accepted sequence numbers (the receiver acknowledges those).  Returns when everything is acknowledged."""
    net = p["net"]
    acked, deadline, tries = set(), {}, {}
    events, tick = [], 0
    inbox, seen = [], set()
    bound = net["stop"] + 60 + (count + 4) * (net["timeout"] + 8) * 3
    now = 0

    def post(t, kind, x):
        nonlocal tick
        tick += 1
        heapq.heappush(events, (t, tick, kind, x))

    while len(acked) < count:
        run.now += 1
        faulty = now < net["stop"]
        while events and events[0][0] <= now:
            _, _, kind, x = heapq.heappop(events)
            if kind == "ack":
                acked.add(x)
            else:
                run.fault("packet-reorder", int(bool(seen) and x[0] < max(seen)))
                run.fault("late", int(x[0] in acked))
                run.fault("packet-duplicate", int(x[0] in seen))
                seen.add(x[0])
                inbox.append(x)
        if now % net["poll"] == 0 and inbox:
            take = inbox if rng.random() < 0.7 else inbox[:rng.randint(1, len(inbox))]
            inbox = inbox[len(take):]
            run.fault("batch", int(len(take) > 1))
            for seq in process(take):
                if faulty and rng.random() < net["ack"]:
                    run.fault("ack-loss")
                else:
                    post(now + 1 + (rng.randrange(net["delay"]) if faulty else 0), "ack", seq)
        sent = 0
        outstanding = [s for s in range(count) if s not in acked][:net["window"]]
        for s in outstanding:
            if deadline.get(s, 0) <= now and sent < 3:
                sent += 1
                tries[s] = tries.get(s, 0) + 1
                run.fault("retransmission", int(tries[s] > 1))
                deadline[s] = now + net["timeout"]
                payload = transmit(s, faulty)
                if faulty and rng.random() < net["loss"]:
                    run.fault("loss")
                    continue
                copies = 2 if faulty and rng.random() < net["dup"] else 1
                for _ in range(copies):
                    post(now + 1 + (rng.randrange(net["delay"]) if faulty else 0), "data", (s, payload))
        now += 1
        run.check(now <= bound, "no-progress",
                  lambda: f"faults stopped at slot {net['stop']}, but after slot {bound} packets "
                          f"{[s for s in range(count) if s not in acked]} are still not accepted")


def execute(p, run):
    import numpy as np

    rng = random.Random(p["nseed"])
    src = sc.build(p["src"])
    run.real.add("komm." + type(src).__name__)
    kind = p["src"]["kind"]
    block = sc.block(p["src"]) if kind not in ("unary", "fibonacci") else 1
    if len(p["msg"]) % block:
        raise Invalid("message length")
    data = [int(b) for b in np.asarray(src.encode(sc.form(p["msg"], "int64")))] if p["msg"] else []
    run.check(all(b in (0, 1) for b in data), "not-binary", lambda: f"{src!r}: {data}")
    run.fault(p["mode"])
    phy = Phy(p, run, rng)
    if p["mode"] == "stream":
        got = stream(p, run, rng, phy, data, np)
        if got is None:
            return
    else:
        got = packets(p, run, rng, phy, data, np)
    run.log(got)
    run.check(got == data, "wrong-bits", lambda: f"sent {show(data)}, delivered {show(got)}")
    back = [int(v) for v in np.asarray(src.decode(np.array(got, dtype=int)))] if data else []
    if kind in ("tunstall", "v2f-tree", "v2f-mapping"):
        back = back[:len(p["msg"])]  # the last word may be completed by padding
    run.check(back == p["msg"], "wrong-message", lambda: f"{src!r}: sent {show(p['msg'])}, delivered {show(back)}")
    run.reach(f"link:{kind}:{p['mode']}:{p.get('dec', '')}:{p['medium']}:{(p.get('const') or {}).get('kind', '')}")


def packets(p, run, rng, phy, data, np):
    s = p["code"]
    n, k, d = codes.info(s)
    code = codes.build(s)
    run.real.add("komm." + type(code).__name__)
    width = k * p["blocks"]
    padded = data + [0] * (-len(data) % width)
    count = len(padded) // width
    info = [padded[i * width:(i + 1) * width] for i in range(count)]
    coded = [[int(b) for b in np.asarray(code.encode(np.array(u)))] for u in info]
    run.check(all(len(c) == n * p["blocks"] for c in coded), "encode-shape", lambda: f"{code!r}")
    phy.width = n
    t = (d - 1) // 2
    limit = d - 1 if p["mode"] == "arq" else t if p["mode"] == "fec-hard" else 0
    soft = p["mode"] == "fec-soft"
    decoder = codes.build_decoder(p["dec"], code) if "dec" in p else None
    if decoder is not None:
        run.real.add("decoder " + p["dec"])
    delivered = {}

    def transmit(seq, faulty):
        y, hard = phy.send(coded[seq], [limit] * p["blocks"], faulty)
        errs = None
        if hard is not None and 2 not in hard:
            errs = [sum(a != b for a, b in zip(hard[i * n:(i + 1) * n], coded[seq][i * n:(i + 1) * n]))
                    for i in range(p["blocks"])]
        erased = hard is not None and 2 in hard
        return {"y": y, "errs": errs, "erased": erased}

    def process(batch):
        ok = []
        good = []
        for seq, x in batch:
            if x["erased"]:
                run.fault("nack")
            elif x["errs"] is None or max(x["errs"]) > limit:
                run.fault("beyond-limit")
            else:
                good.append((seq, x))
        if not good:
            return ok
        rows = phy.receive([x["y"] for _, x in good], n * p["blocks"], soft)
        if p["mode"] == "arq":
            stacked = np.array(rows, dtype=int)
            if rng.random() < 0.5:
                synd = np.asarray(code.check(stacked)).reshape(len(good), -1)
            else:
                synd = np.array([np.asarray(code.check(r)) for r in stacked]).reshape(len(good), -1)
            for (seq, x), r, sy in zip(good, stacked, synd):
                damaged = any(x["errs"])
                clean = not np.any(sy)
                run.check(clean != damaged, "accepted-damaged" if damaged else "rejected-clean",
                          lambda: f"{code!r} (d={d}): packet {seq} with {x['errs']} flipped bits per block: syndrome "
                                  f"{show(sy)} of {show(r)}, sent {show(coded[seq])}")
                run.fault("bit-flip", sum(x["errs"]))
                if p["strict"]:
                    try:
                        u = np.asarray(code.inverse_encode(r)).tolist()
                    except ValueError:
                        u = None
                else:
                    u = np.asarray(code.project_word(r)).tolist() if clean else None
                run.check((u is None) == damaged, "accepted-damaged" if damaged else "rejected-clean",
                          lambda: f"{code!r} (d={d}): inverse_encode of a packet with {x['errs']} flips gives {u}")
                if u is None:
                    run.fault("nack")
                    continue
                accept(seq, u)
                ok.append(seq)
            return ok
        flat = np.array(rows, dtype=float if soft else int)
        out = np.asarray(decoder.decode(flat if rng.random() < 0.5 else flat.ravel())).reshape(len(good), -1)
        for (seq, x), u in zip(good, out.tolist()):
            e = max(x["errs"])
            run.fault("corrected", sum(x["errs"]))
            run.fault("at-radius", int(e == t and e > 0))
            accept(seq, u)
            ok.append(seq)
        return ok

    def accept(seq, u):
        u = [int(b) for b in u]
        run.check(u == info[seq], "wrong-packet",
                  lambda: f"{p.get('dec', 'inverse_encode')} of {code!r}: packet {seq} sent {show(info[seq])}, "
                          f"delivered {show(u)} although the damage was within the limit {limit}")
        delivered[seq] = u

    network(p, run, rng, count, transmit, process)
    return [b for i in range(count) for b in delivered[i]][:len(data)]


def stream(p, run, rng, phy, data, np):
    """Streaming convolutional code: packets carry pieces of one endless codeword and are decoded in order."""
    import komm

    c, tau = p["conv"], p["tau"]
    k, n, _ = gf2.conv_params(c)
    sigma = gf2.conv_state_bits(c)
    code = codes.build_conv(c)
    run.real.update({"komm." + type(code).__name__, "komm.ViterbiStreamDecoder"})
    padded = data + [0] * (-len(data) % k)
    padded += [0] * (k * tau)
    per = p["block"]
    padded += [0] * (-len(padded) % (k * per))
    count = len(padded) // (k * per)
    state = np.zeros(sigma, dtype=int)
    coded = []
    for i in range(count):
        v, state = code.encode_with_state(np.array(padded[i * k * per:(i + 1) * k * per], dtype=int), state)
        coded.append([int(b) for b in np.asarray(v)])
    phy.width = n * per
    delivered, first = [], {}
    decoder = komm.ViterbiStreamDecoder(code, traceback_length=tau, state=0, input_type="hard")
    total = [rng.randint(0, 2)]
    fixed = {}

    def transmit(seq, faulty):
        if seq in fixed:  # retransmissions carry the same damaged symbols: the medium is part of the stored packet
            return fixed[seq]
        e = 1 if total[0] > 0 and rng.random() < 0.3 else 0
        total[0] -= e
        y, hard = phy.send(coded[seq], [e], True)
        fixed[seq] = {"y": y, "hard": hard}
        return fixed[seq]

    def process(batch):
        rows = phy.receive([x["y"] for _, x in batch], n * per, False)
        for (seq, x), r in zip(batch, rows):
            if x["hard"] is not None:
                run.check(r == x["hard"], "wrong-bits", lambda: f"demodulated {r}, expected {x['hard']}")
            first.setdefault(seq, r)
        while len(delivered) < count and len(delivered) in first:
            piece = first[len(delivered)]
            delivered.append([int(b) for b in np.asarray(decoder.decode(np.array(piece, dtype=int)))])
        return [seq for seq, _ in batch]

    network(p, run, rng, count, transmit, process)
    received = [b for i in range(count) for b in first[i]]
    flips = sum(a != b for a, b in zip(received, [b for v in coded for b in v]))
    run.fault("bit-flip", flips)
    out = [b for v in delivered for b in v]
    # is the damage within what this code can undo?  every best survivor must select the symbol that was sent
    A, B, C, D = (np.asarray(x).astype(int) for x in code.state_space_representation())
    trans, outs = [], []
    for s in range(2**sigma):
        sb = np.array([(s >> i) & 1 for i in range(sigma)], dtype=int)
        tr, ou = [], []
        for x in range(2**k):
            xb = np.array([(x >> i) & 1 for i in range(k)])
            ou.append(sum(int(b) << i for i, b in enumerate((sb @ C + xb @ D) % 2)))
            tr.append(sum(int(b) << i for i, b in enumerate((sb @ A + xb @ B) % 2)))
        trans.append(tr)
        outs.append(ou)
    L = len(received) // n
    z = [[1 - 2 * a for a in received[t * n:(t + 1) * n]] for t in range(L)]
    allowed = c06.reference(trans, outs, n, z, 0, tau)
    sent = [sum(b << i for i, b in enumerate(padded[t * k:(t + 1) * k])) for t in range(L)]
    run.check(len(out) == L * k, "chunk-length", lambda: f"{code!r}: {L} symbols in, {len(out)} bits out")
    if any(allowed[t] != {sent[t - tau]} for t in range(tau, L)):
        run.fault("beyond-limit")
        return None
    run.fault("corrected", flips)
    return out[tau * k:][:len(data)]
