"""C05: cutting a stream into pieces never changes an encoder's or machine's output."""

import numpy as np

from .. import codes, gf2
from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 48000, "thorough": 200000}
TIME_UNIT = "symbol periods"
RULE = ("A random convolutional encoder (three classes, with feedback, memoryless or long), Mealy or Moore machine "
        "shared by 1-4 streams; each stream is cut at random points (including empty pieces) and the pieces of all "
        "streams are processed in a random interleaving, states handed over by the caller.  Oracle: own polynomial "
        "recursion, own state recursion, and one uncut call.")
STUBS = ["segmentation and multiplexing: seeded schedule"]
ASSUMPTIONS = ["input pieces hold whole symbols"]
PROBES = ["cut", "empty-piece", "multiplex", "nonzero-initial-state", "feedback"]
SHRINK = ["order", "streams.*.u", "streams"]


def generate(rng, tier):
    kind = rng.choice(["conv", "conv", "conv", "mealy", "moore", "fsm"])
    p = {"kind": kind}
    if kind in ("conv", "fsm"):
        c = codes.gen_conv(rng, max_states=rng.choice([2, 4, 9] * 8 + [20, 40, 60]) if kind == "conv" else 4,
                           k_max=rng.choice([1, 2, 3]))
        p["conv"] = c
        k, _, _ = gf2.conv_params(c)
        sigma = gf2.conv_state_bits(c)
        nin, nst = k, 2**sigma
        card = 2**k
    else:
        nst, card = rng.randint(1, 7), rng.randint(1, 4)
        nout = rng.randint(1, 6)
        if rng.random() < 0.08:
            nst, card, nout = rng.choice([9, 40, 130, 300]), rng.choice([2, 3, 9]), rng.choice([7, 130, 300, 70000, 2**40])
        p["T"] = [[rng.randrange(nst) for _ in range(card)] for _ in range(nst)]
        p["O"] = [[rng.randrange(nout) for _ in range(card)] for _ in range(nst)] if kind == "mealy" else \
            [rng.randrange(nout) for _ in range(nst)]
        nin = 1
    streams = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        L = rng.choice([0, 1, 2, 5, 12, 40, 90]) if r < 0.98 else rng.choice([300, 1000, 1300, 2600, 2600, 5000])
        u = [rng.randrange(2 if kind == "conv" else card) for _ in range(L * (nin if kind == "conv" else 1))]
        s0 = rng.choice([0, rng.randrange(nst)])
        streams.append({"u": u, "s0": s0})
    # interleaved pieces: (stream, number of symbols)
    order = []
    for i, s in enumerate(streams):
        L = len(s["u"]) // (nin if kind == "conv" else 1)
        left = L
        while left > 0:
            c = min(left, rng.choice([1, 1, 2, 3, 7, 20, left, L // 3 + 1] + [L - rng.randint(1, 300)] * 5 * (L > 300)))
            c = max(c, 1)
            if rng.random() < 0.08:
                order.append([i, 0])
            order.append([i, c])
            left -= c
    keyed = [(rng.random(), j) for j in range(len(order))]
    slots = sorted(range(len(order)), key=lambda j: keyed[j])
    # random merge that keeps the order within each stream
    perm = [order[j][0] for j in slots]
    queues = {i: [o for o in order if o[0] == i] for i in range(len(streams))}
    p["order"] = [queues[i].pop(0) for i in perm]
    p["streams"] = streams
    p["form"] = rng.choice([f for f in codes.INT_FORMS if kind == "conv" or f not in ("bool",)])
    p["state_form"] = rng.choice(["int64", "list", "uint8", "readonly"])
    p["warm"] = rng.choice([0, 0, 1, 2])
    return p


def bits(v, w):
    return [(v >> i) & 1 for i in range(w)]


def execute(p, run):
    kind = p["kind"]
    if kind in ("conv", "fsm"):
        c = p["conv"]
        k, n, _ = gf2.conv_params(c)
        sigma = gf2.conv_state_bits(c)
        code = codes.build_conv(c)
        run.real.add("komm." + type(code).__name__)
        A, B, C, D = (np.asarray(x).astype(int) for x in codes.build_conv(c).state_space_representation())
        run.check(A.shape == (sigma, sigma) and B.shape == (k, sigma) and C.shape == (sigma, n) and D.shape == (k, n),
                  "state-space-shape", lambda: f"{code!r}: {A.shape} {B.shape} {C.shape} {D.shape}")
        if c.get("fb"):
            run.fault("feedback")

    def recursion(u, s0):
        """Defining state recursion; returns outputs and the final state as lists/ints."""
        if kind == "conv":
            s, out = np.array(bits(s0, sigma), dtype=int), []
            for t in range(len(u) // k):
                x = np.array(u[t * k:(t + 1) * k])
                out += ((s @ C + x @ D) % 2).tolist()
                s = (s @ A + x @ B) % 2
            return out, s.tolist()
        if kind == "fsm":
            s, out = np.array(bits(s0, sigma), dtype=int), []
            for x in u:
                xb = np.array(bits(x, k))
                out.append(sum(int(b) << i for i, b in enumerate((s @ C + xb @ D) % 2)))
                s = (s @ A + xb @ B) % 2
            return out, sum(int(b) << i for i, b in enumerate(s))
        s, out = s0, []
        for x in u:
            if kind == "mealy":
                out.append(p["O"][s][x])
                s = p["T"][s][x]
            else:
                s = p["T"][s][x]
                out.append(p["O"][s])
        return out, s

    import komm

    if kind == "conv":
        step = code.encode_with_state
        wrap = lambda s0: codes.form_array(bits(s0, sigma), p["state_form"]) if sigma else np.array([], dtype=int)
        per = k
    elif kind == "fsm":
        step, wrap, per = code.finite_state_machine().process, int, 1
    else:
        machine = (komm.MealyMachine if kind == "mealy" else komm.MooreMachine)(p["T"], p["O"])
        run.real.add("komm." + type(machine).__name__)
        step, wrap, per = machine.process, int, 1

    streams = p["streams"]
    if kind == "conv":
        streams = [{"u": s["u"][: len(s["u"]) // k * k], "s0": s["s0"]} for s in streams]
    expected = [recursion(s["u"], s["s0"]) for s in streams]
    what = (lambda: repr(code)) if kind in ("conv", "fsm") else (lambda: f"{kind} {p['T']} {p['O']}")
    pos = [0] * len(streams)
    state = [wrap(s["s0"]) for s in streams]
    outs = [[] for _ in streams]
    last = None

    def feed(i, cnt):
        nonlocal last
        u = streams[i]["u"]
        piece = u[pos[i]: pos[i] + cnt * per]
        if len(piece) % per:
            raise Invalid("piece")
        x = codes.form_array(piece, p["form"]) if piece else np.array([], dtype=int)
        before, sbefore = snapshot(x), snapshot(state[i])
        y, s1 = step(x, state[i])
        run.check(snapshot(x) == before and snapshot(state[i]) == sbefore, "input-modified",
                  lambda: f"{what()}: the caller's input or state array was modified")
        outs[i] += np.asarray(y).astype(int).ravel().tolist()
        state[i] = s1
        pos[i] += len(piece)
        run.now += len(piece) // per
        run.fault("cut")
        run.fault("empty-piece", int(not piece))
        run.fault("multiplex", int(last not in (None, i)))
        last = i

    if p["warm"] and kind == "conv" and streams:
        code.encode(np.array(streams[-1]["u"], dtype=int))
        if sigma + k <= 8:
            code.finite_state_machine()
        if p["warm"] == 2 and sigma + k <= 5:
            try:
                code.free_distance()
            except RuntimeError:  # the all-zero code
                pass
    for i, cnt in p["order"]:
        if i < len(streams):
            feed(i, cnt)
    for i in range(len(streams)):
        left = (len(streams[i]["u"]) - pos[i]) // per
        if left:
            feed(i, left)
    for i, s in enumerate(streams):
        want, fin = expected[i]
        run.fault("nonzero-initial-state", int(s["s0"] != 0))
        got_fin = np.asarray(state[i]).astype(int).tolist() if kind == "conv" else int(state[i])
        run.log(outs[i], got_fin)
        run.check(outs[i] == want, "output-depends-on-cuts",
                  lambda: f"{what()}: stream {i} from state {s['s0']} cut as "
                          f"{[c for j, c in p['order'] if j == i]} gives {show(outs[i])}, expected {show(want)}")
        run.check(got_fin == fin, "final-state",
                  lambda: f"{what()}: stream {i} final state {got_fin}, expected {fin}")
        whole, s1 = step(np.array(s["u"], dtype=int), wrap(s["s0"]))
        run.check(np.asarray(whole).astype(int).ravel().tolist() == want, "one-call-output",
                  lambda: f"{what()}: one call gives {show(whole)}, expected {show(want)}")
        one_fin = np.asarray(s1).astype(int).tolist() if kind == "conv" else int(s1)
        run.check(one_fin == fin, "one-call-state", lambda: f"{what()}: one call ends in {one_fin}, expected {fin}")
        if kind == "conv":
            blocks = [s["u"][t:t + k] for t in range(0, len(s["u"]), k)]
            poly = [b for v in gf2.conv_encode(c, blocks) for b in v]
            enc = np.asarray(code.encode(codes.form_array(s["u"], p["form"]) if s["u"] else np.array([], dtype=int)))
            run.check(enc.astype(int).tolist() == poly, "transfer-function",
                      lambda: f"{what()}: encode({show(s['u'])}) = {show(enc)}, transfer function gives {show(poly)}")
        run.reach(f"stream:{kind}|{p.get('conv', {}).get('cls')}|{min(len(s['u']), 99)}|{s['s0']}|"
                  f"{min(len([1 for j, _ in p['order'] if j == i]), 9)}")
