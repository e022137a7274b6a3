"""C10: objects shared by concurrent callers give every caller the sequential answer."""

from .. import codes, core, gf2, objects
from .c09 import shape_of, sibling, vary

PAST = False  # runs make their own histories
RUNS = {"quick": 10000, "thorough": 45000}
TIME_UNIT = "scheduling points (lines or bytecodes of the library)"
RULE = ("2-4 real threads under a scheduler that decides at every line or bytecode of the library who runs; 1-3 shared "
        "objects with cold or partly warm caches (and equal twins), 1-3 calls per thread (preferably the same method "
        "at the same time, with data of the same shape), private generators and stream decoders per thread; schedules: random short slices, "
        "lockstep, a few late preemptions, rare instants (first visit of a place in the code, progress-bar "
        "and weak-set code shared by all threads), one stalled thread.  Oracle: each call alone in a fresh process; "
        "afterwards every question is asked once more of the objects used.")
STUBS = ["thread scheduler (real threads, one baton)", "locks of the library and of its progress bars wait in the "
         "scheduler"]
ASSUMPTIONS = ["preemption inside a single NumPy or C call is not simulated (they hold the interpreter lock or touch "
               "only their own arrays)", "one streaming decoder or generator is not shared by two threads"]
PROBES = ["preemption", "same-function", "rng-private", "stream-private", "fine", "coarse", "failed-call", "construct"]
SHRINK = ["threads.*", "segments", "warm", "segments.*.*", "fine"]

HEAVY = 400_000  # events of one thread alone
# Slices: n > 0 events; 0 > n > -RARE: that many 1/10000 of the thread's events alone; n <= -RARE: up to the given
# 1/10000 of its rare instants (first visit of a place in the code, and anything in state shared by all threads).
RARE = 100_000


def gen_private(rng):
    r = rng.random()
    if r < 0.4:
        conv = codes.gen_conv(rng, max_states=3)
        k, n, _ = gf2.conv_params(conv)
        return {"kind": "stream", "conv": conv, "tau": rng.randint(1, 12),
                "ops": [[rng.getrandbits(1) for _ in range(n * rng.randint(1, 6))] for _ in range(rng.randint(1, 3))]}
    fam = rng.choice(["channel", "gauss", "dms", "markov"])
    spec = {"fam": "gauss", "var": rng.choice([0.5, 1.0])} if fam == "gauss" else objects.gen_spec(rng, fam)
    return {"kind": "rng", "spec": spec, "seed": rng.randint(0, 9),
            "ops": [rng.randint(1, 8) for _ in range(rng.randint(1, 3))]}


def gen_segments(rng, nt):
    style = rng.choice(["slices", "slices", "lockstep", "late", "late", "stall", "mixed", "rare", "rare", "rare"])
    seg = []
    if style == "slices":
        top = rng.choice([1, 2, 4, 10, 40, 150])
        for _ in range(rng.randint(10, 120)):
            seg.append([rng.randrange(nt), rng.randint(1, top)])
    elif style == "lockstep":
        n = rng.choice([1, 1, 2, 3, 5, 8])
        lead = rng.choice([0, 0, 1, 2, 5])
        if lead:
            seg.append([0, lead])
        for i in range(rng.randint(20, 150)):
            seg.append([i % nt, n])
    elif style == "late":
        for _ in range(rng.randint(1, 5)):
            seg.append([rng.randrange(nt), -rng.randint(1, 10000)])
            if rng.random() < 0.5:
                seg.append([rng.randrange(nt), rng.randint(1, 30)])
    elif style == "stall":
        v = rng.randrange(nt)
        seg.append([v, -rng.randint(1, 9999)])
        for t in rng.sample(range(nt), nt):
            if t != v:
                seg.append([t, -30000])
    elif style == "rare":
        for _ in range(rng.randint(1, 5)):
            t = rng.randrange(nt)
            seg.append([t, -RARE - rng.randint(0, 9999)])
            r = rng.random()
            if r < 0.4:
                seg.append([(t + rng.randrange(1, nt)) % nt, -30000])
            elif r < 0.8:
                seg.append([(t + rng.randrange(1, nt)) % nt, -RARE - rng.randint(0, 9999)])
            if rng.random() < 0.3:
                seg.append([rng.randrange(nt), rng.randint(1, 30)])
    else:
        for _ in range(rng.randint(5, 40)):
            seg.append([rng.randrange(nt), rng.choice([1, 2, 3, rng.randint(1, 300), -rng.randint(1, 5000)])])
    return style, seg


def generate(rng, tier):
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    specs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = objects.gen_spec(rng, "decoder" if rng.random() < 0.15 else None)
        specs.append(s)
        if rng.random() < 0.3:
            specs.append(s if rng.random() < 0.5 else sibling(rng, s))
    specs = specs[:4]
    hot = rng.randrange(len(specs))
    hq = objects.gen_query(rng, specs[hot])
    threads = []
    if rng.random() < 0.1:  # the same private work in every thread, with generators (or data) of their own
        pv = gen_private(rng)
        for i in range(nt):
            q = dict(pv)
            if pv["kind"] == "rng":
                q["seed"] = pv["seed"] + i
                if rng.random() < 0.2:
                    q["ops"] = [rng.randint(1, 8) for _ in pv["ops"]]
            else:
                q["ops"] = [[b ^ (rng.random() < 0.3) for b in o] for o in pv["ops"]]
            threads.append([["priv", q]])
        style, seg = gen_segments(rng, nt)
        return {"specs": specs[:1], "threads": threads, "warm": [], "style": style, "segments": seg,
                "fine": rng.random() < 0.35}
    alike = [i for i in range(len(specs)) if shape_of(specs[i]) == shape_of(specs[hot])]
    for _ in range(nt):
        ops = []
        for j in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if j == 0 and r < 0.7:
                q = hq
                s = rng.random()
                if s < 0.35:  # other data of the same shape
                    q = vary(rng, hq, 0.0) or hq
                elif s < 0.8:
                    for _ in range(30):
                        q = objects.gen_query(rng, specs[hot])
                        if q["m"] == hq["m"]:
                            break
                    else:
                        q = hq
                ops.append(["ask", hot if rng.random() < 0.7 else rng.choice(alike), q])
            elif r < 0.12:
                i = rng.randrange(len(specs))
                ops.append(["bad", i, objects.gen_query(rng, specs[i], True)])
            elif r < 0.22:
                i = rng.randrange(len(specs))
                ops.append(["make", i, objects.gen_query(rng, specs[i])])
            else:
                i = rng.randrange(len(specs))
                ops.append(["ask", i, objects.gen_query(rng, specs[i])])
        if rng.random() < 0.3:
            ops.insert(rng.randint(0, len(ops)), ["priv", gen_private(rng)])
        threads.append(ops)
    warm = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(len(specs))
        warm.append([i, objects.gen_query(rng, specs[i])])
    style, seg = gen_segments(rng, nt)
    return {"specs": specs, "threads": threads, "warm": warm, "style": style, "segments": seg,
            "fine": rng.random() < 0.35}


def private(pv):
    """Runs the private operations of one thread, start to end; returns their images."""
    import komm
    import numpy as np

    out = []
    if pv["kind"] == "stream":
        cc = codes.build_conv(pv["conv"])
        d = komm.ViterbiStreamDecoder(cc, traceback_length=pv["tau"], state=0, input_type="hard")
        for ch in pv["ops"]:
            out.append(objects.image(d.decode(np.array(ch))))
        return out
    s, g = pv["spec"], np.random.default_rng(pv["seed"])
    if s["fam"] == "gauss":
        ch = komm.GaussianChannel(s["var"], rng=g)
        for n in pv["ops"]:
            out.append(objects.image(ch.transmit(np.ones(n) * (1j if n % 2 else 1))))
        return out
    o = objects.build(s, g)
    for n in pv["ops"]:
        if s["fam"] == "channel":
            rows = len(s["P"]) if s["kind"] == "dmc" else 2
            out.append(objects.image(o.transmit(np.arange(n) % rows)))
        elif s["fam"] == "dms":
            out.append(objects.image(o.emit(n)))
        else:
            out.append(objects.image(o.simulate(n % len(s["P"]), n)))
    return out


def alone(specs, op, fine):
    """Image and number of scheduling points of one operation, alone in a fresh process."""
    from .. import points

    def fn():
        count, rare, seen = [0], [], set()

        def cb(code, where):
            count[0] += 1
            if (code, where) not in seen or code in host:
                seen.add((code, where))
                rare.append(count[0])

        host = set(points.HOST)

        if op[0] == "priv":
            points.install(cb, fine, host=True)
            img = private(op[1])
            points.remove()
            return {"status": "ok", "img": img, "n": count[0], "rare": rare[:4000]}
        o = objects.build(specs[op[1]]) if op[0] != "make" else None
        points.install(cb, fine, host=True)
        if o is None:
            o = objects.build(specs[op[1]])
        img, _, _ = objects.ask(o, op[2])
        points.remove()
        return {"status": "ok", "img": img, "n": count[0], "rare": rare[:4000]}

    r = core.nested(fn)
    return r


def execute(p, run):
    from .. import threads as th

    specs, nt, fine = p["specs"], len(p["threads"]), bool(p["fine"])
    truth, solo = {}, [0] * nt
    for t, ops in enumerate(p["threads"]):
        for op in ops:
            key = core.canonical(op)
            if key not in truth:
                truth[key] = alone(specs, op, fine)
            solo[t] += truth[key]["n"]
    ops_of = []
    for t, ops in enumerate(p["threads"]):
        keep, n = [], 0
        for op in ops:
            n += truth[core.canonical(op)]["n"]
            if n <= HEAVY:
                keep.append(op)
        ops_of.append(keep)
    rare = [[] for _ in range(nt)]
    for t, ops in enumerate(ops_of):
        n = 0
        for op in ops:
            r = truth[core.canonical(op)]
            rare[t] += [n + i for i in r["rare"]]
            n += r["n"]
    seg, given = [], [0] * nt
    for t, n in p["segments"]:
        if t >= nt:
            continue
        if n <= -RARE:
            n = rare[t][min(9999, -n - RARE) * len(rare[t]) // 10000] - given[t] if rare[t] else 1
        elif n < 0:
            n = -n * solo[t] // 10000
        seg.append([t, max(1, n)])
        given[t] += seg[-1][1]
    live = [objects.build(s) for s in specs]
    for i, q in p["warm"]:
        objects.ask(live[i], q)
    shown = [[f"{type(live[op[1]]).__name__}#{op[1]}.{objects.show_query(op[2])}" if op[0] != "priv" else "private"
              for op in ops] for ops in ops_of]

    def body(t):
        def fn():
            out = []
            for op in ops_of[t]:
                if op[0] == "priv":
                    out.append((private(op[1]), False, None))
                else:
                    o = objects.build(specs[op[1]]) if op[0] == "make" else live[op[1]]
                    out.append(objects.ask(o, op[2]))
            return out
        return fn

    sched = th.Scheduler([body(t) for t in range(nt)], seg, fine, budget=40 * sum(solo) + 200_000)
    sched.run()
    run.now += sched.total
    run.fault("preemption", len(sched.switches))
    run.fault("fine" if fine else "coarse")
    trail = [f"T{a}->T{b} at {w}:{ln}" for a, b, w, ln, _ in sched.switches]
    for _, _, w, _, other in sched.switches:
        run.reach(f"at:{w}")
        if other:
            run.reach(f"pair:{w}|{other}")  # one thread stopped inside each
        if other == w:
            run.fault("same-function")
    if sched.switches:
        run.reach("interleaving:" + core.digest(trail))
    if isinstance(sched.dead, th.Deadlock):
        run.check(False, "deadlock", f"threads {shown} wait for each other's locks; schedule {trail[-6:]}")
    if isinstance(sched.dead, th.Budget):
        run.check(False, "no-progress", f"threads {shown} do not finish; schedule {trail[-6:]}")
    for t in range(nt):
        if sched.errors[t] is not None:
            raise sched.errors[t]
        for op, s, (img, mod, raw) in zip(ops_of[t], shown[t], sched.results[t]):
            want = truth[core.canonical(op)]["img"]
            run.log(t, str(img)[:2000])
            if op[0] == "bad":
                run.fault("failed-call")
                continue
            if op[0] == "priv":
                run.fault(op[1]["kind"] + "-private")
                run.check(img == want, "private-generator-disturbed",
                          lambda: f"thread {t}: {op[1]} gave {str(img)[:200]}, alone {str(want)[:200]}; schedule {trail[-8:]}")
                continue
            if op[0] == "make":
                run.fault("construct")
            run.real.add(objects.real_names(specs[op[1]], live[op[1]]))
            run.reach(f"call:{specs[op[1]]['fam']}:{op[2]['m']}")
            run.check(objects.agree(img, want), "interleaving-dependent",
                      lambda: f"thread {t}: {live[op[1]]!r}: {s} = {str(img)[:250]}, alone {str(want)[:250]}; "
                              f"threads {shown}; schedule {trail[-8:]}")
            run.check(not mod, "modified-argument", lambda: f"thread {t}: {s} modified its arguments")
            if img != ["exc"]:
                run.check(objects.image(raw) == img, "result-changed-later",
                          lambda: f"thread {t}: the value returned by {s} changed afterwards from {str(img)[:200]} to "
                                  f"{str(objects.image(raw))[:200]}; threads {shown}; schedule {trail[-8:]}")
    # what the interleaving left behind
    for ops in ops_of:
        for op in ops:
            if op[0] == "ask":
                img, _, _ = objects.ask(live[op[1]], op[2])
                want = truth[core.canonical(op)]["img"]
                run.check(objects.agree(img, want), "left-behind",
                          lambda: f"{live[op[1]]!r}: after the threads ended, {objects.show_query(op[2])} = "
                                  f"{str(img)[:250]}, fresh {str(want)[:250]}; threads {shown}; schedule {trail[-8:]}")
