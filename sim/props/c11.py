"""C11: an interrupted or failed computation leaves no trace."""

import sys

from .. import core, objects
from .c09 import sibling

PAST = False  # runs make their own histories
RUNS = {"quick": 6000, "thorough": 60000}
TIME_UNIT = "interruptible instants of the library executed"
RULE = ("1-4 live objects (equal twins and siblings included), 2-8 operations, 1-4 of which are struck: Ctrl-C or "
        "memory exhaustion at a chosen bytecode inside the library, or progress bars under a frozen, jumping, "
        "backward or stalled clock writing to a stream that fails from its n-th write on.  A struck operation must "
        "raise that very error or return its value; then it is retried, and everything else asked, with the values "
        "of a fresh process as oracle.")
STUBS = ["interrupts and allocation failures: raised at monitored bytecodes", "clock of the progress bars",
         "stream the progress bars write to"]
ASSUMPTIONS = ["interruption inside a single NumPy or C call is not simulated",
               "instants at which no Python code can protect itself (leaving a with block, inside an exception "
               "handler) are not struck",
               "operations that advance a stream or a generator may have consumed part of their input when struck; "
               "only their effect on other objects is judged"]
PROBES = ["KeyboardInterrupt", "MemoryError", "raised", "survived", "progress-shown", "progress-failed", "construct",
          "clock:jumping", "clock:backwards", "clock:frozen", "clock:stalled", "retry", "afterwards"]
SHRINK = ["ops", "ops.*.3"]

BARS = [("code", ["coset_leaders", "codeword_weight_distribution", "coset_leader_weight_distribution",
                  "covering_radius", "minimum_distance"]),
        ("decoder", ["decode"]), ("source", ["encode", "roundtrip", "codewords", "codeword_lengths", "source_words",
                                             "dec_mapping", "rate"])]


def gen_fault(rng):
    r = rng.random()
    if r < 0.72:
        at = rng.choice([["abs", rng.randint(1, 60)], ["rel", rng.randint(0, 10000)],
                         ["end", rng.randint(0, 40)], ["place", rng.randint(0, 9999), rng.randrange(3)],
                         ["place", rng.randint(0, 9999), rng.randrange(3)],
                         ["write", rng.randint(0, 9999), rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])],
                         ["write", rng.randint(0, 9999), rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])]])
        return {"exc": rng.choice(["KeyboardInterrupt", "MemoryError"]), "at": at}
    return gen_progress(rng)


def gen_progress(rng):
    return {"clock": rng.choice(["jumping", "backwards", "frozen", "stalled", "slow", "nan"]), "seed": rng.randint(0, 99),
            "stream": rng.choice(["ok", "epipe", "enospc", "eio", "closed", "flush", "slow", "encode"]),
            "first": rng.choice([1, 1, 2, 3, 5, 9]), "off": rng.random() < 0.12}


def generate(rng, tier):
    bars = rng.random() < 0.35
    specs = []
    for _ in range(rng.choice([1, 1, 2])):
        if bars:
            fam, names = rng.choice(BARS)
            s = objects.gen_spec(rng, fam)
        else:
            s = objects.gen_spec(rng)
        specs.append(s)
        if rng.random() < 0.4:
            specs.append(s if rng.random() < 0.6 else sibling(rng, s))
    specs = specs[:4]
    ops = []
    for j in range(rng.randint(2, 6 if tier == "quick" else 9)):
        i = rng.randrange(len(specs))
        names = dict(BARS).get(specs[i]["fam"])
        q = objects.gen_query(rng, specs[i])
        if bars and names:
            for _ in range(30):
                if q["m"] in names:
                    break
                q = objects.gen_query(rng, specs[i])
        fault = gen_fault(rng) if (j == 0 or rng.random() < 0.5) else None
        if fault and bars and rng.random() < 0.6:
            fault = gen_progress(rng)
        ops.append(["make" if rng.random() < 0.15 else "ask", i, q, [fault] if fault else []])
    if rng.random() < 0.3:
        ops.insert(rng.randint(0, len(ops)), ["rand", 0, {"m": "rand", "a": []}, [gen_fault(rng)]])
    return {"specs": specs, "ops": ops}


def alone(specs, i, q, make):
    from .. import inject

    def fn():
        if make:
            with inject.Instants() as c:
                o = objects.build(specs[i])
                img, _, _ = objects.ask(o, q)
        else:
            o = objects.build(specs[i])
            with inject.Instants() as c:
                img, _, _ = objects.ask(o, q)
        return {"status": "ok", "img": img, "n": c.count, "places": list(c.places.values()), "writes": c.writes}

    r = core.nested(fn)
    return r


def instant(at, t):
    n, kind, v = t["n"], at[0], at[1]
    if kind == "place" and t.get("places"):
        return t["places"][v * len(t["places"]) // 10000][at[2]]
    if kind == "write" and t.get("writes"):
        return min(n, t["writes"][v * len(t["writes"]) // 10000] + at[2])
    if kind in ("place", "write"):
        kind = "rel"
    k = v if kind == "abs" else 1 + v * (n - 1) // 10000 if kind == "rel" else n - v
    return min(max(1, k), max(1, n))


def attempt(call, fault, t, run):
    """-> (outcome, error, where): outcome is the raw value, error the exception if any."""
    import tqdm.std

    from .. import inject

    if "exc" in fault:
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[fault["exc"]]
        inj = inject.Instants(instant(fault["at"], t), exc)
        try:
            with inj:
                v = call()
            return v, None, inj.where
        except BaseException as e:
            return None, e, inj.where
        finally:
            if inj.where:
                run.fault(fault["exc"])
                run.reach(f"struck:{inj.where.split('+')[0]}", f"instant:{inj.where}")
    clock = inject.Clock(fault["clock"], fault["seed"])
    stream = inject.Stream(fault["stream"], fault["first"], clock)
    keep_t, keep_s, keep_i = tqdm.std.time, sys.stderr, tqdm.std.tqdm.__init__
    tqdm.std.time, sys.stderr = clock, stream
    if fault.get("off"):  # as under TQDM_DISABLE=1: bars that count nothing and show nothing
        def silent(bar, *a, **kw):
            run.fault("bar-disabled")
            keep_i(bar, *a, **{**kw, "disable": True})

        tqdm.std.tqdm.__init__ = silent
    try:
        v = call()
        return v, None, None
    except BaseException as e:
        return None, e, None
    finally:
        tqdm.std.time, sys.stderr, tqdm.std.tqdm.__init__ = keep_t, keep_s, keep_i
        if clock.calls:
            run.fault("clock:" + fault["clock"])
        run.fault("progress-shown", stream.writes)
        run.fault("progress-failed", stream.fired)
        run.fault("stream:" + fault["stream"], stream.fired)


def execute(p, run):
    sys.unraisablehook = lambda *a: None
    specs = p["specs"]
    if not specs:
        return
    live = [objects.build(s) for s in specs]
    truth, trail, struck = {}, [], False

    def know(i, q, make):
        key = core.canonical([i, q, make])
        if key not in truth:
            truth[key] = alone(specs, i, q, make)
        return truth[key]

    for op, i, q, _ in p["ops"]:
        if i >= len(specs):
            raise core.Invalid("object")
        if op != "rand":
            run.now += know(i, q, op == "make")["n"]

    def verify(i, q, kind, what):
        want = truth[core.canonical([i, q, False])]["img"] if core.canonical([i, q, False]) in truth else \
            know(i, q, False)["img"]
        img, mod, _ = objects.ask(live[i], q)
        run.check(objects.agree(img, want), kind,
                  lambda: f"{live[i]!r}: {what} {objects.show_query(q)} = {str(img)[:300]}, fresh {str(want)[:300]}; "
                          f"history {trail[-6:]}")
        run.check(not mod, "modified-argument", lambda: f"{objects.show_query(q)} modified its arguments")
        return img

    for op, i, q, faults in p["ops"]:
        fault = faults[0] if faults else None
        if op == "rand":
            run_random(p, run, fault, trail)
            struck = True
            continue
        t = know(i, q, op == "make")
        name = f"{type(live[i]).__name__}#{i}.{objects.show_query(q)}"
        run.real.add(objects.real_names(specs[i], live[i]))
        if fault is None:
            img = verify(i, q, "left-behind", "")
            if struck:
                run.fault("afterwards")
            run.log(name, str(img)[:1000])
            trail.append(name)
            continue
        args = objects.prepare(q)

        def call():
            o = objects.build(specs[i]) if op == "make" else live[i]
            return objects.perform(o, q, args)

        v, err, where = attempt(call, fault, t, run)
        what = f"{name} struck by {fault.get('exc', fault.get('stream'))} at {where or fault.get('clock')}"
        trail.append(what)
        struck = True
        if op == "make":
            run.fault("construct")
        expected_exc = t["img"] == ["exc"]
        if err is None:
            run.fault("survived")
            img = objects.image(v)
            run.check(objects.agree(img, t["img"]), "wrong-value-under-fault",
                      lambda: f"{live[i]!r}: {what} returned {str(img)[:300]}, fresh {str(t['img'])[:300]}")
        else:
            run.fault("raised")
            if "exc" in fault:
                ok = type(err).__name__ == fault["exc"] or (expected_exc and where is None)
            else:
                ok = isinstance(err, (OSError, UnicodeEncodeError)) or "closed file" in str(err) or \
                    (fault["clock"] == "nan" and isinstance(err, (ValueError, ArithmeticError)))
            ok = ok or (expected_exc and isinstance(err, Exception))
            run.check(ok, "different-error", lambda: f"{live[i]!r}: {what} raised {type(err).__name__}: {err}")
        err = None
        v = None
        run.fault("retry")
        img = verify(i, q, "retry-differs", "retried after " + what + ":")
        run.log(what, str(img)[:1000])
    # everything once more, on the same objects and on new ones
    for op, i, q, _ in p["ops"]:
        if op != "rand":
            verify(i, q, "left-behind", "at the end")
    for i, s in enumerate(specs):
        live[i] = objects.build(s)
    for op, i, q, _ in p["ops"]:
        if op != "rand":
            verify(i, q, "left-behind", "asked of a new object at the end")


def run_random(p, run, fault, trail):
    """Strikes operations that advance a generator or a stream; they are then abandoned."""
    import komm
    import numpy as np

    g = np.random.default_rng(3)

    def call():
        cc = komm.ConvolutionalCode([[0b111, 0b101]])
        komm.ViterbiStreamDecoder(cc, traceback_length=4, state=0, input_type="hard").decode(np.ones(12, dtype=int))
        komm.BinarySymmetricChannel(0.5, rng=g).transmit(np.zeros(5, dtype=int))
        komm.DiscreteMemorylessChannel([[0.5, 0.5], [1, 0]], rng=g).transmit([0, 1, 0])
        komm.MarkovChain([[0.5, 0.5], [0, 1]], rng=g).simulate_until_absorption(0)
        return komm.DiscreteMemorylessSource([0.5, 0.5], rng=g).emit(4)

    _, err, where = attempt(call, fault, {"n": 400}, run)
    run.check(err is None or "exc" not in fault or type(err).__name__ == fault["exc"], "different-error",
              lambda: f"random operations struck at {where} raised {err!r}")
    trail.append(f"random operations struck at {where}")
    cc = komm.ConvolutionalCode([[0b111, 0b101]])
    u = np.array([1, 0, 1, 1, 0, 0, 1, 0])
    d = komm.ViterbiStreamDecoder(cc, traceback_length=4, state=0, input_type="hard")
    out = d.decode(cc.encode(np.append(u, [0] * 4)))
    run.check(out[4:].tolist() == u.tolist(), "left-behind", lambda: f"a new streaming decoder returns {out} after {trail[-3:]}")
