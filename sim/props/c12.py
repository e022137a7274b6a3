"""C12: simulations are reproducible; all randomness comes from the designated generator."""

import json
import os
import subprocess
import sys

from .. import core, objects, rand

PAST = False  # runs make their own histories
RUNS = {"quick": 11000, "thorough": 120000}
TIME_UNIT = "operations"
RULE = ("2-5 random objects (all channels, the source, Markov chains) on explicit generators of any bit-generator kind "
        "(some shared) or on the library-wide one; their draws are interleaved with each other, cut into consecutive "
        "calls, and disturbed: foreign reseeding of NumPy's and Python's global generators, draws by strangers, "
        "deterministic queries, other library work, failing calls, process restarts with only generator states "
        "surviving, different hash seeds.  Oracle: the same draws, undisturbed and uncut, one generator at a time, in "
        "a fresh process; and the untouched state of every generator not designated.")
STUBS = ["process restarts: fresh forks with generator states restored", "foreign users of global generators: scripted"]
ASSUMPTIONS = ["an object created without a generator uses the library-wide one in force when it was created"]
PROBES = ["cut", "restart", "legacy-reseed", "python-reseed", "stranger-draw", "deterministic-query", "library-wide",
          "shared-generator", "hash-seed", "failed-call", "global-replaced", "legacy-draw", "long-draw"]
SHRINK = ["ops", "ops.*.2.cuts"]


def generate(rng, tier):
    gens = [rand.gen_generator(rng) for _ in range(rng.randint(1, 3))]
    objs = []
    for _ in range(rng.randint(2, 5)):
        objs.append({"spec": rand.gen_random_spec(rng), "gen": rng.choice([*range(len(gens)), None])})
    if rng.random() < 0.3:  # twins
        objs.append({"spec": objs[0]["spec"], "gen": rng.choice([*range(len(gens)), None])})
    ops = []
    for _ in range(rng.randint(5, 25)):
        i = rng.randrange(len(objs))
        r = rng.random()
        if r < 0.6:
            ops.append(["draw", i, rand.gen_draw(rng, objs[i]["spec"], long=0.01)])
        elif r < 0.7:
            s = objs[i]["spec"]
            if s["fam"] == "gauss":
                continue
            ops.append(["bad" if rng.random() < 0.3 else "det", i, objects.gen_query(rng, s)])
        elif r < 0.8:
            s = objects.gen_spec(rng)
            ops.append(["other", s, objects.gen_query(rng, s)])
        elif r < 0.95:
            ops.append(["noise", rng.choice(["legacy-reseed", "python-reseed", "legacy-draw", "stranger-draw",
                                             "global-replaced"]), rng.randint(0, 99)])
        else:
            ops.append(["restart"])
    for op in ops:
        while op[0] == "bad":  # (a refused random operation may draw before it notices)
            op[2] = objects.gen_query(rng, objs[op[1]]["spec"], True)
            if op[2]["m"] not in ("transmit", "simulate", "simulate_until_absorption", "emit"):
                break
    return {"gens": gens, "global": rand.gen_generator(rng), "objs": objs, "ops": ops,
            "hashseed": rng.randint(1, 10**6) if rng.random() < 0.03 else 0}


def image(raw):
    """Long outputs are compared by digest."""
    import hashlib

    import numpy as np

    a = np.asarray(raw)
    if a.size <= 2000 or a.dtype.kind not in "biufc":
        return objects.image(raw)
    b = a.astype(complex if a.dtype.kind == "c" else float) + 0.0
    return ["big", list(a.shape), hashlib.sha256(b.tobytes()).hexdigest(), objects.image(a.ravel()[:20])]


def transcript(p):
    """Undisturbed: for each generator the draws made from it, one generator after the other, nothing cut."""
    out = {}
    for g in [*range(len(p["gens"])), None]:
        gen = rand.build_generator(p["gens"][g] if g is not None else p["global"])
        made = [rand.build(o["spec"], gen) if o["gen"] == g else None for o in p["objs"]]
        for t, op in enumerate(p["ops"]):
            if op[0] == "draw" and op[1] < len(made) and made[op[1]] is not None:
                out[str(t)] = image(rand.draw(made[op[1]], op[2], cut=False))
    return out


def watch(gens):
    import random

    import komm
    import numpy as np

    from ..util import enc

    w = {f"generator {i}": rand.state_of(g) for i, g in enumerate(gens)}
    w["library-wide generator"] = rand.state_of(komm.global_rng.get())
    w["NumPy legacy generator"] = enc(np.random.get_state(legacy=False))
    w["Python's random module"] = repr(random.getstate())
    return w


def segment(p, ops, start, states):
    """Runs one process's share of the operations, with all disturbances.  Returns images and generator states."""
    import random

    import komm
    import numpy as np

    gens = [rand.build_generator(g) for g in p["gens"]]
    lib = rand.build_generator(p["global"])
    if states:
        for g, s in zip([*gens, lib], states):
            rand.load_state(g, s)
    komm.global_rng.set(lib)
    live = [rand.build(o["spec"], gens[o["gen"]] if o["gen"] is not None else None) for o in p["objs"]]
    imgs, faults, real = {}, {}, set()

    def fault(k):
        faults[k] = faults.get(k, 0) + 1

    def bad(kind, msg):
        return {"status": "violation", "kind": kind, "msg": msg}

    for t, op in enumerate(ops, start):
        before = watch(gens)
        own = None
        if op[0] == "draw":
            o = p["objs"][op[1]]
            own = f"generator {o['gen']}" if o["gen"] is not None else None
            name = f"{live[op[1]]!r}.{op[2]['op']}"
            raw = rand.draw(live[op[1]], op[2])
            imgs[str(t)] = image(raw)
            real.add("komm." + type(live[op[1]]).__name__ + "." + op[2]["op"])
            if op[2].get("cuts"):
                fault("cut")
            if op[2].get("rep") or op[2].get("steps", 0) >= 1000 or op[2].get("shape") in (1500, 5000, 20000, 65537):
                fault("long-draw")
            if o["gen"] is None:
                fault("library-wide")
            elif sum(x["gen"] == o["gen"] for x in p["objs"]) > 1:
                fault("shared-generator")
            allowed = {own} if own else {"library-wide generator"}
            if own is None and komm.global_rng.get() is not lib:
                allowed = set()  # replaced since: the object still draws from the old one
        elif op[0] in ("det", "bad"):
            name = f"{live[op[1]]!r}.{objects.show_query(op[2])}"
            img, _, _ = objects.ask(live[op[1]], op[2])
            fault("failed-call" if op[0] == "bad" else "deterministic-query")
            allowed = set()
        elif op[0] == "other":
            name = f"{op[1]['fam']}.{objects.show_query(op[2])}"
            objects.ask(objects.build(op[1]), op[2])
            fault("deterministic-query")
            allowed = set()
        else:
            name, k, v = op[1], op[1], op[2]
            fault(k)
            if k == "legacy-reseed":
                np.random.seed(v)
            elif k == "python-reseed":
                random.seed(v)
            elif k == "legacy-draw":
                np.random.rand(3)
            elif k == "stranger-draw":
                np.random.default_rng(v).random(3)
                random.random()
            elif k == "global-replaced":
                komm.global_rng.set(np.random.default_rng(v))
            continue
        after = watch(gens)
        for k in before:
            if before[k] != after[k] and k not in allowed:
                return bad("foreign-generator-touched", f"{name} advanced {k}"
                           + (f" although it was given {own}" if own else ""))
    return {"status": "ok", "imgs": imgs, "states": [rand.dump_state(g) for g in [*gens, lib]], "faults": faults,
            "real": sorted(real)}


def execute(p, run):
    for op in p["ops"]:
        if op[0] in ("draw", "det", "bad") and op[1] >= len(p["objs"]):
            raise core.Invalid("object")
    ref = core.nested(lambda: {"status": "ok", "t": transcript(p)})
    ref = ref["t"]
    # the disturbed history, one process per segment
    states, start, got = None, 0, {}
    segs, cur = [], []
    for op in p["ops"]:
        if op[0] == "restart":
            segs.append(cur)
            cur = []
        else:
            cur.append(op)
    segs.append(cur)
    # operation numbers must match the plan's
    numbers = [t for t, op in enumerate(p["ops"]) if op[0] != "restart"]
    done = 0
    for k, seg in enumerate(segs):
        if k:
            run.fault("restart")
        r = core.nested(lambda: segment(p, seg, done, states))
        if r["status"] == "violation":
            run.check(False, r["kind"], r["msg"])
        for t, img in r["imgs"].items():
            got[str(numbers[int(t)])] = img
        for f, c in r["faults"].items():
            run.fault(f, c)
        run.real.update(r["real"])
        states = r["states"]
        done += len(seg)
    for t, op in enumerate(p["ops"]):
        run.now += 1
        if op[0] != "draw":
            continue
        o = p["objs"][op[1]]
        run.log(t, str(got[str(t)]))
        run.reach(f"draw:{o['spec']['fam']}:{o['spec'].get('kind', '')}:{op[2]['op']}:cut{bool(op[2].get('cuts'))}:"
                  f"{'own' if o['gen'] is not None else 'library'}")
        run.check(got[str(t)] == ref[str(t)], "not-reproducible",
                  lambda: f"{o['spec']} on {'generator ' + str(o['gen']) if o['gen'] is not None else 'the library-wide generator'}"
                          f": draw {t} {op[2]} gave {str(got[str(t)])[:200]}, undisturbed {str(ref[str(t)])[:200]}; "
                          f"operations before: {[x[:2] if x[0] != 'other' else 'other' for x in p['ops'][max(0, t - 6):t]]}")
    if p["hashseed"]:
        run.fault("hash-seed")
        env = {**os.environ, "PYTHONHASHSEED": str(p["hashseed"])}
        code = (f"import sys, json; sys.path.insert(0, {core.VERIF!r}); from sim import core; core.pristine(); "
                "from sim.props import c12; print(json.dumps(c12.transcript(json.load(sys.stdin))))")
        r = subprocess.run([sys.executable, "-c", code], input=json.dumps(p), capture_output=True, text=True, env=env,
                           timeout=50)
        if r.returncode:
            raise RuntimeError("subprocess: " + r.stderr[-500:])
        other = json.loads(r.stdout)
        for t in ref:
            run.check(other[t] == ref[t], "process-dependent",
                      lambda: f"draw {t} {p['ops'][int(t)]} gave {str(other[t])[:200]} in another process, "
                              f"{str(ref[t])[:200]} in this one")
