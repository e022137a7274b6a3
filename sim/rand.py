"""Random objects (channels, sources, chains) and their draws, as plain specifications (used by C12, C13, C14)."""

from . import objects
from . import source_codes as sc


def gen_random_spec(rng):
    fam = rng.choice(["channel", "channel", "channel", "gauss", "gauss", "dms", "markov", "markov"])
    if fam == "gauss":
        return {"fam": "gauss", "var": rng.choice([0.0, 0.25, 1.0, 3.0, 100.0])}
    return objects.gen_spec(rng, fam)


def build(spec, gen):
    """gen None: the library-wide generator."""
    import komm

    if spec["fam"] == "gauss":
        return komm.GaussianChannel(spec["var"]) if gen is None else komm.GaussianChannel(spec["var"], rng=gen)
    return objects.build(spec, gen)


def gen_draw(rng, spec, big=12, long=0.0):
    """One random operation: a JSON description (with probability `long`, one over thousands of symbols)."""
    d = gen_short_draw(rng, spec, big)
    if rng.random() >= long:
        return d
    if d["op"] == "emit":
        d["shape"] = rng.choice([1500, 5000, 20000, [70, 60], 65537])
    elif d["op"] == "simulate":
        d["steps"] = rng.choice([1000, 3000])
    elif d["op"] == "transmit":
        dmc = spec.get("kind") == "dmc"
        d["rep"] = rng.choice([1200, 4500] if dmc else [1500, 5000, 20000, 70000]) // d["shape"][0] + 1
        n = d["shape"][0] * d["rep"]
        d.pop("cuts", None)
        if "y" not in d and rng.random() < 0.7:
            d["cuts"] = sorted({rng.randrange(1, n) for _ in range(rng.randint(1, 6))})
    return d


def gen_short_draw(rng, spec, big=12):
    f = spec["fam"]
    if f == "dms":
        return {"op": "emit", "shape": rng.choice([None, rng.randint(0, big), [rng.randint(1, 3), rng.randint(1, 4)]])}
    if f == "markov":
        n = len(spec["P"])
        if objects.markov_absorbing(spec["P"]) and rng.random() < 0.5:
            return {"op": "absorb", "s": rng.randrange(n)}
        return {"op": "simulate", "s": rng.randrange(n), "steps": rng.randint(0, big)}
    shape = rng.choice([[rng.randint(1, big)], [rng.randint(1, big)], [rng.randint(1, 4), rng.randint(1, 5)],
                        [rng.randint(1, 3), 2, rng.randint(1, 2)]])
    size = 1
    for x in shape:
        size *= x
    d = {"op": "transmit", "shape": shape}
    if f == "gauss":
        d["x"] = [rng.randint(-8, 8) / 2 for _ in range(size)]
        if rng.random() < 0.4:
            d["y"] = [rng.randint(-8, 8) / 2 for _ in range(size)]
    else:
        rows = len(spec["P"]) if spec["kind"] == "dmc" else 2
        d["x"] = [rng.randrange(rows) for _ in range(size)]
        d["form"] = rng.choice(["int64", "int64", "list", "uint8", "int32"] + (["bool"] if rows == 2 and
                                                                                spec["kind"] != "dmc" else []))
    if "y" not in d and shape[0] > 1 and rng.random() < 0.5:
        k = rng.randint(1, min(4, shape[0] - 1))
        d["cuts"] = sorted(rng.sample(range(1, shape[0]), k))
    return d


def draw_input(d):
    import numpy as np

    x = np.array(d["x"]).reshape(d["shape"])
    if "y" in d:
        x = x + 1j * np.array(d["y"]).reshape(d["shape"])
    if d.get("rep"):
        x = np.concatenate([x] * d["rep"])
    f = d.get("form")
    if f == "list":
        return x.tolist()
    return x.astype(f) if f else x


def draw(obj, d, cut=True):
    """Performs the operation; returns the raw value (pieces concatenated)."""
    import numpy as np

    if d["op"] == "emit":
        s = d["shape"]
        return obj.emit(tuple(s) if isinstance(s, list) else s) if s is not None else obj.emit()
    if d["op"] == "simulate":
        return obj.simulate(d["s"], d["steps"])
    if d["op"] == "absorb":
        return obj.simulate_until_absorption(d["s"])
    x = draw_input(d)
    if cut and d.get("cuts"):
        c = [0] + d["cuts"] + [d["shape"][0] * d.get("rep", 1)]
        return np.concatenate([np.asarray(obj.transmit(x[a:b])) for a, b in zip(c, c[1:]) if a < b])
    return obj.transmit(x)


def gen_generator(rng):
    return {"bg": rng.choice(["PCG64", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM"]), "seed": rng.randint(0, 999)}


def build_generator(g):
    import numpy as np

    return np.random.Generator(getattr(np.random, g["bg"])(g["seed"]))


def state_of(gen):
    """JSON image of the state of a generator."""
    from .util import enc

    return enc(gen.bit_generator.state)


def dump_state(gen):
    import base64
    import pickle

    return base64.b64encode(pickle.dumps(gen.bit_generator.state)).decode()


def load_state(gen, text):
    import base64
    import pickle

    gen.bit_generator.state = pickle.loads(base64.b64decode(text))


__all__ = [n for n in dir() if not n.startswith("_")]
del sc
