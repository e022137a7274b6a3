"""Small helpers shared by the property modules."""

import numpy as np


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def snapshot(x):
    """A comparable copy of a caller's input, to detect modification."""
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.tobytes())
    return ("py", repr(x))


def show(x, limit=300):
    s = repr(np.asarray(x).tolist() if isinstance(x, (np.ndarray, np.generic)) else x)
    return s if len(s) <= limit else s[:limit] + "..."


def enc(x):
    """A canonical, comparable, JSON-able image of any value the library returns."""
    if isinstance(x, (bool, np.bool_)):
        return ["i", int(x)]
    if isinstance(x, (int, np.integer)):
        return ["i", int(x)]
    if isinstance(x, (float, np.floating)):
        return ["f", float(x).hex() if np.isfinite(x) else str(float(x))]
    if isinstance(x, (complex, np.complexfloating)):
        return ["c", enc(x.real), enc(x.imag)]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["o", list(x.shape), [enc(v) for v in x.ravel().tolist()]]
        if x.dtype.kind in "iub":
            return ["n", list(x.shape), x.astype(int).ravel().tolist()]
        if x.dtype.kind == "f":
            return ["n", list(x.shape), [enc(v)[1] for v in x.ravel().tolist()]]
        return ["n", list(x.shape), [enc(v) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        return ["l", [enc(v) for v in x]]
    if isinstance(x, (set, frozenset)):
        return ["s", sorted((enc(v) for v in x), key=repr)]
    if isinstance(x, dict):
        return ["d", sorted(([enc(k), enc(v)] for k, v in x.items()), key=repr)]
    if x is None or isinstance(x, str):
        return ["v", x]
    return ["r", type(x).__name__, repr(x)]
