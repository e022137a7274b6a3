"""Probes of the findings that are recorded in known_findings.json instead of being repaired.

Each entry carries exact inputs, the wrong answer seen on the pinned tree and the right answer (from exhaustive
enumeration).  Anything that is neither is a new violation."""

import numpy as np


def probe(e):
    import komm

    code = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode(e["feedforward"]), e["blocks"], "zero-termination")
    y = np.array(e["received"])
    if e["decoder"] == "viterbi-hard":
        out = komm.ViterbiDecoder(code).decode(y).tolist()
        near = lambda a: out == a
    else:
        out = komm.BCJRDecoder(code, "soft").decode(y).tolist()
        near = lambda a: len(a) == len(out) and bool(np.allclose(out, a, rtol=1e-9, atol=1e-9))
    if near(e["wrong"]):
        return {"status": "known"}
    if e["decoder"] == "viterbi-hard":
        # any message at minimum distance is right
        k = code.dimension
        M = (np.arange(2**k)[:, None] >> np.arange(k)) & 1
        d = (code.encode(M) != y).sum(axis=1)
        got = (code.encode(np.array(out)) != y).sum()
        ok = got == d.min()
    else:
        ok = near(e["right"])
    return {"status": "fixed"} if ok else {"status": "other", "output": out}
