"""C07: stored compressed streams decode exactly; a torn tail is an error or a prefix."""

import random

import numpy as np

from .. import source_codes as sc
from ..core import Invalid
from ..util import show, snapshot

RUNS = {"quick": 45000, "thorough": 320000}
TIME_UNIT = "stored symbols"
RULE = ("A simulated store holds the compressed records of several writers that share 1-3 code objects (all 15 code "
        "kinds, random parameters).  Records are written, read back, torn at arbitrary points (every crash leaves a "
        "prefix of the stored stream), appended to one another, read as garbage, and mixed with rejected calls, in a "
        "random order on the shared objects.  Oracle: the written message; a torn read must raise ValueError or give "
        "a prefix of it (plus, for block-padding codes, the tail of one dictionary word).")
STUBS = ["storage: append-only byte store with torn writes"]
ASSUMPTIONS = ["only truncation damages a stored stream (no bit flips: the codes carry no checksum)",
               "LZ77/LZSS source alphabets of at most 256 symbols"]
PROBES = ["long-archive", "torn-write", "torn-read-rejected", "torn-read-prefix", "garbage-read", "rejected-call", "append",
          "padding"]
SHRINK = ["ops", "records.*.m", "records"]

PADDED = ("tunstall", "v2f-tree", "v2f-mapping")
APPENDABLE = ("huffman", "shannon", "fano", "f2v-tree", "f2v-lengths", "f2v-mapping", "unary", "fibonacci")


def generate(rng, tier):
    if rng.random() < 0.012:
        return generate_big(rng)
    specs = [sc.gen_spec(rng, big=0.06) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(specs) > 1 and rng.random() < 0.4:
        specs[1] = dict(specs[0])  # two equal objects
    records = []
    for _ in range(rng.randint(1, 5)):
        c = rng.randrange(len(specs))
        records.append({"c": c, "m": sc.gen_message(rng, specs[c], 300 if tier == "quick" else 1200),
                        "form": rng.choice(sc.FORMS), "sform": rng.choice(sc.FORMS)})
    ops = []
    for i in range(len(records)):
        ops.append(["write", i])
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            j = rng.randrange(i + 1)
            if r < 0.35:
                ops.append(["read", j])
            elif r < 0.75:
                ops.append(["torn", j, rng.random() if rng.random() < 0.6 else -rng.randint(1, 4)])
            elif r < 0.85:
                ops.append(["garbage", j, [rng.randrange(2) for _ in range(rng.randint(0, 40))]])
            elif r < 0.93:
                ops.append(["reject", j, rng.randrange(3)])
            else:
                ops.append(["rewrite", j])
    # append mode: one file of all records written with the same code
    if rng.random() < 0.5:
        c = records[0]["c"]
        ops.append(["append", [i for i, r in enumerate(records) if r["c"] == c],
                    [rng.random() for _ in range(rng.randint(1, 3))]])
    for j in range(len(records)):
        ops.append(["read", j])
    return {"specs": specs, "records": records, "ops": ops}


def generate_big(rng):
    """One long archive: enough phrases for every dictionary and pointer width the small records never reach."""
    spec = sc.gen_spec(rng, kinds=["lz78", "lzw", "lz78", "lzw", "lz77", "lzss", "huffman", "tunstall", "f2v-tree"],
                       big=0.4)
    n = rng.choice([3000, 20000, 60000, 150000]) if spec["kind"] in ("lz78", "lzw") else rng.choice([3000, 8000])
    fresh = rng.choice([1, 0.5, 0.02])
    if spec["kind"] in ("lz78", "lzw") and rng.random() < 0.3:  # dictionaries of more than 2**16 entries
        spec["card"], n, fresh = rng.choice([256, 1000, 4000]), rng.choice([100000, 150000]), 1
    rec = {"c": 0, "m": [], "big": [n, rng.getrandbits(32), fresh],
           "form": "int64", "sform": rng.choice(["int64", "small", "readonly"])}
    return {"specs": [spec], "records": [rec],
            "ops": [["write", 0], ["torn", 0, rng.random()], ["torn", 0, -rng.randint(1, 4)], ["read", 0]]}


def unroll(spec, big):
    n, seed, fresh = big
    g = random.Random(seed)
    card = sc.cardinality(spec)
    m = []
    while len(m) < n:
        if g.random() < fresh or len(m) < 10:
            m.append(g.randrange(card))
        else:
            a = g.randrange(max(0, len(m) - 200), len(m))
            m += m[a:a + g.randint(1, 60)]
    return m[:n]


def ints(x):
    return [int(v) for v in np.asarray(x).ravel().tolist()]


def execute(p, run):
    specs, records = p["specs"], p["records"]
    objs = [sc.build(s) for s in specs]
    for o in objs:
        run.real.add("komm." + type(o).__name__)
    words = [sc.words_of(o, s) if hasattr(o, "enc_mapping") or hasattr(o, "dec_mapping") else None
             for o, s in zip(objs, specs)]
    store = {}
    for r in records:
        if r.get("big"):
            run.fault("long-archive")
            r["m"] = unroll(specs[r["c"]], r["big"])

    def name(c):
        return f"{specs[c]['kind']} {show({k: v for k, v in specs[c].items() if k != 'kind'}, 160)}"

    def good(c, got, m, complete):
        """got is m (complete stream) or a prefix of m, possibly followed by documented padding."""
        if specs[c]["kind"] in PADDED:
            if got == m:
                return True
            # a whole number of dictionary words was stored; the last one may reach beyond the message
            if len(got) > len(m):
                if got[: len(m)] != m:
                    return False
                rest = got[:]
                table = {x for x, _ in words[c]}
                pos, last = 0, 0
                while pos < len(rest):
                    ln = next((n for n in range(1, len(rest) - pos + 1) if tuple(rest[pos:pos + n]) in table), 0)
                    if not ln:
                        return False
                    last, pos = pos, pos + ln
                run.fault("padding")
                return last < len(m)
            return not complete and m[: len(got)] == got
        return got == m if complete else m[: len(got)] == got

    def read(c, target, form, m, complete):
        x = sc.form(target, form)
        before = snapshot(x)
        run.now += len(target)
        try:
            got = objs[c].decode(x)
        except ValueError as e:
            run.check(not complete, "complete-stream-rejected",
                      lambda: f"{name(c)}: decoding the complete stream of {show(m)} raised ValueError: {e}")
            run.fault("torn-read-rejected")
            run.log("rejected")
            return
        got = ints(got)
        run.check(snapshot(x) == before, "input-modified", lambda: f"{name(c)}: decode modified its input")
        run.log(got)
        if not complete:
            run.fault("torn-read-prefix")
        run.check(good(c, got, m, complete), "decoded-wrong" if complete else "torn-stream-invents-data",
                  lambda: f"{name(c)}: stored message {show(m)} as {show(target)}"
                          f"{'' if complete else ' (torn)'}, read back {show(got)}")

    def write(i):
        r = records[i]
        c, m = r["c"], r["m"]
        m = m[: len(m) // sc.block(specs[c]) * sc.block(specs[c])]
        r["m"] = m
        x = sc.form(m, r["form"])
        before = snapshot(x)
        y = ints(objs[c].encode(x))
        run.check(snapshot(x) == before, "input-modified", lambda: f"{name(c)}: encode modified its input")
        run.now += len(y)
        if words[c] is not None and specs[c]["kind"] not in PADDED:
            table = dict(words[c])
            k = sc.block(specs[c])
            want = [b for t in range(0, len(m), k) for b in table[tuple(m[t:t + k])]]
            run.check(y == want, "not-concatenation-of-codewords", lambda: f"{name(c)}: {show(m)} -> {show(y)}")
        return y

    for op in p["ops"]:
        kind = op[0]
        if kind == "append":
            idx = [i for i in op[1] if i < len(records)]
            if not idx or any(i not in store for i in idx):
                continue
            c = records[idx[0]]["c"]
            if specs[c]["kind"] not in APPENDABLE or any(records[i]["c"] != c for i in idx):
                continue
            log = [b for i in idx for b in store[i]]
            m = [x for i in idx for x in records[i]["m"]]
            run.fault("append", len(idx))
            read(c, log, records[idx[0]]["sform"], m, True)
            for f in op[2]:
                cut = int(f * len(log))
                run.fault("torn-write")
                read(c, log[:cut], records[idx[0]]["sform"], m, False)
            continue
        i = op[1]
        if i >= len(records):
            continue
        r = records[i]
        c = r["c"]
        if c >= len(objs):
            raise Invalid("code")
        if kind == "write":
            store[i] = write(i)
        elif i not in store:
            continue
        elif kind == "rewrite":
            y = write(i)
            run.check(y == store[i], "encoding-depends-on-history",
                      lambda: f"{name(c)}: message {show(r['m'])} first stored as {show(store[i])}, later as {show(y)}")
        elif kind == "read":
            read(c, store[i], r["sform"], r["m"], True)
        elif kind == "torn":
            n = len(store[i])
            cut = max(0, n + op[2]) if op[2] < 0 else min(n, int(op[2] * (n + 1)))
            if cut < n:
                run.fault("torn-write")
                run.reach(f"torn:{specs[c]['kind']}|{min(cut, 60)}|{min(n - cut, 20)}")
            read(c, store[i][:cut], r["sform"], r["m"], cut == n)
        elif kind == "garbage":
            run.fault("garbage-read")
            try:
                objs[c].decode(np.array(op[2], dtype=int))
            except (ValueError, KeyError, IndexError):
                pass
        elif kind == "reject":
            run.fault("rejected-call")
            bad = [[-1], [10**6], [[0, 1], [1, 0]]][op[2]]
            for f in (objs[c].encode, objs[c].decode):
                try:
                    if specs[c]["kind"] in ("unary", "fibonacci") and op[2] == 1:
                        continue
                    f(bad)
                except Exception:
                    pass
    for i, y in store.items():
        run.reach(f"record:{specs[records[i]['c']]['kind']}|{min(len(records[i]['m']), 300)}|{len(y) // 16}")
