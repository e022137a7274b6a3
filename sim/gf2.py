"""Independent GF(2) arithmetic used by the oracles (never the library's own)."""

from functools import lru_cache


def rank(rows):
    rows, r = list(rows), 0
    while rows:
        p = rows.pop()
        if p:
            r += 1
            low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return r


def row_int(bits):
    v = 0
    for i, b in enumerate(bits):
        v |= int(b) << i
    return v


def int_row(v, n):
    return [(v >> i) & 1 for i in range(n)]


def min_distance(rows):
    """Minimum weight of the span of independent rows (Gray-code enumeration)."""
    k, best, cur = len(rows), None, 0
    for i in range(1, 1 << k):
        cur ^= rows[(i & -i).bit_length() - 1]
        w = cur.bit_count()
        if best is None or w < best:
            best = w
    return best


def span(rows):
    out = [0]
    for r in rows:
        out += [x ^ r for x in out]
    return out  # out[u] is the word of message with bits u (LSB = row 0)


def null_space(rows, n):
    """Basis of {x : <row, x> = 0 for all rows}."""
    basis, piv = [], []
    rows = [r for r in rows]
    col, mat = 0, []
    for r in rows:
        for p, b in zip(piv, mat):
            if r >> p & 1:
                r ^= b
        if r:
            p = (r & -r).bit_length() - 1
            mat = [b ^ r if b >> p & 1 else b for b in mat]
            mat.append(r)
            piv.append(p)
    free = [c for c in range(n) if c not in piv]
    for f in free:
        x = 1 << f
        for p, b in zip(piv, mat):
            if b >> f & 1:
                x |= 1 << p
        basis.append(x)
    del col
    return basis


def pmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


def pdivmod(a, b):
    q, db = 0, b.bit_length()
    while a.bit_length() >= db:
        s = a.bit_length() - db
        q |= 1 << s
        a ^= b << s
    return q, a


@lru_cache(None)
def factor(p):
    """Irreducible factors (with multiplicity) of a binary polynomial, by trial division."""
    out, f = [], 2
    while p.bit_length() > 1:
        if 2 * (f.bit_length() - 1) > p.bit_length() - 1:
            out.append(p)
            break
        q, r = pdivmod(p, f)
        if r == 0:
            out.append(f)
            p = q
        else:
            f += 1
    return tuple(out)


# finite field GF(2^mu) for the BCH designed generator: minimal polynomials by cyclotomic cosets
PRIMITIVE = {2: 0b111, 3: 0b1011, 4: 0b10011, 5: 0b100101, 6: 0b1000011}


def cyclotomic(mu, i):
    n, s, j = 2**mu - 1, set(), i
    while j not in s:
        s.add(j)
        j = 2 * j % n
    return s


def bch_redundancy(mu, delta):
    roots = set()
    for i in range(1, delta):
        roots |= cyclotomic(mu, i)
    return len(roots)


# convolutional encoders ------------------------------------------------------------------


def conv_params(c):
    """(k, n, [nu_i]) of a convolutional spec."""
    if c["cls"] == "Conv":
        ff, fb = c["ff"], c.get("fb") or [1] * len(c["ff"])
        nus = [max([p.bit_length() - 1 for p in ps] + [q.bit_length() - 1]) for ps, q in zip(ff, fb)]
        return len(ff), len(ff[0]), [max(x, 0) for x in nus]
    if c["cls"] == "Low":
        return 1, len(c["g"]), [max(p.bit_length() - 1 for p in c["g"])]
    if c["cls"] == "High":
        h = c["h"]
        sigma = max(p.bit_length() - 1 for p in h)
        return len(h) - 1, len(h), [sigma]
    raise ValueError(c)


def conv_state_bits(c):
    return sum(conv_params(c)[2])


def conv_encode(c, blocks):
    """Zero-state encoding of input blocks by the transfer function (own recursion, no state space)."""
    k, n, _ = conv_params(c)
    out = []
    if c["cls"] in ("Conv", "Low"):
        ff = c["ff"] if c["cls"] == "Conv" else [c["g"]]
        fb = (c.get("fb") or [1] * k) if c["cls"] == "Conv" else [1]
        w = [[] for _ in range(k)]  # w_i(D) = u_i(D) / q_i(D)
        for t, u in enumerate(blocks):
            for i in range(k):
                x = int(u[i])
                for j in range(1, fb[i].bit_length()):
                    if fb[i] >> j & 1 and t - j >= 0:
                        x ^= w[i][t - j]
                w[i].append(x)
            v = []
            for o in range(n):
                y = 0
                for i in range(k):
                    p = ff[i][o]
                    for j in range(p.bit_length()):
                        if p >> j & 1 and t - j >= 0:
                            y ^= w[i][t - j]
                v.append(y)
            out.append(v)
    else:
        h, par = c["h"], []
        for t, u in enumerate(blocks):
            y = 0
            for i in range(k):
                for j in range(h[i].bit_length()):
                    if h[i] >> j & 1 and t - j >= 0:
                        y ^= int(blocks[t - j][i])
            for j in range(1, h[k].bit_length()):
                if h[k] >> j & 1 and t - j >= 0:
                    y ^= par[t - j]
            par.append(y)
            out.append([int(b) for b in u] + [y])
    return out


def conv_tail(c, blocks, mu):
    """Tail that drives every register of a controller-form encoder to zero."""
    ff = c["ff"] if c["cls"] == "Conv" else [c["g"]]
    k = len(ff)
    fb = (c.get("fb") or [1] * k) if c["cls"] == "Conv" else [1]
    w = [[] for _ in range(k)]
    for t, u in enumerate(blocks):
        for i in range(k):
            x = int(u[i])
            for j in range(1, fb[i].bit_length()):
                if fb[i] >> j & 1 and t - j >= 0:
                    x ^= w[i][t - j]
            w[i].append(x)
    tail = []
    for _ in range(mu):
        u = []
        for i in range(k):
            t, x = len(w[i]), 0
            for j in range(1, fb[i].bit_length()):
                if fb[i] >> j & 1 and t - j >= 0:
                    x ^= w[i][t - j]
            u.append(x)  # makes w_t = 0
            w[i].append(0)
        tail.append(u)
    return tail


def conv_trellis(c):
    """Own trellis of an encoder: next states and outputs for every state and input (0 is the zero state)."""
    k, n, nus = conv_params(c)
    trans, outs = [], []
    if c["cls"] in ("Conv", "Low"):
        ff = c["ff"] if c["cls"] == "Conv" else [c["g"]]
        fb = (c.get("fb") or [1] * k) if c["cls"] == "Conv" else [1]
        offs = [sum(nus[:i]) for i in range(k)]
        for s in range(2 ** sum(nus)):
            tr, ou = [], []
            for x in range(2**k):
                nxt, y = 0, 0
                for i in range(k):
                    past = (s >> offs[i]) & ((1 << nus[i]) - 1)  # bit j-1: the register content j periods ago
                    w = (x >> i & 1) ^ (((fb[i] >> 1) & past).bit_count() & 1)
                    reg = past << 1 | w
                    nxt |= (reg & ((1 << nus[i]) - 1)) << offs[i]
                    for o in range(n):
                        y ^= ((ff[i][o] & reg).bit_count() & 1) << o
                tr.append(nxt)
                ou.append(y)
            trans.append(tr)
            outs.append(ou)
    else:  # observer form of the systematic encoder
        h, sigma = c["h"], nus[0]
        for s in range(2**sigma):
            tr, ou = [], []
            for x in range(2**k):
                par = s & 1
                for i in range(k):
                    par ^= (x >> i & 1) & h[i] & 1
                nxt = s >> 1
                for i in range(k):
                    if x >> i & 1:
                        nxt ^= h[i] >> 1
                if par:
                    nxt ^= h[k] >> 1
                tr.append(nxt)
                ou.append(x | par << k)
            trans.append(tr)
            outs.append(ou)
    return trans, outs


def trellis_best(c, h, mode, cost):
    """Least total cost of a codeword of the terminated code; cost[t][y] is that of output y in period t."""
    trans, outs = conv_trellis(c)
    INF = float("inf")
    best = [INF] * len(trans)
    best[0] = 0
    for row in cost:
        new = [INF] * len(trans)
        for s, v in enumerate(best):
            if v < INF:
                for d, y in zip(trans[s], outs[s]):
                    if v + row[y] < new[d]:
                        new[d] = v + row[y]
        best = new
    return best[0] if mode == "zero-termination" else min(best)


def trellis_distance(c, h, mode):
    """Exact minimum distance of a direct-truncated, or exactly zero-terminated, code."""
    k, n, nus = conv_params(c)
    trans, outs = conv_trellis(c)
    INF = 10**9
    zero, best = True, [INF] * len(trans)  # best: least weight once some input was nonzero
    for t in range(h + (max(nus) if mode == "zero-termination" else 0)):
        new = [INF] * len(trans)
        for s, v in enumerate(best):
            for d, y in zip(trans[s], outs[s]):
                new[d] = min(new[d], v + y.bit_count())
        if t < h:
            for x in range(1, 2**k):
                d, y = trans[0][x], outs[0][x]
                new[d] = min(new[d], y.bit_count())
        best = new
    return best[0] if mode == "zero-termination" else min(best)


def terminated_encode(c, h, mode, bits):
    k, n, nus = conv_params(c)
    blocks = [bits[i * k:(i + 1) * k] for i in range(h)]
    mu = max(nus)
    if mode == "direct-truncation":
        v = conv_encode(c, blocks)
    elif mode == "zero-termination":
        v = conv_encode(c, blocks + conv_tail(c, blocks, mu))
    else:  # tail-biting (feedforward): periodic input
        reps = -(-mu // h) + 1
        v = conv_encode(c, blocks * reps)[-h:]
    return [b for blk in v for b in blk]


def distance_lower_bound(rows, n):
    """Exact distance if at most 4, otherwise 5 (from dependencies among parity-check columns)."""
    H = null_space(rows, n)
    cols = [sum((h >> j & 1) << i for i, h in enumerate(H)) for j in range(n)]
    if 0 in cols:
        return 1
    if len(set(cols)) < n:
        return 2
    pairs = {}
    cs = set(cols)
    for i in range(n):
        for j in range(i):
            if cols[i] ^ cols[j] in cs:
                return 3
    for i in range(n):
        for j in range(i):
            x = cols[i] ^ cols[j]
            if x in pairs:
                return 4
            pairs[x] = 1
    return 5


def distance(rows, n):
    return min_distance(rows) if len(rows) <= 14 else distance_lower_bound(rows, n)
