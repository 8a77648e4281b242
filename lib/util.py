"""Small vocabulary of the scenario generators."""


def op(name, **p):
    return dict(op=name, **p)


def bits(m, cyc=False):
    return dict(k="bits", v=list(m), cyc=cyc)


def reals(v, sc, cyc=False):
    return dict(k="f", v=list(v), sc=sc, cyc=cyc)


def cplx(v, sc, cyc=False):
    return dict(k="c", v=[list(t) for t in v], sc=sc, cyc=cyc)


def ints(v, cyc=False):
    return dict(k="i", v=list(v), cyc=cyc)


def triples(v, cyc=False):
    return dict(k="n", v=[list(t) for t in v], cyc=cyc)


def rbits(rng, n):
    style = rng.random()
    if style < 0.1:
        return [0] * n
    if style < 0.2:
        return [1] * n
    if style < 0.3:
        return [i % 2 for i in range(n)]
    return [rng.randint(0, 1) for _ in range(n)]


def rnoise(rng, amp, n):
    """n disturbances within +-amp (many at the extremes)."""
    return [rng.choice([-amp, amp, rng.randint(-amp, amp)]) for _ in range(n)]


def bgain(rng, n):
    """A channel whose strength changes from block to block (powers of two: exact)."""
    style = rng.random()
    if style < 0.3:
        e = [rng.choice([-60, -30, -8, 8, 30, 60])]
    elif style < 0.6:
        e = [rng.randint(-30, 30) for _ in range(rng.choice([2, 3, 7, 16]))]
    else:                                            # now and then one block far stronger / weaker
        e = [0] * rng.choice([2, 5, 11])
        e[rng.randrange(len(e))] = rng.choice([-40, -20, -10, 10, 20, 40])
    return op("ch_bgain", n=n, e=e)


def sched(rng, total, poll=True):
    """A pull pattern that reads everything (about `total` outputs) and polls after the end."""
    s, left = [], total
    style = rng.random()
    if style < 0.25:
        return [["a"]] + ([["x", 3]] if poll else [])
    if style < 0.40 and total <= 40:
        s = [["p", 1]] * (total + 1)
        return s + [["a"]] + ([["x", 2]] if poll else [])
    while left > 0 and len(s) < 12:
        k = rng.choice([1, 1, 2, 3, 5, 8, max(1, left // 2), left])
        k = min(k, left)
        t = rng.choice(["p", "p", "p", "n", "s"])
        if t == "n":
            s.append(["n", k - 1])
        else:
            s.append([t, k])
        left -= k
    s.append(rng.choice([["a"], ["z"], ["p", left + 3]]) if left == 0 or rng.random() < 0.3 else ["a"])
    if s[-1][0] == "p":
        s.append(rng.choice([["a"], ["z"]]))
    return s + ([["x", rng.choice([1, 2, 5])]] if poll else [])


def wsched(rng, total):
    """sched, but now and then the chain is used up through fold/collect/count/last and asked for hints."""
    s = sched(rng, total)
    if rng.random() < 0.4:
        s = [i for i in s if i[0] != "x"]
        s[-1] = [rng.choice("fvcl")]
        for _ in range(rng.randint(0, 2)):
            s.insert(rng.randrange(len(s)), ["h"])
    return s


def longsched(rng, limit):
    """Windows of a stream of at least `limit` outputs around awkward positions."""
    pos, s = 0, [["p", rng.choice([9, 20, 33])]]
    pos = s[0][1]
    marks = sorted({m for m in [127, 255, 256, 1000, 1023, 4095, 8191, 16383, 32767, 65535, 65536, 99999, 131071, 262143,
                    524287, 1000000, 1048575, 2097151, 4194303, 8388607, rng.randint(1000, max(1001, limit))] if m < limit})
    for m in marks:
        k = m - 8 - pos
        if k <= 0:
            continue
        if rng.random() < 0.3:
            s.append(["s", k])
            pos += k
        else:
            s.append(["n", k - 1])
            pos += k
        s.append(["p", 24])
        pos += 24
    k = limit - pos
    if k > 0:
        s += [["s", k], ["p", 40]]
    return s


def farsched(per, den=1, top=25):
    """Windows of outputs where the chain's sample counter (per/den samples per output) passes
    2^16, 2^20, 2^24, ... : positions where a narrower counter or a shorter mantissa gives way."""
    pos, s = 0, []
    for e in (16, 20, 24, top):
        k = ((1 << e) * den) // per - 6 - pos
        if k > 0:
            s += [["s", k], ["p", 24]]
            pos += k + 24
    return s


def quiet(rng, v, blk, p=0.3):
    """Silence some whole blocks of a signal."""
    v = list(v)
    n = len(v) // blk
    if n and rng.random() < p:
        z = [0, 0] if isinstance(v[0], list) else 0
        for b in rng.sample(range(n), rng.randint(1, max(1, n // 2))):
            v[b * blk:(b + 1) * blk] = [z] * blk
    return v


def psk_p(c, key):
    p = dict(fs=c[0], sr=c[1], fc=list(c[2]))
    p["key"] = list(key)
    return p


def psk_g(c, key):
    return dict(fs=c[0], sr=c[1], fn=c[2][0], fd=c[2][1], key=list(key))


BASE = [
    (8, 2, (1, 1)), (8, 2, (2, 1)), (8, 2, (4, 1)), (8, 2, (0, 1)), (8, 8, (1, 1)), (8, 8, (4, 1)), (9, 3, (2, 1)),
    (16, 1, (8, 1)), (16, 2, (3, 2)), (10, 5, (5, 2)), (64, 4, (16, 1)), (100, 10, (7, 1)), (100, 10, (25, 3)),
    (80000, 1000, (2500, 1)), (44100, 900, (1800, 1)), (48000, 1000, (2500, 1)), (80000, 1000, (1000, 1)),
    (80000, 4000, (10000, 1)), (1000, 125, (123, 4)), (7, 1, (3, 1)), (30, 6, (11, 1)), (96, 2, (30, 1)), (22, 2, (11, 1)),
    (48, 3, (1, 8)), (131072, 8192, (20000, 1)),
]


def psk_configs(x):
    rng = x.rng
    out = list(BASE)
    for _ in range(x.pick(8, 60)):
        sps = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 24, 32, 50])
        sr = rng.choice([1, 2, 3, 10, 125, 900, 1000, 4800])
        fs = sps * sr
        d = rng.choice([1, 1, 1, 2, 3, 8])
        if fs * d > 2 ** 19 or fs < 2:
            continue
        out.append((fs, sr, (rng.randint(0, (fs // 2) * d), d)))
    return out


def keys_for(rng, c, n):
    """Keys whose length divides the samples per symbol, at most half the sample rate in chips."""
    sps = c[0] // c[1]
    lens = [L for L in range(1, sps + 1) if sps % L == 0 and c[0] // 2 >= L * c[1]]
    out = [[1]]
    while lens and len(out) < n:
        L = rng.choice(lens)
        k = [rng.randint(0, 1) for _ in range(L)]
        if rng.random() < 0.2:
            k = [0] * L
        out.append(k)
    return out


def walsh(order, idx):
    row = idx % (order - 1) + 1
    return [1 - bin(row & j).count("1") % 2 for j in range(order)]


def gn(g):
    return g[0] / g[1] if isinstance(g, list) else g


def rsignal(rng, c, n, style):
    """A received signal in units of 10^-4 that need not come from any transmitter."""
    import math
    fs, sr, (fn, fd) = c
    sps = fs // sr
    if style == 0:
        return [rng.randint(-20000, 20000) for _ in range(n)]
    if style == 1:                                   # own carrier with random symbols and noise
        b = [rng.choice([-1, 1]) for _ in range(n // sps + 1)]
        q = [rng.choice([-1, 0, 1]) for _ in range(n // sps + 1)]
        return [round(10000 * (b[i // sps] * math.cos(2 * math.pi * fn / fd * i / fs)
                               - q[i // sps] * math.sin(2 * math.pi * fn / fd * i / fs))) + rng.randint(-3000, 3000)
                for i in range(n)]
    if style == 2:                                   # energy only near symbol boundaries
        return [rng.choice([-15000, 15000]) if i % sps in (0, sps - 1) else rng.randint(-200, 200) for i in range(n)]
    if style == 3:                                   # offset tone
        f = rng.random() * fs / 2
        return [round(12000 * math.cos(2 * math.pi * f * i / fs + 0.3)) for i in range(n)]
    if style == 4:                                   # delayed carrier
        d = rng.randint(0, 2 * sps)
        return [round(10000 * math.cos(2 * math.pi * fn / fd * (i + d) / fs)) for i in range(n)]
    return [rng.choice([-1, 0, 0, 0, 1]) * rng.randint(0, 30000) for i in range(n)]
