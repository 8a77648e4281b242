"""Functions, rates, noise: C06, C19, C21, C24, C25."""
import math
from fractions import Fraction as Fr
from .util import *
from .gens import prop


def fn(ctx, stem, name, osc, /, **a):
    ctx.func(stem, name, a, osc=osc)
    # the record carries the units of the result
    s = ctx.scen[-1]
    make = s["make"]
    s["make"] = lambda resps: [dict(t, osc=osc) for t in make(resps)]


# ------------------------------------------------------------------------------------ C06
@prop("C06")
def c06(x):
    rng = x.rng
    x.model("MC_Walsh", x.pick("MC_Walsh.cfg", "MC_WalshDeep.cfg"))
    top = x.pick(9, 11)
    for e in range(1, top + 1):
        n = 2 ** e
        if n <= 64:
            fn(x, "matrix", "hadamard", 1, n=n, idx=list(range(0, 2 * n + 3)))
        for _ in range(3):
            idx = [rng.choice([0, n - 2, n - 1, n, 2 * n - 3, 2 * n - 2, rng.randint(0, 4 * n), rng.randint(0, 10 ** 6), 10 ** 6 * (n - 1), 2 ** 30])
                   for _ in range(max(2, min(12, 8192 // n)))]
            fn(x, "codes", "hadamard", 1, n=n, idx=idx)
        if n <= 256:
            fn(x, "printed", "hadamard_display", 1, n=n)
    for n in (1024, 2048, 4096):                # sampled codes of the large orders
        for _ in range(x.pick(2, 6)):
            fn(x, "codes-large", "hadamard", 1, n=n, idx=[rng.choice([n - 2, n // 2, rng.randint(n // 4, n - 2), rng.randint(n, 2 * n)])
                                                         for _ in range(max(1, 4096 // n))])
    fn(x, "printed", "hadamard_display", 1, n=1)
    for n in [3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 31, 33, 48, 63, 65, 96, 100, 127, 129, 255, 257] + [rng.randint(3, 600) for _ in range(20)]:
        fn(x, "order", "hadamard", 1, n=n, idx=[0, 1])


# ------------------------------------------------------------------------------------ C21
@prop("C21")
def c21(x):
    rng = x.rng
    rep = x.pick(1, 6)
    for _ in range(60 * rep):
        n = rng.choice([1, 2, 3, 7, 8, 33, rng.randint(1, 300), rng.randint(1, 2000)])
        a = rbits(rng, n)
        b = list(a)
        for _ in range(rng.choice([0, 0, 1, 2, n // 2, n])):
            b[rng.randrange(n)] ^= 1
        if rng.random() < 0.3:
            b = [1 - t for t in a]
        if rng.random() < 0.5:
            b += rbits(rng, rng.randint(1, 40))
        if rng.random() < 0.3 and n > 1:
            a = a[:rng.randint(1, n)] if rng.random() < 0.5 else a + rbits(rng, 7)
        fn(x, "ber", "ber", 10 ** 6 if n < 1000 else 10 ** 5, x=a, y=b)
    for _ in range(8 * rep):                    # more positions than a narrow counter holds
        s = [[rng.randint(0, 1), rng.randint(0, 1), rng.choice([1, 1000, 65535, 65536, rng.randint(1, 300000)])] for _ in range(rng.randint(1, 5))]
        fn(x, "ber-long", "ber_runs", 500, s=s)
    for s in ([[1, 0, 65536]], [[1, 0, 131072], [1, 1, 70000]], [[0, 1, 70000], [0, 0, 300000], [1, 0, 70001]], [[1, 0, 255], [0, 0, 1]]):
        fn(x, "ber-long", "ber_runs", 500, s=s)
    for _ in range(50 * rep):
        n = rng.choice([1, 2, 3, 10, rng.randint(1, 60), rng.randint(100, 400)])
        v = [rng.randint(-9, 9) if n < 100 else rng.randint(-2, 2) for _ in range(n)]
        fs = rng.choice([[1, 1], [2, 1], [8, 1], [100, 1], [1000, 1], [1, 2], [7, 3], [44100, 1]])
        osc = 10 ** 4 if fs[0] <= 100 else 10 ** 5
        s = sum(t * t for t in v) * osc * fs[1]
        if s * 2 > 2 ** 30:
            continue
        k = rng.choice(["energy", "power", "avg_energy"])
        fn(x, k, k, osc, x=v, sc=1, fs=fs)
        fn(x, "power", "power", osc, x=v, sc=1, fs=fs)
    for _ in range(15 * rep):                        # more digits than single precision has
        n = rng.choice([2, 5, 10, rng.randint(3, 40)])
        v = [rng.choice([-1, 1]) * rng.randint(2000, 9999) for _ in range(n)]
        while sum(t * t for t in v) * 2 > 2 ** 30:
            v.pop()
        for k in ("energy", "power", "avg_energy"):
            fn(x, k + "-digits", k, 1, x=v, sc=1, fs=rng.choice([[1, 1], [1, 1], [2, 1], [7, 1]]))
    for b in (0, 1):
        fn(x, "nrz", "bit_to_nrz", 1000, b=b)
    for n in list(range(0, 20)) + [31, 32, 33, 64, 100, 127, 256, 500]:
        v = [rng.randint(-99, 99) for _ in range(n)] if rng.random() < 0.3 else list(range(n))
        fn(x, "shift", "fftshift", 1, v=v)
        fn(x, "shift-in-place", "fftshift_mut", 1, v=v)
        fn(x, "window", "hamming", 10 ** 6, n=n)
        fn(x, "window", "hamming_c", 10 ** 6, n=n)
    for _ in range(25 * rep):
        lo, hi = rng.randint(-100, 100), rng.randint(-100, 100)
        n = rng.choice([0, 1, 2, 3, 10, 100, rng.randint(1, 1000)])
        fn(x, "grid", "linspace", 1000, lo=lo, hi=hi, n=n)
        x.stream("grid-stream", "linspace", dict(n=n, a=lo, b=hi), [], dict(k="none"), [op("linspace", lo=lo, hi=hi, n=n)], sched(rng, n), osc=1000)
    for e in range(-3, 6):
        fn(x, "decibel", "db_ten", 1000, e=e)
    for _ in range(60 * rep):
        fn(x, "decibel-inverse", "db_rt", 10 ** 6, x=rng.choice([1, 10 ** 6, rng.randint(1, 100), rng.randint(1, 2 * 10 ** 9), rng.randint(1, 10 ** 7)]),
           y=rng.choice([0, rng.randint(-60 * 10 ** 6, 60 * 10 ** 6)]))


# ------------------------------------------------------------------------------------ C19
@prop("C19")
def c19(x):
    rng = x.rng
    x.model("MC_Ssca", x.pick("MC_Ssca.cfg", "MC_SscaDeep.cfg"))

    def sig(n):
        s = rng.random()
        if s < 0.4:
            return [rng.randint(-9000, 9000) for _ in range(n)]
        if s < 0.6:                     # a single sample
            k = rng.randrange(n)
            return [9000 if i == k else 0 for i in range(n)]
        if s < 0.8:
            f = rng.random() / 2
            return [round(8000 * math.cos(2 * math.pi * f * i + 1)) for i in range(n)]
        c = rng.choice([2, 3, 4])
        b = [rng.choice([-1, 1]) for _ in range(n)]
        return [8000 * b[i // c] * rng.choice([1, 1]) for i in range(n)]
    sizes = [(2, 1), (4, 2), (8, 4), (8, 2), (16, 4), (16, 8), (4, 1), (32, 4), (16, 2)] + x.pick([(32, 8)], [(32, 8), (32, 16), (64, 8), (64, 4)])
    odd = [(3, 2), (5, 4), (6, 4), (7, 3), (9, 6), (10, 4), (12, 5)]
    for n, np in sizes + odd:
        for _ in range(x.pick(4, 12)):
            fn(x, "table", "ssca_base", 10 ** 4, n=n, np=np, x=sig(n + np), sc=10 ** 4)
    # single entries of large tables
    for n, np in [(1025, 3), (1500, 12), (2000, 12), (2050, 6)] + x.pick([], [(3000, 10), (4100, 12), (4099, 7)]):
        f = rng.random() / 2
        s = rng.choice([[rng.randint(-9000, 9000) for _ in range(n + np)],
                        [round(8000 * math.cos(2 * math.pi * f * i + 1)) for i in range(n + np)]])
        cs = rng.sample(range(np), min(np, 2))
        fn(x, "entries", "ssca_at", 10 ** 4, n=n, np=np, x=s, sc=10 ** 4, at=[[rng.randrange(n), c] for c in cs for _ in range(2)])
    for n, np in sizes + [(64, 16), (64, 32)] + x.pick([], [(128, 64), (256, 16)]):
        for _ in range(x.pick(2, 5)):
            fn(x, "map", "ssca_pair", 1, n=n, np=np, x=[rng.randint(-9000, 9000) for _ in range(n + np)], sc=10 ** 4)


# ------------------------------------------------------------------------------------ C24
@prop("C24")
def c24(x):
    rng = x.rng
    seen = set()

    def attempt(stem, chk, o, fs, sr, fc, chips, n, src, ln):
        fc = Fr(fc)
        q = dict(src=src, st=[o], sched=[["a"]])

        def make(resps, id_):
            return [dict(id=id_, spec="rates", chk=chk, fs=fs, sr=sr, fn=fc.numerator, fd=fc.denominator, chips=chips,
                         ev=[dict(t=e["t"], c=e["c"], n=e["n"]) for e in resps[0]["ev"]], n=n)]
        x.multi(stem, [q], make, "RateTrace")

    def fr(q):
        q = Fr(q)
        return [q.numerator, q.denominator]

    def config(fs, sr, fc, L, which=None):
        valid = sr > 0 and fs % sr == 0
        sps = fs // sr if valid else 0
        # (the inputs stay small; a refused configuration must not read them anyway)
        m = rbits(rng, rng.choice([0, 1, 2, 3, 5] if sps > 40 else [0, 1, 2, 3, 7, 8, 15, 16]))
        k = rng.choice([0, 1, max(0, sps - 1), sps, sps + 1, 3 * sps + 1]) if sps < 3000 else sps
        v = [rng.choice([0, 1, -1, 10 ** 9, -10 ** 9, rng.randint(-10 ** 4, 10 ** 4)]) for _ in range(k)]
        key = [rng.randint(0, 1) for _ in range(L)]
        nf = rng.choice([1, 2, 3, 8])
        lo = rng.choice([Fr(0), Fr(fc), Fr(fc) / 2, -Fr(1)])
        nb = len(m)
        B, Rv = bits(m), reals(v, 10000)
        band = dict(fs=fs, sr=sr, lo=fr(lo), hi=fr(fc), nf=nf)
        car = dict(fs=fs, sr=sr, fc=fr(fc))
        sub, pil = rng.choice([(4, 1), (8, 2), (5, 1), (16, 4), (2, 1), (64, 12)])
        ofdm = dict(car, sub=sub, pil=pil)
        table = [
            ("tx_bpsk", "carrier", op("tx_bpsk", **car), B, nb * sps), ("tx_bfsk", "carrier", op("tx_bfsk", **band), B, nb * sps),
            ("tx_mfsk", "carrier", op("tx_mfsk", **band), B, nb * sps), ("tx_fsk", "carrier", op("tx_fsk", **band), B, nb * sps),
            ("tx_fh_bpsk", "carrier", op("tx_fh_bpsk", **band), B, nb * sps), ("rx_fh_bpsk", "carrier", op("rx_fh_bpsk", **band), Rv, k // sps if sps else 0),
            ("tx_fh_bpsk_old", "carrier", op("tx_fh_bpsk_old", **dict(band, fc=fr(fc))), B, nb * sps),
            ("tx_fh_css", "carrier", op("tx_fh_css", **band), B, nb * sps),
            ("tx_fod", "carrier", op("tx_fod", **band), B, -1), ("tx_fod2", "carrier", op("tx_fod2", **car), B, -1),
            ("tx_ofdm", "ofdm", op("tx_ofdm", **ofdm), B, -1), ("rx_ofdm", "ofdm", op("rx_ofdm", **ofdm), Rv, -1),
            ("tx_cdma_bpsk", "chips", op("tx_cdma_bpsk", **car, key=key), B, nb * sps), ("rx_cdma_bpsk", "chips", op("rx_cdma_bpsk", **car, key=key), Rv, k // sps if sps else 0),
            ("tx_cdma_qpsk", "chips", op("tx_cdma_qpsk", **car, key=key), B, nb // 2 * sps), ("rx_cdma_qpsk", "chips", op("rx_cdma_qpsk", **car, key=key), Rv, k // sps * 2 if sps else 0),
            ("tx_coded_cdma", "chips", op("tx_coded_cdma", **car, key=key), B, -1), ("rx_coded_cdma", "chips", op("rx_coded_cdma", **car, key=key), Rv, -1),
        ]
        for name, chk, o, src, n in table:
            if which and name not in which:
                continue
            kk = (name, fs, sr, Fr(fc), L if chk == "chips" else 0)
            if kk in seen:
                continue
            seen.add(kk)
            attempt(name, chk, o, fs, sr, fc, L, n, src, 0)
    # every small combination of rates, carriers around every bound, key lengths
    for fs in range(1, x.pick(9, 17)):
        for sr in range(0, fs + 3):
            if fs > 1 and 0 < sr and fs % sr and rng.random() < 0.5 and x.quick:
                continue
            cs = {Fr(0), Fr(fs, 2), Fr(fs, 2) + Fr(1, 1000), Fr(fs + 1, 2), Fr(fs // 2), Fr(fs // 2) + Fr(9, 10), Fr(rng.randint(0, fs), 2)}
            if rng.random() < 0.3:
                cs |= {Fr(-1), Fr(fs), Fr(10 * fs)}
            for fc in rng.sample(sorted(cs), min(len(cs), x.pick(4, 10))):
                for L in rng.sample(range(1, 8), x.pick(1, 3)):
                    config(fs, sr, fc, L)
            for L in range(1, 9):
                config(fs, sr, Fr(rng.randint(0, fs), 4), L, {"tx_cdma_bpsk", "rx_cdma_bpsk", "tx_cdma_qpsk", "rx_cdma_qpsk", "tx_coded_cdma", "rx_coded_cdma"})
    # realistic rates, near the bounds
    for _ in range(x.pick(120, 600)):
        sr = rng.choice([1, 10, 125, 900, 1000, 4000])
        fs = rng.choice([sr * rng.choice([1, 2, 3, 4, 8, 16, 20, 32, 49, 80]), sr * rng.randint(1, 60), rng.randint(1, 100000), 44100, 48000])
        if rng.random() < 0.2:
            sr = sr + rng.choice([1, -1])
        fc = rng.choice([Fr(fs, 2), Fr(fs, 2) + 1, Fr(fs, 2) + Fr(1, 2), Fr(fs, 2) - 1, Fr(fs // 2) + Fr(1, 4), Fr(rng.randint(0, fs), 2), Fr(rng.randint(0, 2 * fs), 3)])
        if fs // max(sr, 1) > 2000:
            continue
        L = rng.choice([1, 2, 4, 16, rng.randint(1, 40), max(1, fs // max(1, sr) // 2), max(1, fs // max(1, sr) // 2 + 1), max(1, fs // max(1, sr))])
        config(fs, sr, fc, min(L, 400))
    # rates that are nearly, but not quite, a multiple of the symbol rate
    for _ in range(x.pick(60, 300)):
        sr = rng.choice([1999, 2000, 4001, 44100, 65537, 10 ** 5, 10 ** 6, 10 ** 6 + 3, 3 * 10 ** 6, 10 ** 7])
        k = rng.choice([1, 2, 3, 5, 8, 16, 40])
        if sr * k > 2 * 10 ** 8:
            continue
        fs = sr * k + rng.choice([1, -1, 1, -1, 2, sr - 1, 0])
        config(fs, sr, rng.choice([Fr(fs // 4), Fr(fs, 2), Fr(fs // 2) + 1]), rng.choice([1, 1, 2, 3]))


# ------------------------------------------------------------------------------------ C25
@prop("C25")
def c25(x):
    rng = x.rng
    root = x.pick(200, 500)
    n = root * root

    def inputs(style, n):
        if style == 0:
            return [0] * n
        if style == 1:
            return [rng.randint(-30000, 30000) for _ in range(n)]
        if style == 2:
            return [round(20000 * math.cos(i * 0.7)) for i in range(n)]
        if style == 3:
            return [10000 * (1 if (i // 10) % 2 else -1) for i in range(n)]
        if style == 4:
            return [10 ** 8 if i % 2 else -10 ** 8 for i in range(n)]
        if style == 5:
            return [20000 if i % 5 == 0 else 0 for i in range(n)]
        return [rng.choice([0, 0, -30000, 10 ** 6]) for _ in range(n)]

    def real(stem, sigma, v):
        s = Fr(sigma)
        osc = float(10000 / s) if s else 10 ** 6
        q = lambda: dict(src=reals(v, osc), st=[op("awgn", sigma=[s.numerator, s.denominator])], sched=[["a"]], osc=osc)

        def make(resps, id_):
            outs = [[t for e in z["ev"] for t in e["o"]] for z in resps]
            pan = any(e["t"] == "panic" for z in resps for e in z["ev"])
            return [dict(id=id_, sg=1 if s else 0, root=root, a=outs[0], b=outs[1], panic=pan, **{"in": v})]
        x.multi(stem, [q(), q()], make, "NoiseTrace")

    def comp(stem, sigma, v):
        s = Fr(sigma)
        osc = float(10000 / s) if s else 10 ** 6
        q = lambda: dict(src=cplx(list(zip(v, v)), osc), st=[op("awgn_c", sigma=[s.numerator, s.denominator])], sched=[["a"]], osc=osc)

        def make(resps, id_):
            outs = [[t for e in z["ev"] for t in e["o"]] for z in resps]
            pan = any(e["t"] == "panic" for z in resps for e in z["ev"])
            re, im, re2, im2 = ([t[0] for t in outs[0]], [t[1] for t in outs[0]], [t[0] for t in outs[1]], [t[1] for t in outs[1]])
            mk = lambda k, a, b: dict(id=id_ + k, sg=1 if s else 0, root=root, a=a, b=b, panic=pan, **{"in": v})
            return [mk("/reim", re, im), mk("/imre2", im, re2), mk("/im2", im2, im), mk("/re2", re2, re)]
        x.multi(stem, [q(), q()], make, "NoiseTrace")
    for k, sg in enumerate([1, Fr(1, 1000), 1000, Fr(1, 3), 7] + x.pick([], [2, Fr(9, 10), 10 ** 5])):
        real("real", sg, inputs(k % 5, n))
    for k, sg in enumerate([Fr(1, 2), 3] + x.pick([], [1, 400])):
        real("sparse", sg, inputs(5 + k % 2, n))
    for k, sg in enumerate([1, Fr(1, 100)] + x.pick([], [50, Fr(3, 7)])):
        comp("complex", sg, inputs((k + 1) % 5, n))
    # the noise never starts over: a first stretch of W samples, then every W-th one
    def fresh(stem, name, W, top):
        sc = [["p", W]] + [["n", W - 1]] * (top // W)
        osc = 2 * 10 ** 8

        def make(resps, id_):
            o = [t for e in resps[0]["ev"] for t in e["o"]]
            pan = any(e["t"] == "panic" for e in resps[0]["ev"])
            if name == "awgn":
                return [dict(id=id_, spec="distinct", a=dict(n=W + top // W), osc=osc, panic=pan, res=o)]
            return [dict(id=id_ + f"/{k}", spec="distinct", a=dict(n=W + top // W), osc=osc, panic=pan, res=[t[k] for t in o]) for k in (0, 1)]
        src = reals([0], 1, True) if name == "awgn" else cplx([[0, 0]], 1, True)
        src["cap"] = 300000000
        x.multi(stem, [dict(src=src, st=[op(name, sigma=1)], sched=sc, osc=osc)], make, "FuncTrace")
    for W, top in ((1000, 1 << 17), (2000, 1 << 21), (3001, x.pick(1 << 22, 1 << 24))):
        fresh("fresh", "awgn", W, top)
        fresh("fresh-complex", "awgn_c", W, top)
    for m in (0, 1, 2, 17, 500):
        real("silent", 0, [rng.randint(-10 ** 9, 10 ** 9) for _ in range(m)])
        comp("silent-complex", 0, [rng.randint(-10 ** 9, 10 ** 9) for _ in range(m)])
    # one output per input, pulled as they come, from endless sources too
    for _ in range(x.pick(40, 200)):
        m = rng.randint(0, 30)
        v = [rng.randint(-10 ** 6, 10 ** 6) for _ in range(m)]
        w = [[rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 6, 10 ** 6)] for _ in range(m)]
        x.stream("pull", "id", {}, v, reals(v, 10 ** 6), [op("awgn", sigma=0)], sched(rng, m))
        x.stream("pull-complex", "id", {}, w, cplx(w, 10 ** 6), [op("awgn_c", sigma=0)], sched(rng, m))
        s2 = [s if s[0] in ("s", "z", "x") else ["s", s[1]] if s[0] == "p" else ["z"] if s[0] == "a" else None for s in sched(rng, m)]
        x.stream("count", "id", {}, v, reals(v, 10 ** 6), [op("awgn", sigma=rng.choice([1, [1, 100], 30]))], [s for s in s2 if s])
        x.stream("count-complex", "id", {}, w, cplx(w, 10 ** 6), [op("awgn_c", sigma=rng.choice([1, [1, 100], 30]))], [s for s in s2 if s])
    v = [5, -3, 7]
    x.stream("endless", "id", {}, v, reals(v, 10 ** 6, True), [op("awgn", sigma=0)], longsched(rng, x.pick(200000, 2000000)), cyc=True)
