"""C26 (error function), C27 (Butterworth band-pass), C28 (the Python tools)."""
import math
from fractions import Fraction as Fr
from .util import *
from .gens import prop
from .gens6 import Py, S, call, num

BU = 81920


def bu_omega(fs, lo, hi, f):
    h, l, t = (2 * math.pi * v / fs for v in (hi, lo, f))
    d = math.sin(t) * math.sin((h - l) / 2)
    return abs(math.cos((h + l) / 2) - math.cos(t) * math.cos((h - l) / 2)) / d if abs(d) > 1e-12 else 1e9


def bu_clear(fs, lo, hi, P):
    """Every component of a period-P input is well inside or well outside."""
    for b in range(P // 2 + 1):
        if 0.92 < bu_omega(fs, lo, hi, b * fs / P) < 1.08:
            return False
    return True


@prop("C27")
def c27(x):
    rng = x.rng

    def wins(total):
        """Look at the middle of the blocks; everything else is only counted."""
        s, at = [], 0
        for blk in range(0, total, BU):
            n = min(BU, total - blk)
            if n > 40100:
                for a in sorted(rng.randint(blk + 20000, blk + n - 20000 - 40) for _ in range(3)):
                    if a <= at:
                        continue
                    s.append(rng.choice([["s", a - at], ["s", a - at], ["n", a - at - 1]]))
                    s.append(["p", 40])
                    at = a + 40
        return s

    def go(stem, fs, lo, hi, P, nper, total):
        per = [[rng.randint(-10000, 10000) for _ in range(P)] for _ in range(nper)]
        if rng.random() < 0.3:
            per[0] = [0] * P
        if rng.random() < 0.3:
            per[-1] = [10000 if i == 0 else 0 for i in range(P)]
        if rng.random() < 0.3:
            b = rng.randint(0, P // 2)
            per[0] = [round(10000 * math.cos(2 * math.pi * b * i / P)) for i in range(P)]
        g = dict(fs=fs, lon=lo, lod=1, hin=hi, hid=1, P=P, per=per, len=total)
        inf = total >= 10 ** 9
        L = BU * nper if inf else total
        v = []
        for k in range(nper):
            p = per[k]
            v += [p[i % P] for i in range(BU)]
        v = v * (1 if inf else L // (BU * nper) + 1)
        if inf and nper == 1 and BU % P == 0:
            v = per[0]
        end = [] if inf else rng.choice([[["z"]], [["z"], ["x", 2]], [["a"]] if total < 2000 else [["z"]]])
        x.stream(stem, "butter", g, [0], reals(v[:L], 10000, inf), [op("butterpass", lo=[lo, 1], hi=[hi, 1], fs=fs)], wins(rng.choice([2, 3, 3, 6, 9]) * BU if inf else L) + end, osc=10000, cyc=inf)

    def band():
        while True:
            fs = rng.choice([100, 360, 1000, 8000, 10000, 44100, 48000, 192000])
            P = rng.choice([2, 3, 4, 5, 8, 10, 12, 16, 20, 25, 32, 40])
            lo, hi = rng.randint(1, fs // 2 - 1), rng.randint(1, fs // 2 - 1)
            if rng.random() < 0.5:           # a component just inside or just outside
                b = rng.randint(1, P // 2) * fs / P
                lo = max(1, round(b * rng.choice([0.97, 0.98, 0.99, 1.01, 1.02, 1.03])))
            if hi - lo < fs / 50 + 1 or lo < fs / 100 or hi > 0.44 * fs or not bu_clear(fs, lo, hi, P):
                continue
            return fs, lo, hi, P

    for _ in range(x.pick(14, 120)):             # endless input: several blocks
        c = band()
        go("bu-far", *c, rng.choice([1, 2]), 10 ** 9)
    for _ in range(x.pick(10, 80)):              # finite: the last block is short, or just not
        c = band()
        go("bu", *c, rng.choice([1, 2]), rng.choice([BU, BU + 45000, 45000, 60000, 2 * BU, BU + 1, 2 * BU - 1, 5 * BU + 45000]))
    for n in [0, 1, 2, 3, 10, 100, 257, 386, 387, 388, 389, 400, 500, 1000, 1999] + [BU + k for k in x.pick([1, 387], [1, 2, 100, 386, 387, 388, 400])]:
        go("bu-short", *band(), 1, n)
    # upper edges above 0.44 of the sample rate: a known finding; these bands and no others
    for k, (fs, lo, hi, P) in enumerate([(10000, 1500, 4800, 10), (10000, 3900, 4600, 7), (192000, 33011, 94225, 32)]):
        rng.seed(k)
        go(f"bu-high-{k}", fs, lo, hi, P, 1, 45000)


# ------------------------------------------------------------------------------------ C26
@prop("C26")
def c26(x):
    rng = x.rng
    F = 65536
    sets = []
    # an even grid over [0, 6.5), and every scale down to the smallest arguments
    step = x.pick(211, 13)
    grid = list(range(0, 6 * F + F // 2, step))
    sets += [grid[i:i + 250] for i in range(0, len(grid), 250)]
    sets.append(list(range(0, 250)))
    for s in range(1, 19):
        sets.append([min(6 * F, rng.randint(2 ** s, 2 ** (s + 1))) for _ in range(x.pick(40, 250))])
    for v in [0, F // 2, F, 2 * F, 3 * F, 4 * F, 5 * F, 6 * F]:      # around round values
        sets.append([max(0, v + d) for d in range(-20, 21)])
    for v in sets:
        w = v + [-n for n in v]
        x.func("erf", "erf", dict(n=w), osc=100000000)
        x.func("erfc", "erfc", dict(n=w), osc=100000000)
    far = [[s * m, e] for s in (1, -1) for m, e in [(6, 0), (7, 0), (13, -1), (1, 3), (5, 2), (27, 0), (1, 5), (1, 8), (1, 9), (1, 10), (1, 20), (1, 100), (1, 511),
           (1, 512), (1, 1000), (1, 1023), (1, 2000)]] + [[s * rng.randint(6, 2000), rng.choice([0, 0, 1, 3, 7, 30, 300])] for s in (1, -1) for _ in range(x.pick(30, 300))]
    x.func("erf-far", "erf_far", dict(v=far), osc=100000000)


# ------------------------------------------------------------------------------------ C28
@prop("C28")
def c28(x):
    rng = x.rng
    P = Py(x)
    fn = lambda *a, **k: x.pyfunc(*a, py=P.opt() if rng.random() < 0.5 else {}, **k)

    def sig(n):
        s = rng.random()
        if s < 0.5:
            return [rng.randint(-9000, 9000) for _ in range(n)]
        if s < 0.7:
            k = rng.randrange(n)
            return [9000 if i == k else 0 for i in range(n)]
        f = rng.random() / 2
        return [round(8000 * math.cos(2 * math.pi * f * i + 1)) for i in range(n)]
    # spectral correlation: table and map
    for n, np in [(4, 2), (8, 4), (8, 2), (16, 4), (16, 8), (32, 4), (16, 2), (6, 4), (10, 4), (7, 2), (9, 6), (6, 3), (7, 5), (8, 3), (9, 1), (16, 5), (5, 4)] + x.pick([], [(33, 7), (32, 8), (32, 16), (64, 8)]):
        for _ in range(x.pick(3, 10)):
            v = sig(n + np + rng.choice([0, 0, 1, 7]))
            fn("ssca", "ssca_sym", dict(n=n, np=np, x=v), [call("ssca.ssca", P.v(v), n, np, False)], osc=10 ** 4)
    for n, np in [(4, 2), (8, 4), (8, 2), (16, 4), (16, 8), (32, 4), (64, 16)] + x.pick([], [(64, 32), (128, 16)]):
        for _ in range(x.pick(2, 5)):
            v = [rng.randint(-9000, 9000) for _ in range(n + np)]
            fn("ssca-map", "ssca_pair", dict(n=n, np=np), [call("ssca.ssca", P.v(v), n, np, map_output=False, mute=1), call("ssca.ssca", P.v(v), n, np, mute=1),
                                                           dict(f="pair", a=[S(0), S(1)])])
    for _ in range(x.pick(40, 200)):
        r, c = rng.randint(1, 9), rng.randint(1, 9)
        m = [[[rng.randint(-50, 50), rng.randint(-50, 50)] for _ in range(c)] for _ in range(r)]
        for row in m:
            row[0][0] = row[0][0] or 1
        for t in m[0]:
            t[0] = t[0] or 1
        e = rng.choice([0, 0, 2, -2, 5, -5, 9])
        fn("max_cut", "py_max_cut", dict(m=m, off=20000 * e), [call("ssca.max_cut", {"m": m, "sc": 10.0 ** e})], osc=1000)
        fn("dcs", "py_dcs", dict(m=m), [call("ssca.dcs", {"m": m, "sc": 10.0 ** e})], osc=1000)
    # powers of two
    for e in range(3, 70):
        for d in {0, 1, -1, rng.choice([2, -2, 3, -3])}:
            if abs(d) >= 2 ** (e - 1):
                continue
            fn("floor2", "floor_pow2", dict(e=e, d=d), [call("util.floor_power_of_2", 2 ** e + d, mute=1), call("power2", S(0))], osc=1)
            fn("next2", "next_pow2", dict(e=e, d=d), [call("util.next_power_of_2", 2 ** e + d, mute=1), call("power2", S(0))], osc=1)
    for v, lo, hi in [(1, 0, 0), (2, 1, 1), (3, 1, 2)]:
        fn("floor2", "floor_pow2", dict(e=lo, d=0), [call("util.floor_power_of_2", v, mute=1), call("power2", S(0))], osc=1)
        fn("next2", "next_pow2", dict(e=hi, d=0), [call("util.next_power_of_2", v, mute=1), call("power2", S(0))], osc=1)
    # adaptors and metrics
    for _ in range(x.pick(60, 300)):
        v = [rng.randint(-1000, 1000) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, rng.randint(0, 40)]))]
        n, fill = rng.randint(1, 9), rng.randint(-5, 5)
        fn("chunk", "py_chunk", dict(v=v, n=n, fill=fill), [call("util.chunk", v, n, fill, mute=1), call("tolist", S(0))], osc=1)
        if v:
            fn("fftshift", "fftshift", dict(v=v), [call("util.fftshift", v)], osc=1)
            k = rng.randint(-9, 9)
            fn("scale", "py_scale", dict(v=v, k=k), [call("willie.scale", P.v(v, 1), k)], osc=1)
            w = [t // 100 for t in v]
            fn("energy", "avg_energy", dict(x=w), [call("willie.avg_energy", P.v(w, 1))], osc=1000)
            c = [[rng.randint(-10, 10), rng.randint(-10, 10)] for _ in v]
            fn("energy-iq", "iq_energy", dict(c=c), [call("willie.avg_energy_iq", {"c": c, "sc": 1, "np": rng.randint(0, 1)})], osc=1000)
        b = rbits(rng, rng.randint(0, 20))
        fn("nrz", "py_nrz", dict(b=b), [call("util.bitz_to_nrz", P.b(b), mute=1), call("tolist", S(0))], osc=1)
        a, b = rbits(rng, rng.randint(1, 60)), rbits(rng, rng.randint(1, 60))
        if rng.random() < 0.3:
            b = list(a)
        fn("ber", "ber", dict(x=a, y=b), [call("ber_theory.ber", P.b(a), P.b(b))], osc=10 ** 6)
    for e in range(-3, 5):
        fn("db", "db_ten", dict(e=e), [call("util.db", num(Fr(10) ** e)), call("util.undb", 10 * e)], osc=1000, take=2)
        fn("db-np", "db_ten", dict(e=e), [call("util.db", {"v": [1], "sc": 10.0 ** -e, "np": 1}, mute=1), call("first", S(0), 1, mute=1), call("util.undb", {"v": [10 * e], "sc": 1, "np": 1}, mute=1),
                                          call("first", S(2), 1, mute=1), call("pair2", S(1), S(3))], osc=1000)
    for n in [0, 1, 100, 65536, 131072, 200000] + [rng.randint(0, 6 * 65536) for _ in range(x.pick(60, 500))]:
        q = Fr(n * n, 2 ** 32)
        fn("theory", "ber_theory", dict(n=n), [call("ber_theory.ber_bpsk", num(q)), call("ber_theory.ber_qpsk", num(q))], osc=10 ** 8, take=2)
    # chirps
    for _ in range(x.pick(60, 300)):
        rn, rd = rng.choice([(1, 1), (1, 2), (1, 10), (2, 1), (5, 1)])
        n = rng.randint(2, 120)
        fs = -(-n * rn // rd)
        n = fs * rd // rn
        fd = rng.choice([1, 2])
        D = 16 * (n - 1) ** 2 * rn * fd
        if n < 2 or D > 2 ** 19 or (rd > 1 and rn > 1):
            continue
        f0, f1 = rng.randint(0, fs), rng.randint(0, fs)
        p = rng.randint(0, 7)
        if (16 * (n - 1) * f0 * rd) >= 2 ** 31 or 8 * D * rd >= 2 ** 31:
            continue
        a = dict(fs=fs, rn=rn, rd=rd, f0=f0, f1=f1, fd=fd, p=p)
        r, ph = num(Fr(rn, rd)), {"r": [math.pi * p, 4]}
        if rng.random() < 0.5:
            fn("chirp", "py_chirp", a, [call("chirp.chirpz", r, fs, num(Fr(f0, fd)), num(Fr(f1, fd)), phase_rad=ph)])
        else:
            fn("chirp-ctr", "py_chirp", a, [call("chirp.chirpCtr", fs, num(Fr(f0 + f1, 2 * fd)), r, num(Fr(f1 - f0, fd)), ph)])
    # the chaotic generator
    for v in [0, 30000, -30000, 15000, -15000, 1, 10] + [rng.randint(-30000, 30000) for _ in range(x.pick(40, 200))]:
        n = rng.choice([1, 2, 50, 300])
        fn("orbit", "py_cheb", dict(x=v, n=n), [call("fh_ofdm_dcsk.chebyshev", num(Fr(v, 30000)), mute=1), call("first", S(0), n)], osc=30000)
    for v in [30000, -30000, 30001, -30001, 31000, -45000, 60000, 0, 29999]:
        fn("orbit-start", "py_start", dict(x=v), [call("accepted", "fh_ofdm_dcsk.chebyshev", num(Fr(v, 30000)))], osc=1)
    # the chaos frame: rows whose values stay apart, so that a shuffled column still says which row is which
    for _ in range(x.pick(150, 800)):
        b = rng.choice([2, 3, 3, 4, 4, 5, 6, 7, 8])
        d = rbits(rng, b)
        xs, clear = [0.001 + i / 10 for i in range(b)], True
        for _c in range(b):
            w = sorted((2 * d[i] - 1) * xs[i] for i in range(b))
            clear = clear and all(v - u > 12 / 30000 for u, v in zip(w, w[1:]))
            xs = [1 - 2 * t * t for t in xs]
        if clear:
            fn("frame", "py_frame", dict(b=b, d=d), [call("fh_ofdm_dcsk.tx_fh_dcsk", P.b(d + rbits(rng, rng.choice([0, 0, 3]))), b)], osc=30000)
    # the order-n band-pass filter: tones after settling
    for _ in range(x.pick(120, 600)):
        fs = rng.choice([100, 1000, 8000, 10000, 44100, 48000])
        lo = rng.randint(max(1, fs // 20), 38 * fs // 100)
        hi = rng.randint(lo + max(1, fs // 10), 45 * fs // 100) if lo + fs // 10 < 45 * fs // 100 else 0
        p = rng.choice([8, 10, 12, 16, 20, 25, 32, 40])
        b = rng.randint(1, p // 2 - 1)
        if not hi or not 0.4 < bu_omega(fs, lo, hi, b * fs / p) < 2.5 and rng.random() < 0.7 or math.sin(2 * math.pi * b / p) * math.sin(math.pi * (hi - lo) / fs) < 0.1:
            continue
        n = rng.choice([1, 2, 3, 4, 5, 6])
        kw = {} if n == 5 and rng.random() < 0.6 else dict(order=n)
        ph = rng.random()
        v = {"v": [math.sqrt(2) * math.cos(2 * math.pi * (ph + b * i / p)) for i in range(p * (1200 // p))], "sc": 1, "np": rng.randint(0, 1)}
        fn("bpf", "py_bpf", dict(fs=fs, lo=lo, hi=hi, b=b, p=p, n=n), [dict(call("bpf.butter_bandpass_filter", v, lo, hi, fs, mute=1), kw=kw), call("rms2", S(0), p * 4)], osc=10000)
    # durations
    Y = 31557600
    secs = {0, 1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 90061, Y - 1, Y, Y + 1, Y + 3600, Y + 86399, 2 * Y, 10 * Y + 12345, 60 * Y}
    secs |= {rng.randint(0, 10 ** rng.randint(1, 9)) for _ in range(x.pick(60, 500))}
    for n in sorted(secs):
        fr = rng.choice([0, 0, 1, 2])
        fn("secs", "py_secs", dict(n=n, frac=fr), [call("util.secs_to_str", n if not fr and rng.random() < .5 else num(Fr(4 * n + fr, 4)))], osc=1)
    # noise
    root = x.pick(120, 300)
    for k, sg in enumerate([Fr(1), Fr(1, 50), Fr(20), Fr(0)]):
        n = root * root if sg else 200
        v = [[0] * n, [rng.randint(-30000, 30000) for _ in range(n)]][k % 2]
        osc = float(10000 / sg) if sg else 10 ** 6

        def make(resps, id_, v=v, sg=sg, n=n):
            pan = any(t["panic"] for t in resps)
            a, b, c, d = [t["res"][-1] if t["res"] else [] for t in resps]
            mk = lambda k, p, q: dict(id=id_ + k, sg=1 if sg else 0, root=root, a=p, b=q, panic=pan, **{"in": v})
            return [mk("", a, b), mk("/reim", [t[0] for t in c], [t[1] for t in c]), mk("/imre", [t[1] for t in d], [t[0] for t in c])]
        q = lambda *p, osc=osc: dict(prog=list(p), osc=osc)
        z = {"c": [[t, t] for t in v], "sc": osc}
        x.multi("awgn", [q(call("willie.awgn", {"v": v, "sc": osc}, num(sg))), q(call("willie.awgn", {"v": v, "sc": osc}, num(sg))),
                         q(call("willie.awgn_iq", z, num(sg))), q(call("willie.awgn_iq", z, num(sg)))], make, "NoiseTrace")


# ------------------------------------------------------------------------------------ C29
@prop("C29")
def c29(x):
    rng = x.rng

    def pack(m):
        return [sum(b << i for i, b in enumerate(m[k:k + 24])) for k in range(0, len(m), 24)]

    def go(kind, tx, rx, chan, k1, p, root, **f):
        """k1: 65536 x for deviation 1; the specification has its own."""
        z = rng.choice([0.15, 0.3, 0.5, 0.7, 0.9, 1.1, 1.3, rng.uniform(0.1, 1.4)])
        den = 1000
        num = max(1, round(den * k1 / 65536 / z))
        n = root * root
        m = [rng.randint(0, 1) for _ in range(n)]
        if rng.random() < 0.2:
            m = [rng.choice([0, 1])] * n
        q = lambda: dict(src=bits(m), st=[op(tx, **p), op(chan, sigma=[num, den]), op(rx, **p)], sched=[["b"]])

        def make(resps, id_):
            pan = any(e["t"] == "panic" for z in resps for e in z["ev"])
            outs = [[e for e in z["ev"] if e["t"] == "b"] for z in resps]
            a, b = [o[0] if o else dict(o=[], n=0) for o in outs]
            return [dict(id=id_, kind=kind, sps=1, sub=1, num=num, den=den, n=n, root=root, a=a["o"], na=a["n"], b=b["o"], nb=b["n"],
                         panic=pan, **{"in": pack(m)}) | f]
        x.multi(kind, [q(), q()], make, "BerTrace")

    root = x.pick(120, 240)
    for _ in range(x.pick(3, 8)):
        go("bb_bpsk", "tx_bb_bpsk", "rx_bb_bpsk", "awgn_c", 46341, {}, root)
        go("bb_qpsk", "tx_bb_qpsk", "rx_bb_qpsk", "awgn_c", 65536, {}, root)
        for kind in ("bpsk", "qpsk"):
            for cdma in (0, 1):
                rt = rng.choice([2, 4, 6, 8] if not cdma else [4, 8])
                sps, sr = rt * rt, rng.choice([1, 100, 1000])
                j = rng.randint(1, sps - 1)             # j half cycles per symbol
                key = []
                if cdma:
                    K = rng.choice([2, 4, 8])
                    key = [rng.randint(0, 1) for _ in range(K)]
                p = dict(fs=sps * sr, sr=sr, fc=[j * sr, 2])
                if cdma:
                    p["key"] = key
                go(("cdma_" if cdma else "") + kind, ("tx_cdma_" if cdma else "tx_") + kind, ("rx_cdma_" if cdma else "rx_") + kind, "awgn",
                   32768 * rt, p, root, sps=sps)
        N, P = rng.choice([(16, 4), (16, 1), (64, 14), (64, 4), (4, 1)])
        h = rng.choice([2, 4])
        sps, sr = 2 * h * h, rng.choice([1, 1000])
        go("ofdm", "tx_ofdm", "rx_ofdm", "awgn", 65536 * h / math.isqrt(N), dict(sub=N, pil=P, fs=sps * sr, sr=sr, fc=[rng.randint(1, sps - 1) * sr, 2]), root, sps=sps, sub=N)
