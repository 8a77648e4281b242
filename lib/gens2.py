"""Scenario generators for the coded link, OFDM, FSK/FM, chirps, adaptors, filters."""
import itertools, math
from .util import *
from .gens import prop


# ------------------------------------------------------------------------------------ C07
@prop("C07")
def c07(x):
    rng = x.rng
    # packing: all short bit strings, all bytes, random longer ones
    for n in range(0, x.pick(6, 9)):
        for m in itertools.product((0, 1), repeat=n):
            x.stream("pack-x", "bits2bytes", {}, m, bits(m), [op("bits2bytes")], sched(rng, (n + 7) // 8))
    for _ in range(x.pick(30, 200)):
        m = rbits(rng, rng.randint(0, 120))
        x.stream("pack", "bits2bytes", {}, m, bits(m), [op("bits2bytes")], sched(rng, (len(m) + 7) // 8))
        b = [rng.choice([0, 1, 127, 128, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 20))]
        x.stream("unpack", "bytes2bits", {}, b, dict(k="u8", v=b), [op("bytes2bits")], sched(rng, 8 * len(b)))
        x.stream("packunpack", "packlink", {}, m, bits(m), [op("bits2bytes"), op("bytes2bits")],
                 sched(rng, (len(m) + 7) // 8 * 8))
    allb = list(range(256))
    x.stream("unpack-all", "bytes2bits", {}, allb, dict(k="u8", v=allb), [op("bytes2bits")], [["a"]])
    ab = [(b >> i) & 1 for b in allb for i in range(8)]
    x.stream("pack-all", "bits2bytes", {}, ab, bits(ab), [op("bits2bytes")], [["a"]])

    # encoder
    for n in list(range(0, 18)) + [55, 56, 57, 63, 64, 65, 111, 112, 113] + [rng.randint(120, 900) for _ in range(x.pick(6, 40))]:
        m = rbits(rng, n)
        x.stream("enc", "bch_enc", {}, m, bits(m), [op("bch_enc")], sched(rng, 96 * ((n + 55) // 56)))
    for pos in range(56):                      # unit vectors determine the (linear) code
        m = [int(i == pos) for i in range(56)]
        x.stream("enc-unit", "bch_enc", {}, m, bits(m), [op("bch_enc")], [["a"]])
    m = rbits(rng, 280)
    x.stream("enc-long", "bch_enc_cyc", {}, m, bits(m, True), [op("bch_enc")], longsched(rng, x.pick(200000, 1500000)), cyc=True)

    # decoder behind a damaging channel
    def link(stem, m, flips, cut=-1):
        st = [op("bch_enc"), op("ch_flip", at=flips)] + ([op("ch_trunc", n=cut)] if cut >= 0 else []) + [op("bch_dec")]
        x.stream(stem, "rs_link", dict(flips=flips, cut=cut), m, bits(m), st, sched(rng, (len(m) + 7) // 8 * 8))

    def frames(n):
        """Encoded byte length of each frame of an n-bit message."""
        nb = (n + 7) // 8
        return [min(7, nb - k) + 5 for k in range(0, nb, 7)]

    def damage(fr, counts):
        """flip patterns damaging counts[k] bytes of frame k"""
        out, base = [], 0
        for size, c in zip(fr, counts):
            for b in rng.sample(range(size), min(c, size)):
                pat = rng.choice([1 << rng.randint(0, 7), 255, rng.randint(1, 255)])
                out += [(base + b) * 8 + i for i in range(8) if pat >> i & 1]
            base += size
        return sorted(out)
    m = rbits(rng, 56)
    for a in range(12):                        # every pair of damaged bytes of one frame
        for b in range(a, 12):
            fl = []
            for p in sorted({a, b}):
                pat = rng.randint(1, 255)
                fl += [8 * p + i for i in range(8) if pat >> i & 1]
            link("damage-pair", m, fl)
    # two damaged bytes whose effects cancel in one syndrome or in one check byte: many frames per stream
    ex = [1]
    for _ in range(254):
        ex.append(ex[-1] << 1 ^ (0x11d if ex[-1] & 128 else 0))
    lg = {v: i for i, v in enumerate(ex)}
    mul = lambda a, b: ex[(lg[a] + lg[b]) % 255] if a and b else 0
    gen = [1]
    for i in range(5):
        gen = [p ^ mul(q, ex[i]) for p, q in zip(gen + [0], [0] + gen)]
    chk = []                                   # effect of one in data byte p on the five check bytes
    for p in range(7):
        reg = [0] * 5
        for i in range(7):
            fb = (1 if i == p else 0) ^ reg[0]
            reg = [(reg[j + 1] if j < 4 else 0) ^ mul(fb, gen[j + 1]) for j in range(5)]
        chk.append(reg)
    quiet_pairs = [(p, q, [chk[p][j], chk[q][j]]) for p in range(7) for q in range(p + 1, 7) for j in range(5)]
    quiet_pairs += [(p, q, [ex[(11 - p) * j % 255], ex[(11 - q) * j % 255]]) for p in range(12) for q in range(p + 1, 12) for j in range(5)]
    quiet_pairs *= x.pick(3, 12)
    rng.shuffle(quiet_pairs)
    for i in range(0, len(quiet_pairs), 24):
        part = quiet_pairs[i:i + 24]
        m = rbits(rng, 56 * len(part))
        fl = []
        for k, (p, q, (a, b)) in enumerate(part):
            e = rng.randint(1, 255)
            d = ex[(lg[e] + lg[a] - lg[b]) % 255]
            for at, pat in ((p, e), (q, d)):
                fl += [96 * k + 8 * at + i for i in range(8) if pat >> i & 1]
        link("damage-hidden", m, fl)
    for _ in range(x.pick(60, 300)):           # long streams, two bytes damaged in every frame
        m = rbits(rng, 56 * 30)
        link("damage-every", m, damage([12] * 30, [2] * 30))
    # frames alike, and damage that makes one look like another (in its data, its check bytes or both)
    def rs_frame(d):
        reg = [0] * 5
        for v in d:
            fb = v ^ reg[0]
            reg = [(reg[j + 1] if j < 4 else 0) ^ mul(fb, gen[j + 1]) for j in range(5)]
        return d + reg
    for _ in range(x.pick(30, 200)):
        base = [rng.randint(0, 255) for _ in range(7)] if rng.random() < 0.7 else [rng.choice([0, 255])] * 7
        fam = [base]
        for _ in range(rng.randint(1, 3)):
            w = list(base)
            for p in rng.sample(range(7), rng.choice([1, 1, 2])):
                w[p] ^= rng.choice([1 << rng.randint(0, 7), rng.randint(1, 255)])
            fam.append(w)
        seq = [rng.choice(fam) for _ in range(rng.randint(2, 9))]
        enc, fl = [rs_frame(w) for w in seq], []
        for k in range(len(seq)):
            goal = rng.choice(enc + [rs_frame(w) for w in fam])     # made to look like this one
            at = [p for p in range(12) if goal[p] != enc[k][p]]
            at = [p for p in at if p < 7] if rng.random() < 0.7 else at
            rng.shuffle(at)
            fl += [96 * k + 8 * p + i for p in at[:2] for i in range(8) if (goal[p] ^ enc[k][p]) >> i & 1]
        link("damage-alike", [b >> i & 1 for w in seq for b in w for i in range(8)], sorted(fl))
    for bit in range(96):
        link("damage-bit", m, [bit])
    for n in list(range(1, 57, 8)) + [56, 57, 100, 112, 113]:
        fr = frames(n)
        m = rbits(rng, n)
        for _ in range(x.pick(3, 12)):
            link("damage-2", m, damage(fr, [rng.randint(0, 2) for _ in fr]))
    for _ in range(x.pick(60, 500)):           # some frames beyond repair
        n = rng.randint(1, 56 * rng.randint(1, 6))
        m, fr = rbits(rng, n), frames(n)
        link("damage-any", m, damage(fr, [rng.choice([0, 1, 2, 2, 3, 4, 6, 12]) for _ in fr]))
    for _ in range(x.pick(60, 400)):           # cut off anywhere
        n = rng.randint(1, 56 * rng.randint(1, 4))
        m, fr = rbits(rng, n), frames(n)
        link("cut", m, damage(fr, [rng.choice([0, 0, 1, 2]) for _ in fr]), rng.randint(0, 8 * sum(fr)))
    for cut in range(0, 193, x.pick(5, 1)):
        link("cut-x", rbits(rng, 112), [], cut)
    # decoder on foreign bits
    for _ in range(x.pick(40, 300)):
        m = rbits(rng, rng.randint(0, 400))
        x.stream("dec-any", "bch_dec", {}, m, bits(m), [op("bch_dec")], [["a"], ["x", 2]])
    x.stream("dec-zero", "bch_dec", {}, [0] * 960, bits([0] * 960), [op("bch_dec")], [["a"], ["x", 2]])


# ------------------------------------------------------------------------------------ C09
def ofdm_configs(x, big):
    rng = x.rng
    out = [(N, P) for N in range(2, x.pick(10, 14)) for P in range(1, N)]
    for N in big:
        for P in {1, 2, 3, N // 4, rng.randint(1, N - 1)}:
            out.append((N, max(1, P)))
    return out


@prop("C09")
def c09(x):
    rng = x.rng

    def syms(n, amp=2000):
        style = rng.random()
        if style < 0.3:
            return [[rng.choice([-1414, 1414]), rng.choice([-1414, 1414])] for _ in range(n)]
        if style < 0.5:
            v = [[0, 0] for _ in range(n)]
            if n:
                v[rng.randrange(n)] = [1000, -2000]
            return v
        return [[rng.randint(-amp, amp), rng.randint(-amp, amp)] for _ in range(n)]
    for N, P in ofdm_configs(x, x.pick([16, 20, 32], [16, 17, 20, 25, 31, 32, 33, 64, 100, 128])):
        D, B = N - P, N + N // 4
        for nblk in {1, 2} if N > 32 else {0, 1, 2, 3}:
            for n in {max(0, D * nblk - rng.randint(0, D)), D * nblk}:
                v = quiet(rng, syms(n), D)
                p = dict(sub=N, pil=P)
                nb = -(-n // D)
                x.stream("tx", "tx_bb_ofdm", p, v, cplx(v, 1000), [op("tx_bb_ofdm", **p)], sched(rng, nb * B))
                x.stream("link", "bb_ofdm_link", p, v, cplx(v, 1000), [op("tx_bb_ofdm", **p), op("rx_bb_ofdm", **p)],
                         sched(rng, nb * D), osc=1000)
        for nblk in {0, 1, 2}:
            n = nblk * B + rng.choice([0, 0, 1, B - 1, rng.randint(0, B - 1)])
            v = quiet(rng, [[rng.randint(-10000, 10000), rng.randint(-10000, 10000)] for _ in range(n)], B)
            p = dict(sub=N, pil=P)
            x.stream("rx", "rx_bb_ofdm", p, v, cplx(v, 10000), [op("rx_bb_ofdm", **p)], sched(rng, nblk * D), osc=10000)
    # one data symbol at a time: position of every subcarrier, and nothing else
    for N, P in [(8, 1), (8, 3), (7, 2), (16, 4), (12, 5), (9, 3)] + x.pick([], [(32, 8), (33, 9), (64, 12)]):
        D, B = N - P, N + N // 4
        for j in range(D):
            v = [[1000 if i == j else 0, 0] for i in range(D)]
            x.stream("tx-unit", "tx_bb_ofdm", dict(sub=N, pil=P), v, cplx(v, 1000), [op("tx_bb_ofdm", sub=N, pil=P)], [["a"]])
    # many pilots: which lines are data, at either edge and around the middle
    for N, P in [(128, 67), (200, 150), (256, 129), (300, 131), (512, 300)] + x.pick([], [(1024, 600), (1000, 255), (2048, 1025)]):
        D = N - P
        v = [[0, 0] for _ in range(D)]
        for j in {0, 1, D // 2 - 1, D // 2, D - 1, rng.randrange(D)}:
            v[j] = [rng.randint(-2000, 2000), rng.choice([-1500, 1000])]
        B = N + N // 4
        x.stream("tx-wide", "tx_bb_ofdm", dict(sub=N, pil=P), v, cplx(v, 1000), [op("tx_bb_ofdm", sub=N, pil=P)],
                 [["s", rng.randint(0, N // 4)], ["p", 12], ["n", B // 3], ["p", 9], ["s", B // 4], ["p", 9], ["z"]])
        x.stream("link-wide", "bb_ofdm_link", dict(sub=N, pil=P), v, cplx(v, 1000),
                 [op("tx_bb_ofdm", sub=N, pil=P), op("rx_bb_ofdm", sub=N, pil=P)], [["a"]], osc=1000)
    # blocks far down a long stream
    for N, P in [(8, 2), (7, 1), (16, 4), (5, 2)]:
        v = syms(23)
        x.stream("tx-long", "tx_bb_ofdm", dict(sub=N, pil=P), v, cplx(v, 1000, True), [op("tx_bb_ofdm", sub=N, pil=P)],
                 longsched(rng, x.pick(200000, 2000000)), cyc=True)
        x.stream("link-long", "bb_ofdm_link", dict(sub=N, pil=P), v, cplx(v, 1000, True),
                 [op("tx_bb_ofdm", sub=N, pil=P), op("rx_bb_ofdm", sub=N, pil=P)],
                 longsched(rng, x.pick(100000, 1000000)), osc=1000, cyc=True)
    v = syms(29)
    x.stream("tx-far", "tx_bb_ofdm", dict(sub=8, pil=2), v, cplx(v, 1000, True), [op("tx_bb_ofdm", sub=8, pil=2)], farsched(1, 1, x.pick(24, 25)), cyc=True)
    x.stream("link-far", "bb_ofdm_link", dict(sub=5, pil=1), v, cplx(v, 1000, True), [op("tx_bb_ofdm", sub=5, pil=1), op("rx_bb_ofdm", sub=5, pil=1)],
             farsched(1, 1, x.pick(22, 25)), osc=1000, cyc=True)
    for N, P in [(64, 12), (128, 16), (256, 30), (1024, 100), (257, 33)]:
        v = syms(2 * (N - P) + 3, 1500)
        x.stream("link-big", "bb_ofdm_link", dict(sub=N, pil=P), v, cplx(v, 1000),
                 [op("tx_bb_ofdm", sub=N, pil=P), op("rx_bb_ofdm", sub=N, pil=P)], [["a"]], osc=1000)


# ------------------------------------------------------------------------------------ C10
@prop("C10")
def c10(x):
    rng = x.rng
    cfgs = []
    for N, P in [(2, 1), (3, 1), (4, 1), (5, 2), (6, 3), (7, 2), (8, 1), (8, 4), (9, 3), (12, 4), (16, 4)] + x.pick([], [(17, 5), (20, 6), (32, 8), (64, 12)]):
        for _ in range(x.pick(2, 4)):
            sps = rng.choice([2, 3, 4, 5, 6, 8, 10, 20])
            sr = rng.choice([1, 10, 250, 1000])
            cfgs.append((N, P, sps * sr, sr))
    for N, P, fs, sr in cfgs:
        sps, D, B = fs // sr, N - P, N + N // 4
        p = dict(sub=N, pil=P, fs=fs, sr=sr)
        # a carrier with whole half cycles per held sample, strictly between 0 and fs/2
        good = [k for k in range(1, sps) if (k * fs) % (2 * sps) == 0]
        for fn, fd in [(rng.choice(good) * fs // (2 * sps), 1)] * bool(good) + [(rng.randint(0, fs), 2), (0, 1), (fs // 2, 1)]:
            if fn * 2 > fs * fd:
                fn = fs * fd // 2
            g = dict(p, fn=fn, fd=fd, key=[1])
            q = dict(p, fc=[fn, fd])
            for n in {0, 1, 2, 2 * D, 2 * D + 1, rng.randint(3, 4 * D + 3)}:
                if n // 2 * B * sps // D > 1500 and N > 12:
                    n = 2 * D + 1
                m = rbits(rng, n)
                nb = -(-(n // 2) // D)
                x.stream("tx", "tx_ofdm", g, m, bits(m), [op("tx_ofdm", **q)], sched(rng, nb * B * sps))
                x.stream("link", "ofdm_link", g, m, bits(m), [op("tx_ofdm", **q)] + [bgain(rng, B * sps)] * rng.randint(0, 1) + [op("rx_ofdm", **q)], sched(rng, nb * 2 * D))
            nblk = rng.randint(0, 2)
            n = nblk * B * sps + rng.choice([0, 1, sps, B * sps - 1])
            v = quiet(rng, [rng.randint(-10000, 10000) for _ in range(n)], sps if rng.random() < 0.5 else B * sps)
            x.stream("rx", "rx_ofdm", g, v, reals(v, 10000), [bgain(rng, B * sps)] * rng.randint(0, 1) + [op("rx_ofdm", **q)], sched(rng, n // sps // B * 2 * D))
    for N, P, fs, sr, fc in [(8, 2, 4000, 1000, 500), (4, 1, 60, 10, 15), (16, 4, 8000, 1000, 3000)]:
        m = rbits(rng, 29)
        g = dict(sub=N, pil=P, fs=fs, sr=sr, fn=fc, fd=1, key=[1])
        q = dict(sub=N, pil=P, fs=fs, sr=sr, fc=fc)
        x.stream("tx-long", "tx_ofdm", g, m, bits(m, True), [op("tx_ofdm", **q)], longsched(rng, x.pick(300000, 3000000)), cyc=True)
        x.stream("link-long", "ofdm_link", g, m, bits(m, True), [op("tx_ofdm", **q), op("rx_ofdm", **q)],
                 longsched(rng, x.pick(70000, 300000)), cyc=True)
    for N, P, fs, sr, fc in [(4, 1, 6, 2, 1), (5, 2, 5, 1, 2)]:
        m = rbits(rng, 29)
        g = dict(sub=N, pil=P, fs=fs, sr=sr, fn=fc, fd=1, key=[1])
        q = dict(sub=N, pil=P, fs=fs, sr=sr, fc=fc)
        x.stream("tx-far", "tx_ofdm", g, m, bits(m, True), [op("tx_ofdm", **q)], farsched(1, 1, x.pick(25, 26)), cyc=True)
        v = [rng.randint(-10000, 10000) for _ in range(211)]
        x.stream("rx-far", "rx_ofdm", g, v, reals(v, 10000, True), [op("rx_ofdm", **q)], farsched((N + N // 4) * fs // sr, 2 * (N - P), x.pick(25, 26)), cyc=True)
    for N, P, fs, sr, fc in [(64, 12, 44100, 900, 1800), (32, 7, 80000, 1000, 4000), (128, 20, 16000, 1000, 2500)]:
        m = rbits(rng, 2 * 2 * (N - P) + 5)
        g = dict(sub=N, pil=P, fs=fs, sr=sr, fn=fc, fd=1, key=[1])
        q = dict(sub=N, pil=P, fs=fs, sr=sr, fc=fc)
        x.stream("link-big", "ofdm_link", g, m, bits(m), [op("tx_ofdm", **q), op("rx_ofdm", **q)], [["a"]])


# ------------------------------------------------------------------------------------ C13
@prop("C13")
def c13(x):
    rng = x.rng
    for _ in range(x.pick(30, 200)):
        sps = rng.choice([1, 2, 3, 4, 5, 8, 10, 16, 25, 40])
        sr = rng.choice([1, 2, 9, 100, 900, 1000])
        fs = sps * sr
        d = rng.choice([1, 1, 2, 3])
        hi = rng.randint(0, (fs // 2) * d)
        lo = rng.randint(0, max(0, hi))
        if rng.random() < 0.1:
            lo = hi
        if fs * d > 2 ** 19 or fs < 2:
            continue
        g = dict(fs=fs, sr=sr, hin=hi, hid=d, lon=lo, lod=d)
        for name in ("tx_bfsk", "tx_mfsk", "tx_fsk"):
            for n in {0, 1, 2, rng.randint(3, 9), rng.randint(10, 40)}:
                m = rbits(rng, n)
                x.stream(name, "tx_fsk", g, m, bits(m), [op(name, fs=fs, sr=sr, lo=[lo, d], hi=[hi, d], nf=rng.choice([2, 4]))],
                         sched(rng, n * sps))
    for fs, sr, lo, hi in [(8, 2, 1, 3), (44100, 900, 1800, 3600), (80000, 1000, 1000, 2500), (1000, 100, 333, 499)]:
        for name in ("tx_bfsk", "tx_mfsk", "tx_fsk"):
            m = rbits(rng, 13)
            x.stream(name + "-long", "tx_fsk", dict(fs=fs, sr=sr, hin=hi, hid=1, lon=lo, lod=1), m, bits(m, True),
                     [op(name, fs=fs, sr=sr, lo=lo, hi=hi, nf=2)], longsched(rng, x.pick(1100000, 4300000)), cyc=True)
            if fs in (8, 44100):
                x.stream(name + "-far", "tx_fsk", dict(fs=fs, sr=sr, hin=hi, hid=1, lon=lo, lod=1), m, bits(m, True),
                         [op(name, fs=fs, sr=sr, lo=lo, hi=hi, nf=2)], farsched(1, 1, x.pick(25, 27)), cyc=True)
    # FM based FSK
    for k in range(x.pick(16, 100)):
        sps = rng.choice([1, 2, 5, 8, 10, 20, 50, 80, 160, 256, 300])
        sr = rng.choice([1, 2, 10, 100])
        fs = sps * sr
        if fs > 13000 or fs < 2:
            continue
        fc = rng.choice([rng.randint(0, fs // 2), fs * rng.randint(0, 8) // 16])
        g = dict(fs=fs, sr=sr, fn=fc, fd=1, key=[1])
        p = dict(fs=fs, sr=sr, fc=fc)
        for n in {0, 1, 2, rng.randint(3, 30)}:
            m = rbits(rng, n)
            x.stream("tx_fmfsk", "tx_fmfsk", g, m, bits(m), [op("tx_fmfsk", **p)], sched(rng, n * sps))
        for style in range(2):
            n = rng.randint(0, 4) * sps + rng.choice([0, 1, sps - 1])
            v = rsignal(rng, (fs, sr, (fc, 1)), n, rng.choice([0, 3, 4, 5]))
            if style:
                s = [rng.choice([39, 41]) for _ in range(n // sps + 1)]
                v = [round(9000 * math.cos(2 * math.pi * fc * s[i // sps] / 40 * i / fs + 0.7)) + rng.randint(-3000, 3000) for i in range(n)]
            x.stream("rx_fmfsk", "rx_fmfsk", g, v, reals(v, 10000), [bgain(rng, sps)] * rng.randint(0, 1) + [op("rx_fmfsk", **p)], [["a"], ["x", 2]],
                     amp=max([1] + [abs(t) for t in v]))
    # both tones in every symbol, almost equally strong
    for _ in range(x.pick(12, 60)):
        sps = rng.choice([40, 80, 160, 200, 256])
        sr = rng.choice([1, 10])
        fs = sps * sr
        fc = rng.choice([fs // 4, 20 * fs // sps * rng.randint(1, max(1, sps // 45)), rng.randint(fs // 8, fs * 2 // 5)])
        n = rng.randint(2, 6) * sps
        q = [rng.choice([0.985, 0.98, 0.975, 0.99, 0.95, 1.01, 1.015, 1.02, 1.03, 1.05]) for _ in range(n // sps)]
        a1, a2 = rng.random() * 6, rng.random() * 6
        v = [round(4800 * (math.cos(2 * math.pi * fc * 1.025 * i / fs + a1) + q[i // sps] * math.cos(2 * math.pi * fc * 0.975 * i / fs + a2))) for i in range(n)]
        x.stream("rx_fmfsk-even", "rx_fmfsk", dict(fs=fs, sr=sr, fn=fc, fd=1, key=[1]), v, reals(v, 10000),
                 [bgain(rng, sps)] * rng.randint(0, 1) + [op("rx_fmfsk", fs=fs, sr=sr, fc=fc)], [["a"], ["x", 1]], amp=max(abs(t) for t in v))
    for sps, m_, sr in [(50, 1, 1), (60, 1, 100), (80, 1, 20), (100, 1, 100), (100, 2, 10), (120, 2, 5), (160, 3, 1), (200, 4, 50), (96, 2, 10), (256, 1, 10), (256, 5, 10), (512, 3, 20),
                        (400, 8, 30), (300, 6, 10), (1000, 20, 10)] + [
            (sps, m_, rng.choice([1, 10])) for sps in (40, 80, 160, 240, 320, 400, 480, 640) for m_ in range(1, sps // 40)]:
        fs = sps * sr
        if 20 * m_ * fs % sps or fs > 13000:
            continue
        fc = 20 * m_ * fs // sps
        g = dict(fs=fs, sr=sr, fn=fc, fd=1, key=[1])
        p = dict(fs=fs, sr=sr, fc=fc)
        for n in {0, 1, 2, 3, rng.randint(4, 30), rng.randint(30, 200)}:
            m = rbits(rng, n)
            x.stream("fmlink", "fm_link", g, m, bits(m), [op("tx_fmfsk", **p)] + [bgain(rng, sps)] * rng.randint(0, 1) + [op("rx_fmfsk", **p)], sched(rng, n), kind="fm")
        m = rbits(rng, 17)
        x.stream("fmlink-long", "fm_link", g, m, bits(m, True), [op("tx_fmfsk", **p), op("rx_fmfsk", **p)],
                 longsched(rng, min(x.pick(20000, 100000), x.pick(2000000, 10000000) // sps)), cyc=True, kind="fm")
    g = dict(fs=50, sr=1, fn=20, fd=1, key=[1])
    m = rbits(rng, 17)
    x.stream("tx_fmfsk-far", "tx_fmfsk", g, m, bits(m, True), [op("tx_fmfsk", fs=50, sr=1, fc=20)], farsched(1, 1, x.pick(25, 26)), cyc=True)
    x.stream("fmlink-far", "fm_link", g, m, bits(m, True), [op("tx_fmfsk", fs=50, sr=1, fc=20), op("rx_fmfsk", fs=50, sr=1, fc=20)],
             farsched(50, 1, x.pick(24, 25)), cyc=True, kind="fm")
    # FM with an arbitrary modulating signal
    for _ in range(x.pick(20, 120)):
        sps = rng.choice([1, 2, 3, 5, 8, 20])
        sr = rng.choice([1, 10, 100, 1000])
        fs, d = sps * sr, rng.choice([1, 1, 2])
        if fs < 2:
            continue
        fn = rng.randint(0, fs // 2 * d)
        n = rng.choice([0, 1, 2, 5, 20, 40])
        v = [rng.choice([rng.randint(-8, 8), rng.randint(-400, 400), 4, -4, 0]) for _ in range(n)]
        x.stream("tx_fm", "tx_fm", dict(fs=fs, sr=sr, fn=fn, fd=d, key=[1]), v, reals(v, 4),
                 [op("tx_fm", fs=fs, sr=sr, fc=[fn, d])], sched(rng, n * sps))


# ------------------------------------------------------------------------------------ C15
@prop("C15")
def c15(x):
    rng = x.rng
    sched = wsched
    sizes = [1, 2, 3, 4, 5, 7, 8, 16, 33]
    data = lambda n: [rng.randint(-1000000, 1000000) for _ in range(n)]
    for n in sizes:
        for L in sorted({0, 1, 2, 3, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, rng.randint(0, 5 * n)}):
            for rep in range(x.pick(2, 6)):
                v = data(L)
                for name, outs in (("chunks", -(-L // n)), ("wchunks", L // n + 1), ("take_every", -(-L // n)), ("inflate", L * n)):
                    x.stream(name, name, dict(n=n), v, ints(v), [op(name, n=n)], sched(rng, outs))
                b = rbits(rng, L)
                for name, outs in (("chunks", -(-L // n)), ("wchunks", L // n + 1), ("take_every", -(-L // n)), ("inflate", L * n)):
                    x.stream(name + "-b", name, dict(n=n), b, bits(b), [op(name, n=n)], sched(rng, outs))
    for n, L in itertools.product(range(0, x.pick(4, 6)), range(0, x.pick(6, 9))):      # every pull pattern
        v = data(L)
        for name in ("chunks", "wchunks", "take_every", "inflate"):
            if n == 0 and name != "inflate":
                continue
            outs = L * n if name == "inflate" else L // n + 1
            pats = [[["p", 1]] * k + [[t, j]] for k in range(0, min(outs, 4) + 1) for t in ("p", "n", "s") for j in (1, 2, 3)]
            for pat in rng.sample(pats, min(len(pats), x.pick(4, 30))):
                x.stream(name + "-pull", name, dict(n=n), v, ints(v), [op(name, n=n)], pat + [["a"], ["x", 3]])
    for n in (1, 2, 3, 7, 100, 65536):
        v = data(97)
        for name in ("inflate", "take_every"):
            x.stream(name + "-long", name, dict(n=n), v, ints(v, True), [op(name, n=n)],
                     longsched(rng, x.pick(400000, 3000000) if name == "inflate" else min(300000, 1500000 // n)), cyc=True)
        if n < 1000:
            for name in ("chunks", "wchunks"):
                x.stream(name + "-long", name, dict(n=n), v, ints(v, True), [op(name, n=n)], longsched(rng, 300000 // n + 40), cyc=True)
    for _ in range(x.pick(20, 100)):
        k, n = rng.choice([0, 1, -1, 2, 3, 10, -7]), rng.randint(0, 30)
        v = [rng.randint(-20000, 20000) for _ in range(n)]
        x.stream("scale", "scale", dict(k=k), v, reals(v, 10000), [op("scale", g=k)], sched(rng, n), osc=10000)
        w = [[rng.randint(-20000, 20000), rng.randint(-20000, 20000)] for _ in range(n)]
        x.stream("scale-c", "scale_c", dict(k=k), w, cplx(w, 10000), [op("scale", g=k)], sched(rng, n), osc=10000)
    for _ in range(x.pick(20, 80)):                  # factors of any size (powers of two: exact)
        n, e = rng.randint(1, 20), rng.choice([rng.randint(20, 900), rng.randint(40, 80)]) * rng.choice([1, -1])
        v = [rng.randint(-20000, 20000) for _ in range(n)]
        pair = [op("scale", g=2.0 ** e), op("scale", g=2.0 ** -e)]
        one = [op("ch_bgain", n=1, e=[e]), op("scale", g=2.0 ** -e)]
        x.stream("scale-any", "id", {}, v, reals(v, 10000), rng.choice([pair, one]), sched(rng, n), osc=10000)
        w = [[rng.randint(-20000, 20000), rng.randint(-20000, 20000)] for _ in range(n)]
        x.stream("scale-any-c", "scale_c", dict(k=1), w, cplx(w, 10000), rng.choice([pair, one]), sched(rng, n), osc=10000)
    for n in (65537, 70001):                         # sizes no 16-bit counter holds
        v = data(19)
        for name in ("chunks", "wchunks"):
            x.stream(name + "-wide", name, dict(n=n), v, ints(v, True), [op(name, n=n)], [["p", 1], ["n", 1]], cyc=True)
        x.stream("take_every-wide", "take_every", dict(n=n), v, ints(v, True), [op("take_every", n=n)], [["p", 3], ["n", 2], ["s", 2], ["p", 2]], cyc=True)
        w = data(3)
        x.stream("inflate-wide", "inflate", dict(n=n), w, ints(w), [op("inflate", n=n)],
                 [["p", 2], ["s", 65531], ["p", 9], ["n", n - 65545], ["p", 9], ["s", n], ["p", 9], ["z"], ["x", 2]])
    for _ in range(x.pick(30, 150)):                 # copies of an inflated stream are independent, repeat it
        n, L = rng.randint(1, 6), rng.randint(0, 12)
        v = data(L)
        k = rng.randint(0, n * L + 1)
        x.stream("fork", "inflate_fork", dict(n=n, k=min(k, n * L)), v, ints(v), [op("inflate_fork", n=n, k=k)], sched(rng, 2 * n * L))
        if L:
            x.stream("repeat", "inflate", dict(n=n), v, ints(v), [op("inflate_cycle", n=n)], [["p", rng.randint(0, 3 * n * L)], ["h"], ["n", rng.randint(0, n * L)], ["p", 3]], cyc=True)
    # real and complex elements through inflate / take_every
    for _ in range(x.pick(15, 60)):
        n, L = rng.randint(1, 6), rng.randint(0, 12)
        v = [rng.randint(-20000, 20000) for _ in range(L)]
        x.stream("inflate-f", "inflate", dict(n=n), v, reals(v, 10000), [op("inflate", n=n)], sched(rng, n * L), osc=10000)
        x.stream("take_every-f", "take_every", dict(n=n), v, reals(v, 10000), [op("take_every", n=n)], sched(rng, -(-L // n)), osc=10000)
        # compositions: inflating then taking every n-th is the identity
        x.stream("inv", "id", {}, v, reals(v, 10000), [op("inflate", n=n), op("take_every", n=n)], sched(rng, L), osc=10000)


# ------------------------------------------------------------------------------------ C16
@prop("C16")
def c16(x):
    rng = x.rng
    sched = wsched
    for rep in range(x.pick(6, 30)):
        for n in (1, 2, 3, 4, 7, 10, 31):
            L = rng.choice([0, 1, n - 1, n, n + 1, 2 * n, 3 * n - 1, rng.randint(0, 4 * n)])
            amp = rng.choice([3, 1000, 1000000])
            v = [rng.randint(-amp, amp) for _ in range(L)]
            x.stream("intdump", "intdump", dict(n=n), v, ints(v), [op("intdump", n=n)], sched(rng, L // n))
            x.stream("integrate", "integrate", {}, v, ints(v), [op("integrate")], sched(rng, L))
            w = [[rng.randint(-amp, amp) for _ in range(3)] for _ in range(L)]
            x.stream("nintdump", "nintdump", dict(n=n), w, triples(w), [op("nintdump", n=n)], sched(rng, L // n))
            x.stream("nintegrate", "nintegrate", {}, w, triples(w), [op("nintegrate")], sched(rng, L))
            f = [rng.randint(-20000, 20000) for _ in range(L)]
            x.stream("intdump-f", "intdump", dict(n=n), f, reals(f, 16), [op("intdump", n=n)], sched(rng, L // n), osc=16)
            x.stream("integrate-f", "integrate", {}, f, reals(f, 16), [op("integrate")], sched(rng, L), osc=16)
            c = [[rng.randint(-2000, 2000), rng.randint(-2000, 2000)] for _ in range(L)]
            x.stream("intdump-c", "intdump_c", dict(n=n), c, cplx(c, 16), [op("intdump", n=n)], sched(rng, L // n), osc=16)
            x.stream("integrate-c", "integrate_c", {}, c, cplx(c, 16), [op("integrate")], sched(rng, L), osc=16)
    # part of a stream read, the rest used up through fold, collect, count or last
    for _ in range(x.pick(25, 120)):
        n, L = rng.randint(1, 6), rng.randint(2, 30)
        v = [rng.randint(-999, 999) for _ in range(L)]
        w = [[rng.randint(-999, 999) for _ in range(3)] for _ in range(L)]
        h = [rng.randint(-9, 9) for _ in range(n)]

        def part(total):
            k, s = rng.randint(0, max(0, total - 1)), []
            if k:
                s.append(rng.choice([["p", k], ["n", k - 1], ["s", k]]))
            return s + [["h"]] * rng.randint(0, 1) + [[rng.choice("fvcll")]]
        for stem, spec, g, data, src, o, tot in (
                ("integrate", "integrate", {}, v, ints(v), op("integrate"), L),
                ("nintegrate", "nintegrate", {}, w, triples(w), op("nintegrate"), L),
                ("intdump", "intdump", dict(n=n), v, ints(v), op("intdump", n=n), L // n),
                ("nintdump", "nintdump", dict(n=n), w, triples(w), op("nintdump", n=n), L // n),
                ("convolve", "convolve", dict(h=h), v, ints(v), op("convolve", h=h), L + n - 1),
                ("nonvolve", "nonvolve", dict(h=h), w, triples(w), op("nonvolve", h=h), L + n - 1)):
            x.stream(stem + "-use", spec, g, data, src, [o], part(tot))
    for m in (1, 2, 3, 4, 5, 8, 13, 16, 31, 33, 64, 65, 100, 130, 257, 300):
        for L in sorted({0, 1, 2, 3, m - 1, m, m + 1, 2 * m, rng.randint(0, 40)} if m < 15 else {1, m, m + 1, 2 * m + 7}):
            for rep in range(x.pick(2, 8) if m < 15 else 1):
                amp = rng.choice([2, 100, 3000])
                h = [rng.randint(-amp, amp) for _ in range(m)]
                v = [rng.randint(-amp, amp) for _ in range(L)]
                tot = L + m - 1 if L else 0
                x.stream("convolve", "convolve", dict(h=h), v, ints(v), [op("convolve", h=h)], sched(rng, tot))
                x.stream("convolve-f", "convolve", dict(h=h), v, reals(v, 8), [op("convolve", h=h, sc=8)], sched(rng, tot), osc=64)
                w = [[rng.randint(-amp, amp) for _ in range(3)] for _ in range(L)]
                x.stream("nonvolve", "nonvolve", dict(h=h), w, triples(w), [op("nonvolve", h=h)], sched(rng, tot))
    for m in (1, 2, 3):                        # unit impulses: every tap position, asymmetrical filters
        for h in itertools.product((0, 1, 2), repeat=m):
            for L in range(0, x.pick(4, 6)):
                for k in range(L):
                    v = [int(i == k) for i in range(L)]
                    x.stream("convolve-x", "convolve", dict(h=list(h)), v, ints(v), [op("convolve", h=list(h))], sched(rng, L + m - 1))
    v = [rng.randint(-9, 9) for _ in range(53)]
    for n in (1, 3, 50, 1000):
        x.stream("intdump-long", "intdump", dict(n=n), v, ints(v, True), [op("intdump", n=n)], longsched(rng, 1200000 // n), cyc=True)
    x.stream("convolve-long", "convolve", dict(h=[3, -1, 4, 1]), v, ints(v, True), [op("convolve", h=[3, -1, 4, 1])],
             longsched(rng, x.pick(300000, 2000000)), cyc=True)
    for n in (4095, 32768, 65535, 65536, 65537, 70000, 140001):    # sizes no 16-bit counter holds
        for name in ("intdump", "nintdump"):
            u = [rng.randint(-9, 9) for _ in range(rng.choice([1, 2, 13, 53]))]
            u = u if name == "intdump" else [[t, rng.randint(-9, 9), 1] for t in u]
            x.stream(name + "-wide", name + "_cyc", dict(n=n), u, (ints if name == "intdump" else triples)(u, True), [op(name, n=n)],
                     [["p", 2], ["n", 2], ["s", rng.randint(1, 3)], ["p", 2]], cyc=True)
    s = [1, -1, 2, -2, 0]
    x.stream("integrate-long", "integrate_cyc", {}, s, ints(s, True), [op("integrate")], longsched(rng, 300000), cyc=True)


# ------------------------------------------------------------------------------------ C18
@prop("C18")
def c18(x):
    rng = x.rng
    for N in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 64] + x.pick([], [48, 63, 100, 128]):
        for rep in range(x.pick(8, 20)):
            fs = rng.choice([N, 2 * N, 8 * N, 1000, 8000, 44100])
            d = rng.choice([1, 2])
            style = rng.random()
            if style < 0.4:                    # edges exactly on bins
                a, b = sorted([rng.randint(0, N // 2), rng.randint(0, N // 2)])
                lo, hi, d = a * fs, b * fs, N
            else:
                lo, hi = sorted([rng.randint(0, fs * d // 2), rng.randint(0, fs * d // 2)])
            if style > 0.9:
                lo, hi = hi, lo
            if max(lo, hi) * N >= 2 ** 31 or (N // 2 + 1) * fs * d >= 2 ** 31:
                continue
            if style < 0.4 and (fs % N or True):
                # the code compares floating point bin frequencies: only unambiguous edges
                if any((b * fs) % N for b in range(N // 2 + 1)) and N & (N - 1):
                    continue
            blocks = rng.choice([0, 1, 2, 3])
            n = blocks * N
            v = [rng.randint(-10000, 10000) for _ in range(n)]
            if rng.random() < 0.3 and n:
                v = [0] * n
                v[rng.randrange(n)] = 10000
            g = dict(N=N, fs=fs, lon=lo, lod=d, hin=hi, hid=d)
            x.stream("bp", "bandpass", g, v, reals(v, 10000), [op("bandpass", lo=[lo, d], hi=[hi, d], fs=fs, len=N)],
                     sched(rng, n), osc=10000)
    # edges a hair's breadth off a bin
    for N in [1, 2, 4, 5, 8, 9, 12, 16, 30, 32, 64] * x.pick(3, 10):
        k = rng.choice([1, 1, 2, 5])
        d = max(1, min(10 ** rng.randint(2, 6), 2 ** 30 // (N // 2 + 1) // (N * N * k)))
        a, b = sorted([rng.randint(0, N // 2), rng.randint(0, N // 2)])
        lo, hi = max(0, (a * d + rng.choice([-1, 1])) * k), max(0, (b * d + rng.choice([-1, 1])) * k)
        v = [rng.randint(-10000, 10000) for _ in range(2 * N)]
        g = dict(N=N, fs=N * k, lon=lo, lod=d, hin=hi, hid=d)
        x.stream("bp-edge", "bandpass", g, v, reals(v, 10000), [op("bandpass", lo=[lo, d], hi=[hi, d], fs=N * k, len=N)],
                 sched(rng, 2 * N), osc=10000)
    for N in [1024, 4096] * x.pick(2, 8):
        d = 2 ** 30 // (N // 2 + 1) // N
        bl, bh = sorted([rng.randint(0, N // 2), rng.randint(N // 3, N // 2)])
        lon, hin = max(0, bl * d + rng.choice([-1, 1])), bh * d + rng.choice([-1, 1])
        tones = [dict(b=b, a=rng.choice([2500, 1500, 1000]), p=rng.randint(0, 7)) for b in {bl, bh, max(0, bl - 1), min(N // 2, bh + 1)}]
        v = [round(sum(t["a"] * math.cos(2 * math.pi * (t["b"] * i / N + t["p"] / 8)) for t in tones)) for i in range(2 * N)]
        g = dict(N=N, fs=N, lon=lon, lod=d, hin=hin, hid=d, tones=tones)
        x.stream("bptone-edge", "bp_tone", g, v, reals(v, 10000), [op("bandpass", lo=[lon, d], hi=[hin, d], fs=N, len=N)],
                 [["p", 60], ["s", N - 100], ["p", 80], ["n", N // 2], ["p", 20], ["z"]], osc=10000)
    # long transforms: combinations of tones
    for N in x.pick([128, 250, 512, 1024], [128, 250, 512, 1000, 1024, 2048, 4096, 8192]):
        for rep in range(x.pick(3, 6)):
            fs = N * rng.choice([1, 2, 10])
            if N & (N - 1):
                fs = N
            bl, bh = sorted([rng.randint(0, N // 2), rng.randint(0, N // 2)])
            k = fs // N
            lon, hin = 2 * bl * k - rng.choice([0, 1]), 2 * bh * k + rng.choice([0, 1])
            lon = max(0, lon)
            tones = [dict(b=b, a=rng.choice([2500, 1500, 1000]), p=rng.randint(0, 7))
                     for b in {bl, bh, max(0, bl - 1), min(N // 2, bh + 1), 0, N // 2, rng.randint(0, N // 2), (bl + bh) // 2}]
            blocks = 2
            v = []
            for i in range(blocks * N):
                v.append(round(sum(t["a"] * math.cos(2 * math.pi * (t["b"] * i / N + t["p"] / 8)) for t in tones)))
            g = dict(N=N, fs=fs, lon=lon, lod=2, hin=hin, hid=2, tones=tones)
            x.stream("bptone", "bp_tone", g, v, reals(v, 10000), [op("bandpass", lo=[lon, 2], hi=[hin, 2], fs=fs, len=N)],
                     [["p", 100], ["s", N - 150], ["p", 100], ["n", N // 2], ["p", 20], ["z"]], osc=10000)
    # a weak signal inside the band next to a strong tone outside of it
    for _ in range(x.pick(14, 60)):
        N = rng.choice([16, 32, 64, 128, 512])
        edge = rng.choice(["low", "mid", "top"])
        bl, bh = {"low": (1, N // 2), "mid": rng.choice([(0, N // 4 - 1), (N // 4 + 1, N // 2)]), "top": (0, N // 2 - 1)}[edge]
        A = 10 ** rng.randint(2, 8)
        add = {"low": [A], "mid": rng.choice([[A, 0, -A, 0], [A, A, -A, -A]]), "top": [A, -A]}[edge]
        tones = [dict(b=rng.randint(bl, bh), a=rng.choice([2500, 100, 3]), p=rng.randint(0, 7)) for _ in range(rng.randint(1, 3))]
        v = [round(sum(t["a"] * math.cos(2 * math.pi * (t["b"] * i / N + t["p"] / 8)) for t in tones)) for i in range(2 * N)]
        fs = N * rng.choice([1, 2, 10])
        g = dict(N=N, fs=fs, lon=max(0, 2 * bl * (fs // N) - 1), lod=2, hin=2 * bh * (fs // N) + 1, hid=2, tones=tones)
        x.stream("bpweak", "bp_tone", g, v, reals(v, 10000),
                 [op("ch_add", v=add, sc=1), op("bandpass", lo=[g["lon"], 2], hi=[g["hin"], 2], fs=fs, len=N)], sched(rng, 2 * N), osc=10000)
    v = [rng.randint(-10000, 10000) for _ in range(37)]
    for N in (8, 16):
        g = dict(N=N, fs=N, lon=1, lod=1, hin=3, hid=1)
        x.stream("bp-long", "bandpass", g, v, reals(v, 10000, True), [op("bandpass", lo=1, hi=3, fs=N, len=N)],
                 longsched(rng, x.pick(100000, 1000000)), osc=10000, cyc=True)
