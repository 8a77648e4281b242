"""Scenario generators, one per property.  They only choose inputs, configurations and
schedules; what must come out is decided by the TLA+ modules under spec/."""
import itertools, math
from .util import *

PROPS = {}


def prop(id, level="model_checking", assumptions=()):
    def deco(f):
        PROPS[id] = dict(gen=f, level=level, assumptions=list(assumptions) + [
            "the driver logs what the library returned (harness/src), the log is complete and in order"])
        return f
    return deco


# ------------------------------------------------------------------------------------ C01
@prop("C01")
def c01(x):
    rng = x.rng
    # baseband links: every message up to 5 bits, under several schedules
    for kind, tx, rx in (("bb_bpsk", "tx_bb_bpsk", "rx_bb_bpsk"), ("bb_qpsk", "tx_bb_qpsk", "rx_bb_qpsk")):
        for n in range(0, x.pick(5, 7)):
            for m in itertools.product((0, 1), repeat=n):
                x.stream(f"{kind}-x", "link", {}, m, bits(m), [op(tx), op(rx)], sched(rng, n), kind=kind)
        for amp in (0, 5000, 9900):
            m = rbits(rng, rng.randint(20, 200))
            noise = rnoise(rng, amp, 17)
            g = rng.choice([1, 3, [1, 100], 1000, [1, 1000000]])
            x.stream(f"{kind}-n", "link", {}, m, bits(m),
                     [op(tx), op("ch_add", v=noise, sc=10000), op("ch_gain", g=g), bgain(rng, 1), op(rx)], sched(rng, len(m)),
                     kind=kind, amp=amp)
    # passband links over the configuration grid
    for c in psk_configs(x):
        for kind in ("bpsk", "qpsk"):
            for key in keys_for(rng, c, x.pick(2, 5)):
                g = psk_g(c, key)
                p = psk_p(c, key)
                plain = key == [1] and (c[0] == c[1] or rng.random() < 0.7)
                tx, rx = (f"tx_{kind}", f"rx_{kind}") if plain else (f"tx_cdma_{kind}", f"rx_cdma_{kind}")
                b = 2 if kind == "qpsk" else 1
                msgs = [rbits(rng, k) for k in {0, 1, 2, 3, rng.randint(4, 9), rng.randint(10, x.pick(60, 300))}]
                for m in msgs:
                    st, extra = [op(tx, **p)], {}
                    amp = rng.choice([0, 0, 500, 2000, 6000])
                    if amp:
                        st.append(op("ch_add", v=rnoise(rng, amp, rng.choice([1, 2, 7, 31])), sc=10000))
                    if rng.random() < 0.4:
                        st.append(op("ch_gain", g=rng.choice([3, [1, 1000], 250, [1, 1000000], 1000000])))
                    if m and rng.random() < 0.4:
                        sps = c[0] // c[1]
                        neg = sorted(rng.sample(range(len(m) // b + 1), min(2, len(m) // b + 1)))
                        neg = [s for s in neg if s < len(m) // b]
                        st.append(op("ch_neg", at=[i for s in neg for i in range(s * sps, (s + 1) * sps)]))
                        extra["neg"] = neg
                    if rng.random() < 0.4:
                        st.append(bgain(rng, c[0] // c[1]))
                    st.append(op(rx, **p))
                    x.stream(f"{kind}-p", "link", g, m, bits(m), st, sched(rng, len(m) // b * b), kind=kind, amp=amp, **extra)
    # every message of up to 4 bits at a few configurations
    for c in [(8, 2, (1, 1)), (16, 4, (4, 1)), (10, 2, (0, 1)), (6, 1, (5, 2))]:
        for kind in ("bpsk", "qpsk"):
            g, p = psk_g(c, [1]), psk_p(c, [1])
            for n in range(0, x.pick(5, 7)):
                for m in itertools.product((0, 1), repeat=n):
                    x.stream(f"{kind}-e", "link", g, m, bits(m), [op("tx_" + kind, **p), op("rx_" + kind, **p)],
                             sched(rng, n), kind=kind)
    # coded link: the coder may ask for the whole message
    for c in [(64, 4, (8, 1)), (48, 3, (24, 1)), (96, 6, (12, 1))]:
        for key in ([1], [0], [1, 0, 0, 1], [0, 1]):
            g, p = psk_g(c, key), psk_p(c, key)
            for n in (1, 8, 55, 56, 57, rng.randint(100, x.pick(200, 600))):
                m = rbits(rng, n)
                amp = rng.choice([0, 2000])
                st = [op("tx_coded_cdma", **p)] + ([op("ch_add", v=rnoise(rng, amp, 13), sc=10000)] if amp else [])
                x.stream("coded", "coded_link", g, m, bits(m), st + [op("rx_coded_cdma", **p)],
                         [["b"]] if n > 64 else sched(rng, (n + 7) // 8 * 8), amp=amp)
    # long streams: one endless message, looked at near powers of two and further out
    for c in [(8, 2, (1, 1)), (12, 4, (3, 1)), (5, 1, (7, 4)), (64, 2, (16, 1))]:
        for kind in ("bpsk", "qpsk"):
            m = rbits(rng, rng.choice([7, 16, 30]))
            key = rng.choice([[1], [1], [0, 1]]) if c[0] // c[1] % 2 == 0 and c[0] // c[1] >= 4 else [1]
            g, p = psk_g(c, key), psk_p(c, key)
            cd = "" if key == [1] else "cdma_"
            x.stream(f"{kind}-long", "link", g, m, bits(m, True), [op(f"tx_{cd}{kind}", **p), bgain(rng, c[0] // c[1]), op(f"rx_{cd}{kind}", **p)],
                     longsched(rng, x.pick(140000, 1200000)), kind=kind, cyc=True)
    for c, kind in [((4, 1, (2, 1)), "bpsk"), ((12, 2, (5, 1)), "bpsk"), ((3, 1, (1, 1)), "qpsk"), ((10, 2, (4, 1)), "qpsk")]:
        g, p = psk_g(c, [1]), psk_p(c, [1])
        m = rbits(rng, 14)
        x.stream(f"{kind}-far", "link", g, m, bits(m, True), [op(f"tx_{kind}", **p), op(f"rx_{kind}", **p)],
                 farsched(c[0] // c[1], 2 if kind == "qpsk" else 1, x.pick(25, 27)), kind=kind, cyc=True)


# ------------------------------------------------------------------------------------ C02
@prop("C02")
def c02(x):
    rng = x.rng
    for kind in ("bpsk", "qpsk"):
        for c in psk_configs(x):
            g, p = psk_g(c, [1]), psk_p(c, [1])
            sps = c[0] // c[1]
            b = 2 if kind == "qpsk" else 1
            for n in sorted({0, 1, 2, 3, rng.randint(4, 8), rng.randint(10, 40)}):
                n = min(n, max(2, 3000 // sps))
                m = rbits(rng, n)
                x.stream(kind, "tx_" + kind, g, m, bits(m), [op("tx_" + kind, **p)], sched(rng, n // b * sps))
        for c in [(8, 2, (1, 1)), (44100, 900, (1800, 1)), (80000, 1000, (2500, 1)), (5, 1, (7, 4)), (1000, 250, (333, 2)),
                  (48000, 100, (9999, 1))]:
            m = rbits(rng, rng.choice([7, 16, 31]))
            x.stream(kind + "-long", "tx_" + kind, psk_g(c, [1]), m, bits(m, True), [op("tx_" + kind, **psk_p(c, [1]))],
                     longsched(rng, x.pick(2500000, 9000000)), cyc=True)
        for c in [(3, 1, (1, 1)), (44100, 900, (20011, 1))]:
            m = rbits(rng, 14)
            x.stream(kind + "-far", "tx_" + kind, psk_g(c, [1]), m, bits(m, True), [op("tx_" + kind, **psk_p(c, [1]))],
                     farsched(1, 1, x.pick(25, 27)), cyc=True)
    for kind in ("bb_bpsk", "bb_qpsk"):
        for n in range(0, 7):
            for m in itertools.product((0, 1), repeat=n):
                if n < 5 or rng.random() < 0.2:
                    x.stream(kind, "tx_" + kind, {}, m, bits(m), [op("tx_" + kind)], sched(rng, n // 2 if "q" in kind else n))
        m = rbits(rng, 37)
        x.stream(kind + "-long", "tx_" + kind, {}, m, bits(m, True), [op("tx_" + kind)], longsched(rng, 300000), cyc=True)
    for c in [(8, 2, (1, 1)), (10, 5, (3, 2)), (6, 1, (2, 1))]:      # every short message
        for kind in ("bpsk", "qpsk"):
            for n in range(0, x.pick(5, 7)):
                for m in itertools.product((0, 1), repeat=n):
                    x.stream(kind + "-e", "tx_" + kind, psk_g(c, [1]), m, bits(m), [op("tx_" + kind, **psk_p(c, [1]))],
                             sched(rng, n * c[0] // c[1] // (2 if kind == "qpsk" else 1)))


# ------------------------------------------------------------------------------------ C03
@prop("C03")
def c03(x):
    rng = x.rng
    for kind in ("bb_bpsk", "bb_qpsk"):
        for n in (0, 1, 2, 5, 40):
            v = [[rng.randint(-10000, 10000), rng.randint(-10000, 10000)] for _ in range(n)]
            x.stream(kind, "rx_" + kind, {}, v, cplx(v, 10000), [bgain(rng, 1)] * (n % 2) + [op("rx_" + kind)], sched(rng, n * (2 if "q" in kind else 1)))
        axes = [[a, b] for a in (-3, -1, 0, 1, 3) for b in (-2, -1, 0, 1, 2)]
        x.stream(kind, "rx_" + kind, {}, axes, cplx(axes, 10000), [op("rx_" + kind)], sched(rng, 50))
    for c in psk_configs(x):
        sps = c[0] // c[1]
        for kind in ("bpsk", "qpsk"):
            for key in keys_for(rng, c, x.pick(2, 4)):
                g, p = psk_g(c, key), psk_p(c, key)
                name = "rx_" + kind if key == [1] else "rx_cdma_" + kind
                for style in range(x.pick(3, 6)):
                    nsym = rng.choice([0, 1, 2, 3, max(1, min(30, 1500 // sps))])
                    n = nsym * sps + rng.choice([0, 0, 1, sps - 1, sps // 2])
                    v = quiet(rng, rsignal(rng, c, n, style), sps)
                    x.stream(kind + "-arb", "rx_" + kind, g, v, reals(v, 10000),
                             [bgain(rng, sps)] * (style % 2) + [op(name, **p)], sched(rng, n // sps * (2 if kind == "qpsk" else 1)), amp=max([1] + [abs(t) for t in v]))
    # one block altered: the endless, irregular input seen far out
    for c in [(8, 2, (1, 1)), (12, 4, (3, 1)), (5, 1, (7, 4)), (64, 2, (9, 1))]:
        for kind in ("bpsk", "qpsk"):
            v = [rng.randint(-20000, 20000) for _ in range(rng.choice([97, 211, 503]))]
            x.stream(kind + "-long", "rx_" + kind, psk_g(c, [1]), v, reals(v, 10000, True),
                     [bgain(rng, c[0] // c[1]), op("rx_" + kind, **psk_p(c, [1]))],
                     longsched(rng, x.pick(100000, 1000000)), amp=20000, cyc=True)
    for c, kind in [((4, 1, (2, 1)), "bpsk"), ((7, 1, (3, 1)), "bpsk"), ((3, 1, (1, 1)), "qpsk"), ((10, 2, (4, 1)), "qpsk"), ((48, 1, (20, 1)), "qpsk")]:
        v = [rng.randint(-20000, 20000) for _ in range(211)]
        x.stream(kind + "-far", "rx_" + kind, psk_g(c, [1]), v, reals(v, 10000, True), [op("rx_" + kind, **psk_p(c, [1]))],
                 farsched(c[0] // c[1], 2 if kind == "qpsk" else 1, x.pick(25, 27)), amp=20000, cyc=True)


# ------------------------------------------------------------------------------------ C04
@prop("C04")
def c04(x):
    rng = x.rng
    # every key up to 3 chips with every message up to 3 bits
    for L in range(1, x.pick(4, 5)):
        for key in itertools.product((0, 1), repeat=L):
            for n in range(0, x.pick(4, 5)):
                for m in itertools.product((0, 1), repeat=n):
                    if rng.random() < x.pick(0.5, 1):
                        x.stream("chips", "tx_bb_cdma", dict(key=key), m, bits(m), [op("tx_bb_cdma", key=key)], sched(rng, n * L))
            for n in range(0, 3 * L + 2):
                m = rbits(rng, n)
                x.stream("despread", "rx_bb_cdma", dict(key=key), m, bits(m), [op("rx_bb_cdma", key=key)], sched(rng, n // L))
    for _ in range(x.pick(60, 400)):
        L = rng.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300])
        key, m = rbits(rng, L), rbits(rng, rng.randint(0, max(3, 400 // L)))
        if rng.random() < 0.3:
            key = [rng.randint(0, 1)] * L
        x.stream("chips", "tx_bb_cdma", dict(key=key), m, bits(m), [op("tx_bb_cdma", key=key)], sched(rng, len(m) * L))
        n = rng.randint(0, 4 * L + 1)
        v = rbits(rng, n)
        x.stream("despread", "rx_bb_cdma", dict(key=key), v, bits(v), [op("rx_bb_cdma", key=key)], sched(rng, n // L))
        flips = []                      # fewer than half of the chips of each block
        for k in range(len(m)):
            flips += [k * L + j for j in rng.sample(range(L), rng.choice([0, (L - 1) // 2, rng.randint(0, (L - 1) // 2)]))]
        x.stream("noisychips", "bb_cdma_link", dict(key=key), m, bits(m),
                 [op("tx_bb_cdma", key=key), op("ch_flip", at=flips), op("rx_bb_cdma", key=key)], sched(rng, len(m)), flips=flips)
    key, m = rbits(rng, 5), rbits(rng, 13)
    x.stream("chips-long", "tx_bb_cdma", dict(key=key), m, bits(m, True), [op("tx_bb_cdma", key=key)],
             longsched(rng, x.pick(300000, 3000000)), cyc=True)
    v = rbits(rng, 1009)
    x.stream("despread-long", "rx_bb_cdma", dict(key=key), v, bits(v, True), [op("rx_bb_cdma", key=key)],
             longsched(rng, x.pick(100000, 600000)), cyc=True)
    # passband chips
    for c in psk_configs(x):
        sps = c[0] // c[1]
        for key in keys_for(rng, c, x.pick(3, 6)):
            for kind in ("bpsk", "qpsk"):
                g, p = psk_g(c, key), psk_p(c, key)
                if c[0] // 2 < len(key) * c[1]:
                    continue
                n = rng.choice([1, 2, 3, 5, 9])
                n = min(n, max(2, 1500 // sps))
                m = rbits(rng, n)
                x.stream(kind + "-chips", "tx_" + kind, g, m, bits(m), [op("tx_cdma_" + kind, **p)],
                         sched(rng, n * sps // (2 if kind == "qpsk" else 1)))
                nr = rng.choice([1, 2, 4]) * sps + rng.choice([0, 1, sps - 1])
                v = rsignal(rng, c, nr, rng.randint(0, 4))
                x.stream(kind + "-desp", "rx_" + kind, g, v, reals(v, 10000),
                         [bgain(rng, sps)] * rng.randint(0, 1) + [op("rx_cdma_" + kind, **p)], sched(rng, nr // sps * (2 if kind == "qpsk" else 1)), amp=max([1] + [abs(t) for t in v]))
    for key, c in (([1, 0, 1, 1, 0], (40, 4, (6, 1))), ([0, 1], (8, 2, (1, 1))), ([1, 1, 0], (12, 2, (5, 2)))):
        for kind in ("bpsk", "qpsk"):
            m = rbits(rng, 11)
            x.stream(kind + "-chips-long", "tx_" + kind, psk_g(c, key), m, bits(m, True),
                     [op("tx_cdma_" + kind, **psk_p(c, key))], longsched(rng, x.pick(300000, 3000000)), cyc=True)
            x.stream(kind + "-chips-far", "tx_" + kind, psk_g(c, key), m, bits(m, True),
                     [op("tx_cdma_" + kind, **psk_p(c, key))], farsched(1), cyc=True)
            v = [rng.randint(-20000, 20000) for _ in range(211)]
            x.stream(kind + "-desp-far", "rx_" + kind, psk_g(c, key), v, reals(v, 10000, True), [op("rx_cdma_" + kind, **psk_p(c, key))],
                     farsched(c[0] // c[1], 2 if kind == "qpsk" else 1), amp=20000, cyc=True)
    key = rbits(rng, 7)
    m, v = rbits(rng, 13), rbits(rng, 1009)
    x.stream("chips-far", "tx_bb_cdma", dict(key=key), m, bits(m, True), [op("tx_bb_cdma", key=key)], farsched(1), cyc=True)
    x.stream("despread-far", "rx_bb_cdma", dict(key=key), v, bits(v, True), [op("rx_bb_cdma", key=key)], farsched(7), cyc=True)


# ------------------------------------------------------------------------------------ C05
@prop("C05")
def c05(x):
    rng = x.rng
    orders = [2, 4, 8, 16] + ([] if x.quick else [32])

    def mux(kind, order, users, spc, cyc, fsmul=1):
        # whole half carrier cycles per chip: fc * spc / fs = hc / 2
        sps = order * spc
        sr = rng.choice([1, 10, 1000])
        fs = sps * sr
        hc = rng.choice([h for h in range(0, spc + 1) if h * fs % (2 * spc) == 0] or [0]) if kind == "bpsk" else None
        if kind == "qpsk":
            opts = [h for h in range(1, spc) if h * fs % (2 * spc) == 0]
            if not opts:
                return
            hc = rng.choice(opts)
        fc = hc * fs // (2 * spc)
        if fs * 1 > 2 ** 19:
            return
        me = rng.choice(users)
        msgs = {u: rbits(rng, rng.randint(1, 12)) for u in users}
        n = len(msgs[me])
        gains = {u: rng.choice([1, 1, 2, [1, 2], 10, 100, [1, 100]]) for u in users}
        gains[me] = rng.choice([1, 1, [1, 10], [1, 1000]])
        keys = {u: walsh(order, u) for u in users}
        of = [dict(src=bits(msgs[u]), g=gn(gains[u]),
                   st=[op(f"tx_cdma_{kind}", fs=fs, sr=sr, fc=fc, walsh=[order, u])]) for u in users]
        b = 2 if kind == "qpsk" else 1
        longest = max(len(msgs[u]) // b for u in users) * sps
        g = dict(fs=fs, sr=sr, fn=fc, fd=1, key=keys[me])
        x.stream(f"mux-{kind}", "mux", g, msgs[me], dict(k="mix", of=of),
                 [op("ch_trunc", n=n // b * sps)] + [bgain(rng, sps)] * rng.randint(0, 1) + [op(f"rx_cdma_{kind}", fs=fs, sr=sr, fc=fc, walsh=[order, me])],
                 [["a"]], kind=kind, others=[keys[u] for u in users if u != me])
    for order in orders:
        allu = list(range(order - 1))
        pairs = list(itertools.combinations(allu, 2))
        if len(pairs) > x.pick(40, 200):
            pairs = rng.sample(pairs, x.pick(40, 200))
        for kind in ("bpsk", "qpsk"):
            for pr in pairs:
                mux(kind, order, list(pr), rng.choice([2, 3, 4, 5, 8]), False)
            for _ in range(x.pick(6, 25)):
                mux(kind, order, rng.sample(allu, rng.randint(1, len(allu))), rng.choice([2, 4, 6, 10]), False)
            mux(kind, order, allu, rng.choice([2, 4]), False)
            mux(kind, order, [u + order - 1 for u in allu], 4, False)    # indices wrap around
