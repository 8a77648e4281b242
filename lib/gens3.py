"""Scenario generators for frequency hopping, chirps, chaos and FH-OFDM-DCSK."""
import itertools, math
from fractions import Fraction as Fr
from .util import *
from .gens import prop


def lcm(*a):
    r = 1
    for v in a:
        r = r * v // math.gcd(r, v)
    return r


def fr(q):
    q = Fr(q)
    return [q.numerator, q.denominator]


def band_g(fs, sr, lo, hi, nf, norm=True):
    """Specification record of a band: channel k at (f0 + k step)/fd; with norm, frequencies
    and rates in units of the symbol rate (phases only depend on the ratios)."""
    lo, hi = Fr(lo), Fr(hi)
    u = sr if norm else 1
    a, st = lo / u, (hi - lo) / nf / u
    d = lcm(a.denominator, st.denominator)
    return dict(fs=fs // u, sr=sr // u, nf=nf, f0=int(a * d), step=int(st * d), fd=d, lo=0, hi=0)


def band_p(fs, sr, lo, hi, nf):
    return dict(fs=fs, sr=sr, lo=fr(lo), hi=fr(hi), nf=nf)


def bands(x, css=False, extra=0):
    """(fs, sr, lo, hi, nf): many sizes of table, at most fs/2 high, specification stays in 32 bits."""
    rng = x.rng
    base = [(8, 2, 0, 4, 1), (8, 2, 1, 3, 2), (16, 2, 1, 7, 3), (40, 4, 2, 18, 4), (44100, 900, 1000, 2000, 16),
            (80000, 1000, 10000, 20000, 8), (80000, 4000, 10000, 20000, 8), (10, 5, 1, 4, 3), (64, 2, 0, 32, 5), (9, 3, 1, 4, 7),
            (12, 4, 0, 6, 64), (100, 10, 50, 5, 6), (24, 2, 3, 3, 4), (48000, 1000, 1000, 12345, 3)]
    for _ in range(x.pick(14, 70) + extra):
        sps = rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 25, 49])
        sr = rng.choice([1, 2, 10, 100, 900, 1000])
        fs = sps * sr
        nf = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 31, 32])
        d = rng.choice([1, 1, 2, 3])
        lo, hi = Fr(rng.randint(0, fs * d // 2), d), Fr(rng.randint(0, fs * d // 2), d)
        if rng.random() < 0.8 and lo > hi:
            lo, hi = hi, lo
        base.append((fs, sr, lo, hi, nf))
    out = []
    for b in base:
        g = band_g(*b)
        n = g["fs"] // g["sr"]
        if g["fs"] * g["fd"] > 2 ** 19 or (css and 4 * n * n * g["sr"] * g["fd"] > 2 ** 19) or 4 * n * abs(g["f0"] + b[4] * g["step"]) > 2 ** 30:
            continue
        out.append(b)
    return out


def whole(resp):
    """Everything a stream produced (schedule [["a"]]); None if it panicked."""
    o, pan = [], False
    for e in resp["ev"]:
        pan |= e["t"] == "panic"
        if e["t"] == "a":
            o += e["o"]
    return o, pan


def hop_run(x, stem, kind, g, msg, reqs, base=False, rx=False, rxin=(), amp=1):
    """reqs[0] is the transmitter (or table); then optionally the baseband, the receiver."""
    def make(resps, id_):
        out, pan = whole(resps[0])
        k = 1
        bs, ro = [], []
        if base:
            bs, p2 = whole(resps[k])
            pan |= p2
            k += 1
        if rx:
            ro, p2 = whole(resps[k])
            pan |= p2
        return [dict(id=id_, kind=kind, g=g, msg=list(msg) if not base else [0] * len(bs), base=bs, out=out, rxin=list(rxin),
                     amp=amp, rxout=ro, panic=pan)]
    x.multi(stem, reqs, make, "HopTrace")


# ------------------------------------------------------------------------------------ C08
@prop("C08")
def c08(x):
    rng = x.rng
    x.model("MC_Hop", x.pick("MC_Hop.cfg", "MC_HopDeep.cfg"))
    # the table itself: every size, long sequences, several seeds
    for nf in list(range(1, 13)) + [16, 31, 32, 33, 64, 100, 257, 300] + x.pick([], [128, 255, 256, 600]):
        for seed in {0, 64, rng.randint(1, 10 ** 6)} if nf < 200 else {64}:
            lo, hi = (0, 10 * nf) if nf > 200 else rng.choice([(10000, 20000), (0, nf), (Fr(1, 2), 100), (20000, 300), (rng.randint(0, 500), rng.randint(501, 9000))])
            g = band_g(1, 1, lo, hi, nf, norm=False)
            n = min(nf * x.pick(40, 200), x.pick(2000, 12000)) + rng.randint(0, nf)
            if seed == 64 and nf <= 8:
                n *= 2
            if abs(g["f0"] + nf * g["step"]) * 100 > 2 ** 30 or len({(g["f0"] + k * g["step"]) * 20 // g["fd"] for k in range(nf)}) < nf:
                continue
            p = dict(lo=fr(lo), hi=fr(hi), nf=nf, seed=seed)
            q = lambda: dict(src=dict(k="none"), st=[op("hop_table", **p), op("ch_trunc", n=n)], sched=[["a"]], osc=100)
            hop_run(x, "table", "table", g, [0] * n, [q()])

            def ref(resps, id_, n=n):      # a second table pulled differently
                o, pan = whole(resps[0])
                return [dict(id=id_, spec="ref", g=dict(len=[n, n], inb=1, outb=1), cyc=False, amp=0, kind="", **{"in": o}, ev=resps[1]["ev"])]
            x.multi("again", [q(), dict(q(), sched=sched(rng, n, False))], ref, "KomTrace")
    # channels a fraction of a millihertz apart are channels all the same (unit: 10^-6 Hz)
    for nf in (2, 3, 5, 8, 12, 33):
        for lo, st in ((0, rng.randint(30, 900)), (rng.randint(1, 10 ** 6), rng.randint(30, 900))) + ((0, 0),) * (nf < 5):
            n = nf * x.pick(300, 1200) if nf < 12 else nf * 100
            g = dict(fs=1, sr=1, nf=nf, f0=lo, step=st, fd=1, lo=0, hi=0)
            p = dict(lo=[lo, 10 ** 6], hi=[lo + st * nf, 10 ** 6], nf=nf, seed=rng.choice([0, 64, rng.randint(1, 10 ** 6)]))
            hop_run(x, "fine", "table", g, [0] * n, [dict(src=dict(k="none"), st=[op("hop_table", **p), op("ch_trunc", n=n)], sched=[["a"]], osc=10 ** 8)])
    # transmitter symbols and receiver decisions on foreign signals
    for b in bands(x):
        fs, sr, lo, hi, nf = b
        sps = fs // sr
        g, p = band_g(*b), band_p(*b)
        few = sps == 1
        ns = sorted({0, 1, nf, 2 * nf + 1, rng.randint(1, 4 * nf + 3)} | {rng.randint(5 * nf, 9 * nf)} if nf <= 8 else {0, 3, nf, 2 * nf + 1})
        for n in ns:
            n = min(n, x.pick(6000, 20000) // sps, 12 if few else 10 ** 9)
            m = rbits(rng, n)
            k = rng.choice([n * sps, n * sps, max(0, n * sps - rng.randint(0, sps)), rng.randint(0, n * sps)])
            style = rng.randint(0, 5)
            v = quiet(rng, rsignal(rng, (fs, sr, (int(lo + (hi - lo) * Fr(rng.randint(0, nf), nf)), 1)), k, style), sps)
            hop_run(x, "fhbpsk", "fhbpsk", g, m,
                    [dict(src=bits(m), st=[op("tx_fh_bpsk", **p)], sched=[["a"]]),
                     dict(src=reals(v, 10000), st=[bgain(rng, sps)] * rng.randint(0, 1) + [op("rx_fh_bpsk", **p)], sched=[["a"]])],
                    rx=True, rxin=v, amp=max([1] + [abs(t) for t in v]))
    # a single long transmission (the table keeps being reshuffled)
    for b in [(8, 2, 1, 3, 2), (16, 2, 1, 7, 3), (12, 3, 0, 5, 5), (6, 2, 0, 3, 1)] + x.pick([], [(20, 4, 1, 9, 8)]):
        n = x.pick(1200, 8000)
        m = rbits(rng, n)
        hop_run(x, "fhbpsk-far", "fhbpsk", band_g(*b), m, [dict(src=bits(m), st=[op("tx_fh_bpsk", **band_p(*b))], sched=[["a"]])])
    # links
    for b in bands(x, extra=x.pick(10, 60)):
        fs, sr, lo, hi, nf = b
        g, p = band_g(*b), band_p(*b)
        gg = dict(g, fs=g["fs"], key=[1])
        for n in {0, 1, 2, nf, nf + 1, rng.randint(2, 60), rng.randint(60, 400)}:
            m = rbits(rng, n)
            x.stream("link", "fh_link", gg, m, bits(m), [op("tx_fh_bpsk", **p), op("ch_gain", g=rng.choice([1, 3, [1, 1000]])), bgain(rng, fs // sr), op("rx_fh_bpsk", **p)], sched(rng, n), kind="bpsk")
        m = rbits(rng, 31)
        x.stream("link-long", "fh_link", gg, m, bits(m, True), [op("tx_fh_bpsk", **p), op("rx_fh_bpsk", **p)],
                 longsched(rng, x.pick(20000, 150000)), cyc=True, kind="bpsk")
    for b in [(6, 2, 1, 3, 4), (5, 1, 1, 2, 3)]:
        m = rbits(rng, 31)
        x.stream("link-far", "fh_link", dict(band_g(*b), key=[1]), m, bits(m, True), [op("tx_fh_bpsk", **band_p(*b)), op("rx_fh_bpsk", **band_p(*b))],
                 farsched(b[0] // b[1], 1, x.pick(25, 26)), cyc=True, kind="bpsk")


# ------------------------------------------------------------------------------------ C14
def chirp_ok(c):
    n = c["fs"] * c["rd"] // c["rn"]
    B = 2 * n * n * c["rn"] * c["fd"]
    return n < 4096 and B <= 2 ** 19 and 2 * n * abs(c["f0"]) * c["rd"] < 2 ** 31 and abs(c["f1"] - c["f0"]) * c["rd"] < 2 ** 31


@prop("C14")
def c14(x):
    rng = x.rng

    def chirp(stem, rate, fs, f0, f1, o):
        rate, f0, f1 = Fr(rate), Fr(f0), Fr(f1)
        if rate.denominator & (rate.denominator - 1) and (fs / rate).denominator == 1:
            return False                       # whether a sample fits is a rounding question
        # phases are invariant under scaling all rates
        u = math.gcd(math.gcd(fs, rate.numerator), 10 ** 9)
        best = None
        for k in (u, 1):
            d = lcm((f0 / k).denominator, (f1 / k).denominator)
            r = rate / k
            c = dict(fs=fs // k, rn=r.numerator, rd=r.denominator, f0=int(f0 / k * d), f1=int(f1 / k * d), fd=d)
            if chirp_ok(c):
                best = c
                break
        if not best:
            return False
        n = int(fs / rate)
        for rep in range(2):
            x.stream(stem, "chirp", best, [], dict(k="none"), [o], sched(rng, n))
        return True
    hits = 0
    for _ in range(x.pick(400, 2500)):
        fs = rng.choice([4, 8, 10, 16, 20, 30, 50, 64, 100, 1000, 8000, 44100])
        k = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 20, 33, 50, 64, 100])
        rate = Fr(fs, k) if rng.random() < 0.6 else Fr(rng.randint(1, 2 * fs), rng.choice([1, 2, 3]))
        d = rng.choice([1, 1, 2])
        f0, f1 = Fr(rng.randint(-fs // 4, fs // 2) * d, d), Fr(rng.randint(0, fs // 2 * d), d)
        if rng.random() < 0.3:                 # coarse frequencies keep the denominators small
            f0, f1 = rate * rng.randint(0, 5), rate * rng.randint(0, 5)
        w = rng.random()
        if w < 0.4:
            hits += chirp("chirp", rate, fs, f0, f1, op("chirp", rate=fr(rate), fs=fs, f0=fr(f0), f1=fr(f1)))
        elif w < 0.7:
            bw = abs(f1)
            hits += chirp("up", rate, fs, f0 - bw / 2, f0 + bw / 2, op("upchirp", rate=fr(rate), fs=fs, fc=fr(f0), bw=fr(bw)))
        else:
            bw = abs(f1)
            hits += chirp("down", rate, fs, f0 + bw / 2, f0 - bw / 2, op("downchirp", rate=fr(rate), fs=fs, fc=fr(f0), bw=fr(bw)))
    assert hits > 60
    # long chirps: n samples, frequencies in units of fs/D
    for n, D in [(10001, 8), (32768, 8), (65536, 4), (131072, 2), (12345, 20), (25000, 10), (4097, 64)] + [
            (rng.randint(2000, 2 ** 18 // D), D) for D in rng.sample([2, 3, 4, 5, 6, 8, 10, 12, 16, 20], x.pick(5, 10))]:
        r = rng.choice([1, 1, 2, Fr(1, 2)]) if n % 2 == 0 else 1
        fs = int(n * r)
        a, b = rng.sample(range(D // 2 + 1), 2) if D > 2 else (0, 1)
        sc, pos = [["p", 40]], 40
        for k in sorted(rng.sample(range(100, n - 200), 4)) + [n - 60]:
            if k > pos:
                sc += [rng.choice([["n", k - pos - 1], ["s", k - pos]]), ["p", 30]]
                pos = k + 30
        x.stream("long", "chirp_n", dict(n=n, a=a, b=b, D=D), [], dict(k="none"),
                 [op("chirp", rate=fr(r), fs=fs, f0=fr(Fr(a * fs, D)), f1=fr(Fr(b * fs, D)))],
                 sc + [["a"], ["x", 2]])
    for b in bands(x, css=True, extra=x.pick(20, 80)):
        fs, sr, lo, hi, nf = b
        sps = fs // sr
        g, p = band_g(*b), band_p(*b)
        for n in sorted({0, 1, nf, rng.randint(2, 3 * nf + 4), rng.randint(5, 40)}):
            n = min(n, x.pick(4000, 15000) // sps)
            m = rbits(rng, n)
            hop_run(x, "css", "css", g, m, [dict(src=bits(m), st=[op("tx_fh_css", **p)], sched=[["a"]])])
    for b in [(8, 2, 1, 3, 2), (16, 2, 1, 7, 3), (10, 2, 0, 5, 5), (12, 2, 0, 6, 1)]:
        n = x.pick(800, 6000)
        m = rbits(rng, n)
        hop_run(x, "css-far", "css", band_g(*b), m, [dict(src=bits(m), st=[op("tx_fh_css", **band_p(*b))], sched=[["a"]])])


# ------------------------------------------------------------------------------------ C23
def rmap(rng, k=None):
    k = k or rng.choice(["logistic", "logistic", "chebyshev"])
    if k == "chebyshev":
        return dict(k=k, mn=3, md=1)
    if rng.random() < 0.15:                      # outside [0, 4]: only the recurrence is promised
        mn, md = rng.choice([(-2, 1), (-1, 1), (-3, 2), (9, 2), (5, 1)])
    else:
        md = rng.choice([1, 2, 5, 10, 20, 50, 100])
        mn = rng.choice([rng.randint(0, 4 * md), 4 * md, 4 * md - 1, 39 * md // 10, 36 * md // 10])
    return dict(k=k, mn=mn, md=md)


def map_op(m, x0):
    return op("logistic", mu=[m["mn"], m["md"]], x0=[x0, 10 ** 6]) if m["k"] == "logistic" else op("chebyshev", x0=[x0, 10 ** 6])


@prop("C23")
def c23(x):
    rng = x.rng
    x.model("MC_Chaos")

    def orbit(m, x0, sc, n):
        q = [dict(src=dict(k="none"), st=[map_op(m, x0)], sched=sc),
             dict(fn="orbit_ext", a=dict(map=m["k"], mu=[m["mn"], m["md"]], x0=[x0, 10 ** 6], n=n))]

        def make(resps, id_):
            wins, cur, pan = [], None, bool(resps[1]["panic"])
            first = sc[0][0] == "p"
            for e in resps[0]["ev"]:
                pan |= e["t"] == "panic" or e["end"]
                if e["t"] in ("p", "n") and e["o"]:
                    if e["t"] == "p" and cur is not None:
                        cur += e["o"]
                    else:
                        cur = list(e["o"])
                        wins.append(cur)
            return [dict(id=id_, kind="orbit", m=m, x0=x0, first=first, wins=wins, ext=[0, 0, 9] if pan else resps[1]["res"], panic=pan)]
        x.multi("orbit-" + m["k"], q, make, "ChaosTrace")

    def ref(m, x0, n):
        q = [dict(src=dict(k="none"), st=[map_op(m, x0)], sched=[["p", n + 60]]),
             dict(src=dict(k="none"), st=[map_op(m, x0)], sched=[s for s in sched(rng, n - 1, False) if s[0] not in ("a", "z")] + [["p", 1]])]

        def make(resps, id_):
            o = [v for e in resps[0]["ev"] if e["t"] == "p" for v in e["o"]]
            return [dict(id=id_, spec="ref", g=dict(len=[len(o), 10 ** 9], inb=1, outb=1), cyc=False, amp=0, kind="", **{"in": o}, ev=resps[1]["ev"])]
        x.multi("same", q, make, "KomTrace")
    for _ in range(x.pick(120, 600)):
        m = rmap(rng)
        wild = m["k"] == "logistic" and not 0 <= m["mn"] <= 4 * m["md"]
        x0 = rng.choice([rng.randint(1, 999999), rng.randint(1, 999999), 500000, 250000, 750000, 100000, 0, 1000000])
        if m["k"] == "chebyshev" and rng.random() < 0.5:
            x0 = -x0
        if wild:
            n = 3 if m["mn"] > 0 else 40
            x0 = max(1, min(x0, 999999))
            orbit(m, x0, [["p", n]], n)
            continue
        n = rng.choice([1, 30, 300])
        sc = [["p", n]]
        if rng.random() < 0.6:
            for k in rng.sample([1, 7, 100, 1000, 4096, 65535, 100000], 3):
                sc += [["n", k], ["p", 25]]
        orbit(m, x0, sc, x.pick(20000, 300000))
    for m in (dict(k="logistic", mn=4, md=1), dict(k="logistic", mn=39, md=10), dict(k="chebyshev", mn=3, md=1)):
        for x0 in (0, 1, 999999, 1000000, 500000, 123456, 250000, 750000) + ((-1000000, -500000, -1) if m["k"] == "chebyshev" else ()):
            orbit(m, x0, [["p", x.pick(500, 4000)], ["n", 1000000], ["p", 50]], x.pick(300000, 5000000))
            ref(m, x0, 200)
    for _ in range(x.pick(15, 60)):
        m = rmap(rng)
        if m["k"] == "chebyshev" or 0 <= m["mn"] <= 4 * m["md"]:
            ref(m, rng.randint(0, 10 ** 6), rng.randint(2, 300))
    # single applications
    for _ in range(x.pick(150, 1000)):
        k = rng.choice(["logistic", "chebyshev", "tent", "bernoulli"])
        md = rng.choice([1, 2, 10, 100])
        m = dict(k=k, mn=rng.randint(-2 * md, 4 * md), md=md)
        v = rng.choice([0, 1, -1, 500000, -500000, 10 ** 6, -10 ** 6, rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 6, 10 ** 6)])

        def make(resps, id_, m=m, v=v):
            r = resps[0]
            return [dict(id=id_, kind="map", m=m, x=v, y=r["res"] if not r["panic"] else 0, panic=r["panic"])]
        x.multi("map-" + k, [dict(fn=k, a=dict(mu=[m["mn"], md], x=[v, 10 ** 6]))], make, "ChaosTrace")
    # initial values
    for k in ("logistic", "chebyshev"):
        vs = [0, 1, -1, 10 ** 6, 10 ** 6 + 1, -10 ** 6, -10 ** 6 - 1, 500000, -500000, 2 * 10 ** 6, -2 * 10 ** 6, 10 ** 9, -10 ** 9]
        for v in vs + [rng.randint(-2 * 10 ** 6, 2 * 10 ** 6) for _ in range(20)]:
            m = dict(k=k, mn=3, md=1)

            def make(resps, id_, m=m, v=v):
                return [dict(id=id_, kind="start", m=m, x0=v, panic=any(e["t"] == "panic" for e in resps[0]["ev"]))]
            x.multi("start-" + k, [dict(src=dict(k="none"), st=[map_op(m, v)], sched=[["p", 3]])], make, "ChaosTrace")


# ------------------------------------------------------------------------------------ C11
@prop("C11")
def c11(x):
    rng = x.rng
    x.model("MC_ChaosKey")

    def csk(m, rxin):
        n = len(m)
        q = [dict(src=bits(v), st=[op("tx_csk")], sched=s) for v, s in
             ((m, [["a"]]), ([1] * n, [["a"]]), ([0] * n, [["a"]]))]
        q.append(dict(src=reals(rxin, 10 ** 6), st=[op("rx_csk")], sched=[["a"]]))

        def make(resps, id_):
            d = [whole(t) for t in resps]
            return [dict(id=id_, kind="csk", msg=list(m), out=d[0][0], ones=d[1][0], zeros=d[2][0], rxin=list(rxin), rxout=d[3][0],
                         panic=any(t[1] for t in d))]
        x.multi("csk", q, make, "ChaosTrace")

    def dcsk(m):
        def make(resps, id_):
            o, pan = whole(resps[0])
            return [dict(id=id_, kind="dcsk", msg=list(m), out=o, panic=pan)]
        x.multi("dcsk", [dict(src=bits(m), st=[op("tx_dcsk")], sched=[["a"]])], make, "ChaosTrace")
    for n in range(0, x.pick(6, 9)):
        for m in itertools.product((0, 1), repeat=n):
            if n < 4 or rng.random() < 0.5:
                csk(m, [rng.randint(0, 10 ** 6) for _ in range(rng.randint(0, n))])
                dcsk(m)
    for _ in range(x.pick(25, 120)):
        m = rbits(rng, rng.randint(6, x.pick(300, 2000)))
        lo, hi = rng.choice([(0, 10 ** 6), (-10 ** 6, 2 * 10 ** 6), (90000, 980000)])
        csk(m, [rng.randint(lo, hi) for _ in range(rng.choice([len(m), rng.randint(0, len(m))]))])
        dcsk(m)
    n = x.pick(40000, 300000)
    csk(rbits(rng, n), [rng.randint(0, 10 ** 6) for _ in range(n)])
    dcsk(rbits(rng, n))
    for n in range(0, x.pick(5, 8)):
        for m in itertools.product((0, 1), repeat=n):
            x.stream("csk-link", "csk_link", {}, m, bits(m), [op("tx_csk"), op("rx_csk")], sched(rng, n), kind="csk")
            x.stream("dcsk-link", "dcsk_link", {}, m, bits(m), [op("tx_dcsk"), op("rx_dcsk")], sched(rng, n), kind="dcsk")
    for _ in range(x.pick(60, 300)):
        m = rbits(rng, rng.choice([1, 7, rng.randint(10, 400)]))
        x.stream("csk-link", "csk_link", {}, m, bits(m), [op("tx_csk"), op("rx_csk")], sched(rng, len(m)), kind="csk")
        st = [op("tx_dcsk")]
        amp = rng.choice([0, 0, 100, 900])
        if amp:
            st.append(op("ch_add", v=rnoise(rng, amp, rng.choice([1, 2, 5, 31])), sc=10000))
        st.append(op("ch_gain", g=rng.choice([1, -1, 3, -3, [1, 1000], [-1, 1000], 1000000, [-1, 1000000]])))
        if rng.random() < 0.4:
            st.append(bgain(rng, 2))
        x.stream("dcsk-link", "dcsk_link", {}, m, bits(m), st + [op("rx_dcsk")], sched(rng, len(m)), kind="dcsk", amp=amp)
        # cut anywhere: complete pairs are decided, a dangling sample is not
        k = rng.randint(0, 2 * len(m))
        x.stream("dcsk-cut", "dcsk_link", {}, m[:k // 2], bits(m), [op("tx_dcsk"), op("ch_trunc", n=k), op("rx_dcsk")], sched(rng, k // 2), kind="dcsk")
        v = [rng.choice([0, 1, -1, rng.randint(-10000, 10000)]) for _ in range(rng.randint(0, 60))]
        x.stream("dcsk-rx", "rx_dcsk", {}, v, reals(v, 10000), [bgain(rng, 2), op("rx_dcsk")], sched(rng, len(v) // 2))
    for kind in ("csk", "dcsk"):
        m = rbits(rng, 37)
        x.stream(kind + "-long", kind + "_link", {}, m, bits(m, True), [op("tx_" + kind), op("rx_" + kind)],
                 longsched(rng, x.pick(1000000, 6000000)), kind=kind, cyc=True)


# ------------------------------------------------------------------------------------ C12
@prop("C12")
def c12(x):
    rng = x.rng
    x.model("MC_Fod")
    if not x.quick:
        x.model("MC_Fod", "MC_FodAsIs.cfg")
    bb = [op("tx_bb_fod")]

    def frames(m, rxin, stem="frame", rxw=None):
        nf = len(m) // 7 + 1
        q = [dict(src=bits(m), st=bb, sched=[["a"]]),
             dict(src=dict(k="none"), st=[op("chebyshev", x0=[1, 2]), op("ch_trunc", n=8 * nf)], sched=[["a"]]),
             dict(src=cplx(rxin, 10000) if rxw is None else triples(rxw),
                  st=([] if rxw is None else [op("ch_frames")]) + [bgain(rng, 10)] * rng.randint(0, 1) + [op("rx_bb_fod")], sched=[["a"]])]

        def make(resps, id_):
            d = [whole(t) for t in resps]
            return [dict(id=id_, msg=list(m), out=d[0][0], orbit=d[1][0], rxin=[list(t) for t in rxin], rxout=d[2][0],
                         panic=any(t[1] for t in d), **({} if rxw is None else dict(rxw=[list(t) for t in rxw])))]
        x.multi(stem, q, make, "FodTrace")

    def rsig(n):
        s = rng.random()
        if s < 0.5:
            return [[rng.randint(-10000, 10000), rng.randint(-10000, 10000)] for _ in range(n)]
        if s < 0.7:
            return [[rng.randint(-10000, 10000), 0] for _ in range(n)]
        k, a = rng.randint(0, 7), rng.randint(100, 9000)
        return [[round(a * math.cos(2 * math.pi * k * i / 8)) + rng.randint(-900, 900),
                 round(a * math.sin(2 * math.pi * k * i / 8)) + rng.randint(-900, 900)] for i in range(n)]
    def rsigq(n):
        return quiet(rng, rsig(n), 10)
    for n in list(range(0, 30)) + [rng.randint(30, 300) for _ in range(x.pick(8, 40))]:
        for rep in range(x.pick(2, 5)):
            m = rbits(rng, n)
            frames(m, (rsig, rsigq)[rep % 2](rng.choice([0, n // 7 * 10, max(0, n // 7 * 10 - rng.randint(1, 9)), rng.randint(0, n // 7 * 10)])))
    for _ in range(x.pick(16, 80)):          # lines of very different strengths
        nf, e = rng.randint(1, 6), rng.choice([2, 8, 16])
        frames(rbits(rng, 7 * nf), [], "lines", [[rng.randint(-30000, 30000), rng.randint(-30000, 30000), rng.randint(-e, e)] for _ in range(8 * nf)])
    for n in range(0, x.pick(5, 8)):
        for m in itertools.product((0, 1), repeat=n):
            frames(m, [], "short")
    n = 7 * x.pick(400, 3000)
    frames(rbits(rng, n), rsig(n // 7 * 10), "far")
    # passband: fixed carrier (a hop table of one channel) and hopped
    for _ in range(x.pick(30, 150)):
        sps = rng.choice([2, 3, 4, 5, 8, 10, 20])
        sr = rng.choice([1, 10, 1000])
        fs, d = sps * sr, rng.choice([1, 1, 2, 3])
        fn = rng.choice([0, fs * d // 2, rng.randint(0, fs * d // 2)])
        m = rbits(rng, rng.choice([0, 1, 6, 7, 8, 14, rng.randint(0, 60)]))
        hop_run(x, "pass", "fod", dict(fs=fs, sr=sr, nf=1, f0=fn, step=0, fd=d, lo=0, hi=0), [],
                [dict(src=bits(m), st=[op("tx_fod2", fs=fs, sr=sr, fc=[fn, d])], sched=[["a"]]),
                 dict(src=bits(m), st=bb, sched=[["a"]])], base=True)
    for b in bands(x):
        if b[4] > 8:
            continue
        m = rbits(rng, rng.choice([0, 1, 7, 8, rng.randint(0, 30)]))
        hop_run(x, "hopped", "fod", band_g(*b), [],
                [dict(src=bits(m), st=[op("tx_fod", **band_p(*b))], sched=[["a"]]),
                 dict(src=bits(m), st=bb, sched=[["a"]])], base=True)
    # the loop closed (see known-findings.txt)
    for k, m in enumerate([[1], [1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 0]]):
        x.stream(f"loopback-{k}", "fod_link", {}, m, bits(m), bb + [op("rx_bb_fod")], [["a"]])
