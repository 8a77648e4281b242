"""The Python side: C20 (extension module), C22 (reference modems of kom_py)."""
import math
from fractions import Fraction as Fr
from .util import *
from .gens import prop
from .gens2 import ofdm_configs
from .gens3 import bands, band_g, band_p, chirp_ok, hop_run, lcm, whole


def num(q):
    q = Fr(q)
    return q.numerator if q.denominator == 1 else {"r": [q.numerator, q.denominator]}


def call(f, *a, **kw):
    extra = {k: kw.pop(k) for k in ("mute", "osc") if k in kw}
    return dict(f=f, a=list(a), kw=kw, **extra)


def S(k):
    return {"$": k}


class Py:
    """Argument styles: plain lists or numpy arrays; calls one by one or from several threads."""

    def __init__(self, x):
        self.x, self.rng, self.grp = x, x.rng, 0

    def b(self, m):
        return {"b": list(m), "np": self.rng.randint(0, 1)}

    def v(self, v, sc=10000):
        return {"v": list(v), "sc": sc, "np": self.rng.randint(0, 1)}

    def w(self, v):
        """a received signal of any strength (receivers do not care)"""
        return self.v(v, self.rng.choice([10000, 10000, 1, 10 ** 9, 10 ** 13]))

    def opt(self):
        self.grp += 1
        return dict(thr=self.grp // 40) if (self.grp // 40) % 2 else {}


# ------------------------------------------------------------------------------------ C20
@prop("C20")
def c20(x):
    rng = x.rng
    P = Py(x)
    jobs = []                 # shuffled: any order of calls

    def before(prog):
        """Now and then the same call comes first with almost the same data: calls do not depend on earlier ones."""
        t = prog[0]
        at = [i for i, a in enumerate(t.get("a", [])) if isinstance(a, dict) and (a.get("b") or a.get("v"))]
        if not at or rng.random() < 0.6 or len(prog) > 1 and prog[0] == prog[1]:
            return prog

        def moved(a):
            if isinstance(a, dict):
                return S(a["$"] + 1) if "$" in a else {k: moved(v) for k, v in a.items()}
            return [moved(v) for v in a] if isinstance(a, list) and a and isinstance(a[0], dict) else a
        d = dict(t["a"][at[0]])
        k = "b" if "b" in d else "v"
        d[k] = list(d[k])
        i = rng.choice([-1, -1, 0, rng.randrange(len(d[k]))])
        d[k][i] = 1 - d[k][i] if k == "b" else -d[k][i] + rng.choice([0, 1, 3])
        if rng.random() < 0.2:
            d[k] = d[k][:-1] if rng.random() < 0.5 and len(d[k]) > 1 else d[k] + [d[k][0]]
        first = dict(t, a=[d if j == at[0] else a for j, a in enumerate(t["a"])], mute=1)
        return [first] + [dict(s, a=[moved(a) for a in s.get("a", [])]) for s in prog]

    def st(stem, spec, g, m, prog, **k):
        prog = before(prog)
        jobs.append(lambda: x.pystream(stem, spec, g, m, prog, py=P.opt(), **k))

    def fn(stem, spec, a, prog, **k):
        prog = before(prog)
        jobs.append(lambda: x.pyfunc(stem, spec, a, prog, py=P.opt(), **k))

    def args(c):
        return [c[0], c[1], num(Fr(*c[2]))]

    def bad(stem, f, a, fs, sr, fc, chips, chk, n):
        fc = Fr(fc)

        def make(resps, id_):
            return [dict(id=id_, spec="rates", chk=chk, fs=fs, sr=sr, fn=fc.numerator, fd=fc.denominator, chips=chips,
                         ev=[dict(t=e["t"], c=0, n=e["n"]) for e in resps[0]["ev"]], n=n)]
        jobs.append(lambda: x.multi(stem, [dict(prog=[call(f, *a)], osc=1000, **P.opt())], make, "RateTrace"))
    key16 = walsh(16, 0)
    # BPSK, QPSK
    for c in psk_configs(x):
        sps = c[0] // c[1]
        g = psk_g(c, [1])
        for kind in ("bpsk", "qpsk"):
            b = 2 if kind == "qpsk" else 1
            for n in {0, 1, rng.randint(2, 9), rng.randint(10, 40)}:
                m = rbits(rng, min(n, max(2, 3000 // sps)))
                st("tx_" + kind, "tx_" + kind, g, m, [call("tx_" + kind, P.b(m), *args(c))])
                amp = rng.choice([0, 500, 2000])
                pr = [call("tx_" + kind, P.b(m), *args(c), mute=1)]
                if amp:
                    pr.append(call("add", S(0), {"v": rnoise(rng, amp, rng.choice([1, 2, 7])), "sc": 10000}, mute=1))
                pr.append(call("rx_" + kind, S(len(pr) - 1), *args(c), osc=1))
                st("link_" + kind, "link", g, m, pr, kind=kind, amp=amp)
            nsym = rng.choice([0, 1, 2, max(1, min(20, 1500 // sps))])
            v = rsignal(rng, c, nsym * sps + rng.choice([0, 0, 1, sps - 1]), rng.randint(0, 5))
            st("rx_" + kind, "rx_" + kind, g, v, [call("rx_" + kind, P.w(v), *args(c), osc=1)], amp=max([1] + [abs(t) for t in v]))
        if sps % 16 == 0 and c[0] // 2 >= 16 * c[1]:
            m = rbits(rng, rng.randint(0, 9))
            st("tx_cdma", "tx_bpsk", psk_g(c, key16), m, [call("tx_cdma_bpsk", P.b(m), *args(c))])
        m = rbits(rng, rng.randint(0, 30))
        st("tx_bb", "tx_bb_bpsk", {}, m, [call("tx_baseband_bpsk", P.b(m))])
    for c in [(32, 1, (3, 1)), (64, 2, (5, 2)), (16000, 500, (2000, 1)), (44800, 700, (7001, 1)), (48, 1, (24, 1)), (96, 3, (0, 1))]:
        for n in (0, 1, 2, 5, 17):
            m = rbits(rng, n)
            st("tx_cdma", "tx_bpsk", psk_g(c, key16), m, [call("tx_cdma_bpsk", P.b(m), *args(c))])
    # OFDM
    for N, Pl in [(2, 1), (3, 1), (4, 1), (5, 2), (6, 3), (7, 2), (8, 1), (8, 4), (9, 3), (12, 4), (16, 4)] + x.pick([], [(17, 5), (20, 6), (32, 8)]):
        for _ in range(x.pick(2, 6)):
            sps, sr = rng.choice([2, 3, 4, 5, 6, 8, 10, 20]), rng.choice([1, 10, 250, 1000])
            fs, D, B = sps * sr, N - Pl, N + N // 4
            good = [k for k in range(1, sps) if (k * fs) % (2 * sps) == 0]
            fc = Fr(rng.choice(good) * fs, 2 * sps) if good and rng.random() < 0.7 else Fr(rng.randint(0, fs), 2)
            g = dict(sub=N, pil=Pl, fs=fs, sr=sr, fn=fc.numerator, fd=fc.denominator, key=[1])
            a = [N, Pl, fs, sr, num(fc)]
            for n in {0, 1, 2 * D, rng.randint(2, 4 * D + 3)}:
                m = rbits(rng, n)
                st("tx_ofdm", "tx_ofdm", g, m, [call("tx_ofdm", P.b(m), *a)])
                if fs > 2 * fc > 0:
                    st("ofdm_link", "ofdm_link", g, m, [call("tx_ofdm", P.b(m), *a, mute=1), call("rx_ofdm", S(0), *a, osc=1)])
            v = [rng.randint(-10000, 10000) for _ in range(rng.randint(0, 2) * B * sps + rng.choice([0, 1, sps, B * sps - 1]))]
            st("rx_ofdm", "rx_ofdm", g, v, [call("rx_ofdm", P.w(v), *a, osc=1)])
    # BFSK, chaos keying (against the library's own chains), hopped modems
    for _ in range(x.pick(15, 60)):
        sps, sr = rng.choice([1, 2, 4, 8, 10, 25]), rng.choice([1, 2, 100, 900])
        fs, d = sps * sr, rng.choice([1, 1, 2, 3])
        if fs < 2:
            continue
        lo, hi = sorted([rng.randint(0, fs // 2 * d), rng.randint(0, fs // 2 * d)])
        m = rbits(rng, rng.randint(0, 30))
        st("tx_bfsk", "tx_fsk", dict(fs=fs, sr=sr, hin=hi, hid=d, lon=lo, lod=d), m, [call("tx_bfsk", P.b(m), fs, sr, num(Fr(lo, d)), num(Fr(hi, d)))])
        for k in ("csk", "dcsk"):
            m = rbits(rng, rng.choice([0, 1, 2, 7, rng.randint(3, 200)]))

            def ref(resps, id_):
                o, pan = whole(resps[0])
                assert not pan
                return [dict(id=id_, spec="ref", g=dict(len=[len(o), len(o)], inb=1, outb=1), cyc=False, amp=0, kind="", **{"in": o}, ev=resps[1]["ev"])]
            jobs.append(lambda k=k, m=m, sps=sps, fs=fs, sr=sr, ref=ref: x.multi("tx_" + k, [
                dict(src=bits(m), st=[op("tx_" + k), op("inflate", n=sps)], sched=[["a"]]),
                dict(prog=[call("tx_" + k, P.b(m), fs, sr)], osc=1000000, **P.opt())], ref, "KomTrace"))
    for b in bands(x, css=True):
        fs, sr, lo, hi, nf = b
        m = rbits(rng, min(rng.choice([0, 1, nf, rng.randint(2, 3 * nf + 4)]), 3000 // (fs // sr)))
        jobs.append(lambda b=b, fs=fs, sr=sr, lo=lo, hi=hi, nf=nf, m=m: hop_run(x, "tx_fh_css", "css", band_g(*b), m, [
            dict(prog=[call("tx_fh_css", P.b(m), fs, sr, num(lo), num(hi), nf)], osc=1000000, **P.opt())]))
    for _ in range(x.pick(12, 60)):
        sps, sr = rng.choice([2, 3, 4, 5, 8, 10, 20]), rng.choice([1, 10, 1000])
        fs, d = sps * sr, rng.choice([1, 1, 2, 3])
        fc = rng.choice([0, fs * d // 2, rng.randint(0, fs * d // 2)])
        m = rbits(rng, rng.choice([0, 1, 6, 7, 8, 14, rng.randint(0, 60)]))
        jobs.append(lambda fs=fs, sr=sr, d=d, fc=fc, m=m: hop_run(x, "tx_fod", "fod", dict(fs=fs, sr=sr, nf=1, f0=fc, step=0, fd=d, lo=0, hi=0), [], [
            dict(prog=[call("tx_fh_ofdm_dcsk", P.b(m), fs, sr, num(Fr(fc, d)))], osc=1000000, **P.opt()),
            dict(src=bits(m), st=[op("tx_bb_fod")], sched=[["a"]])], base=True))
    # chirps
    for _ in range(x.pick(150, 600)):
        fs = rng.choice([4, 8, 10, 16, 20, 30, 64, 100, 1000])
        rate = Fr(fs, rng.choice([1, 2, 3, 4, 5, 8, 10, 16, 20, 33])) if rng.random() < 0.7 else Fr(rng.randint(1, 2 * fs), rng.choice([1, 2]))
        if rate.denominator & (rate.denominator - 1) and (fs / rate).denominator == 1:
            continue
        f0, f1 = Fr(rng.randint(-fs // 4, fs // 2)), Fr(rng.randint(0, fs), 2)
        d = lcm(f0.denominator, f1.denominator)
        g = dict(fs=fs, rn=rate.numerator, rd=rate.denominator, f0=int(f0 * d), f1=int(f1 * d), fd=d)
        if chirp_ok(g):
            st("chirp", "chirp", g, [], [call("chirp", num(rate), fs, num(f0), num(f1))])
    # energies, data, noise
    for _ in range(x.pick(40, 200)):
        n = rng.choice([1, 2, 3, 10, rng.randint(1, 400)])
        v = [rng.randint(-99, 99) for _ in range(n)]
        v[rng.randrange(n)] = rng.choice([1, 5, -70, 99])
        e = rng.choice([0, 0, 3, -3, 7, -7])
        if any(v):
            fn("energy", "energy_db", dict(x=v, off=20000 * e), [call("energy_detector", P.v(v, 10.0 ** e))], osc=1000)
        w = [rng.randint(-9, 9) for _ in range(rng.randint(1, 60))]
        fn("avg", "avg_energy", dict(x=w, fs=[1, 1]), [call("avg_energy", P.v(w, 1))], osc=10 ** 4)
    for n in [0, 1, 2, 7, 8, 100, 1000, 5000, 70000] * x.pick(1, 4):
        fn("random", "random_data", dict(n=n), [call("random_data", n), call("random_data", n)], osc=1, take=2)
    root = x.pick(150, 300)
    for k, sg in enumerate([Fr(1), Fr(1, 50), Fr(20), Fr(0)]):
        n = root * root if sg else 200
        v = [[0] * n, [rng.randint(-30000, 30000) for _ in range(n)]][k % 2]
        osc = float(10000 / sg) if sg else 10 ** 6

        def make(resps, id_, v=v, sg=sg, n=n):
            pan = any(t["panic"] for t in resps)
            a, b = [t["res"][-1] if t["res"] else [] for t in resps[:2]]
            out = [dict(id=id_, sg=1 if sg else 0, root=root, a=a, b=b, panic=pan, **{"in": v})]
            if len(resps) == 4:
                c, d = [t["res"][-1] if t["res"] else [] for t in resps[2:]]
                out.append(dict(id=id_ + "/pure", sg=1 if sg else 0, root=root, a=c, b=d, panic=pan, **{"in": [0] * n}))
            return out
        q = lambda *p, osc=osc: dict(prog=list(p), osc=osc, **P.opt())
        jobs.append(lambda v=v, sg=sg, n=n, q=q, osc=osc, make=make: x.multi("awgn", [
            q(call("awgn", {"v": v, "sc": osc}, num(sg))), q(call("awgn", {"v": v, "sc": osc}, num(sg))),
            q(call("pure_awgn", n, num(sg))), q(call("pure_awgn", n, num(sg)))], make, "NoiseTrace"))
    for n in (0, 1, 2, 77):
        fn("pure-zero", "same", dict(n=n), [call("pure_awgn", n, 0), call("scale", {"v": [0] * n, "sc": 1}, 1)], osc=1000, take=2)
    # spectral correlation and detectors
    for n, np in [(2, 1), (4, 2), (8, 4), (8, 2), (16, 4), (16, 8), (32, 4)] + x.pick([], [(32, 8), (64, 4)]):
        for _ in range(x.pick(2, 5)):
            v = [rng.randint(-9000, 9000) for _ in range(n + np)]
            how = rng.choice([[n, np], [n, np, False], [n]])
            kw = dict(np=np) if len(how) == 1 else {}
            fn("ssca", "ssca_base", dict(n=n, np=np, x=v), [call("ssca", P.v(v), *how, **kw)], osc=10 ** 4)
            fn("ssca-map", "ssca_pair", dict(n=n, np=np), [call("ssca", P.v(v), n, np, mute=1), call("ssca", P.v(v), n, np, map_output=True, mute=1),
                                                           dict(f="pair", a=[S(0), S(1)])])
    for _ in range(x.pick(40, 200)):
        r, c = rng.randint(1, 9), rng.randint(1, 9)
        m = [[[rng.randint(-50, 50), rng.randint(-50, 50)] for _ in range(c)] for _ in range(r)]
        for t in m[0]:
            t[0] = t[0] or 1
        lay = rng.choice(["asfortran", "strided", "transpose", None])
        mt = [list(t) for t in zip(*m)] if lay == "transpose" else m
        e = rng.choice([0, 0, 2, -2, 5, -5, 9])       # of any strength
        pr = [call("scale", {"v": [], "sc": 1}, 1, mute=1) if lay is None else call(lay, {"m": mt, "sc": 10.0 ** e}, mute=1)]
        arg = {"m": m, "sc": 10.0 ** e} if lay is None else S(0)
        fn("max_cut_sxf", "max_cut", dict(m=m, off=20000 * e), pr + [call("max_cut_detector_sxf", arg)], osc=1000)
        fn("dcs_sxf", "dcs", dict(m=m), pr + [call("dcs_detector_sxf", arg)], osc=1000)
    for _ in range(x.pick(3, 10)):
        n = 4160 + rng.choice([0, 0, 1, 500])
        v = [rng.randint(-9000, 9000) for _ in range(n)]
        if rng.random() < 0.5:
            k = rng.choice([2, 4, 7])
            v = [9000 * (1 if (i // k) % 3 else -1) + rng.randint(-2000, 2000) for i in range(n)]
        if n > 4160:
            v = v[:4160]
        for d in ("max_cut_detector", "dcs_detector"):
            fn("agree", "same", dict(d=d), [call("ssca", P.v(v), mute=1), call(d, P.v(v)), call(d + "_sxf", S(0))], osc=1000000, take=2)
        idx = [[rng.randrange(4096), rng.randrange(64)] for _ in range(300)]
        fn("default", "same", dict(), [call("ssca", P.v(v), mute=1), call("ssca", P.v(v), 4096, 64, False, mute=1),
                                       call("pick", S(0), idx), call("pick", S(1), idx)], osc=100000, take=2)
    # refused rates, and the module goes on working
    for _ in range(x.pick(150, 600)):
        sr = rng.choice([0, 1, 2, 3, 10, 900, 1000])
        fs = rng.choice([sr * rng.choice([1, 2, 3, 4, 16, 32, 48]), sr * rng.randint(1, 40) + rng.choice([0, 1]), rng.randint(1, 50)])
        fc = rng.choice([Fr(0), Fr(fs, 2), Fr(fs, 2) + Fr(1, 2), Fr(fs // 2) + Fr(1, 4), Fr(fs), Fr(rng.randint(0, fs), 2), Fr(rng.randint(0, fs), 3)])
        if sr and fs // sr > 400:
            continue
        m = rbits(rng, rng.randint(0, 9))
        n = len(m)
        sps = fs // sr if sr and fs % sr == 0 else 0
        B, a = P.b(m), [fs, sr, num(fc)]
        for f, aa, chips, chk, k in [
                ("tx_bpsk", [B, *a], 1, "carrier", n * sps), ("tx_cdma_bpsk", [B, *a], 16, "chips", n * sps),
                ("tx_bfsk", [B, fs, sr, 0, num(fc)], 1, "carrier", n * sps), ("tx_fh_css", [B, fs, sr, 0, num(fc), 3], 1, "carrier", n * sps),
                ("tx_fh_ofdm_dcsk", [B, *a], 1, "carrier", -1), ("tx_ofdm", [B, 8, 2, *a], 1, "ofdm", -1), ("rx_ofdm", [P.v([]), 8, 2, *a], 1, "ofdm", 0),
                ("tx_csk", [B, fs, sr], 1, "ofdm", n * sps), ("tx_dcsk", [B, fs, sr], 1, "ofdm", 2 * n * sps)]:
            if rng.random() < 0.3:
                bad("rates_" + f, f, aa, fs, sr, fc, chips, chk, k)
    rng.shuffle(jobs)
    for j in jobs:
        j()


# ------------------------------------------------------------------------------------ C22
KEY = [1, 1, 0, 0] * 4


@prop("C22")
def c22(x):
    rng = x.rng
    P = Py(x)

    def msg(n, b):
        return rbits(rng, max(1, n) * b)
    for c in psk_configs(x):
        fs, sr, fc = c[0], c[1], num(Fr(*c[2]))
        sps = fs // sr
        g = psk_g(c, [1])
        a = [fs, sr, fc]
        for kind, b in (("bpsk", 1), ("qpsk", 2)):
            for n in {1, 2, rng.randint(3, 9), rng.randint(5, 40)}:
                m = msg(min(n, max(1, 1500 // sps)), b)
                x.pystream("ktx_" + kind, "tx_bpsk" if b == 1 else "tx_qpsk_amp", g, m, [call("psk.tx_" + kind, P.b(m), *a)], py=P.opt())
                amp = rng.choice([0, 0, 500, 3000])
                for tx, rx in (("psk.tx_", "rx_"), ("tx_", "psk.rx_"), ("psk.tx_", "psk.rx_")):
                    pr = [call(tx + kind, P.b(m), *a, mute=1)]
                    if amp:
                        pr.append(call("add", S(0), {"v": rnoise(rng, amp, rng.choice([1, 2, 7])), "sc": 10000}, mute=1))
                    if rng.random() < 0.4:
                        pr.append(call("scale", S(len(pr) - 1), num(rng.choice([3, Fr(1, 1000), 10 ** 6, Fr(1, 10 ** 9), 10 ** 9])), mute=1))
                    if rng.random() < 0.5:
                        pr.append(call("asarray", S(len(pr) - 1), mute=1))
                    pr.append(call(rx + kind, S(len(pr) - 1), *a, osc=1))
                    x.pystream(f"klink_{kind}", "link", g, m, pr, kind=kind, amp=amp, py=P.opt())
            for _ in range(x.pick(2, 4)):
                v = rsignal(rng, c, rng.choice([1, 2, max(1, min(20, 1000 // sps))]) * sps + rng.choice([0, 0, 1, sps - 1]), rng.randint(0, 5))
                x.pystream("krx_" + kind, "rx_" + kind, g, v, [call("psk.rx_" + kind, P.w(v), *a, osc=1)], amp=max([1] + [abs(t) for t in v]), py=P.opt())
    for _ in range(x.pick(30, 100)):
        m = rbits(rng, rng.randint(1, 40))
        x.pystream("kbb", "tx_bb_bpsk", {}, m, [call("psk.tx_baseband_bpsk", P.b(m))])
        x.pystream("kbb-link", "link", {}, m, [call("psk.tx_baseband_bpsk", P.b(m), mute=1), call("psk.rx_baseband_bpsk", S(0), osc=1)], kind="bb_bpsk")
        x.pystream("kbb-mix", "link", {}, m, [call("tx_baseband_bpsk", P.b(m), mute=1), call("psk.rx_baseband_bpsk", S(0), osc=1)], kind="bb_bpsk")
        m = rbits(rng, 2 * rng.randint(1, 40))
        x.pystream("kbbq", "tx_bb_qpsk_amp", {}, m, [call("psk.tx_baseband_qpsk", P.b(m))])
        x.pystream("kbbq-link", "link", {}, m, [call("psk.tx_baseband_qpsk", P.b(m), mute=1), call("psk.rx_baseband_qpsk", S(0), osc=1)], kind="bb_qpsk")
    # spread BPSK
    cs = [(32, 1, (3, 1)), (64, 2, (5, 2)), (16000, 500, (2000, 1)), (44800, 700, (7001, 1)), (48, 1, (24, 1)), (96, 3, (0, 1)), (48000, 1000, (2500, 1)), (80, 1, (11, 1))]
    for _ in range(x.pick(8, 40)):
        sr, k = rng.choice([1, 5, 100]), rng.choice([2, 3, 4, 5])
        cs.append((16 * k * sr, sr, (rng.randint(0, 8 * k * sr * 2), 2)))
    for c in cs:
        fs, sr, fc = c[0], c[1], num(Fr(*c[2]))
        sps = fs // sr
        if fs * c[2][1] > 2 ** 19:
            continue
        g, a = psk_g(c, KEY), [fs, sr, fc]
        for n in {1, 2, rng.randint(3, 8), min(rng.randint(5, 30), 2000 // sps + 1)}:
            m = rbits(rng, n)
            x.pystream("kcdma", "tx_bpsk", g, m, [call("cdma.tx_bpsk_cdma", P.b(m), *a)])
            amp = rng.choice([0, 1000, 3000])
            pr = [call("cdma.tx_bpsk_cdma", P.b(m), *a, mute=1)]
            if amp:
                pr.append(call("add", S(0), {"v": rnoise(rng, amp, rng.choice([1, 2, 7])), "sc": 10000}, mute=1))
            if rng.random() < 0.5:
                pr.append(call("scale", S(len(pr) - 1), num(rng.choice([3, Fr(1, 1000), Fr(1, 10 ** 9), 10 ** 9])), mute=1))
            pr.append(call("asarray", S(len(pr) - 1), mute=1))
            x.pystream("kcdma-link", "link", g, m, pr + [call("cdma.rx_bpsk_cdma", S(len(pr) - 1), *a, osc=1)], kind="bpsk", amp=amp)
        v = rsignal(rng, c, rng.choice([1, 2, 5]) * sps + rng.choice([0, 0, 1, sps - 1]), rng.randint(0, 5))
        x.pystream("kcdma-rx", "rx_bpsk", g, v, [call("cdma.rx_bpsk_cdma", dict(P.w(v), np=1), *a, osc=1)], amp=max([1] + [abs(t) for t in v]))
