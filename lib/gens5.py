"""C17: chains under every way of pulling them."""
import json, math, os, re
from .util import *
from .gens import prop
from . import core


def tlc_schedules(x):
    """All consumer behaviours of MC_Stream up to its depth (generated by TLC)."""
    rc, out = core.tlc(x.work, "MC_Stream", "GenStream.cfg")
    s = [json.loads(json.loads('"' + l + '"')) for l in re.findall(r'^"SCHED (.*)"$', out, re.M)]
    if rc != 0 or len(s) < 2401:
        raise core.ToolError("schedule generation failed:\n" + out[-2000:])
    return s


KINDS = dict(bits=lambda r: r.randint(0, 1), u8=lambda r: r.randint(0, 255), i=lambda r: r.randint(-99, 99), f=lambda r: r.randint(-9000, 9000),
             c=lambda r: [r.randint(-9000, 9000), r.randint(-9000, 9000)], n=lambda r: [r.randint(-99, 99) for _ in range(3)])


def data(rng, kind, n):
    return [KINDS[kind](rng) for _ in range(n)]


def source(kind, v, cyc=False):
    d = dict(k=kind, v=v, cyc=cyc)
    if kind in "fc":
        d["sc"] = 10000
    return d


def stages(rng):
    """One random instance of every block: (name, in, out, op, inb, outb, tail)."""
    sps = rng.choice([1, 2, 3, 4, 5, 8])
    sr = rng.choice([1, 2, 10])
    fs = sps * sr
    d = rng.choice([1, 2, 3])
    fc = [rng.randint(0, fs * d // 2), d]
    car = dict(fs=fs, sr=sr, fc=fc)
    # spread: chips of c samples, keys of length L with L*sr <= fs/2
    L = rng.choice([1, 2, 3, 4])
    cs = L * rng.choice([2, 3])
    key = [rng.randint(0, 1) for _ in range(L)]
    ccar = dict(fs=cs * sr, sr=sr, fc=[rng.randint(0, cs * sr // 2), 1], key=key)
    lo, hi = sorted([rng.randint(0, fs // 2), rng.randint(0, fs // 2)])
    nf = rng.choice([1, 2, 3, 5, 8])
    band = dict(fs=fs, sr=sr, lo=lo, hi=hi, nf=nf)
    sub, pil = rng.choice([(2, 1), (4, 1), (5, 2), (8, 2), (8, 3), (16, 4), (7, 1)])
    D, B = sub - pil, sub + sub // 4
    of = dict(car, sub=sub, pil=pil)
    n = rng.choice([1, 2, 3, 4, 7])
    N = rng.choice([4, 8, 16, 12])
    h = [rng.randint(-5, 5) for _ in range(rng.randint(1, 5))]
    one = [
        ("tx_bpsk", "bits", "f", car, 1, sps), ("tx_qpsk", "bits", "f", car, 2, sps), ("rx_bpsk", "f", "bits", car, sps, 1), ("rx_qpsk", "f", "bits", car, sps, 2),
        ("tx_bb_bpsk", "bits", "c", {}, 1, 1), ("rx_bb_bpsk", "c", "bits", {}, 1, 1), ("tx_bb_qpsk", "bits", "c", {}, 2, 1), ("rx_bb_qpsk", "c", "bits", {}, 1, 2),
        ("tx_bb_cdma", "bits", "bits", dict(key=key), 1, L), ("rx_bb_cdma", "bits", "bits", dict(key=key), L, 1),
        ("tx_cdma_bpsk", "bits", "f", ccar, 1, cs), ("rx_cdma_bpsk", "f", "bits", ccar, cs, 1),
        ("tx_cdma_qpsk", "bits", "f", ccar, 2, cs), ("rx_cdma_qpsk", "f", "bits", ccar, cs, 2),
        ("tx_coded_cdma", "bits", "f", ccar, 56, 96 * cs), ("rx_coded_cdma", "f", "bits", ccar, 96 * cs, 56),
        ("bch_enc", "bits", "bits", {}, 56, 96), ("bch_dec", "bits", "bits", {}, 96, 56), ("bits2bytes", "bits", "u8", {}, 8, 1), ("bytes2bits", "u8", "bits", {}, 1, 8),
        ("tx_fh_bpsk", "bits", "f", band, 1, sps), ("rx_fh_bpsk", "f", "bits", band, sps, 1), ("tx_fh_bpsk_old", "bits", "f", dict(band, fc=fc), 1, sps),
        ("tx_fh_css", "bits", "f", band, 1, sps),
        ("tx_bb_ofdm", "c", "c", dict(sub=sub, pil=pil), D, B), ("rx_bb_ofdm", "c", "c", dict(sub=sub, pil=pil), B, D),
        ("tx_ofdm", "bits", "f", of, 2 * D, B * sps), ("rx_ofdm", "f", "bits", of, B * sps, 2 * D),
        ("tx_csk", "bits", "f", {}, 1, 1), ("rx_csk", "f", "bits", {}, 1, 1), ("tx_dcsk", "bits", "f", {}, 1, 2), ("rx_dcsk", "f", "bits", {}, 2, 1),
        ("tx_bb_fod", "bits", "c", {}, 7, 10), ("rx_bb_fod", "c", "bits", {}, 10, 7), ("tx_fod", "bits", "f", band, 7, 10 * sps), ("tx_fod2", "bits", "f", car, 7, 10 * sps),
        ("tx_bfsk", "bits", "f", band, 1, sps), ("tx_mfsk", "bits", "f", band, 1, sps), ("tx_fsk", "bits", "f", band, 1, sps),
        ("tx_fmfsk", "bits", "f", car, 1, sps), ("rx_fmfsk", "f", "bits", car, sps, 1), ("tx_fm", "f", "f", car, 1, sps),
        ("bandpass", "f", "f", dict(fs=fs, lo=lo, hi=max(hi, lo + 1), len=N), N, N), ("awgn", "f", "f", dict(sigma=0), 1, 1), ("awgn_c", "c", "c", dict(sigma=0), 1, 1),
        ("chunks", "i", None, dict(n=n), n, 1), ("wchunks", "i", None, dict(n=n), n, 1), ("chunks", "bits", None, dict(n=n), n, 1), ("wchunks", "bits", None, dict(n=n), n, 1),
        ("inflate", "i", "i", dict(n=n), 1, n), ("inflate", "bits", "bits", dict(n=n), 1, n), ("inflate", "f", "f", dict(n=n), 1, n), ("inflate", "c", "c", dict(n=n), 1, n),
        ("take_every", "i", "i", dict(n=n), n, 1), ("take_every", "bits", "bits", dict(n=n), n, 1), ("take_every", "f", "f", dict(n=n), n, 1),
        ("scale", "f", "f", dict(g=[1, 2]), 1, 1), ("scale", "c", "c", dict(g=3), 1, 1),
        ("integrate", "i", "i", {}, 1, 1), ("integrate", "f", "f", {}, 1, 1), ("integrate", "c", "c", {}, 1, 1), ("nintegrate", "n", "n", {}, 1, 1),
        ("intdump", "i", "i", dict(n=n), n, 1), ("intdump", "f", "f", dict(n=n), n, 1), ("intdump", "c", "c", dict(n=n), n, 1), ("nintdump", "n", "n", dict(n=n), n, 1),
        ("convolve", "i", "i", dict(h=h), 1, 1, len(h)), ("convolve", "f", "f", dict(h=h, sc=10), 1, 1, len(h)), ("nonvolve", "n", "n", dict(h=h), 1, 1, len(h)),
    ]
    return [dict(name=t[0], i=t[1], o=t[2], op=op(t[0], **t[3]), inb=t[4], outb=t[5], tail=t[6] if len(t) > 6 else 0) for t in one]


class Chain:
    def __init__(self, st):
        self.st = [s["op"] for s in st]
        self.kind = st[0]["i"]
        self.parts = st
        self.name = "+".join(s["name"] for s in st)
        a, b = 1, 1
        for k, s in enumerate(st):
            if k == 0:
                a, b = s["inb"], s["outb"]
            else:
                L = b * s["inb"] // math.gcd(b, s["inb"])
                a, b = a * L // b, s["outb"] * (L // s["inb"])
        self.inb, self.outb = a, b

    def sure(self, n):
        for s in self.parts:
            n = n // s["inb"] * s["outb"]
        return n

    def most(self, n):
        for s in self.parts:
            n = (n // s["inb"] + 1) * s["outb"] + s["tail"]
        return n

    def size(self, outs):
        """inputs giving about `outs` outputs"""
        return max(self.inb, outs * self.inb // self.outb)


def chains(x):
    rng = x.rng
    out = []
    for _ in range(x.pick(2, 6)):
        pool = stages(rng)
        out += [Chain([s]) for s in pool]
        want = x.pick(30, 120)
        tries = 0
        while want and tries < 5000:
            tries += 1
            st = [rng.choice(pool)]
            while len(st) < rng.choice([2, 2, 3, 4]) and st[-1]["o"]:
                nxt = [s for s in pool if s["i"] == st[-1]["o"] and s["name"] != "bandpass"]  # whole blocks only
                st.append(rng.choice(nxt))
            c = Chain(st)
            if len(st) < 2 or c.inb > 800 or c.outb > 1500 or c.most(2 * c.inb) > 4000:
                continue
            # a receiver's threshold on a rounding residue would be the only thing under test
            out.append(c)
            want -= 1
    return out


@prop("C17")
def c17(x):
    rng = x.rng
    x.model("MC_Stream", x.pick("MC_Stream.cfg", "MC_StreamDeep.cfg"))
    plans = tlc_schedules(x)

    def rec(id_, spec, g, ref, resp):
        return dict(id=id_, spec=spec, g=g, cyc=False, amp=0, kind="", **{"in": ref}, ev=resp["ev"])

    for c in chains(x):
        outs = max(rng.choice([6, 20, 60]), min(12 * c.outb, 200))
        n = min(c.size(outs) + rng.randint(0, c.inb), 6000)
        q = c.parts[0]["inb"] if c.parts[0]["name"] == "bandpass" else 1
        n -= n % q
        v = data(rng, c.kind, n)
        base = dict(src=source(c.kind, v), st=c.st)
        m = c.most(n)

        def others(k):
            r = []
            for _ in range(k):
                s = list(rng.choice(plans)) if rng.random() < 0.6 else sched(rng, max(1, c.sure(n)), False)
                if s[-1][0] not in ("a", "z"):
                    s = s + [rng.choice([["a"], ["z"]])]
                r.append(s + [["x", rng.randint(1, 3)]])
            return r

        def skips():
            """Skipping ahead by whole blocks and a bit, from anywhere inside a block."""
            s, B = [], c.outb
            for _ in range(rng.randint(2, 5)):
                s += [["p", rng.choice([0, 1, 2, rng.randint(0, B)])], ["n", max(0, rng.choice([1, 2, 2, 3, 4]) * B + rng.choice([-1, 0, 0, 1, rng.randint(-B, B)]))],
                      ["p", rng.choice([1, 2, B])]]
            return s + [["a"], ["x", 1]]
        def whole():
            """Through fold, collect, count, last of the chain's own type, after a few pulls; hints on the way."""
            return [[["h"]] * rng.randint(0, 1) + [["p", rng.choice([0, 1, 2, 3, c.outb, c.outb + 1])], ["h"]] * rng.randint(0, 2) + [[t]] for t in "fvlc"]
        ss = others(x.pick(2, 4)) + whole() + [[["h"], ["a"], ["h"], ["x", 1]]] + [skips() for _ in range(x.pick(2, 4))] + [[["p", 1]] * min(m, 25) + [["a"]]]
        reqs = [dict(base, sched=[["a"]])] + [dict(base, sched=s) for s in ss]

        # together: the same chain twice and something pulled in between, all in one thread
        il = [rng.randint(0, 1) for _ in range(rng.randint(2, 14))]
        tog = dict(together=[dict(base, sched=s) for s in others(2)], il=il)
        # a prefix of the input
        n2 = rng.choice([0, 1, n // 2, max(0, n - 1), rng.randint(0, n)])
        n2 -= n2 % q
        pre = dict(base, src=source(c.kind, v[:n2]), sched=rng.choice([[["a"]], sched(rng, max(1, c.sure(n2)), False)]))
        # endless repetition: the first outputs agree with those of the finite prefix, and it goes on
        endless = dict(base, src=source(c.kind, v, True), sched=[["h"], ["p", min(c.sure(n) + c.outb + 3, 80)], ["h"], ["s", rng.choice([1, 50, 2 * c.outb])], ["n", 3], ["p", 2]])
        # laziness: a long finite input of which little is needed
        big = min(3 * (64 + 5 * c.inb), 60000)
        w = v + data(rng, c.kind, max(0, big - n) // q * q)
        lazy = dict(base, src=source(c.kind, w), sched=[["p", 1], ["p", min(c.outb, 8)], ["s", min(3 * c.outb, 200)]])

        def make(resps, id_, c=c, n=n, n2=n2, k=len(ss), nw=len(w)):
            ref = [t for e in resps[0]["ev"] for t in e["o"]]
            ok = resps[0]["ev"][-1]["end"]
            L = len(ref) if ok else -1
            g = dict(len=[L, L], inb=c.inb, outb=c.outb)
            runs = [rec(f"{id_}/{j}", "ref", g, ref, resps[j]) for j in range(k + 1)]
            runs += [rec(f"{id_}/together{j}", "ref", g, ref, t) for j, t in enumerate(resps[k + 1]["all"])]
            pg = dict(len=[c.sure(n2), c.most(n2)], inb=c.inb, outb=c.outb, fix=min(c.sure(n2), len(ref)))
            runs.append(rec(f"{id_}/prefix", "pre", pg, ref, resps[k + 2]))
            eg = dict(len=[10 ** 9, 10 ** 9], inb=c.inb, outb=c.outb, fix=min(c.sure(n), len(ref)))
            runs.append(rec(f"{id_}/endless", "pre", eg, ref, resps[k + 3]))
            lg = dict(len=[c.sure(nw), c.most(nw)], inb=c.inb, outb=c.outb, fix=min(c.sure(n), len(ref)))
            runs.append(rec(f"{id_}/lazy", "pre", lg, ref, resps[k + 4]))
            return runs
        x.multi(c.name, reqs + [tog, pre, endless, lazy], make, "KomTrace")
