"""Executes call programs on the Python side of the library (the extension module and the scripts
of kom_py) and logs what they returned.  No judgement happens here.

usage: pydrive.py requests.ndjson responses.ndjson seconds-per-request

request: {"id", "prog": [{"f": name, "a": [args], "kw": {}}], "osc": units, "thr": group}
   name    "tx_bpsk" (komunikilo), "psk.rx_qpsk" (kom_py), "len", "mix", ...
   args    plain JSON; {"$": k} the result of step k; {"r": [n, d]} a rational; {"v": [...], "sc": s,
           "np": 1} an array (list, or numpy with "np"); {"c": [[re, im]...], "sc": s}; {"b": [0, 1..]}
response: {"id", "res": [encoded result of every step], "panic": bool, "text"}
Requests with the same "thr" run concurrently in one pool of threads, the others one by one."""
import faulthandler, itertools, json, math, os, sys, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("KOM_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "kom_py"))
import numpy as np
import komunikilo

NONFINITE = 2000000001


def fx(x, sc):
    y = float(x) * sc
    if not math.isfinite(y):
        return NONFINITE
    return max(-2 * 10 ** 9, min(2 * 10 ** 9, int(math.copysign(math.floor(abs(y) + 0.5), y))))


def dec(a, res):
    if isinstance(a, list):
        return [dec(t, res) for t in a]
    if not isinstance(a, dict):
        return a
    if "$" in a:
        v = res[a["$"]]
        return v
    if "r" in a:
        return a["r"][0] / a["r"][1]
    if "b" in a:
        v = [bool(t) for t in a["b"]]
        return np.array(v) if a.get("np") else v
    if "v" in a:
        v = [t / a["sc"] for t in a["v"]]
        return np.array(v) if a.get("np") else v
    if "c" in a:
        v = [complex(t[0], t[1]) / a["sc"] for t in a["c"]]
        return np.array(v) if a.get("np") else v
    if "m" in a:                                    # complex matrix
        return np.array([[complex(t[0], t[1]) / a["sc"] for t in row] for row in a["m"]], dtype=complex)
    raise ValueError("driver: argument " + str(a)[:80])


def enc(v, osc):
    if isinstance(v, str):
        return v
    if isinstance(v, np.ndarray) and v.ndim == 2:
        return [[[fx(t.real, osc), fx(t.imag, osc)] for t in row] for row in v]
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (complex, np.complexfloating)):
        return [fx(v.real, osc), fx(v.imag, osc)]
    if isinstance(v, (int, float, np.integer, np.floating)):
        return fx(v, osc)
    return [enc(t, osc) for t in v]


def pair(base, mapped):
    """Where the entries of the base table appear in the mapped one (as harness/src/funcs.rs)."""
    cells = []
    for k, q in zip(*np.nonzero(np.abs(mapped) > 1e-12)):
        v = mapped[k, q]
        hit = np.argwhere(np.abs(base - v) <= 1e-9 * (1 + np.abs(v)))
        cells.append([int(k), int(q), [[int(a), int(b)] for a, b in hit]])
    small = [[int(a), int(b)] for a, b in np.argwhere(np.abs(base) <= 1e-12)]
    return dict(shape=list(mapped.shape), bshape=list(base.shape), cells=cells, small=small)


def pick(m, idx):
    """Listed entries of a table."""
    return [m[i, j] for i, j in idx]


def accepted(f, x):
    """Does the generator named start from x?"""
    try:
        next(fun(f)(x))
    except AssertionError:
        return 0
    return 1


def rms2(v, n):
    """Mean square of the last n values."""
    return sum(t * t for t in list(v)[-n:]) / n


HELP = dict(rms2=rms2, pick=pick, scale=lambda s, k: [t * k for t in s], add=lambda s, v: [t + v[i % len(v)] for i, t in enumerate(s)],
            conj=lambda m: np.conj(m), asfortran=lambda m: np.asfortranarray(m), transpose=lambda m: m.T,
            strided=lambda m: np.repeat(m, 2, axis=0)[::2], asarray=lambda s: np.array(s), tolist=list, power2=lambda v: [v.bit_length() - 1, int(v > 0 and v & (v - 1) == 0)], first=lambda g, n: list(itertools.islice(g, n)),
            accepted=accepted, pair2=lambda a, b: [a[0], b[0]], shape=lambda m: list(m.shape))


def fun(name):
    if name in HELP:
        return HELP[name]
    if "." in name:
        mod, f = name.split(".")
        return getattr(__import__(mod), f)
    return getattr(komunikilo, name)


def run(q, limit):
    faulthandler.dump_traceback_later(limit, exit=True)
    vals, out = [], []
    try:
        for s in q["prog"]:
            if s["f"] == "pair":
                out.append(pair(vals[s["a"][0]["$"]], vals[s["a"][1]["$"]]))
                vals.append(None)
                continue
            v = fun(s["f"])(*dec(s.get("a", []), vals), **dec2(s.get("kw", {}), vals))
            vals.append(v)
            out.append([] if s.get("mute") else enc(v, s.get("osc", q.get("osc", 1e6))))
        return dict(id=q["id"], res=out, panic=False, text="")
    except BaseException as ex:
        t = f"{type(ex).__name__}: {ex}"
        return dict(id=q["id"], res=out, panic=True, text=t[:300], kind=type(ex).__name__)


def dec2(kw, res):
    return {k: dec(v, res) for k, v in kw.items()}


def main(src, dst, limit):
    reqs = [json.loads(l) for l in open(src)]
    # Rust prints and panic messages must not fill a pipe
    sys.stdout.flush()
    with open(os.devnull, "w") as nul, open(dst, "w") as f:
        os.dup2(nul.fileno(), 1)
        k = 0
        while k < len(reqs):
            g = reqs[k].get("thr")
            if g is None:
                f.write(json.dumps(run(reqs[k], limit)) + "\n")
                k += 1
                continue
            part = []
            while k < len(reqs) and reqs[k].get("thr") == g:
                part.append(reqs[k])
                k += 1
            with ThreadPoolExecutor(4) as ex:
                for r in ex.map(lambda q: run(q, limit), part):
                    f.write(json.dumps(r) + "\n")
        f.flush()


main(sys.argv[1], sys.argv[2], float(sys.argv[3]))
