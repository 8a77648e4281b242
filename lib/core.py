"""Plumbing of the checks: build the driver from /repo, execute scenarios on the real
code, let TLC judge the logs, compare with the known findings, write evidence."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(VERIF), "repo")     # /repo: the checks live in /verif
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
KDRIVE = os.path.join(TARGET, "debug", "kdrive")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYVENV = "/opt/kom-venv/lib/python3.12/site-packages"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"), CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable",
             PYO3_PYTHON="/usr/bin/python3.12", KOM_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def repo_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs") if os.path.exists(os.path.join(REPO, f))]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def _cargo(extra):
    return subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=dict(env(), **extra),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)


# what the driver reaches through the hooks of the crate (see harness/src/verif_hooks.rs)
HOOKED = {"bch_enc", "bch_dec", "bits2bytes", "bytes2bits", "hop_table", "rx_csk", "bool_to_u8", "u8_to_bools",
          "fftshift", "fftshift_mut", "no_nans", "is_int"}


def needs_hooks(q):
    return q.get("fn") in HOOKED or any(t.get("op") in HOOKED for t in q.get("st", []) if isinstance(t, dict))


def build():
    """Build the driver against /repo's working tree; rebuild whenever a byte changed."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".verif-stamp")
        want = repo_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want or not os.path.exists(KDRIVE):
            fp = os.path.join(TARGET, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("komunikilo-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        plain = os.path.join(TARGET, ".verif-nohooks")     # holds the tree whose hooks do not compile
        hooks = not (os.path.exists(plain) and open(plain).read() == want)
        p = _cargo({}) if hooks else None
        if hooks and p.returncode != 0:
            first, hooks = p, False
        if not hooks:
            # a refactoring may have moved what the hooks expose: do without them
            p = _cargo({"RUSTFLAGS": "--cfg komunikilo_no_hooks"})
            if p.returncode != 0:
                raise ToolError("cargo build failed:\n" + (first if "first" in locals() else p).stdout[-4000:])
            with open(plain, "w") as f:
                f.write(want)
        with open(stamp, "w") as f:
            f.write(want)
        return hooks


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Work:
    def __init__(self, prop):
        self.dir = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0

    def file(self, stem, ext="ndjson"):
        self.n += 1
        return os.path.join(self.dir, f"{stem}{self.n}.{ext}")


def py_module(work):
    """The extension module as built from /repo together with the driver."""
    d = os.path.join(work.dir, "pymod")
    if not os.path.isdir(d):
        os.makedirs(d)
        so = os.path.join(TARGET, "debug", "deps", "libkomunikilo.so")
        if not os.path.exists(so):
            raise ToolError("no extension module was built")
        shutil.copy(so, os.path.join(d, "komunikilo.so"))
    return d


def _drive_once(work, reqs, limit):
    """One process.  Returns {position: response} (a response may be {"hang": true}), or None if it died."""
    a, b = work.file("req"), work.file("res")
    with open(a, "w") as f:
        for q in reqs:
            f.write(json.dumps(q) + "\n")
    cmd, e = [KDRIVE, a, b, str(limit)], env()
    if reqs and "prog" in reqs[0]:
        cmd = ["/usr/bin/python3.12", os.path.join(HARNESS, "py", "pydrive.py"), a, b, str(limit)]
        e.update(PYTHONPATH=py_module(work) + ":" + PYVENV, MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                 MPLCONFIGDIR=os.path.join(work.dir, "mpl"))
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           text=True, timeout=600, preexec_fn=_limits)
        ok = p.returncode == 0
        if not ok and "prog" in reqs[0] and "Traceback (most recent call last)" in p.stderr:
            raise ToolError("driver: " + p.stderr[-2000:])
    except subprocess.TimeoutExpired:
        ok = False
    res = None
    if ok:
        with open(b) as f:
            got = {x["id"]: x for x in map(json.loads, f)}
        res = {i: got[q["id"]] for i, q in enumerate(reqs) if q["id"] in got}
        for i, q in enumerate(reqs):        # the last result of a Python program, as a log of one call
            if "prog" in q and i in res:
                x, e = res[i], dict(k=0, c=0, n=0, o=[], end=False)
                o = x["res"][-1] if x["res"] and not x["panic"] else []
                o = o if isinstance(o, list) else [o]
                x["ev"] = [dict(e, t="panic")] if x["panic"] else [dict(e, t="new"), dict(e, t="a", n=len(o), o=o, end=True)]
    for x in (a, b):
        if os.path.exists(x):
            os.remove(x)
    return res


def drive(work, reqs, limit=20, cap=16):
    """Execute the scenarios on the real code.  One that hangs or kills the driver is reported as a
    panic event of that scenario; after `cap` of those the scenarios not executed yet are given up
    (None)."""
    out = [None] * len(reqs)
    bad = 0

    def dead(i, why):
        e = [{"t": "panic", "k": 0, "n": 0, "o": [], "c": 0, "end": False}]
        one = {"ev": e, "text": why}
        out[i] = {"id": reqs[i]["id"], "ev": e, "res": [], "panic": True, "text": why,
                  "all": [one for _ in reqs[i].get("together", [])]}
    todo = [list(range(len(reqs)))]
    while todo and bad < cap:
        part = todo.pop()
        if not part:
            continue
        res = _drive_once(work, [reqs[i] for i in part], limit)
        if res is None:
            if len(part) == 1:
                dead(part[0], "driver died")
                bad += 1
            else:
                k = max(1, (len(part) + 7) // 8)
                todo += [part[j:j + k] for j in range(0, len(part), k)]
            continue
        for j, x in res.items():
            if x.get("hang"):
                dead(part[j], "hang")
                bad += 1
            else:
                out[part[j]] = x
        todo.append([i for j, i in enumerate(part) if j not in res])
    for x in out:
        if x and "driver:" in x.get("text", ""):
            raise ToolError("driver error: " + x["text"])
        for y in (x or {}).get("all", []):
            if "driver:" in y.get("text", ""):
                raise ToolError("driver error: " + y["text"])
    n = sum(x is None for x in out)
    if n:
        log(f"  {bad} scenarios hung or died, {n} given up")
    return out


def tlc(work, module, cfg=None, extra_env=None, workers=8, timeout=800, args=(), heap="6g"):
    cfg = cfg or module + ".cfg"
    meta = os.path.join(work.dir, f"meta{work.n}")
    work.n += 1
    e = env()
    e.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", f"-Djava.io.tmpdir={work.dir}", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timeout on {module}")
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


STATS = re.compile(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found")


def stats(out):
    g = d = 0
    for m in STATS.finditer(out):
        g, d = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return g, d


def model(work, module, cfg=None, timeout=800, workers=8, args=()):
    """Exhaustive check of a model; anything but success is an error of the machinery
    (models do not depend on /repo)."""
    rc, out = tlc(work, module, cfg, timeout=timeout, workers=workers, args=args)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError(f"model {module}/{cfg} failed (rc {rc}):\n{out[-3000:]}")
    return stats(out)


TOK = re.compile(r'<<\s*"(REJECT|ACCEPT|VACUOUS)",\s*"([^"]*)"(?:,\s*(-?\d+))?(?:,\s*"([^"]*)")?\s*>>')


def validate(work, module, runs, timeout=800, heap="8g"):
    """Let TLC judge the runs.  Returns {id: (verdict, event, reason)}, states, transitions.
    A log TLC cannot even evaluate against the specification is rejected."""
    ids = [x["id"] for x in runs]
    assert len(set(ids)) == len(ids), "duplicate run ids"
    verd, tot, nbad = {}, [0, 0], [0]
    deadline = time.time() + timeout

    def go(rs, workers):
        path = work.file("trace")
        with open(path, "w") as f:
            for x in rs:
                f.write(json.dumps(x) + "\n")
        left = deadline - time.time()
        if left < 5:
            raise ToolError(f"{module}: out of time")
        rc, out = tlc(work, module, extra_env={"TRACE": path}, timeout=left, heap=heap if workers == 8 else "2g",
                      workers=workers)
        os.remove(path)
        got = {}
        for m in TOK.finditer(out):       # a run is accepted if any of its behaviours is
            if m.group(1) != "REJECT" or got.get(m.group(2), ("REJECT",))[0] == "REJECT":
                if m.group(1) != "REJECT" or m.group(2) not in got or int(m.group(3) or 0) > int(got[m.group(2)][1] or 0):
                    got[m.group(2)] = (m.group(1), m.group(3), m.group(4) or "")
        g, d = stats(out)
        if rc == 0 and all(x["id"] in got for x in rs):
            verd.update(got)
            tot[0] += g
            tot[1] += d
        elif rc == 0 and "No error has been found" in out and got:
            # behaviours that end before their verdict: no action of the specification explains the log
            verd.update({x["id"]: ("REJECT", "0", "no action explains the log") for x in rs})
            verd.update(got)
            tot[0] += g
            tot[1] += d
        elif rc == 0 or "Error:" not in out:
            raise ToolError(f"{module}: TLC rc {rc}, runs without verdict\n" + out[-3000:])
        elif "Parsing or semantic analysis failed" in out or "Fatal errors while parsing" in out:
            raise ToolError(f"{module} does not parse\n" + out[-3000:])
        elif len(rs) == 1:
            nbad[0] += 1
            if nbad[0] <= 3:
                log(f"  {rs[0]['id']}: " + " / ".join(out[out.index("Error:"):].splitlines()[:16])[:900])
            verd[rs[0]["id"]] = ("REJECT", "0", "log outside the specification's domain")
        else:
            k = max(1, (len(rs) + 5) // 6)
            with ThreadPoolExecutor(6) as ex:
                list(ex.map(lambda q: go(q, 1), [rs[i:i + k] for i in range(0, len(rs), k)]))
    if runs:
        go(runs, 8)
    return verd, tot[0], tot[1]
