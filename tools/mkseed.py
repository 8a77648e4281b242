#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from seed definitions and confirms each in a scratch copy of /repo.

usage: mkseed.py defs.py [id ...]      (scratch copies under /tmp/seedw<k>)
Not used by any check."""
import concurrent.futures as cf, importlib.util, json, os, queue, re, shutil, subprocess, sys
import xml.etree.ElementTree as ET

OUT = "/verif/seeded"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable", PYO3_PYTHON="/usr/bin/python3.12",
           PYTHONPATH="/opt/kom-venv/lib/python3.12/site-packages", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg",
           MPLCONFIGDIR="/opt/kom-venv/mplconfig")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO_RS = r'''#!/bin/bash
# Runs main.rs against the crate in the current directory; exit 0 = the property holds there.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3.12
W=$R/target/vdemo/$(basename "$D")
mkdir -p "$W/src" && cp "$D/main.rs" "$W/src/main.rs" && cp "$R/Cargo.lock" "$W/Cargo.lock" || exit 3
cat > "$W/Cargo.toml" <<T
[package]
name = "vdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
komunikilo = { path = "$R" }
num-complex = "0.4"
T
cd "$W" && CARGO_TARGET_DIR=$R/target/vdemo/target cargo build --offline -q || exit 4
timeout 200 "$R/target/vdemo/target/debug/vdemo"
'''

DEMO_PY = r'''#!/bin/bash
# Runs demo.py against the built extension module and the scripts in the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1 RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3.12
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/kom-venv/lib/python3.12/site-packages MPLBACKEND=agg
W=$R/target/vdemo/py-$(basename "$D")
mkdir -p "$W" || exit 3
CARGO_TARGET_DIR=$R/target/vdemo/target cargo build --offline -q --lib || exit 4
cp "$R/target/vdemo/target/debug/libkomunikilo.so" "$W/komunikilo.so" || exit 5
PYTHONPATH=$W:$R/kom_py:$PYTHONPATH timeout 200 /usr/bin/python3.12 "$D/demo.py"
'''

def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)

def tests(w):
    r = sh(f"cargo test --workspace --no-run --offline", w)
    if r.returncode: return "BUILD", r.stderr[-2000:]
    cfg = open("/opt/vp/nextest.toml").read()
    open(f"{w}/target/nt.toml", "w").write(cfg)
    r = sh(["cargo", "nextest", "run", "--workspace", "--offline", "--no-fail-fast", "--config-file", f"{w}/target/nt.toml",
            "--profile", "vp", "--test-threads", "4", "-E", "not (kind(lib) & test(/^willie::tests::/))"], w)
    out = r.stdout + r.stderr
    failed = set()
    for m in re.finditer(r"^\s+(?:FAIL|SIGABRT|SIGSEGV|TIMEOUT|ABORT)[^\]]*\]\s+(?:\([^)]*\)\s+)?(\S+)\s+(\S+)", out, re.M):
        failed.add((m.group(1).split("::")[-1] if False else m.group(1)) + "::" + m.group(2))
    bad = sorted(f for f in failed if f in STABLE or f.replace("komunikilo::", "komunikilo::", 1) in STABLE
                 or any(s.endswith(f.split("::", 1)[1]) for s in STABLE))
    if not re.search(r"\d+ tests run", out): return "NEXTEST", out[-2000:]
    r = sh("cargo test --workspace --doc --offline --no-fail-fast", w)
    if r.returncode: bad.append("doc")
    r = sh("cd kom_py && python3 -m pytest -p no:cacheprovider -q psk_test.py", w)
    if r.returncode: bad.append("pytest " + r.stdout[-300:])
    return ("OK", "") if not bad else ("TESTS", " ".join(bad))

def make(s, w):
    sid = s["id"]
    sh("git checkout -q -- .", w)
    d = f"{OUT}/{sid}"
    for f, old, new in s["edits"]:
        p = f"{w}/{f}"; t = open(p).read()
        n = t.count(old)
        if n < 1: return sid, f"edit does not match in {f}: {old[:60]!r}"
        k = s.get("nth", {}).get(f)
        if n > 1 and k is None and not s.get("all"): return sid, f"edit matches {n} times in {f}: {old[:60]!r}"
        if k is not None:
            parts = t.split(old); t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else: t = t.replace(old, new)
        open(p, "w").write(t)
    diff = sh("git diff", w).stdout
    tmp = f"{w}/target/seeddemo/{sid}"
    os.makedirs(tmp, exist_ok=True)
    if "rs" in s:
        open(f"{tmp}/main.rs", "w").write(s["rs"]); open(f"{tmp}/demo.sh", "w").write(DEMO_RS)
    else:
        open(f"{tmp}/demo.py", "w").write(s["py"]); open(f"{tmp}/demo.sh", "w").write(DEMO_PY)
    os.chmod(f"{tmp}/demo.sh", 0o755)
    try:
        r1 = sh(["bash", f"{tmp}/demo.sh"], w)
        if r1.returncode in (0, 3, 4): return sid, f"demo with patch exits {r1.returncode}: {r1.stderr[-1500:]}"
        tr = tests(w)
        if tr[0] != "OK": return sid, f"tests: {tr}"
    finally:
        sh("git checkout -q -- .", w)
    r0 = sh(["bash", f"{tmp}/demo.sh"], w)
    if r0.returncode: return sid, f"demo on clean tree exits {r0.returncode}: {r0.stderr[-1500:]}"
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(tmp): shutil.copy2(f"{tmp}/{f}", d)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    return sid, "kept"

def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    seeds = [s for s in m.SEEDS if not want or s["id"] in want]
    NW = min(4, len(seeds)); q = queue.Queue()
    for k in range(NW):
        w = f"/tmp/seedw{k}"
        if not os.path.isdir(w): subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=w, check=True)
        q.put(w)
    def job(s):
        w = q.get()
        try: return make(s, w)
        except Exception as e: return s["id"], f"EXC {e!r}"
        finally: q.put(w)
    with cf.ThreadPoolExecutor(NW) as ex:
        for sid, res in ex.map(job, seeds): print(sid, "|", res, flush=True)
main()
