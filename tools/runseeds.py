#!/usr/bin/env python3
"""Which checks catch which planted bugs: runseeds.py [-j N] [-s SEED] [-t tier] [-a] [--also C01,C02] ids...
Works in copies of /verif and /repo side by side under /tmp/seedrun (the checks take ../repo).
-a: run every check of the manifest, not only the one of the planted bug's property."""
import json, os, queue, shutil, subprocess, sys, threading, time

BASE = os.environ.get("SEEDRUN", "/tmp/seedrun")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def worker(k, jobs, out, seed, tier):
    w = f"{BASE}/{k}"
    os.makedirs(w, exist_ok=True)
    sh(f"rsync -a --delete --exclude .git --exclude seeded --exclude work /verif/ {w}/verif/ ")
    shutil.rmtree(f"{w}/repo", ignore_errors=True)
    sh(f"git clone -q /repo {w}/repo")
    while True:
        try:
            sid, patch, props = jobs.get_nowait()
        except queue.Empty:
            return
        p = sh(f"git apply {patch}", cwd=f"{w}/repo") if patch else None
        if p and p.returncode:
            out.append((sid, "-", "DOES NOT APPLY " + p.stderr[:100]))
            print(out[-1], flush=True)
        else:
            for prop in props:
                t = time.time()
                q = sh(f"python3 check.py {prop} {tier}", cwd=f"{w}/verif", env=dict(os.environ, VERIF_SEED=str(seed)))
                hits = [l for l in q.stdout.splitlines() if l.startswith("  ")][:1]
                msg = {0: "missed" if patch else "quiet", 1: "CAUGHT " + "".join(hits)}.get(q.returncode, "ERROR " + q.stderr[-300:])
                out.append((sid, prop, msg))
                print(f"{sid:32} {prop} {msg}  [{time.time() - t:.0f} s]", flush=True)
        sh("git checkout -q -- .; git clean -fdq src kom_py", cwd=f"{w}/repo")


def main(argv):
    n, seed, tier, every, ids = 2, 1, "quick", False, []
    while argv:
        a = argv.pop(0)
        if a == "-j": n = int(argv.pop(0))
        elif a == "-s": seed = argv.pop(0)
        elif a == "-t": tier = argv.pop(0)
        elif a == "-a": every = True
        else: ids.append(a)
    man = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    jobs, out = queue.Queue(), []
    for i in ids or sorted(os.listdir("/verif/seeded")):
        d = i if os.path.isdir(i) else f"/verif/seeded/{i}"
        if i == "-":
            jobs.put(("unchanged", None, man))
            continue
        meta = json.load(open(d + "/meta.json")) if os.path.exists(d + "/meta.json") else {}
        jobs.put((os.path.basename(d), os.path.abspath(d) + "/patch.diff", man if every or "property" not in meta else [meta["property"]]))
    ts = [threading.Thread(target=worker, args=(k, jobs, out, seed, tier)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    bad = [o for o in out if o[2].startswith(("missed", "ERROR", "DOES"))]
    print(len(out), "runs;", len(bad), "not caught:", *[o[0] for o in bad])


main(sys.argv[1:])
