"""One check = scenarios (built from the seed) + models.  Everything is judged by TLC."""
import json, os, random, re, sys, time
from . import core
from .core import ToolError, log
from .models import EXTRA


# stages which commute with a change of the signal's strength (receivers decide by signs)
LINEAR = set("""rx_bb_bpsk rx_bpsk rx_bb_qpsk rx_qpsk rx_cdma_bpsk rx_cdma_qpsk rx_coded_cdma rx_fh_bpsk
 tx_bb_ofdm rx_bb_ofdm rx_ofdm rx_dcsk rx_bb_fod rx_fmfsk bandpass butterpass chunks wchunks inflate inflate_fork
 inflate_cycle take_every scale integrate intdump convolve ch_gain ch_bgain ch_neg ch_trunc ch_frames ch_c2f""".split())

QUADRATIC = {"energy", "power", "avg_energy", "ssca_base", "ssca_at"}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}/{seed}")
        self.work = core.Work(prop)
        self.scen = []          # dict(id, reqs, make, mod)
        self.models = []
        self.ids = set()
        self.model_stats = []
        self.mods = {}

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def uid(self, stem):
        i, n = stem, 1
        while i in self.ids:
            n += 1
            i = f"{stem}.{n}"
        self.ids.add(i)
        return i

    def stream(self, stem, spec, g, inp, src, st, sched, mod="KomTrace", osc=1000000, cyc=False, **extra):
        """One chain, one schedule; run record = spec fields + observed events."""
        id_ = self.uid(stem)
        if src.get("k") in ("f", "c") and st and all(o["op"] in LINEAR for o in st):
            e = self.strength(id_)      # the same signal, stronger or weaker (powers of two: exact)
            src, osc = dict(src, sc=src.get("sc", 1) / 2.0 ** e), osc / 2.0 ** e
        req = dict(id=id_, src=src, st=st, sched=sched, osc=osc)
        run = dict(id=id_, spec=spec, g=g, cyc=cyc, amp=0, kind="")
        run["in"] = inp
        run.update(extra)
        if stem.endswith("-far"):           # reads a great many inputs legitimately
            src["cap"] = 300000000

        def make(resps):
            return [dict(run, ev=resps[0]["ev"])]
        self.scen.append(dict(id=id_, reqs=[req], make=make, mod=mod))

    def pystream(self, stem, spec, g, inp, prog, osc=1000000, mod="KomTrace", py={}, **extra):
        """A program of calls on the Python side; its last result is the output of the chain."""
        id_ = self.uid(stem)
        run = dict(id=id_, spec=spec, g=g, cyc=False, amp=0, kind="")
        run["in"] = inp
        run.update(extra)
        self.scen.append(dict(id=id_, reqs=[dict(id=id_, prog=prog, osc=osc, **py)], make=lambda rs: [dict(run, ev=rs[0]["ev"])], mod=mod))

    def strength(self, id_):
        r = random.Random(f"{self.seed}/{id_}")
        return r.choice([0, 0, 0, -12, 12, r.randint(-40, 40)])

    def func(self, stem, fn, a, mod="FuncTrace", osc=1000000, **extra):
        id_ = self.uid(stem)
        req = dict(id=id_, fn=fn, a=a, osc=osc)
        if fn in QUADRATIC:
            req["e"] = self.strength(id_)

        def make(resps):
            r = resps[0]
            return [dict(dict(id=id_, spec=fn, a=a), **extra, res=r["res"], panic=r["panic"])]
        self.scen.append(dict(id=id_, reqs=[req], make=make, mod=mod))

    def pyfunc(self, stem, spec, a, prog, osc=1000000, py={}, take=1):
        """A program of calls; its last result (or all results) judged as the value of a function."""
        id_ = self.uid(stem)
        self.scen.append(dict(id=id_, reqs=[dict(id=id_, prog=prog, osc=osc, **py)], mod="FuncTrace", make=lambda rs: [dict(
            id=id_, spec=spec, a=a, osc=osc, panic=rs[0]["panic"], res=[] if rs[0]["panic"] else rs[0]["res"][-1] if take == 1 else rs[0]["res"][-take:])]))

    def multi(self, stem, reqs, make, mod):
        """Several chains whose logs form one or more runs; make(resps, id) -> runs."""
        id_ = self.uid(stem)
        for k, q in enumerate(reqs):
            q["id"] = f"{id_}#{k}"
        self.scen.append(dict(id=id_, reqs=reqs, make=lambda resps: make(resps, id_), mod=mod))

    def model(self, module, cfg=None, **kw):
        self.models.append((module, cfg, kw))


def load_known(prop):
    """known-findings.txt: 'known: property=<id> scenario=<regex> <text>' (suppresses),
    'fixed: property=<id> <commit> <text>' (documentation only)."""
    out = []
    path = os.path.join(core.VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) scenario=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2) + r"$"), m.group(3)))
    return out


def slim(x, n=600):
    s = json.dumps(x)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def execute(ctx):
    t0 = time.time()
    reqs = [q for s in ctx.scen for q in s["reqs"]]
    resps = [None] * len(reqs)
    for py in (False, True):            # the compiled driver, then the Python one
        at = [i for i, q in enumerate(reqs) if ("prog" in q) == py]
        for i, x in zip(at, core.drive(ctx.work, [reqs[i] for i in at], ctx.pick(25, 120)) if at else []):
            resps[i] = x
    gone = any(x is None for x in resps)
    t1 = time.time()
    by_mod, origin, k = {}, {}, 0
    for s in ctx.scen:
        rs = resps[k:k + len(s["reqs"])]
        k += len(s["reqs"])
        if any(x is None for x in rs):
            continue
        for run in s["make"](rs):
            by_mod.setdefault(s["mod"], []).append(run)
            origin[run["id"]] = (s, run, rs)
    rejects, accepted, vacuous, nev, nout = [], 0, 0, 0, 0
    states = trans = 0
    for mod, runs in by_mod.items():
        t2 = time.time()
        v, g, d = core.validate(ctx.work, mod, runs)
        states += d
        trans += g
        for run in runs:
            verdict, e, why = v[run["id"]]
            nev += len(run.get("ev", [1]))
            if verdict == "ACCEPT":
                accepted += 1
            elif verdict == "VACUOUS":
                vacuous += 1
            else:
                rejects.append((run["id"], mod, e, why))
        log(f"  {mod}: {len(runs)} runs, {d} states, {time.time() - t2:.1f}s")
    if gone and not rejects:
        raise ToolError("scenarios were not executed and nothing was rejected")
    log(f"  drive {t1 - t0:.1f}s, validate {time.time() - t1:.1f}s")
    return dict(rejects=rejects, accepted=accepted, vacuous=vacuous, events=nev, states=states, trans=trans,
                origin=origin, runs=sum(len(x) for x in by_mod.values()))


def main(props, argv):
    if argv and argv[0] == "--replay":
        return replay(props, argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        hooks = core.build()
        log(f"[{prop}] build {time.time() - t0:.1f}s")
        ctx = Ctx(prop, tier, seed)
        props[prop]["gen"](ctx)
        for module, quick, deep in EXTRA.get(prop, []):
            ctx.model(module, ctx.pick(quick, deep), timeout=ctx.pick(300, 3000))
        ctx.left_out = 0
        if not hooks:
            every, ctx.scen = ctx.scen, [s for s in ctx.scen if not any(core.needs_hooks(q) for q in s["reqs"])]
            ctx.left_out = len(every) - len(ctx.scen)
            print(f"NOTE: the hooks do not compile against this tree; {ctx.left_out} of {len(every)} scenarios left out")
        t1 = time.time()
        mstats = []
        for module, cfg, kw in ctx.models:
            tm = time.time()
            g, d = core.model(ctx.work, module, cfg, **kw)
            mstats.append(dict(model=f"{module}/{cfg or module}", states=d, transitions=g))
            log(f"  model {module}/{cfg}: {d} states {time.time() - tm:.1f}s")
        r = execute(ctx)
        return report(ctx, props[prop], r, mstats, t0)
    except ToolError as ex:
        log(f"TOOL ERROR: {ex}")
        return 2


def report(ctx, p, r, mstats, t0):
    prop = ctx.prop
    known = load_known(prop)
    if r["vacuous"] * 2 > r["runs"]:
        raise ToolError("most runs are outside the property's promise")
    new, seen = [], {}
    for rej in r["rejects"]:
        hit = next((txt for rx, txt in known if rx.match(rej[0])), None)
        if hit is None:
            new.append(rej)
        else:
            seen.setdefault(hit, []).append(rej[0])
    for txt, ids in seen.items():
        print(f"KNOWN-FINDING: property={prop} {txt} [{ids[0]}{' and %d more' % (len(ids) - 1) if len(ids) > 1 else ''}]")
    for n, (rid, mod, e, why) in enumerate(new[:5]):
        s, run, rs = r["origin"][rid]
        path = os.path.join(ctx.work.dir, f"replay-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=ctx.tier, seed=ctx.seed, id=rid, module=mod, event=e, reason=why,
                           requests=s.get("reqs", []), run=run,
                           texts=[x.get("text", "") for x in rs]), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {rid}: {why} (event {e}, {mod})")
    accepted_runs = [o[1] for i, o in r["origin"].items()]
    step = max(1, len(accepted_runs) // 4)
    kinds = {}
    for i in r["origin"]:
        kinds[re.sub(r"[.\d]+$", "", i).split("-")[0]] = kinds.get(re.sub(r"[.\d]+$", "", i).split("-")[0], 0) + 1
    ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed, level=p["level"],
              coverage=dict(states=r["states"] + sum(m["states"] for m in mstats),
                            transitions=r["trans"] + sum(m["transitions"] for m in mstats),
                            traces_validated_against_impl=r["accepted"] + len(r["rejects"]),
                            vacuous_runs=r["vacuous"], scenarios_left_out_without_hooks=ctx.left_out, log_events=r["events"],
                            models=mstats, scenario_kinds=kinds, exhaustive=False,
                            samples=[slim(x) for x in accepted_runs[::step][:5]]),
              assumptions=p["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"[{prop}] {r['accepted']} accepted, {r['vacuous']} vacuous, {len(r['rejects'])} rejected "
        f"({len(new)} new), {time.time() - t0:.1f}s")
    if not new:
        print(f"OK property={prop} runs={r['runs']} states={ev['coverage']['states']}")
    return 1 if new else 0


def replay(props, path):
    """Re-execute one recorded violation against the current tree."""
    with open(path) as f:
        rec = json.load(f)
    core.build()
    ctx = Ctx(rec["property"] + "-replay", rec["tier"], rec["seed"])
    full = Ctx(rec["property"] + "-gen", rec["tier"], rec["seed"])
    full.prop = rec["property"]
    full.rng = random.Random(f"{rec['property']}/{rec['seed']}")
    props[rec["property"]]["gen"](full)
    base = rec["id"].split("/")[0]
    ctx.scen = [s for s in full.scen if s["id"] == base]
    r = execute(ctx)
    for rej in r["rejects"]:
        print(f"VIOLATION property={rec['property']} replay={path}\n  {rej[0]}: {rej[3]}")
    return 1 if r["rejects"] else 0
