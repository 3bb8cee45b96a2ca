"""Entry point of a check:  python -m sim.main P01 [quick|thorough]
   replay of a violation:   python -m sim.main --replay FILE
   determinism self test:   python -m sim.main P01 selftest
"""
from __future__ import annotations

import faulthandler
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
from collections import Counter

from .core import HarnessError, derive_seed, minimise, rng_for, run_plan

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("SIM_SCRATCH") or "/tmp"


def scenarios(prop):
    mod = importlib.import_module("checks." + prop.lower())
    return mod, {s.name: s for s in mod.SCENARIOS}


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                prop, key, what = rest.split(" ", 2)
                out.append((prop, key, what))
    return out


# ------------------------------------------------------------------- worker
def pick_scenario(scs, rng):
    tot = sum(s.weight for s in scs)
    x = rng.random() * tot
    for s in scs:
        x -= s.weight
        if x <= 0:
            return s
    return scs[-1]


def maps():
    try:
        with open("/proc/self/maps", "rb") as f:
            return f.read().count(b"\n")
    except OSError:
        return 0


MAPS = 30000        # every program XLA compiles keeps memory mappings, and the kernel allows 65530 of them


def worker(prop, idx, nworkers, seed, tier, out_path):
    faulthandler.enable()
    mod, scd = scenarios(prop)
    scs = list(scd.values())
    conf = mod.CONFIG[tier]
    max_runs = conf["runs"]
    for s in scs:
        s.setup()
    deadline = time.monotonic() + conf["wall_s"]        # imports do not count
    agg = dict(runs=0, nontrivial=0, faults=Counter(), probes=Counter(), sim_time=0.0,
               steps=0, scen=Counter(), samples=[], digests=[], violation=None,
               known=Counter(), redo_ok=0, redo_bad=[], harness=[], renewed=0)
    states, plans_seen = set(), set()
    history = []
    i = idx
    part = out_path + ".part"
    if os.path.exists(part):                            # this process takes over from one that had grown too big
        saved = json.load(open(part))
        os.unlink(part)
        for k, v in saved["agg"].items():
            agg[k] = Counter(v) if isinstance(agg[k], Counter) else v
        states, plans_seen = set(saved["states"]), set(saved["plans_seen"])
        i, history = saved["i"], saved["history"]
        deadline = time.monotonic() + saved["left"]
    # scenarios may contribute a fixed list of directed plans (coverage floor),
    # executed before the random search
    directed = []
    for s in scs:
        for p in getattr(s, "directed", lambda: ())():
            directed.append((s, p))
    while True:
        if i >= max_runs + len(directed):
            break
        if time.monotonic() > deadline and len(history) >= 2:      # at least two runs, however slow the machine
            break
        if maps() > MAPS:
            with open(part, "w") as f:
                json.dump(dict(agg=dict(agg, renewed=agg["renewed"] + 1), states=sorted(states, key=str),
                               plans_seen=sorted(plans_seen), i=i, history=history[-200:],
                               left=deadline - time.monotonic()), f)
            sys.stdout.flush()
            os.execv(sys.executable, [sys.executable, "-m", "sim.main"] + sys.argv[1:])
        if i < len(directed):
            s, plan = directed[i]
            plan = json.loads(json.dumps(plan))
        else:
            run_seed = derive_seed(seed, prop, i - len(directed))
            rng = rng_for(run_seed, "plan")
            s = pick_scenario(scs, rng)
            plan = s.gen(rng)
            plan = json.loads(json.dumps(plan))
        key = derive_seed(s.name, json.dumps(plan, sort_keys=True))
        history.append((s.name, plan))
        with open(out_path + ".inflight", "w") as f:
            json.dump(dict(scenario=s.name, run=i, seed=seed, plan=plan), f)
        try:
            r = run_plan(s, plan)
        except Exception as e:
            agg["harness"].append(dict(run=i, scenario=s.name, plan=plan,
                                       err="".join(traceback.format_exception(e))[-3000:]))
            if len(agg["harness"]) >= 3:
                break
            i += nworkers
            continue
        agg["runs"] += 1
        agg["scen"][s.name] += 1
        agg["faults"].update(r.faults)
        agg["probes"].update(r.probes)
        agg["sim_time"] += r.sim_time
        agg["steps"] += r.steps
        states |= r.states
        if r.nontrivial and key not in plans_seen:
            agg["nontrivial"] += 1
        plans_seen.add(key)
        for k in r.known:
            agg["known"][k] += 1
        if len(agg["digests"]) < 4000:
            agg["digests"].append([i, r.digest])
        if len(agg["samples"]) < 2 and r.nontrivial:
            agg["samples"].append(dict(scenario=s.name, run=i, plan=plan,
                                       digest=r.digest, faults=dict(r.faults)))
        # in-run determinism probe: every 97th plan is executed twice
        if r.violation is None and i % 97 == 5:
            r2 = run_plan(s, json.loads(json.dumps(plan)))
            if r2.digest == r.digest:
                agg["redo_ok"] += 1
            else:
                agg["redo_bad"].append(i)
        if r.violation is not None:
            small, tries = minimise(s, plan, r.violation[0],
                                    budget_s=conf.get("shrink_s", 30.0))
            agg["violation"] = dict(scenario=s.name, run=i, seed=seed, plan=small,
                                    orig_plan=plan, kind=r.violation[0], msg=r.violation[1],
                                    shrink_tries=tries, history=history[-200:])
            break
        i += nworkers
    agg["states"] = [f"{x:x}" if isinstance(x, int) else str(x) for x in states]
    for k in ("faults", "probes", "scen", "known"):
        agg[k] = dict(agg[k])
    with open(out_path + ".tmp", "w") as f:
        json.dump(agg, f)
    os.replace(out_path + ".tmp", out_path)


# ------------------------------------------------------------------- replay
def replay(path, quiet=False):
    rec = json.load(open(path))
    mod, scd = scenarios(rec["property"])
    for s in scd.values():
        s.setup()
    r = None
    for k, step in enumerate(rec["plans"]):
        r = run_plan(scd[step["scenario"]], step["plan"])
        if r.violation and k < len(rec["plans"]) - 1:
            break
    if r is not None and r.violation:
        print(f"REPRODUCED kind={r.violation[0]} digest={r.digest}")
        if not quiet:
            print(r.violation[1])
            for e in r.log[-60:]:
                print("   ", *e)
        return 1
    print("NOT-REPRODUCED")
    return 0


def sub_replay(path, timeout=300, crash=False):
    try:
        p = subprocess.run([sys.executable, "-m", "sim.main", "--replay", path],
                           cwd=VERIF, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        if crash:
            return dict(kind="no-progress", digest="-"), ""
        return None, ""
    if crash and p.returncode < 0:
        return dict(kind="process-crash", digest="-"), p.stdout + p.stderr
    for line in p.stdout.splitlines():
        if line.startswith("REPRODUCED"):
            return dict(x.split("=", 1) for x in line.split()[1:]), p.stdout
    return None, p.stdout + p.stderr


# --------------------------------------------------------------------- main
def check(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"[sim] property={prop} tier={tier} VERIF_SEED={seed} repo={os.environ.get('FEAX_REPO')}")
    mod = importlib.import_module("checks." + prop.lower())
    conf = mod.CONFIG[tier]
    nw = int(os.environ.get("SIM_WORKERS", conf.get("workers", 8)))
    procs, outs = [], []
    for i in range(nw):
        out = os.path.join(SCRATCH, f"w{i}.json")
        outs.append(out)
        log = open(os.path.join(SCRATCH, f"w{i}.log"), "w")
        procs.append(subprocess.Popen(
            [sys.executable, "-m", "sim.main", "--worker", prop, str(i), str(nw),
             str(seed), tier, out], cwd=VERIF, stdout=log, stderr=subprocess.STDOUT))
    hard = conf["wall_s"] + conf.get("shrink_s", 30.0) + 400
    dead = []
    early = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        if time.monotonic() - t0 > hard:
            for i, p in enumerate(procs):
                if p.poll() is None:
                    p.kill()
                    dead.append((i, "timeout"))
            break
        # a plan that makes no progress for plan_s seconds: kill its worker
        for i, p in enumerate(procs):
            if p.poll() is None:
                fl = outs[i] + ".inflight"
                try:
                    age = time.time() - os.stat(fl).st_mtime
                except OSError:
                    continue
                if age > conf.get("plan_s", 100) + conf.get("shrink_s", 30.0):
                    p.kill()
                    p.wait()
        # stop everyone soon after the first violation
        if early is None:
            for o in outs:
                if os.path.exists(o) and json.load(open(o))["violation"]:
                    early = time.monotonic()
                    break
        elif time.monotonic() - early > 3:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    tot = dict(runs=0, nontrivial=0, faults=Counter(), probes=Counter(), sim_time=0.0,
               steps=0, scen=Counter(), known=Counter(), redo_ok=0, renewed=0)
    states, samples, viols, harness, redo_bad, digests = set(), [], [], [], [], []
    for i, o in enumerate(outs):
        if not os.path.exists(o):
            if early is None and os.path.exists(o + ".inflight") and procs[i].returncode is not None \
                    and procs[i].returncode < 0:
                fl = json.load(open(o + ".inflight"))
                viols.append(dict(fl, orig_plan=fl["plan"], history=[], kind="process-crash-or-hang",
                                  msg=f"the process executing the plan ended with {procs[i].returncode}",
                                  crash=True))
            elif early is None:
                logtail = open(os.path.join(SCRATCH, f"w{i}.log")).read()[-3000:]
                dead.append((i, f"rc={procs[i].returncode}\n{logtail}"))
            continue
        a = json.load(open(o))
        for k in ("runs", "nontrivial", "sim_time", "steps", "redo_ok", "renewed"):
            tot[k] += a[k]
        for k in ("faults", "probes", "scen", "known"):
            tot[k].update(a[k])
        states |= set(a["states"])
        samples += a["samples"]
        harness += a["harness"]
        redo_bad += a["redo_bad"]
        digests += a["digests"]
        if a["violation"]:
            viols.append(a["violation"])
    wall = time.monotonic() - t0
    reported = []
    unrep = []
    if viols:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        viols.sort(key=lambda v: (len(json.dumps(v["plan"])), v["run"]))
        for v in viols[:4]:
            path = os.path.join(rdir, f"{prop}-{v['scenario']}-seed{v['seed']}-run{v['run']}.json")
            hist = v.pop("history")
            attempts = [[(v["scenario"], v["plan"])], [(v["scenario"], v["orig_plan"])]]
            n = 4
            while n < 2 * len(hist):
                attempts.append(hist[-n:])
                n *= 4
            got = None
            for att in attempts:
                rec = dict(property=prop, seed=v["seed"], run=v["run"], kind=v["kind"], msg=v["msg"],
                           plans=[dict(scenario=s, plan=p) for s, p in att])
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
                got, out = sub_replay(path, crash=v.get("crash", False),
                                      timeout=conf.get("plan_s", 100) + 60)
                if got:
                    break
            if got:
                rec["digest"] = got["digest"]
                rec["kind"] = got["kind"]
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
                reported.append((v, path, out))
                break
            unrep.append((v, path))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=tot["nontrivial"],
            rule=mod.RULE, samples=samples[:3],
            distinct_states=len(states), state_measure=mod.STATE_MEASURE,
            faults_fired=dict(tot["faults"]), probes=dict(tot["probes"]),
            scheduler_steps=tot["steps"], simulated_time=round(tot["sim_time"], 6),
            simulated_time_unit=getattr(mod, "TIME_UNIT", "scheduler steps"),
            runs_per_hour=round(tot["runs"] / max(wall, 1e-9) * 3600),
            seeds_per_hour=round(tot["runs"] / max(wall, 1e-9) * 3600),
            scenarios=dict(tot["scen"]), workers=nw, worker_renewals=tot["renewed"],
            determinism=dict(replayed_twice_equal=tot["redo_ok"], unequal=redo_bad),
            real_components=mod.REAL, stubbed_components=mod.STUB,
            known_findings_met=dict(tot["known"]),
            worker_problems=[d[1][:300] for d in dead]),
        assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2),
        violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"[sim] runs={tot['runs']} nontrivial={tot['nontrivial']} states={len(states)} "
          f"steps={tot['steps']} faults={dict(tot['faults'])} scen={dict(tot['scen'])} "
          f"redo_ok={tot['redo_ok']} redo_bad={len(redo_bad)} wall={wall:.1f}s")
    print(f"[sim] probes={dict(sorted(tot['probes'].items()))}")
    for p_, k, what in known_findings():
        if p_ == prop:
            print(f"KNOWN-FINDING: property={prop} {k} {what}")
    if reported:
        v, path, out = reported[0]
        print(f"[sim] {v['kind']}: {v['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for v, path in unrep:
        if v.get("crash"):
            dead.append((v["run"], v["msg"] + " (not reproduced)"))
        print(f"[sim] UNREPRODUCED {v['kind']}: {v['msg']} (see {path})")
    bad = False
    for h in harness[:3]:
        print("[sim] HARNESS ERROR", h["scenario"], h["run"], h["err"])
        bad = True
    for i, why in dead:
        print(f"[sim] WORKER {i} DIED {why}")
        bad = True
    if bad or tot["runs"] == 0:
        return 2
    return 0


def selftest(prop, n=40):
    """Execute n seeds twice in separate processes with other hash seeds and compare digests."""
    mod, scd = scenarios(prop)
    res = {}
    for hs in ("0", "1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-m", "sim.main", "--digests", prop, str(n)],
                           cwd=VERIF, capture_output=True, text=True, env=env)
        if p.returncode:
            print(p.stdout[-2000:], p.stderr[-2000:])
            return 2
        res[hs] = [l for l in p.stdout.splitlines() if l.startswith("D ")]
    ok = res["0"] == res["1"] == res["4242"]
    print(prop, "selftest", "equal" if ok else "DIFFERENT", len(res["0"]))
    if not ok:
        for a, b, c in zip(*res.values()):
            if not (a == b == c):
                print("  ", a, b, c)
    return 0 if ok else 1


def digests(prop, n):
    mod, scd = scenarios(prop)
    scs = list(scd.values())
    for s in scs:
        s.setup()
    for i in range(n):
        rng = rng_for(derive_seed(777, prop, i), "plan")
        s = pick_scenario(scs, rng)
        plan = json.loads(json.dumps(s.gen(rng)))
        r = run_plan(s, plan)
        print("D", i, s.name, r.digest, r.violation[0] if r.violation else "-")


def main():
    a = sys.argv[1:]
    if a[0] == "--worker":
        worker(a[1], int(a[2]), int(a[3]), int(a[4]), a[5], a[6])
        sys.stdout.flush()
        os._exit(0)
    if a[0] == "--replay":
        rc = replay(a[1])
        sys.stdout.flush()
        os._exit(rc)
    if a[0] == "--digests":
        digests(a[1], int(a[2]))
        sys.stdout.flush()
        os._exit(0)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier == "selftest":
        sys.exit(selftest(prop, int(a[2]) if len(a) > 2 else 40))
    try:
        rc = check(prop, tier)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
