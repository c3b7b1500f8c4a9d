#!/usr/bin/env python3
"""Decides one property of grafana/thema by seeded deterministic simulation.

  check.py PROP            seeded search (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE   re-execute a replay file exactly

exit 0: the property held on everything explored
exit 1: VIOLATION line printed
exit 2: the check could not be carried out (build trouble, no runs)
"""
import collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import simbuild

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

# property -> how it is explored. runs: simulated executions, race: executions
# under the race detector, cap: wall-clock cap of the search in seconds.
CONF = {
    "C01": dict(runs=(260, 4000), race=(220, 3000)),
    "C02": dict(runs=(800, 10000)),
    "C03": dict(runs=(250, 3000), race=(150, 2000)),
    "C04": dict(runs=(500, 6000)),
    "C05": dict(runs=(600, 8000)),
    "C06": dict(runs=(400, 5000)),
    "C07": dict(runs=(700, 9000)),
    "C08": dict(runs=(700, 9000)),
    "C09": dict(runs=(350, 4000)),
    "C10": dict(runs=(500, 6000)),
    "C13": dict(runs=(450, 5000)),
    "C14": dict(runs=(700, 8000), race=(80, 800)),
    "C15": dict(runs=(700, 8000)),
    "C16": dict(runs=(600, 7000)),
}
CAP = {"quick": 150, "thorough": 3000}

RULES = {
    "default": "each case is one plan (lineages, data, client tasks, injected faults, schedule) drawn from one seed and executed "
               "in its own process under the simulated scheduler; distinct_nontrivial counts distinct pairs of schedule hash "
               "(sequence of (task, scheduling point) switches) and operation outcomes among executions that performed at "
               "least one checked operation",
}


class Infra(Exception):
    pass


def fp(*xs):
    h = hashlib.sha256()
    for x in xs:
        h.update(json.dumps(x, sort_keys=True).encode())
    return h.hexdigest()[:16]


class Runner:
    def __init__(self, bins):
        self.bins = bins

    def gen(self, prop, seed, tier):
        p = subprocess.run([self.bins["sim"], "gen", prop, str(seed), tier], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120, env=self.env())
        if p.returncode != 0:
            raise Infra("plan generation failed for seed %d: %s" % (seed, p.stderr.decode(errors="replace")[-800:]))
        return json.loads(p.stdout)["legs"]

    def env(self):
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "UTC", "GOMAXPROCS": "2"}
        e["GORACE"] = "halt_on_error=0 atexit_sleep_ms=0 history_size=3 exitcode=0"
        return e

    def run(self, plan, race=False, timeout=90):
        """One execution in a fresh process."""
        exe = self.bins["simrace" if race else "sim"]
        inp = json.dumps(plan).encode()
        p = subprocess.Popen([exe, "run"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=self.env(), cwd="/")
        try:
            so, se = p.communicate(inp, timeout=timeout * (4 if race else 1))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return {"hang": True, "results": [], "stats": {}, "stderr": ""}
        se = se.decode(errors="replace")
        try:
            o = json.loads(so)
        except ValueError:
            o = {"crash": True, "rc": p.returncode, "results": [], "stats": {}}
        o["stderr"] = se
        o["results"] = o.get("results") or []
        return o


# ---------------------------------------------------------------- judgement

def thema_frames(stack):
    out = []
    for l in stack.splitlines():
        l = l.strip()
        if l.startswith(simbuild.REPO + "/") and "/internal/verifsim/" not in l:
            out.append(l.split(" +")[0][len(simbuild.REPO) + 1:])
    return out


def races(stderr):
    """Data races between two calls into the repository. Clients that evaluate CUE
    values on their own, outside of the lock, do so at their own risk."""
    res = []
    for rep in stderr.split("WARNING: DATA RACE")[1:]:
        rep = rep.split("==================")[0]
        secs = [s for s in re.split(r"\n\s*\n", rep) if s.strip()]
        acc = [s for s in secs if re.match(r"\s*(Read|Write|Previous read|Previous write|Atomic|Previous atomic)", s.strip())]
        fr = [thema_frames(s) or (["?"] if "failed to restore" in s else []) for s in acc[:2]]
        if len(fr) == 2 and all(fr):
            def top(s):
                for l in s.splitlines():
                    m = re.match(r"^  ([^ ].*)\(\)$", l)
                    if m:
                        return m.group(1).split("/")[-1]
                return "?"
            res.append({"what": "data race: " + " / ".join("%s below %s" % (top(s), (f or ["client"])[0]) for s, f in zip(acc, fr)),
                        "report": rep[:4000]})
    return res


SETUP_OWNER = [("bindtype:", ("C14",)), ("slot ", ("C04",)), ("pair ", ("C04", "C16")), ("derived instance ", ("C06", "C07", "C15")), ("instance ", ("C05",)),
               ("foreign lineage", ("C04",))]


def judge(prop, legs, outs, race=False):
    """Returns (violations, skipped) for the executions of one case."""
    v = []
    for i, o in enumerate(outs):
        leg = "leg %d: " % i if len(outs) > 1 else ""
        if o.get("hang"):
            v.append({"class": "hang", "what": leg + "the execution does not come to an end"})
        elif o.get("crash"):
            m = re.search(r"(fatal error: .*|panic: .*)", o["stderr"])
            if m and (thema_frames(o["stderr"]) or "concurrent map" in m.group(1)) :
                v.append({"class": "crash", "what": leg + "the process died: " + m.group(1)[:200], "detail": o["stderr"][-3000:]})
            else:
                raise Infra("simulated process died without a verdict: rc=%s %s" % (o.get("rc"), o["stderr"][-500:]))
        elif o.get("err"):
            for pre, owners in SETUP_OWNER:
                if pre in o["err"][:60]:
                    if prop in owners:
                        v.append({"class": "setup", "what": leg + "setup rejected: " + o["err"][:300]})
                    break
            else:
                raise Infra("setup: " + o["err"][:500])
            if not v:
                return [], True
        elif o.get("deadlock") or o.get("postdead"):
            v.append({"class": "deadlock", "what": leg + "tasks %s never finish: every task waits (locks leaked or cyclic)%s; unfinished operations %s" % (
                o.get("blocked"), " after the faults had stopped" if o.get("postdead") else "", o.get("missing"))})
        elif o.get("overrun"):
            v.append({"class": "overrun", "what": leg + "no progress within the step budget; unfinished operations %s" % o.get("missing")})
        if race:
            for r in races(o["stderr"]):
                v.append({"class": "race", "what": r["what"], "detail": r["report"]})
    if v or race:
        return v, False
    for i, o in enumerate(outs):
        for r in o["results"]:
            if "RESULT-CHANGED-LATER" in r["got"] and not r.get("n"):
                v.append({"class": "kept", "op": r["id"], "kind": r["op"], "what": "operation %d (%s): %s" % (r["id"], r["op"], r["got"][:600])})
    if v:
        return v, False
    if len(outs) == 1:
        for r in outs[0]["results"]:
            if r["got"] != r["exp"] and not r.get("n"):
                v.append({"class": "refinement", "op": r["id"], "kind": r["op"],
                          "what": "operation %d (%s): the model says %s, the system did %s" % (r["id"], r["op"], r["exp"][:400], r["got"][:400]),
                          "detail": r.get("note", "")[:1500]})
    else:
        a = {r["id"]: r for r in outs[0]["results"]}
        for r in outs[1]["results"]:
            s = a.get(r["id"])
            if s and not r.get("n") and s["got"] == r["got"] and prop == "C09" and s.get("note", "") != r.get("note", ""):
                v.append({"class": "message", "op": r["id"], "kind": r["op"],
                          "what": "operation %d (%s): error %r in the reference execution, %r in the other" % (r["id"], r["op"], s.get("note", "")[:600], r.get("note", "")[:600])})
            if s and s["got"] != r["got"] and not r.get("n"):
                v.append({"class": "divergence", "op": r["id"], "kind": r["op"],
                          "what": "operation %d (%s): %s in the reference execution, %s in the other" % (r["id"], r["op"], s["got"][:400], r["got"][:400]),
                          "detail": (s.get("note", "") + " | " + r.get("note", ""))[:1500]})
    return v, False


def execute(rn, prop, legs, race=False):
    if race:
        outs = [rn.run(legs[-1], race=True)]
        return outs, judge(prop, legs[-1:], outs, race=True)
    outs = [rn.run(p) for p in legs]
    return outs, judge(prop, legs, outs)


def same(v, w):
    if v["class"] != w["class"]:
        return False
    if v["class"] in ("refinement", "divergence", "message", "kept"):
        return v["kind"] == w["kind"]
    return True


# -------------------------------------------------------------- minimisation

def minimise(rn, prop, legs, viol, race, budget=70):
    t0 = time.time()
    legs = json.loads(json.dumps(legs))

    def fails(c):
        if time.time() - t0 > budget:
            return False
        try:
            _, (v, _) = execute(rn, prop, c, race)
        except Infra:
            return False
        return any(same(viol, x) for x in v)

    def ids(c):
        s = []
        for p in c:
            for t in p["tasks"] + [p.get("post") or []]:
                for o in t:
                    if o["id"] not in s:
                        s.append(o["id"])
        return s

    def drop(c, dead):
        c = json.loads(json.dumps(c))
        for p in c:
            p["tasks"] = [[o for o in t if o["id"] not in dead] for t in p["tasks"]]
            if p.get("post"):
                p["post"] = [o for o in p["post"] if o["id"] not in dead]
        return c

    def pinned(c):
        # replace the seeded schedule by its recorded decisions
        c = json.loads(json.dumps(c))
        for p in c:
            o = rn.run(p, race=race)
            if not o.get("crash") and not o.get("hang"):
                p["sched"] = {"Explicit": True, "Decision": o.get("decisions") or [], "Seed": p["sched"].get("Seed", 0)}
        return c

    def shrink_ops(c):
        n = max(1, len(ids(c)) // 2)
        while n >= 1:
            cur = ids(c)
            i = 0
            while i < len(cur):
                d = drop(c, set(cur[i:i + n]))
                if ids(d) and fails(d):
                    c = d
                    cur = ids(c)
                else:
                    i += n
                if time.time() - t0 > budget:
                    return c
            n //= 2
        return c

    legs = shrink_ops(legs)
    # faults
    for i in ids(legs):
        for k in range(3):
            c = json.loads(json.dumps(legs))
            hit = False
            for p in c:
                for t in p["tasks"] + [p.get("post") or []]:
                    for o in t:
                        if o["id"] == i and o.get("f"):
                            o["f"] = o["f"][1:]
                            hit = True
            if hit and fails(c):
                legs = c
            else:
                break
    # schedule
    c = pinned(legs)
    if fails(c):
        legs = c
        for li in range(len(legs)):
            n = max(1, len(legs[li]["sched"].get("Decision") or []) // 2)
            while n >= 1 and time.time() - t0 < budget:
                i = 0
                while i < len(legs[li]["sched"]["Decision"]) and time.time() - t0 < budget:
                    c = json.loads(json.dumps(legs))
                    del c[li]["sched"]["Decision"][i:i + n]
                    if fails(c):
                        legs = c
                    else:
                        i += n
                n //= 2
        legs = shrink_ops(legs)
    # context the remaining operations do not use
    for key in ("insts", "pairs", "bads", "mods"):
        c = json.loads(json.dumps(legs))
        for p in c:
            p[key] = None
        if any(p.get(key) for p in legs):
            used = {"insts": "i", "pairs": "b", "bads": "b", "mods": "b"}[key]
            if not any(o.get(used) for p in legs for t in p["tasks"] + [p.get("post") or []] for o in t) and fails(c):
                legs = c
    return legs


def size(legs):
    return {"operations": len({o["id"] for p in legs for t in p["tasks"] + [p.get("post") or []] for o in t}),
            "faults": sum(len(o.get("f") or []) for o in {o["id"]: o for p in legs for t in p["tasks"] + [p.get("post") or []] for o in t}.values()),
            "decisions": sum(len(p["sched"].get("Decision") or []) for p in legs) if all(p["sched"].get("Explicit") for p in legs) else None}


# ------------------------------------------------------------ known findings

def known(prop):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append({"id": m.group(3), "match": m.group(2), "what": m.group(3)})
    return out


def is_known(kn, v):
    for e in kn:
        if re.search(e["match"], v["what"] + "\n" + v.get("detail", "")):
            return e
    return None


# -------------------------------------------------------------------- search

def search(prop, tier, seed0):
    if prop not in CONF:
        import climain
        return climain.search(prop, tier, seed0)
    conf = CONF[prop]
    ti = 0 if tier == "quick" else 1
    nruns, nrace = conf["runs"][ti], conf.get("race", (0, 0))[ti]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    nruns, nrace = int(nruns * scale), int(nrace * scale)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = tempfile.mkdtemp(prefix="build-", dir=os.path.join(VERIF, ".cache"))
    try:
        bins = simbuild.build(out, race=nrace > 0)
        rn = Runner(bins)
        build_s = time.time() - t0
        return explore(rn, prop, tier, seed0, nruns, nrace, build_s, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def explore(rn, prop, tier, seed0, nruns, nrace, build_s, t0):
    cap = CAP[tier]
    kn = known(prop)
    base = seed0 * 1000003
    lock = threading.Lock()
    st = dict(cases=0, execs=0, skipped=0, steps=0, switches=0, contended=0, ops=0, simns=0, races_execs=0)
    fired, opk, outcomes, hashes, finger = collections.Counter(), collections.Counter(), set(), set(), set()
    found, knhit, samples, infra = [], {}, [], []
    stop = threading.Event()
    s0 = time.time()
    det = {"checked": 0, "diverged": 0}

    def case(job):
        kind, i = job
        if stop.is_set() or time.time() - s0 > cap:
            return
        seed = base + i
        race = kind == "race"
        try:
            legs = rn.gen(prop, seed, tier)
            outs, (v, skip) = execute(rn, prop, legs, race)
            if kind == "run" and i % 25 == 0 and not v:
                # one seed is one execution: run it again and compare
                o2 = rn.run(legs[-1])
                with lock:
                    det["checked"] += 1
                    if (o2.get("hash"), o2["results"]) != (outs[-1].get("hash"), outs[-1]["results"]):
                        det["diverged"] += 1
        except Infra as x:
            with lock:
                infra.append("seed %d: %s" % (seed, x))
            return
        except subprocess.TimeoutExpired:
            with lock:
                infra.append("seed %d: generator timeout" % seed)
            return
        with lock:
            st["cases"] += 1
            st["skipped"] += 1 if skip else 0
            st["races_execs"] += 1 if race else 0
            for o in outs:
                st["execs"] += 1
                for k in ("steps", "switches", "contended", "simns"):
                    st[k] += o.get(k) or 0
                st["ops"] += len(o["results"])
                for k, n in o.get("stats", {}).items():
                    (fired if k.startswith("fault:") else opk)[k.split(":", 1)[1]] += n
                for r in o["results"]:
                    outcomes.add(fp(r["op"], r["got"]))
                hashes.add(o.get("hash"))
            if any(o["results"] for o in outs):
                finger.add(fp([o.get("hash") for o in outs], [r["got"] for o in outs for r in o["results"]]))
            if len(samples) < 3 and not race and any(o["results"] for o in outs) and (i % 7 == 3 or not samples):
                p = legs[-1]
                samples.append({"seed": seed, "schedule": {k: p["sched"].get(k) for k in ("Strategy", "Preempt", "Depth", "Seed")},
                                "tasks": [[dict(op=o["k"], version=o.get("v"), to=o.get("to"), data=o.get("d"), variant=o.get("x"),
                                                faults=o.get("f")) for o in t] for t in p["tasks"]],
                                "outcomes": [(r["id"], r["got"][:160]) for r in outs[-1]["results"]][:20],
                                "switches": outs[-1].get("switches"), "steps": outs[-1].get("steps")})
            fresh = []
            for x in v:
                e = is_known(kn, x)
                if e:
                    knhit[e["id"]] = e
                else:
                    fresh.append(x)
            if fresh and not stop.is_set():
                found.append((seed, legs, fresh[0], race))
                if len(found) >= 3:
                    stop.set()

    jobs = []
    # interleave the two kinds so that a wall-clock cap hurts both alike
    a, b = [("run", i) for i in range(nruns)], [("race", i) for i in range(nrace)]
    while a or b:
        if a and (not b or len(a) * max(nrace, 1) >= len(b) * max(nruns, 1)):
            jobs.append(a.pop(0))
        else:
            jobs.append(b.pop(0))
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(case, jobs))
    sim_s = time.time() - s0

    viols = []
    if found:
        found.sort(key=lambda f: f[0])
        for seed, legs, v, race in found:
            # believed only if it happens again, in a fresh process
            ok = 0
            for _ in range(2):
                try:
                    _, (w, _) = execute(rn, prop, legs, race)
                except Infra as x:
                    infra.append(str(x))
                    continue
                ok += any(same(v, x) for x in w)
            if ok == 2:
                viols.append((seed, legs, v, race))
                break
            infra.append("seed %d: %s: not reproduced on re-execution" % (seed, v["what"][:200]))
    for e in knhit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    rc = 0
    if viols:
        seed, legs, v, race = viols[0]
        small = minimise(rn, prop, legs, v, race)
        outs, (w, _) = execute(rn, prop, small, race)
        hit = [x for x in w if same(v, x)]
        if not hit:
            small, hit = legs, [v]
        path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (prop, seed))
        json.dump({"property": prop, "seed": seed, "mode": "race" if race else "plain", "violation": hit[0], "size": size(small),
                   "original_size": size(legs), "legs": small,
                   "trace": [{"leg": i, "switches": o.get("trace"), "results": o["results"]} for i, o in enumerate(outs)]},
                  open(path, "w"), indent=1)
        print("seed %d: %s" % (seed, hit[0]["what"]))
        if hit[0].get("detail"):
            print("  " + hit[0]["detail"][:600].replace("\n", "\n  "))
        print("minimised from %s to %s" % (size(legs), size(small)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif st["cases"] - st["skipped"] < max(5, (nruns + nrace) // 50):
        print("the check could not be carried out: %d cases, %d skipped; %s" % (st["cases"], st["skipped"], infra[:3]))
        rc = 2
    elif len(infra) > max(3, st["cases"] // 20):
        print("the check could not be carried out: %d executions failed: %s" % (len(infra), infra[:3]))
        rc = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": st["execs"], "distinct_nontrivial": len(finger), "rule": RULES["default"], "samples": samples,
            "cases": st["cases"], "cases_skipped": st["skipped"], "operations_checked": st["ops"],
            "operations_by_kind": dict(opk), "faults_fired": dict(fired),
            "scheduling_points": st["steps"], "context_switches": st["switches"], "lock_contentions": st["contended"],
            "distinct_schedules": len(hashes), "distinct_outcomes": len(outcomes),
            "executions_under_race_detector": st["races_execs"],
            "seeds_per_hour": round(st["cases"] / max(sim_s, .001) * 3600), "executions_per_hour": round(st["execs"] / max(sim_s, .001) * 3600),
            "simulated_time_s": round(st["simns"] / 1e9, 3), "simulated_time_note": "wall clock seam, advanced per reading; other runs never read the clock",
            "determinism": {"seeds_run_twice": det["checked"], "diverged": det["diverged"]},
            "infrastructure_errors": infra[:10],
            "components_real": ["thema (root package, CUE library)", "thema/vmux", "thema/load", "thema/encoding/*", "cuelang.org/go (grafana fork)"],
            "components_simulated": ["goroutine scheduling (sync.Mutex, RWMutex, WaitGroup, Map, scheduling points in thema's code)",
                                     "map iteration order and runtime randomness", "time.Now", "fs.FS contents and faults", "codecs' faults",
                                     "client code (lens mappers)"],
            "build_s": round(build_s, 1), "search_s": round(sim_s, 1), "known_findings_seen": sorted(knhit),
        },
        "assumptions": ["sequential consistency between scheduling points (data races are looked for separately by the race detector where stated)",
                        "the reference model in sim/world/model.go states the intended semantics for the generated schema language"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viols),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d executions, %d operations, %d distinct, %d faults fired, %.1fs build, %.1fs search%s" % (
        prop, tier, seed0, st["cases"], st["execs"], st["ops"], len(finger), sum(fired.values()), build_s, sim_s,
        ", %d infra" % len(infra) if infra else ""))
    return rc


def replay(path):
    r = json.load(open(path))
    if r["property"] not in CONF:
        import climain
        return climain.replay(path)
    out = tempfile.mkdtemp(prefix="build-", dir=os.path.join(VERIF, ".cache"))
    try:
        rn = Runner(simbuild.build(out, race=r["mode"] == "race"))
        outs, (v, _) = execute(rn, r["property"], r["legs"], r["mode"] == "race")
        hit = [x for x in v if same(r["violation"], x)]
        for i, o in enumerate(outs):
            print("leg %d: %s switches, schedule hash %s" % (i, o.get("switches"), o.get("hash")))
        if hit:
            print(hit[0]["what"])
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        print("not reproduced; other observations: %s" % [x["what"][:200] for x in v])
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in CAP:
            tier = "quick"
        return search(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    except simbuild.BuildError as x:
        print("build failed:\n%s" % x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
