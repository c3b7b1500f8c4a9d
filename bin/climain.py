"""Decides the properties of the command line tool (C11, C12).

The real tool runs as a process of its own on a scratch tree; its system calls
on that tree and on its standard input and output go through the seam of
sim/std/syscall_simio.go, where faults and crashes are injected at a counted
call. One seed fixes tree, command, standard input, map iteration order and
fault plan, and so the whole execution.
"""
import collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil, stat, subprocess, tempfile, threading, time
import simbuild
import check

VERIF = check.VERIF
CONF = {"C11": dict(seeds=(260, 4000), faults=(6, 14)), "C12": dict(seeds=(330, 5000), faults=(4, 10))}
CAP = {"quick": 240, "thorough": 3000}

BENIGN = ("EINTR", "short")
HARD = {
    "open": ["EIO", "EACCES", "EMFILE", "ENFILE"], "stat": ["EIO", "EACCES"], "lstat": ["EIO", "EACCES"], "fstat": ["EIO", "ESTALE"],
    "read": ["EIO", "ESTALE"], "readdir": ["EIO", "EACCES"], "write": ["EIO", "ENOSPC", "EDQUOT", "full", "full"], "close": ["EIO", "ENOSPC"],
    "fsync": ["EIO", "ENOSPC"], "rename": ["EIO", "EACCES", "ENOSPC"], "unlink": ["EIO"], "fchmod": ["EPERM", "EIO"], "chmod": ["EPERM"],
    "ftruncate": ["EIO", "ENOSPC"], "mkdir": ["EACCES"], "link": ["EIO"], "symlink": ["EIO"], "rmdir": ["EIO"],
}
EINTR_OPS = ("open", "read", "write", "stat", "lstat", "fstat")
O_CREAT, O_TRUNC, O_WRONLY, O_RDWR = 0o100, 0o1000, 1, 2


class Tool:
    def __init__(self, bins, scratch):
        self.sim, self.cli, self.scratch = bins["sim"], bins["cli"], scratch

    def gen(self, prop, seed):
        p = subprocess.run([self.sim, "cligen", prop, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"})
        if p.returncode != 0:
            raise check.Infra("case generation failed for seed %d: %s" % (seed, p.stderr.decode(errors="replace")[-800:]))
        return json.loads(p.stdout)

    def tree(self, spec):
        d = tempfile.mkdtemp(prefix="w", dir=self.scratch)
        root = os.path.join(d, "root")
        os.makedirs(os.path.join(root, spec["cwd"]))
        for rel, txt in sorted(spec["files"].items()):
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(txt)
            os.chmod(p, (spec.get("modes") or {}).get(rel, 0o644))
        for rel, to in sorted((spec.get("links") or {}).items()):
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(to.replace("<ROOT>", root), p)
        return root

    def drop(self, root):
        shutil.rmtree(os.path.dirname(root), ignore_errors=True)

    def run(self, root, spec, cmd, plan=(), mapseed=1):
        log = os.path.join(os.path.dirname(root), "log")
        if os.path.exists(log):
            os.unlink(log)
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "UTC", "GOMAXPROCS": "1", "GOGC": "off", "VERIFSIM_ROOT": root,
               "VERIFSIM_CWD": spec["cwd"], "VERIFSIM_LOG": log, "VERIFSIM_MAPSEED": str(mapseed),
               "VERIFSIM_IO": ";".join("%d:%s:%d" % tuple(f) for f in plan)}
        args = [a.replace("<ROOT>", root) for a in cmd["args"]]
        si = cmd.get("stdin")
        p = subprocess.Popen([self.cli] + args, cwd=os.path.join(root, spec["cwd"]), env=env, umask=0o022,
                             stdin=subprocess.PIPE if si is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            so, se = p.communicate(si.encode() if si is not None else None, timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return {"hang": True, "rc": None, "out": "", "err": "", "log": [], "fired": []}
        rp = lambda b: b.decode(errors="replace").replace(root, "<ROOT>")
        ops = []
        if os.path.exists(log):
            for l in open(log, errors="replace"):
                f = l.rstrip("\n").replace(root.encode().hex(), "<ROOT>".encode().hex()).split("\t")
                if len(f) == 5:
                    ops.append(f)
        return {"rc": p.returncode, "out": rp(so), "err": rp(se), "log": ops, "tree": snapshot(root),
                "fired": [(f[4], f[1]) for f in ops if f[4]]}


def snapshot(root):
    t = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                t[rel] = ("link", os.readlink(p).replace(root, "<ROOT>"))
            elif stat.S_ISDIR(st.st_mode):
                t[rel] = ("dir",)
            else:
                t[rel] = ("file", stat.S_IMODE(st.st_mode), open(p, errors="surrogateescape").read().replace(root, "<ROOT>"))
    return t


def real(spec, rel):
    """The file behind an output path."""
    links = spec.get("links") or {}
    while rel in links:
        to = links[rel]
        rel = to[len("<ROOT>/"):] if to.startswith("<ROOT>/") else os.path.normpath(os.path.join(os.path.dirname(rel), to))
    return rel


# ---------------------------------------------------------------- judgement

def canon(v):
    def fix(x):
        if isinstance(x, dict):
            return {k: fix(y) for k, y in x.items()}
        if isinstance(x, list):
            return [fix(y) for y in x]
        if isinstance(x, float) and x == int(x):
            return int(x)
        return x
    return json.dumps(fix(v), sort_keys=True)


def msgs(v):
    out = []
    if isinstance(v, dict):
        for k, x in v.items():
            out += [x] if k == "message" else msgs(x)
    elif isinstance(v, list):
        for x in v:
            out += msgs(x)
    return out


def comments(s):
    return all(l.strip() == "" or l.startswith("//") for l in s.split("\n"))


def functional(exp, r, what):
    """Does an undisturbed run do what the model says?"""
    v = []

    def bad(w):
        v.append({"class": "result", "what": "%s: %s" % (what, w), "detail": (r["out"][:600] + "\n--- stderr\n" + r["err"][:600])})
    if r["rc"] not in (0, 1) or "panic:" in r["err"] or "goroutine 1 [" in r["err"]:
        bad("crashed with status %s" % r["rc"])
        return v
    if (r["rc"] == 0) != (exp["exit"] == 0):
        bad("expected to %s, but exited with status %d" % ("succeed" if exp["exit"] == 0 else "fail", r["rc"]))
        return v
    if exp.get("quiet") and r["err"].strip():
        bad("prints to standard error although told to be quiet")
    if exp.get("skip"):
        return v
    if exp.get("text"):
        if r["out"] not in exp["text"]:
            bad("prints %r, expected %r" % (r["out"][:300], [t[:300] for t in exp["text"][:3]]))
    elif exp.get("json"):
        try:
            got = canon(json.loads(r["out"]))
        except ValueError:
            got = None
        if got not in [canon(x) for x in exp["json"]]:
            bad("prints %r, expected as JSON %r" % (r["out"][:300], canon(exp["json"])[:400]))
    elif exp.get("trans"):
        try:
            o = json.loads(r["out"])
            got = canon({"from": o.get("from"), "to": o.get("to"), "result": o.get("result"), "msgs": msgs(o.get("lacunas"))})
        except (ValueError, AttributeError):
            got = None
        if got not in [canon(x) for x in exp["trans"]]:
            bad("prints %r, expected %r" % (r["out"][:300], canon(exp["trans"])[:400]))
    elif exp.get("suffix"):
        if not r["out"].endswith(exp["suffix"]) or not comments(r["out"][:-len(exp["suffix"])]):
            bad("does not print the generated code and nothing but it")
    return v


def untouched(spec, init, ref, what):
    v = []
    outf = real(spec, spec["outfile"]) if spec.get("outfile") and ref["rc"] == 0 else None
    for p in sorted(set(init) | set(ref["tree"])):
        a, b = init.get(p), ref["tree"].get(p)
        if p == outf:
            if b is None or b[0] != "file":
                v.append("%s: the file %s was not written" % (what, p))
            elif a is not None and a[1] != b[1]:
                v.append("%s: the mode of %s changed from %o to %o" % (what, p, a[1], b[1]))
            elif spec.get("outsfx") and not (b[2].endswith(spec["outsfx"]) and comments(b[2][:-len(spec["outsfx"])])):
                v.append("%s: %s does not hold the generated code and nothing but it" % (what, p))
        elif a != b:
            v.append("%s: %s was %s" % (what, p, "created" if a is None else "removed" if b is None else "changed"))
    return [{"class": "tree", "what": w, "detail": ref["err"][:400]} for w in v]


def durable(spec, init, ref, r, what):
    """Power loss right after the last logged call: contents that were not synced
    may be lost, a rename may or may not have happened."""
    dirty = {}
    named = set(p for p, x in init.items() if x[0] == "file") | set(p for p, x in ref["tree"].items() if x[0] == "file")
    link = {k: real(spec, k) for k in (spec.get("links") or {})}
    bad = {}
    for n, op, name, extra, kind in r["log"]:
        if kind and kind not in BENIGN + ("torn", "crash", "full"):
            continue  # the call failed
        if kind == "crash":
            break
        name = link.get(name, name)
        if op == "open" and int(extra) & (O_WRONLY | O_RDWR):
            if int(extra) & O_TRUNC or (int(extra) & O_CREAT and name not in init):
                dirty[name] = "opened for writing"
        elif op in ("write", "ftruncate") and not name.startswith("<"):
            dirty[name] = "written"
        elif op == "fsync":
            dirty.pop(name, None)
        elif op == "rename":
            to = link.get(extra, extra)
            if name in dirty:
                bad.setdefault(to, "renamed into place before its contents were synced")
            dirty.pop(name, None)
        elif op == "unlink":
            dirty.pop(name, None)
    for p, why in dirty.items():
        if p in named:
            bad.setdefault(p, why + " in place, and not synced")
    return [{"class": "durability", "what": "%s: after a power failure %s may be lost or torn (%s)" % (what, p, w), "detail": ""}
            for p, w in bad.items() if p in named]


def faulted(spec, init, ref, r, what):
    v = []

    def bad(c, w):
        v.append({"class": c, "what": "%s: %s" % (what, w), "detail": (r["out"][:400] + "\n--- stderr\n" + r["err"][:600])})
    kinds = [k for k, _ in r["fired"]]
    if r.get("hang"):
        bad("hang", "the command does not come to an end")
        return v
    crashed = any(k in ("crash", "torn") for k in kinds)
    if all(k in BENIGN for k in kinds):
        if r["rc"] != ref["rc"]:
            bad("benign", "status %s, but %s undisturbed, though every interrupted or short call can be continued" % (r["rc"], ref["rc"]))
        elif r["out"] != ref["out"]:
            bad("benign", "prints %r, but %r undisturbed" % (r["out"][:200], ref["out"][:200]))
        elif r["tree"] != ref["tree"]:
            bad("benign", "leaves other files than undisturbed: %s" % diff(ref["tree"], r["tree"]))
        return v
    if not crashed and r["rc"] == 0:
        if ref["rc"] != 0:
            bad("false-success", "reports success, but fails when undisturbed")
        elif r["out"] != ref["out"]:
            bad("false-success", "reports success, but printed %r instead of %r" % (r["out"][:200], ref["out"][:200]))
        elif r["tree"] != ref["tree"]:
            bad("false-success", "reports success, but the files differ: %s" % diff(ref["tree"], r["tree"]))
    for p in sorted(set(init) | set(r["tree"])):
        a, b, n = init.get(p), r["tree"].get(p), ref["tree"].get(p)
        if b == a or b == n:
            continue
        if a is None and n is None:
            if not crashed and not any(op == "unlink" for _, op in r["fired"]):
                bad("leftover", "fails and leaves %s behind" % p)
            continue
        bad("torn", "%s is neither as before nor complete: %s" % (p, "missing" if b is None else "%d bytes, mode %o" % (len(b[2]), b[1]) if b[0] == "file" else b[0]))
    return v


def diff(a, b):
    return ", ".join(p for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p))[:300]


def retried(spec, ref, before, r, what):
    """After the faults have stopped the command does its work."""
    if r["rc"] != ref["rc"]:
        return [{"class": "retry", "what": "%s: run again without faults: status %s instead of %s" % (what, r["rc"], ref["rc"]), "detail": r["err"][:800]}]
    if r["out"] != ref["out"]:
        return [{"class": "retry", "what": "%s: run again without faults: prints %r instead of %r" % (what, r["out"][:200], ref["out"][:200]), "detail": ""}]
    d = [p for p in ref["tree"] if r["tree"].get(p) != ref["tree"][p]] + [p for p in r["tree"] if p not in ref["tree"] and p not in before]
    if d:
        return [{"class": "retry", "what": "%s: run again without faults: other files than undisturbed: %s" % (what, d[:5]), "detail": r["err"][:400]}]
    return []


# --------------------------------------------------------------------- cases

def plans(spec, ref, rnd, n, prop):
    """Fault plans for the calls the undisturbed run made."""
    log = ref["log"]
    if not log:
        return []
    wr = [i for i, f in enumerate(log) if f[1] in ("write", "fsync", "rename", "unlink", "fchmod", "ftruncate", "link", "symlink") or
          (f[1] == "open" and int(f[3]) & (O_WRONLY | O_RDWR | O_CREAT))]
    phase = list(range(min(wr), len(log))) if wr else []
    out = []
    by = collections.defaultdict(list)
    for i, f in enumerate(log):
        by[f[1]].append(i)

    def pick():
        if phase and rnd.random() < (0.75 if prop == "C11" else 0.35):
            return rnd.choice(phase)
        return rnd.choice(by[rnd.choice(sorted(by))])

    for k in range(n):
        x = rnd.random()
        if x < 0.18:  # many harmless disturbances
            p = []
            for i, f in enumerate(log):
                if f[1] in EINTR_OPS and rnd.random() < (0.6 if f[1] in ("read", "write") else 0.2):
                    p.append([i + 1, "short" if f[1] in ("read", "write") and rnd.random() < 0.6 else "EINTR", rnd.randrange(100)])
            if p:
                w = [f for f in p if log[f[0] - 1][1] in ("read", "write")]
                o = [f for f in p if f not in w]
                # each of them makes the tool call once more
                out.append([[at + k, kind, arg] for k, (at, kind, arg) in enumerate(sorted(w[:50] + rnd.sample(o, min(len(o), 30))))])
                continue
        i = pick()
        f = log[i]
        if rnd.random() < (0.4 if prop == "C11" else 0.08):
            kind = "torn" if f[1] == "write" and not f[2].startswith("<") and rnd.random() < 0.7 else "crash"
            out.append([[i + 1, kind, rnd.randrange(100)]])
            continue
        p = [[i + 1, rnd.choice(HARD.get(f[1], ["EIO"])), rnd.randrange(100)]]
        if rnd.random() < 0.25 and i + 2 < len(log):  # and another one later
            j = rnd.randrange(i + 1, len(log))
            p.append([j + 1, rnd.choice(HARD.get(log[j][1], ["EIO"]) + ["crash"]), rnd.randrange(100)])
        out.append(p)
    return out


class Case:
    def __init__(self, tool, prop, spec):
        self.t, self.prop, self.spec = tool, prop, spec
        self.execs, self.fired, self.finger, self.ops, self.retries = 0, collections.Counter(), set(), 0, 0
        self.log = []

    def ex(self, root, cmd, plan=(), mapseed=1):
        r = self.t.run(root, self.spec, cmd, plan, mapseed)
        self.execs += 1
        self.ops += len(r["log"])
        for k, op in r["fired"]:
            self.fired[k + ":" + op] += 1
        self.finger.add(check.fp([[f[1], f[2], f[4]] for f in r["log"]], r["rc"], hashlib.sha256(r["out"].encode()).hexdigest()))
        return r

    def reference(self):
        spec = self.spec
        root = self.t.tree(spec)
        try:
            self.init = snapshot(root)
            self.ref = r = self.ex(root, spec["main"])
            what = "thema " + " ".join(spec["main"]["args"])
            if r.get("hang"):
                return [{"class": "hang", "what": what + ": does not come to an end", "detail": ""}]
            v = functional(spec["main"]["exp"], r, what) + untouched(spec, self.init, r, what)
            if self.prop == "C11":
                v += durable(spec, self.init, r, r, what)
            if not v and spec.get("follow"):
                if spec.get("save"):
                    with open(os.path.join(root, spec["save"]), "w") as f:
                        f.write(r["out"])
                for fo in spec["follow"]:
                    w = "after " + what + ", thema " + " ".join(fo["args"]) + " < " + (fo.get("stdin") or "").strip()
                    v += functional(fo["exp"], self.ex(root, fo), w)
            return v
        finally:
            self.t.drop(root)

    def again(self, mapseed):
        root = self.t.tree(self.spec)
        try:
            r = self.ex(root, self.spec["main"], mapseed=mapseed)
            what = "thema " + " ".join(self.spec["main"]["args"]) + ": run twice"
            v = []
            if r["rc"] != self.ref["rc"] or r["out"] != self.ref["out"]:
                v.append({"class": "repeat", "what": what + " with another map iteration order: %s %r, before %s %r" % (
                    r["rc"], r["out"][:200], self.ref["rc"], self.ref["out"][:200]), "detail": ""})
            elif r["tree"] != self.ref["tree"]:
                v.append({"class": "repeat", "what": what + " with another map iteration order: other files: " + diff(r["tree"], self.ref["tree"]), "detail": ""})
            return r, v
        finally:
            self.t.drop(root)

    def fault(self, plan):
        spec = self.spec
        root = self.t.tree(spec)
        try:
            r = self.ex(root, spec["main"], plan)
            self.log = [[f[0], f[1], f[2], f[4]] for f in r["log"]]
            what = "thema %s with %s" % (" ".join(spec["main"]["args"]), ", ".join("%s at call %d" % (k, at) for at, k, _ in plan))
            for f in r["log"]:
                if f[4]:
                    what += " (%s of %s)" % (f[1], f[2])
            v = faulted(spec, self.init, self.ref, r, what)
            if self.prop == "C11" and not r.get("hang"):
                v += durable(spec, self.init, self.ref, r, what)
            if v or r.get("hang"):
                return v
            if not all(k in BENIGN for k, _ in r["fired"]):
                o = spec.get("outfile")
                done = o and self.ref["rc"] == 0 and r["tree"].get(real(spec, o)) == self.ref["tree"].get(real(spec, o))
                if not (done and "fix" in spec["main"]["args"][:2]):
                    self.retries += 1
                    v += retried(spec, self.ref, r["tree"], self.ex(root, spec["main"]), what)
            return v
        finally:
            self.t.drop(root)


def same(a, b):
    return a["class"] == b["class"]


def shrink(case, plan, viol):
    """Fewest faults that still show it."""
    i = 0
    while i < len(plan) and len(plan) > 1:
        p = plan[:i] + plan[i + 1:]
        if any(same(viol, x) for x in case.fault(p)):
            plan = p
        else:
            i += 1
    return plan


def search(prop, tier, seed0):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
    out = tempfile.mkdtemp(prefix="build-", dir=os.path.join(VERIF, ".cache"))
    try:
        bins = simbuild.build(out, cli=True)
        scratch = out + "-trees"  # not below out, which holds a go.mod
        os.makedirs(scratch)
        return explore(Tool(bins, scratch), prop, tier, seed0, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(out + "-trees", ignore_errors=True)


def explore(tool, prop, tier, seed0, t0):
    ti = 0 if tier == "quick" else 1
    nseeds, nfaults = CONF[prop]["seeds"][ti], CONF[prop]["faults"][ti]
    nseeds = int(nseeds * float(os.environ.get("VERIF_SCALE", "1")))
    build_s = time.time() - t0
    s0 = time.time()
    kn = check.known(prop)
    st, fired, kinds, finger = collections.Counter(), collections.Counter(), collections.Counter(), set()
    found, knhit, infra, samples = [], {}, [], []
    lock, stop = threading.Lock(), threading.Event()

    def one(i):
        if stop.is_set() or time.time() - s0 > CAP[tier]:
            return
        seed = seed0 * 1000003 + i
        rnd = random.Random("%s/%d" % (prop, seed))
        try:
            spec = tool.gen(prop, seed)
            c = Case(tool, prop, spec)
            hits = [(x, None, 1) for x in c.reference()]
            div = None
            ps = []
            if not hits:
                ms = 2 + rnd.randrange(1000)
                _, v = c.again(ms)
                hits = [(x, None, ms) for x in v]
                if i % 10 == 0:
                    r, _ = c.again(1)
                    div = r["log"] != c.ref["log"] or r["out"] != c.ref["out"]
                ps = plans(spec, c.ref, rnd, nfaults, prop)
                for p in ps:
                    v = c.fault(p)
                    hits += [(x, p, 1) for x in v]
                    if v:
                        break
        except (check.Infra, OSError, subprocess.SubprocessError) as x:
            with lock:
                infra.append("seed %d: %s" % (seed, x))
            return
        with lock:
            st["cases"] += 1
            st["execs"] += c.execs
            st["ops"] += c.ops
            st["retries"] += c.retries
            st["plans"] += len(ps)
            if div is not None:
                st["det"] += 1
                st["div"] += div
            fired.update(c.fired)
            finger.update(c.finger)
            kinds[spec["kind"]] += 1
            if len(samples) < 4 and ps and i % 5 == 1:
                samples.append({"seed": seed, "command": ["thema"] + spec["main"]["args"], "stdin": spec["main"].get("stdin"),
                                "files": sorted(spec["files"]), "expected": {k: (v if len(str(v)) < 300 else str(v)[:300]) for k, v in spec["main"]["exp"].items()},
                                "calls_undisturbed": len(c.ref["log"]), "fault_plans": ps[:6]})
            fresh = []
            for x, p, ms in hits:
                e = check.is_known(kn, x)
                if e:
                    knhit[e["id"]] = e
                else:
                    fresh.append((x, p, ms))
            if fresh:
                found.append((seed, spec) + fresh[0])
                if len(found) >= 3:
                    stop.set()

    with cf.ThreadPoolExecutor(check.WORKERS) as ex:
        list(ex.map(one, range(nseeds)))
    sim_s = time.time() - s0
    rc, viols = 0, 0
    for e in knhit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    found.sort(key=lambda f: f[0])
    for seed, spec, v, plan, ms in found:
        c = Case(tool, prop, spec)
        ok = True
        for _ in range(2):  # believed only if it happens again
            ok = ok and any(same(v, x) for x in redo(c, v, plan, ms))
        if not ok:
            infra.append("seed %d: %s: not reproduced" % (seed, v["what"][:200]))
            continue
        orig = len(plan or [])
        if plan:
            plan = shrink(c, plan, v)
        hit = [x for x in redo(c, v, plan, ms) if same(v, x)] or [v]
        path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (prop, seed))
        json.dump({"property": prop, "seed": seed, "violation": hit[0], "spec": spec, "plan": plan, "mapseed": ms, "calls": c.log,
                   "size": {"faults": len(plan or []), "faults_before": orig}}, open(path, "w"), indent=1)
        print("seed %d: %s" % (seed, hit[0]["what"]))
        if hit[0].get("detail"):
            print("  " + hit[0]["detail"][:800].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc, viols = 1, 1
        break
    if not viols:
        if st["cases"] < max(5, nseeds // 50):
            print("the check could not be carried out: %d cases; %s" % (st["cases"], infra[:3]))
            rc = 2
        elif len(infra) > max(3, st["cases"] // 20):
            print("the check could not be carried out: %d cases failed: %s" % (len(infra), infra[:3]))
            rc = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": st["execs"], "distinct_nontrivial": len(finger),
            "rule": "each case is one file tree, command, standard input and set of fault plans drawn from one seed; every execution is a process of the "
                    "real tool behind the system call seam; distinct_nontrivial counts distinct (sequence of system calls with the faults injected, exit "
                    "status, standard output)",
            "samples": samples, "cases": st["cases"], "cases_by_command": dict(kinds), "fault_plans": st["plans"], "retries_after_faults": st["retries"],
            "system_calls_simulated": st["ops"], "faults_fired": dict(fired),
            "seeds_per_hour": round(st["cases"] / max(sim_s, .001) * 3600), "executions_per_hour": round(st["execs"] / max(sim_s, .001) * 3600),
            "simulated_time_s": 0, "simulated_time_note": "the tool never waits for time",
            "determinism": {"seeds_run_twice": st["det"], "diverged": st["div"]}, "infrastructure_errors": infra[:10],
            "components_real": ["cmd/thema (the whole binary)", "thema library", "cuelang.org/go", "Go standard library above package syscall", "the file system of the scratch tree"],
            "components_simulated": ["results of system calls on the scratch tree, standard input and output", "process death", "durability of unsynced data (model over the call log)",
                                     "map iteration order"],
            "build_s": round(build_s, 1), "search_s": round(sim_s, 1), "known_findings_seen": sorted(knhit),
        },
        "assumptions": ["a rename is atomic; contents are durable once fsync has returned", "the reference model in sim/world/model.go and, for generated code, the library's own "
                        "output state the intended result"],
        "wall_s": round(time.time() - t0, 1), "violations": viols,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d executions, %d system calls, %d distinct, %d faults fired, %.1fs build, %.1fs search%s" % (
        prop, tier, seed0, st["cases"], st["execs"], st["ops"], len(finger), sum(fired.values()), build_s, sim_s,
        ", %d infra %s" % (len(infra), infra[:2]) if infra else ""))
    return rc


def redo(c, v, plan, ms):
    hits = c.reference()
    if plan is None and ms == 1:
        return hits
    if hits:
        return []
    if plan is None:
        return c.again(ms)[1]
    return c.fault(plan)


def replay(path):
    r = json.load(open(path))
    os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
    out = tempfile.mkdtemp(prefix="build-", dir=os.path.join(VERIF, ".cache"))
    try:
        bins = simbuild.build(out, cli=True)
        scratch = out + "-trees"  # not below out, which holds a go.mod
        os.makedirs(scratch)
        c = Case(Tool(bins, scratch), r["property"], r["spec"])
        hits = redo(c, r["violation"], r["plan"], r["mapseed"])
        hit = [x for x in hits if same(r["violation"], x)]
        if hit:
            print(hit[0]["what"])
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        print("not reproduced; other observations: %s" % [x["what"][:200] for x in hits])
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(out + "-trees", ignore_errors=True)
