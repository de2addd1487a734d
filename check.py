#!/usr/bin/env python3
"""Runs the checks of one property.

  check.py <PROPERTY> [--tier quick|thorough]
  check.py --replay <file>
  check.py --setup
  check.py --selftest

Exit: 0 property held on everything explored, 1 violation (with a VIOLATION
line), 2 the machinery itself failed.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
BUILD = os.path.join(V, ".build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
sys.path.insert(0, V)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def build_java():
    src = sorted(glob.glob(os.path.join(V, "java/gv/*.java")))
    out = os.path.join(BUILD, "java")
    stamp = os.path.join(out, ".stamp")
    key = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-d", out, "-cp", JAR, *src], capture_output=True, text=True)
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stderr)
    open(stamp, "w").write(key)


def build_harness(profile="dev"):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["RUSTFLAGS"] = '--cfg getrandom_backend="custom"'
    env["CARGO_TERM_COLOR"] = "never"
    args = ["cargo", "build", "--offline", "--quiet", "--locked"]
    if profile == "release":
        args.append("--release")
    r = subprocess.run(args, cwd=os.path.join(V, "harness"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("harness does not build against /repo:\n" + r.stderr[-4000:])
    return os.path.join(BUILD, "target", "debug" if profile == "dev" else "release", "gvh")


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, states, distinct, out, rc):
        self.states, self.distinct, self.out, self.rc = states, distinct, out, rc


def tlc(work, module, cfg=None, props=None, fast=True, timeout=3000, workers=NCPU, extra=(), heap="12g"):
    """Runs TLC; raises ToolError on anything but success or a property violation."""
    meta = tempfile.mkdtemp(dir=work)
    cls = "tlc2.overrides.TLCOverrides:gv.Prims" + (":gv.Fast" if fast else "")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.overrides.TLCOverrides=" + cls]
    for k, v in (props or {}).items():
        cmd.append("-Dgv.%s=%s" % (k, v))
    cmd += ["-cp", os.path.join(BUILD, "java") + ":" + JAR + ":" + CM, "tlc2.TLC", "-workers", str(workers),
            "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", r.stdout)
    st, di = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return Tlc(st, di, r.stdout + r.stderr, r.returncode)


def tlc_ok(work, module, **kw):
    t = tlc(work, module, **kw)
    if t.rc != 0:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, t.rc, re.sub(r'(?:\n.*(?:Warning|conflicts with|its definition at|Semantic processing|of module (?:Functions|FiniteSetsExt)).*)|\n(?=\n)','',t.out)[-3500:]))
    return t


# ------------------------------------------------------------------ replay into the code
def run_harness(exe, scen, work, env=None, hang=120, fresh=0, jobs=0, queue=False):
    """Replays every scenario, surviving crashes and hangs; returns the traces in order.

    fresh: number of processes at a time, each of which runs one scenario only;
    queue: each process runs one scenario, the longest ones first."""
    sizes = [len(l) for l in open(scen)]
    n = len(sizes)
    todo = iter(sorted(range(n), key=lambda i: -sizes[i]))
    e = dict(os.environ)
    e.update(env or {})
    traces = [None] * n
    jobs = jobs or fresh or NCPU

    def shard(k):
        first = next(todo, n) if queue else k
        while first < n:
            out = os.path.join(work, "t%d-%d.nd" % (k, first))
            p = subprocess.Popen([exe, scen, out, str(first), str(n + jobs if fresh or queue else jobs)],
                                 env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            size, t0, verdict = -1, time.time(), None
            while True:
                try:
                    p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(out) if os.path.exists(out) else 0
                    if s != size:
                        size, t0 = s, time.time()
                    elif time.time() - t0 > hang:
                        p.kill()
                        p.wait()
                        verdict = "hang"
                        break
            err = p.stderr.read().decode(errors="replace")[-400:]
            last = first - jobs
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        d = json.loads(line)
                        traces[d["idx"]] = d["t"]
                        last = d["idx"]
                os.unlink(out)
            if p.returncode == 0:
                if queue:
                    first = next(todo, n)
                    continue
                if not fresh:
                    return
                first += jobs
                continue
            if p.returncode == 3:
                raise ToolError("harness: " + err)
            bad = last + jobs
            traces[bad] = {"CRASH": verdict or ("crash rc=%d %s" % (p.returncode, re.sub(r"[^ -~]", " ", err).replace('"', "'").replace("\\", "/")))}
            first = next(todo, n) if queue else bad + jobs

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(shard, range(min(jobs, n))))
    with open(scen) as f:
        for i, line in enumerate(f):
            if traces[i] is None:
                raise ToolError("scenario %d was not run" % i)
            if "CRASH" in traces[i]:
                sc = json.loads(line)
                sc["planned"] = len(sc["steps"])
                sc["input"] = sc["steps"]
                sc["steps"] = [{"op": "crash", "r": traces[i]["CRASH"]}]
                traces[i] = sc
    return traces


OUT_FIELDS = ["out", "ct", "tag", "ss", "buf", "pub", "enc", "d", "ek", "dk", "pt", "plain"]


def corrupt(t, rnd):
    """A copy of a trace with one observed value changed (binding self-test)."""
    t = json.loads(json.dumps(t))
    inputs = t.get("_in", [])
    live = [j for j, s in enumerate(t["steps"]) if s.get("live")]
    if live:
        s = t["steps"][rnd.choice(live)]
        s["left"] = s["live"]
        return t
    events = []
    for j, s in enumerate(t["steps"]):
        planned = inputs[j] if j < len(inputs) else {}
        if "lanes" in s:
            for l, p in zip(s["lanes"], planned.get("lanes", [])):
                events += zip(l, p)
        else:
            events.append((s, planned))
    cands = [(s, f) for s, p in events for f in OUT_FIELDS if f in s and f not in p and isinstance(s[f], str) and s[f]]
    if cands:
        s, f = rnd.choice(cands)
        v = s[f]
        i = rnd.randrange(len(v))
        s[f] = v[:i] + ("0" if v[i] != "0" else "1") + v[i + 1:]
    else:
        s = rnd.choice(events)[0]
        s["r"] = "ok" if s["r"] != "ok" else "err:Corrupted"
    return t


def digest(t):
    """Of a trace, apart from the times where these do not matter."""
    t = {k: v for k, v in t.items() if k != "steps"} | {"steps": [
        s if "lanes" not in s or not s.get("free") else
        {**s, "lanes": [[{k: v for k, v in e.items() if k not in ("t0", "t1")} for e in l] for l in s["lanes"]]} for s in t["steps"]]}
    return hashlib.sha256(json.dumps(t, sort_keys=True).encode()).digest()


class Broken(Exception):
    def __init__(self, at, out):
        super().__init__("trace %d" % at)
        self.at, self.out = at, out


def validate(work, traces, rnd, module="Validate", ncorrupt=24):
    """Checks traces against the specification. Returns (rejected list, tlc stats)."""
    n = len(traces)
    pick = [k for k in range(n) if traces[k]["steps"] and traces[k]["steps"][0]["op"] != "crash" and not traces[k].get("nobind")]
    rnd.shuffle(pick)
    bare = lambda k: any(s.get("live") for s in traces[k]["steps"])
    pick = [k for k in pick if bare(k)] + [k for k in pick if not bare(k)][:ncorrupt]
    bad = [corrupt(traces[k], rnd) for k in pick]
    path = os.path.join(work, "traces.nd")
    out = os.path.join(work, "verdict.nd")

    def go(ts, progress):
        with open(path, "w") as f:
            for t in ts:
                t = {k: v for k, v in t.items() if k in ("id", "steps", "planned", "cfg")}
                f.write(json.dumps(t).replace("\\\"", "'").replace("\\", "/") + "\n")
        if os.path.exists(out):
            os.unlink(out)
        r = tlc(work, module, props={"traces": path, "out": out, "progress": progress})
        if r.rc != 0:
            m = re.findall(r"^/\\\\ sc = (\d+)$", r.out, re.M)
            if not m:
                raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))
            raise Broken(int(m[-1]) - 1, r.out)
        done, at = set(), {}
        if os.path.exists(out):
            for line in open(out):
                d = json.loads(line)
                if "done" in d:
                    done.add(d["done"])
                else:
                    at[d["sc"]] = max(at.get(d["sc"], 0), d["at"])
        return done, at, r

    # A trace on which the specification cannot even be evaluated (an output of
    # impossible shape) is no behaviour of it: set aside, and the rest checked.
    broken = {}
    cur = list(range(n + len(bad)))
    while True:
        try:
            done, _, stats = go([(traces + bad)[k] for k in cur], 0)
            break
        except Broken as x:
            k = cur.pop(x.at)
            broken[k] = x.out
            log("the specification cannot be evaluated on", (traces + bad)[k]["id"], [l for l in x.out.splitlines() if "Reason" in l or "rror" in l][:3])
            if len(broken) > 12:
                raise ToolError("too many traces on which the specification cannot be evaluated:\n" + x.out[-2000:])
    done = {cur[d - 1] + 1 for d in done}
    for k in range(len(bad)):
        if n + k + 1 in done and pick[k] + 1 in done:
            raise ToolError("binding self-test: a corrupted trace was accepted: " + json.dumps(bad[k])[:1500])
    rejected = [k for k in range(n) if k + 1 not in done]
    res = []
    if rejected:
        sub = rejected[:200]
        sub0 = [k for k in sub if k not in broken]
        _, at, _ = go([traces[k] for k in sub0], 1) if sub0 else (0, {}, 0)
        res += [(traces[k], at.get(j + 1, 0)) for j, k in enumerate(sub0)]
        res += [(traces[k], -1) for k in sub if k in broken]
        res += [(traces[k], -1) for k in rejected[200:]]
    return res, stats, len(bad)


# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(prop, trace, at):
    for k in known_findings():
        if k.get("status") != "open" or prop not in k["properties"]:
            continue
        if re.fullmatch(k["scenario"], trace["id"]) and k.get("step", at) == at:
            ev = trace["steps"][at] if 0 <= at < len(trace["steps"]) else {}
            if all(str(ev.get(f)) == str(v) for f, v in k.get("observed", {}).items()):
                return k
    return None


# ------------------------------------------------------------------ one property
FEATURES = ["avx512bw", "avx512f", "avx512vl", "bmi2", "sha", "vaes", "vpclmulqdq"]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.rnd = random.Random(seed * 7919 + 13)
        self.states = self.transitions = self.traces = self.steps = self.corrupted = 0
        self.samples, self.violations, self.known, self.parts = [], [], {}, []
        self.exes = {}

    def exe(self, profile="dev"):
        if profile not in self.exes:
            self.exes[profile] = build_harness(profile)
        return self.exes[profile]

    def processors(self):
        """This processor without the features that choose between implementations."""
        one = [] if self.tier != "thorough" else [{o} for o in FEATURES] + [{o for o in FEATURES if o[0] in "av"}]
        return [{"GRAVIOLA_CPU_DISABLE_" + o: "1" for o in s} for s in one + [set(FEATURES)]]

    def model(self, module, cfg=None, expect_states=2, **kw):
        """An exhaustive check of a design model: its invariants are the property, abstractly."""
        t = tlc(self.work, module, cfg=cfg, **kw)
        if t.rc != 0:
            raise ToolError("design model %s/%s does not check (rc %d):\n%s" % (module, cfg, t.rc, t.out[-3000:]))
        if t.distinct < expect_states:
            raise ToolError("design model %s explored only %d states" % (module, t.distinct))
        self.states += t.distinct
        self.transitions += t.states
        self.parts.append({"model": module, "cfg": cfg or module, "distinct_states": t.distinct, "states_generated": t.states})

    def selftest(self, n=0, kem=0):
        """The specification against published values and laws (n = 0), and its fast evaluators against its definitions."""
        outs = []
        for fast in ([True] if n == 0 else [True, False]):
            out = os.path.join(self.work, "self-%s.nd" % fast)
            t = tlc_ok(self.work, "SelfTest", cfg="Gen", fast=fast, props={"out": out, "seed": self.seed, "thorough": 0, "n": n, "kem": kem})
            outs.append(sorted(open(out).read().splitlines()) if os.path.exists(out) else [])
        if outs[0] != outs[-1]:
            raise ToolError("self-test: the fast evaluators differ from the definitions: " + str([a for a, b in zip(*outs) if a != b][:1])[:600])
        self.parts.append({"model": "SelfTest", "compared_values": len(outs[0]) if n else 0})

    def laws(self):
        """The property as laws of the specification's own operators."""
        t = tlc(self.work, "Laws", props={"prop": int(self.prop[1:]), "seed": self.seed, "thorough": int(self.tier == "thorough"), "out": "/dev/null"})
        if t.rc != 0:
            raise ToolError("the specification does not have the property (rc %d):\n%s" % (t.rc, t.out[-3000:]))
        self.states += t.distinct
        self.transitions += t.states
        self.parts.append({"model": "Laws", "cases": t.distinct // 2})

    def generate(self, module, props=None, cfg="Gen"):
        out = os.path.join(self.work, "scen-%s.nd" % module)
        if os.path.exists(out):
            os.unlink(out)
        p = {"out": out, "seed": self.seed, "thorough": 1 if self.tier == "thorough" else 0}
        p.update(props or {})
        t = tlc_ok(self.work, module, cfg=cfg, props=p)
        lines = sorted(open(out).read().splitlines())
        with open(out, "w") as f:
            f.write("".join(l + "\n" for l in lines))
        self.states += t.distinct
        self.transitions += t.states
        if not lines:
            raise ToolError("generator %s produced no scenario" % module)
        return out

    def conform(self, scen, profile="dev", env=None, label="", hang=120, fresh=0, repeat=1, jobs=0):
        exe = self.exe(profile)
        t0 = time.time()
        traces = run_harness(exe, scen, self.work, env, hang, fresh, jobs)
        first = list(traces)
        # on processors with fewer features: only executions that differ are added
        # (the feature switches exist in builds with debug assertions)
        others = [] if profile != "dev" or env else self.processors()
        for cpu in others:
            for t, t0th in zip(run_harness(exe, scen, self.work, cpu, hang, fresh, jobs), first):
                if digest(t) != digest(t0th):
                    t["_env"] = cpu
                    traces.append(t)
        # again, and again: only executions not seen before are added
        again = 0
        if repeat > 1:
            seen = {(t["id"], digest(t)) for t in traces}
            for k in range(1, repeat):
                for t in run_harness(exe, scen, self.work, {**(env or {}), "GVH_SALT": str(k)}, hang, fresh, jobs):
                    again += 1
                    if (t["id"], digest(t)) not in seen:
                        seen.add((t["id"], digest(t)))
                        traces.append(t)
        with open(scen) as f:
            ins = {d["id"]: d["steps"] for d in map(json.loads, f)}
        for t in traces:
            t["_in"] = ins[t["id"]]
        t1 = time.time()
        rej, stats, nc = validate(self.work, traces, self.rnd)
        self.states += stats.distinct
        self.transitions += stats.states
        self.traces += len(traces) - len(rej)
        self.corrupted += nc
        nsteps = sum(len(t["steps"]) for t in traces)
        self.steps += nsteps
        self.parts.append({"scenarios": os.path.basename(scen)[5:-3], "label": label, "profile": profile, "env": env or {},
                           "traces": len(traces), "events": nsteps, "rejected": len(rej), "executions": len(ins) * (1 + len(others)) + again, "processors": 1 + len(others),
                           "replay_s": round(t1 - t0, 1), "validate_s": round(time.time() - t1, 1)})
        if len(self.samples) < 6:
            s = self.rnd.choice(traces)
            self.samples.append({"scenario": s["id"], "events": [short(x) for x in s["steps"][:4]]})
        for t, at in rej:
            k = match_known(self.prop, t, at)
            if k:
                self.known.setdefault(k["id"], (k, []))[1].append(t["id"])
            else:
                self.violations.append((t, at, {"profile": profile, "env": t.get("_env") or env or {}, **({"fresh": fresh} if fresh else {}), **({"repeat": repeat} if repeat > 1 else {})}))

    def agree(self, scen, configs, profile="dev", label="", keep=None):
        """Runs every scenario on each processor (this one without some features): the runs must agree."""
        exe = self.exe(profile)
        t0 = time.time()
        envs = [({}, False)] + [({"GRAVIOLA_CPU_DISABLE_" + f: "1" for f in c["without"]}, c["may"]) for c in configs]
        if keep:
            lines = [l for k, l in enumerate(open(scen)) if k % keep == 0]
            open(scen, "w").writelines(lines)
        recs = None
        for env, may in envs:
            ts = run_harness(exe, scen, self.work, env)
            if recs is None:
                base = ts
                recs = [{"id": t["id"], "runs": []} for t in ts]
            for t, r in zip(ts, recs):
                r["runs"].append({"may": may, "steps": [
                    "refused" if x["r"] == "panic" and "graviola requires" in x.get("detail", "") else
                    hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16] for x in t["steps"]]})
        t1 = time.time()
        # binding self-test: one digest changed
        bad = []
        for r in recs[:: max(1, len(recs) // 16)]:
            b = json.loads(json.dumps(r))
            run = b["runs"][self.rnd.randrange(1, len(envs))]["steps"]
            run[self.rnd.randrange(len(run))] = "changed"
            bad.append(b)
        path, out = os.path.join(self.work, "agree.nd"), os.path.join(self.work, "agree-out.nd")
        with open(path, "w") as f:
            f.writelines(json.dumps(r).replace("\\", "/") + "\n" for r in recs + bad)
        if os.path.exists(out):
            os.unlink(out)
        st = tlc_ok(self.work, "Agree", props={"traces": path, "out": out})
        done = {json.loads(l)["done"] for l in open(out)} if os.path.exists(out) else set()
        if any(len(recs) + k + 1 in done for k in range(len(bad))):
            raise ToolError("binding self-test: a changed run was accepted")
        self.corrupted += len(bad)
        self.states += st.distinct
        self.transitions += st.states
        self.traces += len(done) * len(envs)
        nsteps = sum(len(r["runs"][0]["steps"]) for r in recs)
        self.steps += nsteps * len(envs)
        self.parts.append({"scenarios": os.path.basename(scen)[5:-3], "label": label, "profile": profile, "processors": len(envs),
                           "traces": len(recs), "events": nsteps, "rejected": len(recs) - len(done),
                           "replay_s": round(t1 - t0, 1), "validate_s": round(time.time() - t1, 1)})
        if len(self.samples) < 6:
            k = self.rnd.randrange(len(recs))
            self.samples.append({"scenario": recs[k]["id"], "events": [short(x) for x in base[k]["steps"][:4]]})
        for k, line in enumerate(open(scen)):
            if k + 1 in done:
                continue
            runs = recs[k]["runs"]
            for j in range(1, len(envs)):
                for at in range(max(len(runs[0]["steps"]), len(runs[j]["steps"]))):
                    a, b = (x["steps"][at] if at < len(x["steps"]) else None for x in (runs[0], runs[j]))
                    if a != b and not (envs[j][1] and b in ("refused", None)):
                        t = dict(base[k])
                        t["_in"] = json.loads(line)["steps"]
                        self.violations.append((t, at, {"profile": profile, "env": {}, "agree": [{"without": [x[21:] for x in envs[j][0]], "may": envs[j][1]}]}))
                        break
                else:
                    continue
                break

    def silent(self, scen, profile="dev", env=None, label=""):
        """Runs that differ only in secrets, each call single-stepped: the observer must see the same."""
        exe = self.exe(profile)
        key = hashlib.sha256(open(exe, "rb").read()).hexdigest()[:16]
        tab = os.path.join(BUILD, "insns-%s-%s" % (profile, key))
        if not os.path.exists(tab):
            import insns
            for f in glob.glob(os.path.join(BUILD, "insns-%s-*" % profile)):
                os.unlink(f)
            data = insns.table(exe)
            with open(tab + ".new", "wb") as f:
                f.write(data)
            os.rename(tab + ".new", tab)
        t0 = time.time()
        traces = run_harness(exe, scen, self.work, {**(env or {}), "GVH_INSNS": tab}, hang=800, queue=True)
        if any(t["steps"][0]["r"] == "hang" for t in traces):
            raise ToolError("single-stepping did not finish")
        t1 = time.time()
        # binding self-test: what was seen of one compared call is changed
        def calls(e):
            return [(k, j) for k in range(1, len(e["runs"])) for j, x in enumerate(e["runs"][k]) if x["insns"] and x["r"] == e["runs"][0][j]["r"]]
        bad = []
        for t in [t for t in traces if t["steps"][0]["r"] == "ok"][:: max(1, len(traces) // 16)]:
            b = json.loads(json.dumps(t))
            todo = calls(b["steps"][0])
            if todo:
                k, j = self.rnd.choice(todo)
                b["steps"][0]["runs"][k][j]["leak"] = "changed"
                bad.append((b, all(x["r"] == y["r"] and x.get("ek") == y.get("ek") for x, y in zip(*[r[:j + 1] for r in (b["steps"][0]["runs"][0], b["steps"][0]["runs"][k])]))))
        path, out = os.path.join(self.work, "leak.nd"), os.path.join(self.work, "leak-out.nd")
        with open(path, "w") as f:
            f.writelines(json.dumps({k: v for k, v in t.items() if k != "input"}).replace("\\", "/") + "\n" for t in traces + [b for b, _ in bad])
        if os.path.exists(out):
            os.unlink(out)
        st = tlc_ok(self.work, "LeakTraces", cfg="Gen", props={"traces": path, "out": out})
        recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        done = {r["done"] for r in recs if "done" in r}
        compared = sum(r["cmp"] for r in recs if "cmp" in r and r["sc"] <= len(traces))
        nb = 0
        for k, (b, must) in enumerate(bad):
            if must:
                nb += 1
                if len(traces) + k + 1 in done:
                    raise ToolError("binding self-test: a changed execution was accepted (%s)" % b["id"])
        rej = [t for k, t in enumerate(traces) if k + 1 not in done]
        if not rej and (not compared or not nb):
            raise ToolError("no call was compared")
        self.corrupted += nb
        self.states += st.distinct
        self.transitions += st.states
        self.traces += len(traces) - len(rej)
        nsteps = sum(len(r) for t in traces for r in t["steps"][0].get("runs", []))
        insns = sum(x["insns"] for t in traces for r in t["steps"][0].get("runs", []) for x in r)
        self.steps += nsteps
        self.parts.append({"scenarios": os.path.basename(scen)[5:-3], "label": label, "profile": profile, "env": env or {}, "traces": len(traces), "events": nsteps,
                           "calls_compared": compared, "instructions_observed": insns, "rejected": len(rej), "replay_s": round(t1 - t0, 1), "validate_s": round(time.time() - t1, 1)})
        if len(self.samples) < 6:
            t = self.rnd.choice(traces)
            self.samples.append({"scenario": t["id"], "events": [short(x) for r in t["steps"][0].get("runs", [[]])[:1] for x in r[:4]]})
        with open(scen) as f:
            ins = {d["id"]: d["steps"] for d in map(json.loads, f)}
        for t in rej:
            t["_in"] = ins[t["id"]]
            for r in t["steps"][0].get("runs", []):
                for x in r:
                    if "depart" in x:
                        x["where"] = self.where(exe, x["depart"])
            self.violations.append((t, 0, {"profile": profile, "env": env or {}, "leak": True}))

    def where(self, exe, depart):
        """The function that a departure is in."""
        if not hasattr(self, "syms"):
            out = subprocess.run(["nm", "-C", "--defined-only", exe], capture_output=True, text=True).stdout
            self.syms = sorted((int(l.split()[0], 16), l.split(None, 2)[2]) for l in out.splitlines() if len(l.split(None, 2)) == 3)
        off = int(depart.split("@")[1], 16)
        best = [n for a, n in self.syms if a <= off][-1:]
        return "at instruction %s of the call, in %s" % (depart.split("@")[0], best[0] if best else "?")

    def replay_file(self, t, at, ctx):
        d = os.path.join(V, "replays")
        os.makedirs(d, exist_ok=True)
        name = "%s-%s.json" % (self.prop, hashlib.sha256((t["id"] + json.dumps(ctx)).encode()).hexdigest()[:12])
        p = os.path.join(d, name)
        ev = t["steps"][at] if 0 <= at < len(t["steps"]) else {"op": "(execution stopped early)"}
        json.dump({"property": self.prop, "scenario": {"id": t["id"], "steps": t["_in"], **({"cfg": t["cfg"]} if "cfg" in t else {})},
                   "rejected_at": at, "event": ev, "trace": t["steps"], **ctx,
                   "how": "python3 check.py --replay " + p}, open(p, "w"), indent=1)
        return p

    def finish(self, t0, level, assumptions):
        for kid, (k, ids) in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (%d scenario(s), e.g. %s)" % (self.prop, k["what"], len(ids), ids[0]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_validated": self.steps,
                           "corrupted_traces_rejected": self.corrupted, "parts": self.parts, "samples": self.samples},
              "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("VERIF_ALL"):
            for t, at, ctx in self.violations:
                e = t["steps"][at] if 0 <= at < len(t["steps"]) else {"op": "(stopped early)"}
                log("REJ %s #%d %s %s %s" % (t["id"], at, e["op"], e.get("r"), str(e.get("detail", ""))[:150]))
        for t, at, ctx in self.violations[:10]:
            p = self.replay_file(t, at, ctx)
            e = t["steps"][at] if 0 <= at < len(t["steps"]) else {"op": "(stopped early)"}
            log("rejected: scenario %s event %d: %s" % (t["id"], at, json.dumps(short(e))[:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if len(self.violations) > 10:
            log("... and %d more rejected traces" % (len(self.violations) - 10))
        log("%s %s: %d traces, %d events, %d states, %d violations, %.1fs" %
            (self.prop, self.tier, self.traces, self.steps, self.states, len(self.violations), time.time() - t0))
        return 1 if self.violations else 0


def short(e):
    return {k: (v if not isinstance(v, str) or len(v) <= 96 else v[:80] + "...(%d)" % len(v)) for k, v in e.items()}


def run_property(prop, tier, seed):
    import props
    t0 = time.time()
    spec = props.PROPS[prop]
    build_java()
    c = Check(prop, tier, seed)
    try:
        c.selftest(*((40, 0) if tier == "thorough" else ()))
        if prop in props.LAWS:
            c.laws()
        spec["run"](c)
        return c.finish(t0, spec.get("level", "model_checking"), spec.get("assumptions", []) + props.COMMON_ASSUMPTIONS)
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    build_java()
    c = Check(d["property"], "quick", 1)
    try:
        scen = os.path.join(c.work, "scen-replay.nd")
        with open(scen, "w") as f:
            f.write(json.dumps(d["scenario"]) + "\n")
        if "leak" in d:
            c.silent(scen, d["profile"], d["env"])
        elif "agree" in d:
            c.agree(scen, d["agree"], d["profile"])
        else:
            c.conform(scen, d["profile"], d["env"], "replay", fresh=d.get("fresh", 0), repeat=200 if any(s["op"] == "conc.run" for s in d["scenario"]["steps"]) else 1)
        for t, at, _ in c.violations:
            print(json.dumps(short(t["steps"][at]) if 0 <= at < len(t["steps"]) else {}, indent=1))
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1 if c.violations else 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.setup:
            build_java()
            build_harness()
            build_harness("release")
            return 0
        if a.replay:
            return replay(a.replay)
        return run_property(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    except ToolError as e:
        log("TOOL ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
