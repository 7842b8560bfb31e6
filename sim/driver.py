#!/usr/bin/env python3
"""driver.py check <ID> | replay <file> | selftest [ID...]

check: VERIF_SEED (default 1) and VERIF_TIER (quick|thorough). Exit 0 held, 1 violation (with replay file), 2 error of
the check itself."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, re, collections, ctypes
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(1, os.path.join(HERE, "props"))
from rng import derive, digest
import prep

PY = prep.PY
JOBS = int(os.environ.get("SIM_JOBS", "8"))
PERTURB = (0, 0, 165, 255, 1, 90)


class CheckError(Exception):
    pass


def worker_env(scratch, src, shim, env, out, wdir):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
    e.update(PYTHONHASHSEED=str(env["hashseed"]), PYTHONDONTWRITEBYTECODE="1", SIM_SRC=src, SIM_OUT=out, SIM_SCRATCH=wdir,
             SIM_SHIM=shim, LD_PRELOAD=shim, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
             MPLCONFIGDIR=os.path.join(scratch, "mpl"), LC_ALL="C.UTF-8", HOME=scratch)
    if env.get("perturb"):
        e["MALLOC_PERTURB_"] = str(env["perturb"])
    if os.environ.get("SIM_VERBOSE"):
        e["SIM_VERBOSE"] = "1"
    if os.environ.get("SIM_RUN_LIMIT"):
        e["SIM_RUN_LIMIT"] = os.environ["SIM_RUN_LIMIT"]
    return e


libc = ctypes.CDLL(None)


def same_addresses():
    """Addresses repeat from process to process (where the system allows it), so id() and the order of sets of objects do."""
    libc.personality(0x0040000)      # ADDR_NO_RANDOMIZE


class Job:
    n = 0

    def __init__(self, ctl, args, env, limit):
        Job.n += 1
        self.id = Job.n
        self.dir = os.path.join(ctl.scratch, "j%06d" % self.id)
        os.makedirs(self.dir)
        self.out = os.path.join(ctl.scratch, "out%06d" % self.id)
        self.env, self.args = env, args
        self.err = open(self.out + ".err", "wb")
        self.t0 = time.monotonic()
        self.limit = limit
        self.killed = False
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "worker.py")] + [str(a) for a in args],
                                  env=worker_env(ctl.scratch, ctl.src, ctl.shim, env, self.out, self.dir),
                                  stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, cwd=self.dir,
                                  start_new_session=True, preexec_fn=same_addresses)

    def poll(self):
        if self.p.poll() is None and time.monotonic() - self.t0 > self.limit:
            self.kill()
        return self.p.poll() is not None

    def kill(self):
        self.killed = True
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def in_reference(self):
        try:
            with open(self.out + ".ref", "rb") as f:
                return f.read(1) == b"\1"
        except OSError:
            return False

    def results(self):
        self.err.close()
        self.stuck_in_reference = self.p.returncode != 0 and self.in_reference()
        rs = []
        try:
            with open(self.out) as f:
                for line in f:
                    try:
                        rs.append(json.loads(line))
                    except ValueError:
                        pass
        except OSError:
            pass
        with open(self.out + ".err", "rb") as f:
            tail = f.read()[-1500:].decode(errors="replace")
        shutil.rmtree(self.dir, ignore_errors=True)
        for p in (self.out, self.out + ".err", self.out + ".ref"):
            if os.path.exists(p):
                os.unlink(p)
        return rs, tail


class Ctl:
    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix="switss-sim-", dir="/tmp")
        os.makedirs(os.path.join(self.scratch, "mpl"))

    def run_block(self, prop, gen, env, limit=600):
        """Runs first .. first + count - 1 of a seed, generated in one fresh process; results by run number."""
        j = Job(self, ["block", prop, gen["seed"], gen["first"], gen["count"], gen["tier"]], env, limit)
        while not j.poll():
            time.sleep(0.02)
        rs, tail = j.results()
        return {r["i"]: r for r in rs if "verdict" in r and "i" in r}

    def prepare(self):
        self.src, self.info = prep.prepare(self.scratch)
        self.shim = prep.shim(self.scratch)
        # matplotlib lists the fonts once; the first run to draw would otherwise differ from the others
        subprocess.run([PY, "-W", "ignore", "-c", "import matplotlib.font_manager"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=worker_env(self.scratch, self.src, self.shim, {"hashseed": 0}, "/dev/null", self.scratch), cwd=self.scratch)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def exec_one(self, prop, scenarios, env, limit=240):
        """Run scenarios in one fresh process; result of the last one (with crash/hang classification)."""
        path = os.path.join(self.scratch, "sc%06d.json" % Job.n)
        with open(path, "w") as f:
            json.dump({"prop": prop, "scenarios": scenarios}, f)
        j = Job(self, ["exec", path], env, limit)
        while not j.poll():
            time.sleep(0.02)
        rs, tail = j.results()
        os.unlink(path)
        return classify(rs, j, tail, len(scenarios))


def died(j, tail):
    rc = j.p.returncode
    if j.stuck_in_reference:
        return {"verdict": "ok", "skipped": "the reference solver did not end (time or memory)"}
    if j.killed:
        return {"verdict": "violation", "kind": "no-progress", "msg": "the process stopped making progress (killed after %d s)" % j.limit}
    return {"verdict": "violation", "kind": "process-died", "msg": "the process died with status %s: %s" % (rc, tail[-600:])}


def classify(rs, j, tail, want):
    runs = [r for r in rs if "verdict" in r]
    for r in rs:
        if "fatal" in r or "import_error" in r:
            return {"verdict": "harness", "msg": r.get("fatal") or r["import_error"]}
    if len(runs) == want:
        return runs[-1]
    if j.p.returncode == 0 and not j.killed:
        return {"verdict": "harness", "msg": "worker ended early: " + tail}
    if -9 == j.p.returncode and not j.killed:
        return {"verdict": "harness", "msg": "worker was killed from outside"}
    return died(j, tail)


def block_env(seed, prop, b):
    s = derive(seed, prop, "env", b)
    return {"hashseed": s % 4294967295, "perturb": PERTURB[(s >> 40) % len(PERTURB)]}


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except OSError:
        return {"findings": [], "fixed": []}


def run_blocks(ctl, prop, mod, seed, tier, total, block, cap, first=0, jobs=None, on_result=None):
    """Run `total` scenarios in blocks. Returns (results, failure or None, completed)"""
    jobs = jobs or JOBS
    t0 = time.monotonic()
    begun_at = {}           # the first run of the process a job is
    todo = collections.deque((b, min(block, total - b * block)) for b in range((total + block - 1) // block))
    active, results, failures = [], [], []
    stop = False
    while (todo and not stop) or active:
        while todo and not stop and len(active) < jobs:
            if time.monotonic() - t0 > cap:
                stop = True
                break
            b, n = todo.popleft()
            env = block_env(seed, prop, b)
            active.append((b, n, n, env, Job(ctl, ["block", prop, seed, b * block, n, tier], env, 900 if tier == "thorough" else 400)))
            begun_at[active[-1][4].id] = b * block
        time.sleep(0.01)
        for item in list(active):
            b, n, full, env, j = item
            if not j.poll():
                continue
            active.remove(item)
            rs, tail = j.results()
            runs = [r for r in rs if "verdict" in r]
            results += runs
            bad = next((r for r in runs if r["verdict"] != "ok"), None)
            fatal = next((r for r in rs if "fatal" in r or "import_error" in r), None)
            if fatal:
                raise CheckError(fatal.get("fatal") or "the code under test cannot be imported:\n" + fatal["import_error"])
            if bad is None and len(runs) < n:
                begun = [r["begin"] for r in rs if "begin" in r]
                if -9 == j.p.returncode and not j.killed:
                    raise CheckError("worker was killed from outside (memory?) " + tail)
                if not begun or j.p.returncode == 0:
                    raise CheckError("worker gave no answer: rc=%s %s" % (j.p.returncode, tail))
                bad = dict(died(j, tail), i=begun[-1])
                if bad["verdict"] == "ok":      # only the reference solver was slow: go on after that run
                    results.append(bad)
                    left = b * block + full - bad["i"] - 1
                    if left > 0:
                        active.append((b, left, full, env, Job(ctl, ["block", prop, seed, bad["i"] + 1, left, tier], env, j.limit)))
                        begun_at[active[-1][4].id] = bad["i"] + 1
                    bad = None
            if bad is not None:
                bad["env"], bad["block"], bad["first"] = env, b, begun_at[j.id]
                failures.append(bad)
                if bad["verdict"] == "harness":
                    for it in active:
                        it[4].kill()
                    raise CheckError("run %s: %s\nscenario: %s" % (bad.get("i"), bad["msg"], json.dumps(bad.get("scenario"))[:3000]))
                if on_result is None or not on_result(bad):
                    stop = True
        if time.monotonic() - t0 > cap:
            stop = True
    return results, sorted(failures, key=lambda r: r["i"]), time.monotonic() - t0


def regenerate(ctl, prop, seed, i, tier):
    """The scenario of run i (generation is pure, so a tiny script in the same interpreter family suffices)."""
    code = ("import sys;sys.path[:0]=[%r,%r,%r];import importlib,json,worker;"
            "mod=importlib.import_module(%r);print('\\x01'+json.dumps(worker.scenario_for(mod,%r,%d,%d,%r)))" %
            (HERE, os.path.join(HERE, "props"), ctl.src, prop.lower(), prop, seed, i, tier))
    env = worker_env(ctl.scratch, ctl.src, ctl.shim, {"hashseed": 0}, "/dev/null", ctl.scratch)
    out = subprocess.run([PY, "-W", "ignore", "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctl.scratch)
    t = out.stdout.decode()
    if "\x01" not in t:
        raise CheckError("cannot regenerate run %d: %s" % (i, out.stderr.decode()[-1000:]))
    return json.loads(t.split("\x01", 1)[1])


def confirm_and_minimise(ctl, prop, seed, tier, bad, block, budget):
    """-> replay dict; the failure is first reproduced in a fresh process."""
    env, i = bad["env"], bad["i"]
    sc = bad.get("scenario") or regenerate(ctl, prop, seed, i, tier)
    r = ctl.exec_one(prop, [sc], env)
    scenarios = [sc]
    if r["verdict"] != "violation":
        # the failure needs state left by earlier runs of its process: replay those first
        pre = [regenerate(ctl, prop, seed, k, tier) for k in range(bad["block"] * block, i)]
        r = ctl.exec_one(prop, pre + [sc], env, 600)
        if r["verdict"] != "violation":
            return repeat_generated(ctl, prop, seed, tier, bad, sc, budget)
        scenarios = pre + [sc]
        n = len(pre)
        t0 = time.monotonic()
        while n > 0 and time.monotonic() - t0 < budget:
            n //= 2
            cand = pre[len(pre) - n:] + [sc] if n else [sc]
            r2 = ctl.exec_one(prop, cand, env, 600)
            if r2["verdict"] == "violation" and r2["kind"] == r["kind"]:
                scenarios, r = cand, r2
            else:
                break
    kind = r["kind"]
    tried = 0
    orig = len(json.dumps(scenarios[-1]))
    if len(scenarios) == 1 and kind not in ("process-died", "no-progress"):
        path = os.path.join(ctl.scratch, "shrink.json")
        with open(path, "w") as f:
            json.dump({"prop": prop, "scenarios": scenarios, "kind": kind}, f)
        j = Job(ctl, ["shrink", path, budget], env, budget + 150)
        while not j.poll():
            time.sleep(0.05)
        rs, _ = j.results()
        bests = [x["best"] for x in rs if "best" in x]
        tried = sum(x.get("tried", 0) for x in rs if "done" in x)
        for b in reversed(bests[-3:]):
            r2 = ctl.exec_one(prop, [b], env)
            if r2["verdict"] == "violation" and r2["kind"] == kind:
                scenarios, r = [b], r2
                break
    elif len(scenarios) == 1:
        import worker_shrinks
        scenarios, r, tried = worker_shrinks.out_of_process(ctl, prop, scenarios[-1], kind, env, r, budget)
    return {"property": prop, "verif_seed": seed, "tier": tier, "run": i, "env": env, "kind": kind, "message": r.get("msg", ""),
            "scenarios": scenarios, "trace": r.get("trace"), "minimised": {"bytes_before": orig, "bytes_after": len(json.dumps(scenarios[-1])), "candidates_tried": tried}}


def first_that_repeats(ctl, prop, seed, tier, failures, block, budget):
    for k, bad in enumerate(failures):
        try:
            return confirm_and_minimise(ctl, prop, seed, tier, bad, block, budget)
        except CheckError:
            if k == len(failures) - 1:
                raise


def repeat_generated(ctl, prop, seed, tier, bad, sc, budget):
    """The failure depends on the whole history of its process (addresses reused, say), which scenarios read from a file
    do not bring about: the replay is the same block of generated runs, cut as short as it still fails."""
    env, i, first = bad["env"], bad["i"], bad.get("first", 0)
    best = None
    t0 = time.monotonic()
    n = i - first
    while True:
        gen = {"seed": seed, "first": i - n, "count": n + 1, "tier": tier}
        r = ctl.run_block(prop, gen, env).get(i)
        if r is None or r["verdict"] != "violation" or (best is not None and r["kind"] != best[1]["kind"]):
            break
        best = (gen, r)
        if n == 0 or time.monotonic() - t0 > budget:
            break
        n //= 2
    if best is None:
        raise CheckError("run %d failed (%s: %s) but does not repeat" % (i, bad.get("kind"), bad.get("msg")))
    gen, r = best
    return {"property": prop, "verif_seed": seed, "tier": tier, "run": i, "env": env, "kind": r["kind"], "message": r.get("msg", ""),
            "generated": gen, "scenarios": [sc], "trace": r.get("trace"),
            "minimised": {"runs_before": i - first + 1, "runs_after": gen["count"]}}


def match_known(prop, replay_or_bad):
    for f in known_findings().get("findings", []):
        if f["property"] == prop and f["kind"] == replay_or_bad.get("kind") and \
                re.search(f["match"], replay_or_bad.get("msg", "") or replay_or_bad.get("message", "")):
            return f
    return None


def check(prop):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    meta = load_meta(prop)
    total, cap, block = meta[tier]["runs"], meta[tier]["cap"], meta.get("block", 60)
    ctl = Ctl()
    try:
        ctl.prepare()
        if meta.get("prepare"):
            importlib.import_module(meta["prepare"]).prepare(ctl)
        hits = {}

        def on_result(bad):
            k = match_known(prop, bad)
            if k is not None:
                hits[k["id"]] = hits.get(k["id"], 0) + 1
                return True
            return False
        results, failures, wall = run_blocks(ctl, prop, None, seed, tier, total, block, cap, on_result=on_result)
        failures = [f for f in failures if match_known(prop, f) is None]
        skipped = [r for r in results if r.get("skipped")]
        if len(skipped) > max(5, len(results) // 50) and not failures:
            raise CheckError("the reference solver gave no answer in %d runs: %s" % (len(skipped), skipped[0]["skipped"]))
        extra = {}
        if meta.get("cross") and not failures:
            extra, failures = cross_check(ctl, prop, seed, tier, meta, results)
        replay = None
        if failures:
            bad = failures[0]
            if "pair" in bad:
                replay = bad["replay"]
            else:
                replay = first_that_repeats(ctl, prop, seed, tier, failures[:4], block, meta.get("shrink_s", 60))
        write_evidence(prop, tier, seed, meta, results, wall, time.monotonic() - t0, 1 if replay else 0, ctl, extra, hits)
        for f in known_findings().get("findings", []):
            if f["property"] == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        if replay:
            os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", "replays", "%s-%d-%d.json" % (prop, seed, replay["run"]))
            with open(path, "w") as f:
                json.dump(replay, f, indent=1)
            print("%s: %s" % (replay["kind"], replay["message"]))
            print("seed %d run %d; minimised %s" % (seed, replay["run"], json.dumps(replay["minimised"])))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: held on %d simulated runs (%.0f s)" % (prop, len(results), wall))
        return 0
    finally:
        ctl.close()


def load_meta(prop):
    with open(os.path.join(HERE, "meta.json")) as f:
        m = json.load(f)
    d = dict(m["default"])
    d.update(m[prop])
    return d


def cross_check(ctl, prop, seed, tier, meta, results):
    """Run the first scenarios again in other process environments; the observable history must be the same."""
    n, envs = meta["cross"][tier]["runs"], meta["cross"][tier]["envs"]
    block = meta.get("block", 60)
    extra = {"environment_pairs_compared": 0}
    base = {r["i"]: r for r in results}
    jobs = []
    queue = []
    for b in range((n + block - 1) // block):
        for e in range(envs):
            s = derive(seed, prop, "cross", b, e)
            env = {"hashseed": s % 4294967295 if e else 0, "perturb": PERTURB[(s >> 40) % len(PERTURB)]}
            queue.append((b, e, env))
    failures = []
    active = []
    while (queue or active) and not failures:
        while queue and len(active) < JOBS:
            b, e, env = queue.pop(0)
            active.append((b, env, Job(ctl, ["block", prop, seed, b * block, min(block, n - b * block), tier], env, 400)))
        time.sleep(0.02)
        for item in list(active):
            b, env, j = item
            if not j.poll():
                continue
            active.remove(item)
            rs, tail = j.results()
            for r in rs:
                if "verdict" not in r:
                    continue
                if r["verdict"] == "harness":
                    raise CheckError(r["msg"])
                o = base.get(r["i"])
                if o is None or "trace" not in o or "trace" not in r:
                    continue
                extra["environment_pairs_compared"] += 1
                if r["trace"] != o["trace"]:
                    sc = regenerate(ctl, prop, seed, r["i"], tier)
                    env0 = block_env(seed, prop, b)
                    failures.append({"pair": True, "i": r["i"], "replay": pair_replay(ctl, prop, seed, tier, r["i"], sc, env0, env, b * block)})
                    break
    for it in active:
        it[2].kill()
    return extra, failures


def pair_replay(ctl, prop, seed, tier, i, sc, env0, env1, first):
    a, b = ctl.exec_one(prop, [sc], env0), ctl.exec_one(prop, [sc], env1)
    more = {}
    if a.get("trace") == b.get("trace"):
        gen = {"seed": seed, "first": first, "count": i - first + 1, "tier": tier}
        a, b = ctl.run_block(prop, gen, env0).get(i, {}), ctl.run_block(prop, gen, env1).get(i, {})
        more["generated"] = gen
    if a.get("trace") == b.get("trace"):
        raise CheckError("run %d differed between environments but does not repeat" % i)
    return {**more, "property": prop, "verif_seed": seed, "tier": tier, "run": i, "env": env0, "env2": env1, "kind": "environment-dependent",
            "message": "the same scenario gives different determined results in environments %s and %s" % (env0, env1),
            "scenarios": [sc], "trace": a.get("trace"), "trace2": b.get("trace"), "minimised": {}}


def write_evidence(prop, tier, seed, meta, results, wall, total_wall, violations, ctl, extra, hits):
    fired, probes = collections.Counter(), collections.Counter()
    for r in results:
        fired.update(r.get("fired", {}))
        probes.update(r.get("probes", {}))
    distinct = {r["trace"] for r in results if r.get("nontrivial") and "trace" in r}
    shapes = {r["shape"] for r in results if r.get("shape")}
    hours = max(wall, 1e-9) / 3600
    samples = [r["scenario"] for r in results if r.get("scenario") is not None][:2]
    cov = {
        "evaluations": len(results), "distinct_nontrivial": len(distinct), "rule": meta["rule"], "samples": samples,
        "simulated_runs_per_hour": round(len(results) / hours), "seeds_per_hour": round(len(results) / hours),
        "simulated_seconds_covered": round(sum(r.get("sim", 0) for r in results), 3),
        "faults_fired": dict(sorted(fired.items())), "probes": dict(sorted(probes.items())),
        "runs_without_an_answer_of_the_reference_solver": sum(1 for r in results if r.get("skipped")),
        "runs_with_a_fault": sum(1 for r in results if r.get("fired")),
        "distinct_execution_traces": len({r["trace"] for r in results if "trace" in r}),
        "distinct_states_reached": {"measure": meta.get("measure", "digest of the abstract outcome vector of the run"), "count": len(shapes)},
        "real_components": meta["real"], "stub_components": meta["stubs"], "extensions": ctl.info["extensions"],
        "workers": JOBS, "known_findings_seen": hits}
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": meta["assumptions"],
          "wall_s": round(total_wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))


def replay(path):
    with open(path) as f:
        d = json.load(f)
    ctl = Ctl()
    try:
        ctl.prepare()
        def once(env):
            if "generated" in d:
                return ctl.run_block(d["property"], d["generated"], env).get(d["run"], {"verdict": "harness"})
            return ctl.exec_one(d["property"], d["scenarios"], env)
        r = once(d["env"])
        if "env2" in d:
            r2 = once(d["env2"])
            if r.get("trace") != r2.get("trace"):
                print("environment-dependent: %s" % d["message"])
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
            print("both environments agree")
            return 0
        print(json.dumps(r, indent=1)[:6000])
        if r["verdict"] == "violation":
            print("trace %s (recorded %s)" % (r.get("trace"), d.get("trace")))
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        return 0 if r["verdict"] == "ok" else 2
    finally:
        ctl.close()


def selftest(props):
    """Determinism: the same runs in other processes, with other block sizes, worker counts and hash seeds give the same
    event logs."""
    import random
    ctl = Ctl()
    bad = 0
    try:
        ctl.prepare()
        for prop in props:
            seen = {}
            for (block, jobs, shift) in ((30, 8, 0), (17, 3, 0), (60, 8, 1)):
                global block_env
                orig = block_env
                if shift:
                    block_env = lambda s, p, b: orig(s + 77, p, b)
                try:
                    res, fails, wall = run_blocks(ctl, prop, None, 7, "quick", 120, block, 300, jobs=jobs)
                finally:
                    block_env = orig
                for r in res:
                    o = seen.setdefault(r["i"], r["trace"])
                    if o != r["trace"]:
                        bad += 1
                        print("NONDETERMINISM", prop, r["i"], block, jobs, shift)
            print(prop, "runs", len(seen), "nondeterministic", bad, flush=True)
    finally:
        ctl.close()
    return 1 if bad else 0


def fidelity(count):
    """Stand-in solvers against the real ones."""
    ctl = Ctl()
    stats = {}
    try:
        ctl.prepare()
        res, fails, wall = run_blocks(ctl, "fidelity", None, int(os.environ.get("VERIF_SEED", "1")), "quick", count, 25, 3000, on_result=lambda bad: True)
        for r in res:
            if r["verdict"] != "ok":
                print(r.get("msg"), json.dumps(r.get("scenario"))[:1500])
            k = "%s %s" % (r["verdict"], r.get("sigtext"))
            stats[k] = stats.get(k, 0) + 1
        print(stats)
    finally:
        ctl.close()
    return 0


def main():
    try:
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "fidelity":
            return fidelity(int(sys.argv[2]))
        if sys.argv[1] == "selftest":
            return selftest(sys.argv[2:])
    except (CheckError, prep.PrepError) as e:
        print("CHECK-ERROR: %s" % e)
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
