"""Shared machinery: run TLC, generate behaviours from a specification, replay them into the real
code (possibly under MPI, with several local devices), validate recorded executions with TLC, and report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VF_REPO") or "/repo"   # (overridden only when sweeping planted bugs in a scratch copy)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """A failure of the checking machinery itself (never an outcome)."""


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        self.seed = int(seed if seed is not None else (os.environ.get("VERIF_SEED") or 1))
        self.quick = self.tier != "thorough"
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.failures = []     # dicts: module, case (dict), event index, clause
        self.notes = []
        self.assumptions = []
        self.spec_runs = []
        self.n = 0

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def fresh(self, stem):
        self.n += 1
        return os.path.join(self.tmp, "%s_%d" % (stem, self.n))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- TLC

def _java(args, env, timeout, cwd=SPEC, mem="2g"):
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", JARS, "tlc2.TLC"] + args
    e = dict(os.environ)
    e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise Machinery("TLC timed out after %ss: %s" % (timeout, " ".join(args)))
    return p.returncode, p.stdout


_ST = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_check(ctx, module, cfg=None, timeout=600, workers=4, env=None, mem="4g"):
    """Exhaustive model checking of a design specification; it has to pass."""
    cfg = cfg or module
    rc, out = _java(["-workers", str(workers), "-noGenerateSpecTE", "-metadir", ctx.fresh("meta"), "-config", cfg + ".cfg", "-coverage", "1",
                     module + ".tla"], env or {}, timeout, mem=mem)
    if rc != 0 or "No error has been found" not in out:
        i = out.find("Error:")
        raise Machinery("model checking of %s (%s) failed:\n%s" % (module, cfg, out[i:i + 3500] if i >= 0 else out[-2000:]))
    m = _ST.findall(out)
    gen, dist = int(m[-1][0]), int(m[-1][1])
    # vacuity guard: every named action must have been taken
    never = [a for a, d, g in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M) if int(g) == 0]
    if never:
        raise Machinery("vacuous model %s (%s): actions never taken: %s" % (module, cfg, never))
    ctx.states += dist
    ctx.transitions += gen
    ctx.spec_runs.append("%s/%s: %d distinct states, %d transitions" % (module, cfg, dist, gen))
    return out


_BEH = re.compile(r'^"BEH (.*)"\s*$', re.M)


def _parse_beh(out):
    res = []
    for m in _BEH.finditer(out):
        s = json.loads('"' + m.group(1) + '"')
        res.append(json.loads(s))
    return res


def tlc_generate(ctx, module, cfg=None, num=None, depth=100, seed=None, timeout=300, env=None, exhaustive=False):
    """Behaviours of a specification, printed by it as JSON ("BEH ..."); random walks unless exhaustive."""
    cfg = cfg or module
    args = ["-workers", "1", "-noGenerateSpecTE", "-metadir", ctx.fresh("meta"), "-config", cfg + ".cfg", "-deadlock"]
    if exhaustive:
        args += ["-seed", str(seed if seed is not None else ctx.seed)]
    else:
        args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else ctx.seed)]
    rc, out = _java(args + [module + ".tla"], env or {}, timeout)
    if rc != 0 or "Error:" in out:
        raise Machinery("generation from %s failed:\n%s" % (module, out[-4000:]))
    beh = _parse_beh(out)
    uniq, seen = [], set()
    for b in beh:
        k = json.dumps(b, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    if not uniq:
        raise Machinery("no behaviour generated from %s:\n%s" % (module, out[-2000:]))
    if exhaustive:
        m = _ST.findall(out)
        ctx.states += int(m[-1][1])
        ctx.transitions += int(m[-1][0])
    return uniq


_FAIL = re.compile(r'^"FAIL (\d+) (\d+) (.*)"\s*$', re.M)
_DONE = re.compile(r'^"DONE (\d+) (\d+)"\s*$', re.M)


_CI, _LI = re.compile(r"^/\\ ci = (\d+)", re.M), re.compile(r"^/\\ li = (\d+)", re.M)
_EVAL = re.compile(r"Overflow when computing|Attempted to|evaluat|outside of the domain|not in the domain|In applying|is not a valid")
_BROKEN = re.compile(r"Parse Error|Parsing or semantic|OutOfMemory|StackOverflow|Could not find|No such file|JsonDeserialize|ConfigFile")


def tlc_validate(ctx, module, cases, cfg=None, timeout=600, env=None, chunk=None, record=True, mem="3g"):
    """Validates recorded executions against a trace specification. `cases` is a list of
    {"id":..., "ev":[...], ...}. Returns the failures [(case index, event index, clause)]."""
    if not cases:
        raise Machinery("nothing to validate for " + module)
    cfg = cfg or module
    chunk = chunk or len(cases)
    groups = [(i, cases[i:i + chunk]) for i in range(0, len(cases), chunk)]

    def one(g, depth=0):
        off, cs = g
        fn = ctx.fresh("trace") + "_%d.json" % off
        with open(fn, "w") as f:
            json.dump(cs, f)
        e = {"VF_TRACE": fn}
        e.update(env or {})
        rc, out = _java(["-workers", "1", "-noGenerateSpecTE", "-metadir", fn + ".meta", "-config", cfg + ".cfg", "-deadlock",
                         module + ".tla"], e, timeout, mem=mem)
        d = _DONE.findall(out)
        if (rc != 0 or not d) and _EVAL.search(out) and not _BROKEN.search(out):
            # what was recorded lies outside of everything the specification can make sense of
            at = _CI.findall(out), _LI.findall(out)
            if at[0] and at[1]:
                ci, li = int(at[0][-1]), int(at[1][-1])
                fails = [(int(a) - 1 + off, int(b) - 1, c) for a, b, c in _FAIL.findall(out)] + [(ci - 1 + off, li - 1, "not-evaluable")]
                more = one((off + ci, cs[ci:]), depth + 1) if ci < len(cs) and depth < 6 else ([], 0, 0, 0)
                return sorted(set(fails + more[0])), 1 + more[1], 1 + more[2], more[3]
        if rc != 0 or not d:
            i = out.find("rror")
            raise Machinery("trace validation with %s failed:\n%s\n...\n%s" % (module, out[max(i - 5, 0):i + 700], out[-700:]))
        if int(d[-1][0]) != len(cs):
            raise Machinery("trace validation with %s did not reach the end:\n%s" % (module, out[-3000:]))
        m = _ST.findall(out)
        fails = sorted(set((int(a) - 1 + off, int(b) - 1, c) for a, b, c in _FAIL.findall(out)))
        return fails, int(m[-1][1]), int(m[-1][0]), int(d[-1][1])

    with ThreadPoolExecutor(max_workers=4) as ex:
        res = list(ex.map(one, groups))
    fails = []
    for f, d, g, nev in res:
        fails += f
        if record:
            ctx.states += d
            ctx.transitions += g
            ctx.events += nev
    if record:
        ctx.traces += len(cases)
        for c, l, cl in fails:
            ctx.failures.append({"module": module, "case": cases[c], "event": l, "clause": cl})
    return fails


# ------------------------------------------------------------------------------------- real code

def base_env(devices=1):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMPI_", "PMIX_", "XLA_", "JAX_")):
            e.pop(k)
    e.update(JAX_PLATFORMS="cpu", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             XLA_FLAGS="--xla_force_host_platform_device_count=%d --xla_cpu_multi_thread_eigen=false" % devices,
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl="self,vader", OMPI_MCA_mpi_yield_when_idle="1",
             PYTHONPATH=HARN + ":" + REPO)
    e["TMPDIR"] = tempfile.gettempdir()
    return e


def harness(ctx, script, inp, ranks=1, devices=1, timeout=300):
    """Runs harness/<script>.py on `inp` with `ranks` MPI processes, `devices` local devices each.
    Returns per-rank outputs; a rank that delivered nothing is {"dead": reason}."""
    d = ctx.fresh("h_" + script)
    os.makedirs(d)
    fin = os.path.join(d, "in.json")
    with open(fin, "w") as f:
        json.dump(inp, f)
    env = base_env(devices)
    env["TMPDIR"] = d
    env["VF_DIR"] = d
    cmd = [PY, "-W", "ignore", "-u", os.path.join(HARN, script + ".py"), fin, d]
    if ranks > 1:
        cmd = ["mpirun", "-n", str(ranks)] + cmd
    t0 = time.time()
    timed_out = False
    logf = open(os.path.join(d, "log"), "w")
    p = subprocess.Popen(cmd, cwd=d, env=env, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    logf.close()
    log = open(os.path.join(d, "log")).read()
    outs = []
    started = False
    for r in range(ranks):
        fo = os.path.join(d, "out_%d.json" % r)
        if os.path.exists(os.path.join(d, "started_%d" % r)):
            started = True
        if os.path.exists(fo):
            outs.append(json.load(open(fo)))
        else:
            outs.append(None)
    if any(o is None for o in outs):
        if not started:
            raise Machinery("harness %s did not start (rc=%s, timed out: %s)\n%s" % (script, p.returncode, timed_out, log[-3000:]))
        prog = {}
        for r in range(ranks):
            fp = os.path.join(d, "prog_%d" % r)
            prog[r] = open(fp).read().strip().split("\n")[-1] if os.path.exists(fp) else ""
        reason = ("no progress within %d s" % timeout) if timed_out else "aborted (exit %s)" % p.returncode
        outs = [o if o is not None else {"dead": reason, "progress": prog[r], "log": log[-1500:]} for r, o in enumerate(outs)]
    shutil.rmtree(d, ignore_errors=True)
    return outs


def parallel(jobs, workers=4):
    """jobs: list of zero-argument callables."""
    with ThreadPoolExecutor(max_workers=workers) as ex:
        futs = [ex.submit(j) for j in jobs]
        return [f.result() for f in futs]


# ------------------------------------------------------------------------------------- reporting

def known_findings():
    fn = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) clause=(\S+) case=(\S+) (.*)", line)
            if m:
                res.append({"property": m.group(1), "clause": m.group(2), "case": m.group(3), "what": m.group(4)})
    return res


def finish(ctx, level="model_checking", extra=None):
    new, known = [], []
    kf = [k for k in known_findings() if k["property"] == ctx.prop]
    hit = {}
    for f in ctx.failures:
        cid = str(f["case"].get("id", ""))
        k = next((k for k in kf if k["clause"] == f["clause"] and k["case"] == cid), None)
        if k:
            hit[(k["clause"], k["case"])] = k
        else:
            new.append(f)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not new and (ctx.traces == 0 or ctx.states == 0):
        raise Machinery("nothing was covered")
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "events_validated": ctx.events, "spec_runs": ctx.spec_runs, "samples": ctx.samples[:6] or ["(none)"]}
    cov.update(extra or {})
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {"property": ctx.prop, "tier": "quick" if ctx.quick else "thorough", "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % ctx.prop)
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "failures": new[:20]}, f, indent=1)
        for f in new[:10]:
            print("  failed clause %s at event %d of case %s: %s" % (f["clause"], f["event"], f["case"].get("id"),
                  json.dumps((f["case"]["ev"][f["event"]] if 0 <= f["event"] < len(f["case"].get("ev", [])) else {}))[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" %
          (ctx.prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - ctx.t0))
    return 0


def dead_case(cid, outs, clause="no-answer"):
    """A case recorded for executions that did not deliver a result on some process."""
    bad = [(r, o) for r, o in enumerate(outs) if isinstance(o, dict) and "dead" in o]
    if not bad:
        return None
    return {"id": cid, "ev": [{"dead": [{"rank": r, "why": o["dead"], "progress": o["progress"], "log": o["log"][-800:]} for r, o in bad]}]}


def selftest(ctx, module, cases, corruptions, cfg=None, env=None, chunk=None):
    """Demonstrates the binding: each corruption of one recorded field has to be rejected."""
    import copy
    tests = []
    for name, pred, mut in corruptions:
        hit = None
        for c in cases:
            for k, e in enumerate(c["ev"]):
                try:
                    ok = pred(e)
                except Exception:
                    ok = False
                if ok:
                    c2 = copy.deepcopy(c)
                    mut(c2["ev"][k])
                    if c2 != c:
                        hit = (name, c2)
                        break
            if hit:
                break
        if not hit:
            ctx.notes.append("binding self-test %s of %s: no recorded event to corrupt in this run" % (name, module))
            continue
        tests.append(hit)
    if not tests:
        return
    fails = tlc_validate(ctx, module, [t[1] for t in tests], cfg=cfg, env=env, record=False, chunk=chunk)
    rej = {c for c, _, _ in fails}
    for i, (name, _) in enumerate(tests):
        if i not in rej:
            raise Machinery("self-test: corrupting %s is accepted by %s" % (name, module))
    ctx.notes.append("binding self-test of %s: %d corrupted recordings rejected (%s)" % (module, len(tests), ", ".join(t[0] for t in tests)))


def merge(outs, inputs, meta, fields):
    """Combine the events of all processes: the listed fields become one entry per process."""
    d = dead_case(meta["id"], outs)
    if d:
        return [dict(meta, **d, kind="none")]
    cases = []
    for i, inp in enumerate(inputs):
        evs = []
        per = [o[i]["ev"] for o in outs]
        for k in range(max(len(p) for p in per)):
            es = [p[k] if k < len(p) else {"err": "missing event"} for p in per]
            bad = [e for e in es if "err" in e]
            if bad:
                evs.append(bad[0])
                continue
            m = dict(es[0])
            for f in fields:
                if f in m:
                    m[f] = [e[f] for e in es]
            evs.append(m)
        c = {"id": "%s/%d" % (meta["id"], i), "kind": inp.get("kind", ""), "R": meta["R"], "ev": evs, "input": inp}
        cases.append(c)
    return cases
