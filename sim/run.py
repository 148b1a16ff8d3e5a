#!/usr/bin/env python3
"""run.py PROPERTY             run the check of a property (VERIF_SEED, VERIF_TIER)
run.py --replay FILE           re-run a violation from its replay file (exit 1 when it reproduces)
run.py --determinism PROPERTY N    run N seeds twice, in separate processes, and compare event logs
"""
import copy, hashlib, importlib, json, os, random, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build                                   # noqa: E402
import sim as S                                # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)


class Ctx:
    """One run: a plan, and the simulations made for it."""
    def __init__(self, zygote, seed, decisions=None):
        self.z, self.seed, self.given = zygote, seed, decisions
        self.sims = {}
        self.violations = []
        self.nontrivial = True

    def sim(self, cfg=None, tag="main"):
        while tag in self.sims:
            tag += "+"
        d = None if self.given is None else self.given.get(tag, {})
        s = S.Sim(self.z, "%s:%s" % (self.seed, tag), cfg, d)
        self.sims[tag] = s
        return s

    def bad(self, cls, msg):
        self.violations.append((cls, msg))

    def decisions(self):
        return {t: s.decisions for t, s in self.sims.items() if s.decisions}

    def digest(self):
        h = hashlib.sha256()
        for t in self.sims:
            h.update((t + self.sims[t].digest()).encode())
        return h.hexdigest()[:16]

    def close(self):
        for s in self.sims.values():
            s.shutdown()


def load(pid):
    return importlib.import_module("props." + pid.lower())


def execute(mod, zyg, seed, plan, decisions=None):
    ctx = Ctx(zyg, seed, decisions)
    try:
        mod.check(ctx, plan)
    except S.Stuck as e:
        ctx.bad("stuck", str(e))
    finally:
        ctx.close()
    # A process that used up its CPU allowance on a big input is an input too big for the check, not a hang.
    ctx.gave_up = any(s.cpu_limit_hit for s in ctx.sims.values()) and len(json.dumps(plan)) > 2500
    if ctx.gave_up:
        ctx.violations, ctx.nontrivial = [], False
    return ctx


def make_plan(mod, seed, tier):
    return mod.gen(random.Random("plan:%s:%s" % (mod.ID, seed)), tier)


# ---- minimisation -------------------------------------------------------------------------------
def lists_in(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            if k not in ("cfg",):
                yield from lists_in(x[k], path + (k,))
    elif isinstance(x, list):
        if len(x) and not (len(x) <= 6 and all(not isinstance(e, (list, dict)) for e in x) and path and isinstance(path[-1], int)):
            yield path
        for i, e in enumerate(x):
            yield from lists_in(e, path + (i,))


def at(x, path):
    for p in path:
        x = x[p]
    return x


def minimise(mod, zyg, seed, plan, dec, cls, budget):
    end = time.time() + budget
    tries = 0

    def fails(p, d):
        nonlocal tries
        if time.time() > end:
            return None
        tries += 1
        try:
            c = execute(mod, zyg, seed, p, d)
        except Exception:
            return None
        return c if any(v[0] == cls for v in c.violations) else None

    def ddmin_keys(p, d):
        keys = [(t, k) for t in sorted(d) for k in sorted(d[t])]
        n = 1
        while keys and time.time() < end:
            size = max(1, len(keys) // n)
            changed = False
            i = 0
            while i < len(keys) and time.time() < end:
                rest = keys[:i] + keys[i + size:]
                d2 = {}
                for t, k in rest:
                    d2.setdefault(t, {})[k] = d[t][k]
                if fails(p, d2):
                    keys, d, changed = rest, d2, True
                else:
                    i += size
            if size == 1 and not changed:
                break
            n = min(len(keys) or 1, n * 2) if not changed or size > 1 else n
        return d

    d = ddmin_keys(plan, dec)
    while time.time() < end:
        progress = False
        for path in list(lists_in(plan)):
            if time.time() > end:
                break
            try:
                lst = at(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(lst) and time.time() < end:
                    p2 = copy.deepcopy(plan)
                    del at(p2, path)[i:i + size]
                    if fails(p2, d):
                        plan, progress = p2, True
                        lst = at(plan, path)
                    else:
                        i += size
                size //= 2
        d2 = ddmin_keys(plan, d)
        if d2 != d:
            progress = True
            d = d2
        if not progress:
            break
    return plan, d, tries


# ---- worker -------------------------------------------------------------------------------------
def worker(pid, tier, base, first, stride, count, deadline):
    mod = load(pid)
    known = known_findings(pid)
    zyg = S.Zygote(mod.TOOLS if hasattr(mod, "TOOLS") else build.TOOLS)
    st = {"runs": 0, "steps": 0, "nodes": 0, "fired": {}, "probes": {}, "digests": [], "nontrivial": 0, "sim_us": 0,
          "errors": [], "known": {}, "samples": [], "ops": {}, "planhash": [], "gave_up": 0}
    seen = set()
    t_end = deadline
    fail = None
    i = first
    while i < count and time.time() < t_end:
        seed = base + i
        i += stride
        plan = make_plan(mod, seed, tier)
        try:
            c = execute(mod, zyg, seed, plan)
        except S.SimError as e:
            st["errors"].append("seed %d: %s" % (seed, e))
            if len(st["errors"]) > 3:
                break
            zyg.close()
            zyg = S.Zygote(mod.TOOLS if hasattr(mod, "TOOLS") else build.TOOLS)
            continue
        except Exception:
            st["errors"].append("seed %d: %s" % (seed, traceback.format_exc()[-1500:]))
            break
        st["runs"] += 1
        st["gave_up"] += c.gave_up
        for s in c.sims.values():
            st["steps"] += s.steps
            st["nodes"] += len(s.nodes)
            st["sim_us"] += s.now - 1_000_000_000_000_000 if s.now > 1_000_000_000_000_000 else 0
            for k, v in s.fired.items():
                st["fired"][k] = st["fired"].get(k, 0) + v
            for k, v in s.probes.items():
                st["probes"][k] = st["probes"].get(k, 0) + v
            for (k, v) in s.counts.items():
                o = k.split(":")[0]
                st["ops"][o] = st["ops"].get(o, 0) + v
        dg = c.digest()
        st["digests"].append(dg)
        if c.nontrivial and dg not in seen:
            st["nontrivial"] += 1
        seen.add(dg)
        if len(st["samples"]) < 2:
            st["samples"].append({"seed": seed, "plan": plan, "decisions": c.decisions(), "digest": dg})
        new = []
        for cls, msg in c.violations:
            k = next((k for k in known if k["class"] == cls), None)
            if k is not None:
                st["known"][cls] = k["what"]
            else:
                new.append((cls, msg))
        if new:
            fail = report(mod, zyg, pid, tier, seed, plan, c, new)
            if fail is None:
                st["gave_up"] += 1
                continue
            break
    zyg.close()
    st["digests"] = sorted(seen)
    if len(json.dumps(st["samples"])) > 20000:
        st["samples"] = st["samples"][:1]
    st["fail"] = fail
    print(json.dumps(st))


def report(mod, zyg, pid, tier, seed, plan, c, new):
    cls, msg = new[0]
    c2 = execute(mod, zyg, seed, plan)
    if c2.digest() != c.digest() or [v[0] for v in c2.violations] != [v[0] for v in c.violations]:
        if any(x.cpu_limit_hit for k in (c, c2) for x in k.sims.values()):
            return None         # slow, and now above, now below the allowance: nothing is known about this run
        return {"error": "seed %d: not deterministic (%s / %s): %s" % (seed, c.digest(), c2.digest(), msg), "cls": cls}
    dec = c.decisions()
    mplan, mdec, tries = minimise(mod, zyg, seed, plan, dec, cls, 45)
    c3 = execute(mod, zyg, seed, mplan, mdec)
    if not any(v[0] == cls for v in c3.violations):
        mplan, mdec = plan, dec
        c3 = execute(mod, zyg, seed, mplan, mdec)
        if not any(v[0] == cls for v in c3.violations):
            return {"error": "seed %d: replay from decisions does not reproduce %s: %s" % (seed, cls, msg), "cls": cls}
    msg = next(v[1] for v in c3.violations if v[0] == cls)
    name = "%s-%s-%d.json" % (pid, hashlib.sha256(cls.encode()).hexdigest()[:8], seed)
    path = os.path.join(VERIF, "replays", name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    trace = {}
    os.environ["SIM_LOG"] = "1"
    c4 = execute(mod, zyg, seed, mplan, mdec)
    for t, s in c4.sims.items():
        trace[t] = s.log[-400:]
    del os.environ["SIM_LOG"]
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "class": cls, "message": msg, "plan": mplan, "decisions": mdec,
                   "digest": c3.digest(), "original_decisions": sum(len(v) for v in dec.values()),
                   "minimised_decisions": sum(len(v) for v in mdec.values()), "minimisation_runs": tries, "trace": trace}, f, indent=1)
    return {"path": path, "cls": cls, "msg": msg, "seed": seed}


def replay(path, quiet=False):
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    zyg = S.Zygote(mod.TOOLS if hasattr(mod, "TOOLS") else build.TOOLS)
    c = execute(mod, zyg, r["seed"], r["plan"], r["decisions"])
    zyg.close()
    hit = [v for v in c.violations if v[0] == r["class"]]
    same = c.digest() == r["digest"]
    if not quiet:
        for v in c.violations:
            print("%s: %s" % v)
        print("digest %s, recorded %s" % (c.digest(), r["digest"]))
    return bool(hit) and same


def known_findings(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            k = json.load(f)
    except OSError:
        return []
    return [x for x in k.get("findings", []) if x["property"] == pid]


# ---- main ---------------------------------------------------------------------------------------
def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if not os.environ.get("VERIF_NOBUILD"):
        try:
            build.main()
        except RuntimeError as e:
            print("build of the system under simulation failed:\n%s" % e, file=sys.stderr)
            return 2
    tb = time.time() - t0
    mod = load(pid)
    count = int(os.environ.get("VERIF_RUNS", "0")) or mod.RUNS[tier]
    cap = mod.CAP[tier] if hasattr(mod, "CAP") else {"quick": 200, "thorough": 3600}[tier]
    deadline = time.time() + cap
    base = vseed * 10_000_000
    env = dict(os.environ, PYTHONHASHSEED="0")
    ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", pid, tier, str(base), str(i), str(NPROC),
                            str(count), repr(deadline)], stdout=subprocess.PIPE, text=True, env=env) for i in range(NPROC)]
    tot = {"runs": 0, "steps": 0, "nodes": 0, "fired": {}, "probes": {}, "ops": {}, "sim_us": 0, "nontrivial": 0, "gave_up": 0}
    digests, errors, known, samples, fails = set(), [], {}, [], []
    for p in ps:
        out, _ = p.communicate()
        try:
            st = json.loads(out.strip().split("\n")[-1])
        except ValueError:
            errors.append("worker failed: " + out[-500:])
            continue
        for k in ("runs", "steps", "nodes", "sim_us", "nontrivial", "gave_up"):
            tot[k] += st[k]
        for k in ("fired", "probes", "ops"):
            merge(tot[k], st[k])
        digests |= set(st["digests"])
        errors += st["errors"]
        known.update(st["known"])
        samples += st["samples"][:1]
        if st["fail"]:
            fails.append(st["fail"])
    wall = time.time() - t0
    run_s = max(0.001, wall - tb)
    good = [f for f in fails if "path" in f]
    ev = {"property": pid, "tier": tier, "seed": vseed, "level": "exploration",
          "coverage": {
              "evaluations": tot["runs"], "distinct_nontrivial": min(len(digests), tot["nontrivial"]),
              "rule": mod.RULE, "samples": samples[:2],
              "runs_over_the_cpu_allowance": tot["gave_up"],
              "simulated_processes": tot["nodes"], "simulated_steps": tot["steps"],
              "runs_per_hour": int(tot["runs"] / run_s * 3600), "seeds": "%d..%d" % (base, base + count - 1),
              "simulated_time_s": tot["sim_us"] / 1e6, "faults_fired": dict(sorted(tot["fired"].items())),
              "probes": dict(sorted(tot["probes"].items())), "decision_points": dict(sorted(tot["ops"].items())),
              "distinct_event_logs": len(digests),
              "distinct_measure": "distinct SHA-256 of the complete event log (every request, its data and its answer, in order)",
              "real_components": mod.REAL, "stubbed_components": STUBS, "build_s": round(tb, 1)},
          "assumptions": ASSUMPTIONS + getattr(mod, "ASSUMES", []),
          "wall_s": round(wall, 1), "violations": len(good)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for cls, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    bad = None
    for f in good:
        # fresh-process replay must reproduce, else it is an error of the check
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", f["path"]], env=dict(env, VERIF_NOBUILD="1"),
                           stdout=subprocess.PIPE, text=True)
        if r.returncode == 1:
            print("%s: %s (seed %d)" % (f["cls"], f["msg"], f["seed"]))
            print("VIOLATION property=%s replay=%s" % (pid, f["path"]))
            bad = 1
        else:
            errors.append("replay of %s does not reproduce: %s" % (f["path"], r.stdout[-500:]))
    if bad:
        return 1
    errors += [f["error"] for f in fails if "error" in f]
    if errors:
        for e in errors[:10]:
            print("ERROR:", e, file=sys.stderr)
        return 2
    if tot["runs"] == 0:
        print("ERROR: nothing was run", file=sys.stderr)
        return 2
    print("%s held on %d simulated runs (%d processes, %d steps), %.0f s build, %.0f s run" %
          (pid, tot["runs"], tot["nodes"], tot["steps"], tb, run_s))
    return 0


STUBS = ["file system, pipes, standard streams (simulated)", "clocks, rand() and time() (simulated)",
         "system() and popen() (recorded, never run)", "process scheduling (simulated; one process at a time)"]
ASSUMPTIONS = ["the simulated file system and pipes follow POSIX for the calls HFST makes",
               "libc's stdio and libstdc++'s streams above the simulated calls are the real ones",
               "a clean batch is evidence over the sampled schedules, faults and inputs, not a proof"]


def determinism(pid, n):
    """Each seed twice, in two separate processes started with different hash seeds and worker counts."""
    outs = []
    for jobs, hs in ((4, "0"), (7, "123")):
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--digests", pid, str(i), str(jobs), str(n)],
                               stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=hs)) for i in range(jobs)]
        d = {}
        for p in ps:
            o, _ = p.communicate()
            for l in o.split("\n"):
                if l:
                    k, v = l.split()
                    d[k] = v
        outs.append(d)
    diff = [k for k in outs[0] if outs[0][k] != outs[1].get(k)]
    print("%s: %d seeds, %d differ %s" % (pid, len(outs[0]), len(diff), diff[:10]))
    return 1 if diff or not outs[0] or set(outs[0]) != set(outs[1]) else 0


def digests(pid, first, stride, n):
    mod = load(pid)
    zyg = S.Zygote(mod.TOOLS if hasattr(mod, "TOOLS") else build.TOOLS)
    for i in range(first, n, stride):
        seed = 77_000_000 + i
        c = execute(mod, zyg, seed, make_plan(mod, seed, "quick"))
        print(seed, c.digest() + "-%d" % len(c.violations))
    zyg.close()


def triage_part(pid, first, stride, n, base):
    mod = load(pid)
    zyg = S.Zygote(mod.TOOLS if hasattr(mod, "TOOLS") else build.TOOLS)
    for i in range(first, n, stride):
        t = time.time()
        try:
            c = execute(mod, zyg, base + i, make_plan(mod, base + i, os.environ.get("VERIF_TIER", "quick")))
            for cls, msg in c.violations:
                print(json.dumps([cls, base + i, msg]))
        except Exception:
            print(json.dumps(["EXCEPTION", base + i, traceback.format_exc()[-600:]]))
        if time.time() - t > 4:
            print(json.dumps(["SLOW", base + i, "%.1f s" % (time.time() - t)]))
    zyg.close()


def triage(pid, n, base):
    """Run n seeds without stopping at violations; count them by class."""
    ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--triage-part", pid, str(i), str(NPROC), str(n), str(base)],
                           stdout=subprocess.PIPE, text=True) for i in range(NPROC)]
    seen = {}
    for p in ps:
        o, _ = p.communicate()
        for l in o.split("\n"):
            if l:
                cls, seed, msg = json.loads(l)
                seen.setdefault(cls, []).append((seed, msg))
    for cls in sorted(seen):
        print("%5d  %s\n       seed %d: %s" % (len(seen[cls]), cls, seen[cls][0][0], seen[cls][0][1][:600]))


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--triage-part":
        triage_part(a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]))
        sys.exit(0)
    if a[0] == "--triage":
        if not os.environ.get("VERIF_NOBUILD"):
            build.main()
        triage(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 1)
        sys.exit(0)
    if a[0] == "--worker":
        worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]))
    elif a[0] == "--replay":
        if not os.environ.get("VERIF_NOBUILD"):
            build.main()
        sys.exit(1 if replay(a[1]) else 0)
    elif a[0] == "--determinism":
        if not os.environ.get("VERIF_NOBUILD"):
            build.main()
        sys.exit(determinism(a[1], int(a[2])))
    elif a[0] == "--digests":
        digests(a[1], int(a[2]), int(a[3]), int(a[4]))
    else:
        sys.exit(main(a[0]))
