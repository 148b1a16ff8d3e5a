"""C06: a time cut-off stops a lookup soon after the time is used up, and only leaves results out."""
import models as M
import sim as S
from props.util import *
from props import zoo, c04, c07

ID = "C06"
TOOLS = ["hfst-lookup", "hfst-flookup", "hfst-optimized-lookup", "hfst-pmatch", "hfst-tokenize", "hfst-pmatch2fst"]
RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("a plan is a transducer (finite, or infinitely ambiguous for some inputs) or pmatch network and a sequence of lookups, each with or without a time "
        "cut-off, while the simulated clock ticks, stands still or jumps ahead at a chosen call; through the library or through a tool fed line by line; "
        "non-trivial: the time ran out in at least one lookup")
REAL = ["libhfst (optimized lookup, pmatch)", "hfst-lookup, hfst-flookup, hfst-optimized-lookup, hfst-pmatch, hfst-tokenize"]


def ambiguous_net(r):
    """Several paths per input, over a small alphabet."""
    n = r.randint(2, 4)
    net = {"arcs": [], "finals": [[n - 1, r.choice([0.0, 0.5, 2.0])]], "syms": []}
    for s in range(n - 1):
        for _ in range(r.randint(1, 4)):
            net["arcs"].append([s, s + 1, r.choice("aab"), r.choice(["x", "y", "z", "+N", M.EPS]), r.choice([0.0, 0.0, 1.0, 0.25])])
    for _ in range(r.randint(0, 2)):
        s = r.randrange(n)
        net["arcs"].append([s, s, "a", r.choice("xyz"), r.choice([0.0, 0.5])])
    if r.random() < 0.3:
        net["finals"].append([r.randrange(n - 1), 0.0])
    return net


def loop_net(r):
    net = ambiguous_net(r)
    n = 1 + max(max(a[0], a[1]) for a in net["arcs"])
    s = r.randrange(n)
    if r.random() < 0.6:
        net["arcs"].append([s, s, M.EPS, r.choice(["x", "q"]), r.choice([0.0, 0.5])])
    else:
        net["arcs"].append([s, n, M.EPS, "q", 0.5])
        net["arcs"].append([n, s, M.EPS, M.EPS, 0.0])
    return net


def gen_clock(r, infinite):
    """[cut-off us, tick us, jump at call | -1]"""
    if not infinite and r.random() < 0.2:
        return [0, r.choice([0, 10, 5_000_000]), r.choice([-1, 0, 1, 4])]
    cut = r.choice([1000, 250_000, 3_000_000])
    if infinite or r.random() < 0.3:
        k = r.choice([1, 2, 3, 5, 9, 20, 60, 150])
        if r.random() < 0.5:
            return [cut, max(1, cut // k), -1]
        return [cut, max(1, cut // 400), k]
    return [cut, r.choice([0, 1]), r.choice([-1, -1, 1, 2, 3, 4, 6, 10])]


def gen(r, tier):
    c = r.random()
    if c < 0.62:
        nets = []
        for _ in range(r.choice([1, 1, 2])):
            inf = r.random() < 0.3
            nets.append([r.choice(["ol", "olw"]), loop_net(r) if inf else r.choice([ambiguous_net, ambiguous_net, c07.gen_net])(r)])
        plan = {"mode": "lib", "nets": nets, "cfg": soft_cfg(r), "ops": []}
        for _ in range(r.choice([1, 2, 4, 6])):
            t = r.randrange(len(nets))
            inf = c04.input_eps_cycle(nets[t][1])
            w = r.choice(c04.words_of(r, nets[t][1], 3) + ["a" * r.randint(1, 6), "aab", "ab"])
            plan["ops"].append([t, r.choice(["lookup", "lookups", "lookup_fd", "lookup_fds", "lookup_pairs"]), r.choice([-1, -1, -1, 2, 5]), w] + gen_clock(r, inf) +
                               [r.choice([0, 100, 10_000_000])])
        return plan
    if c < 0.94:
        tool = r.choice(["lookup", "lookup", "flookup", "optimized-lookup"])
        inf = tool != "optimized-lookup" and r.random() < 0.3
        typ = r.choice(["ol", "olw", "ol", "olw", "tropical", "foma"]) if tool != "flookup" else r.choice(["tropical", "foma"])
        if tool == "optimized-lookup":
            typ = r.choice(["ol", "olw"])
        net = loop_net(r) if inf else ambiguous_net(r)
        if tool == "flookup":
            net = M.invert(net)
        plan = {"mode": "tool", "tool": tool, "nets": [["/v/in.hfst", typ, [net]]], "opts": r.choice([[], [], ["-n", "3"]]) if tool != "flookup" else [],
                "cfg": soft_cfg(r), "lines": []}
        if tool == "lookup" and r.random() < 0.3:
            plan["opts"] = plan["opts"] + ["-X", "print-pairs"]
        cut = r.choice([1000, 250_000, 3_000_000])
        plan["cut"] = cut
        for _ in range(r.choice([1, 2, 3, 5])):
            g = gen_clock(r, inf)
            while g[0] == 0:
                g = gen_clock(r, inf)
            # in the formats that are not optimized, hfst-lookup and hfst-flookup follow each cycle up to five times instead: exponential in the length
            short = inf and typ not in ("ol", "olw")
            plan["lines"].append([r.choice(["a" * r.randint(1, 2 if short else 6), "ab" if short else "aab", "ab", "b", "q"])] + [max(1, g[1] * cut // g[0]) if g[1] > 0 else 0, g[2]])
        return plan
    heavy = r.choice(["optimized-lookup", "optimized-lookup-flags", "pmatch", "pmatch-locate", "tokenize", "tokenize", "library"])
    plan = {"mode": "heavy", "what": heavy, "weights": r.random() < 0.5, "uniq": r.random() < 0.4, "cfg": {"max_steps": 100000}, "cut": 250_000,
            "lines": [r.choice(["a", "ab", "aab", "b"]) for _ in range(r.randint(1, 2))]}
    k = r.randint(0, len(plan["lines"]))
    plan["lines"].insert(k, "a" * 14)
    plan["jump"] = r.choice([1, 1, 2, -1])
    if heavy == "tokenize":
        plan["opts"] = ["-n"] + r.choice([[], ["-x"], ["-c"], ["-f"]])
    if heavy == "library":
        if plan["jump"] < 0:
            plan["jump"] = 1
        plan["ops"] = [[r.choice("ml"), w, 1 if len(w) > 10 else r.choice([0, 1])] for w in plan["lines"]]
    return plan


class Clock:
    """The simulated clock; counts the calls of the lookup in progress."""
    def __init__(self, sim):
        self.sim, self.now, self.tick, self.jump, self.cut = sim, 7_000_000, 0, -1, 0
        self.begin(0, 0, -1)
        sim.clock_fn = self.read

    def begin(self, cut, tick, jump, pause=0):
        self.now += pause
        self.cut, self.tick, self.jump = cut, tick, jump
        self.first = self.last = None
        self.calls = self.before = self.after = 0

    def read(self, node, kind):
        if self.first is not None:
            self.now += self.tick
        if self.calls == self.jump:
            self.now += 40_000_000
            self.sim.fire("clock_jump")
        if self.first is None:
            self.first = self.now
        self.last = self.now
        self.calls += 1
        if self.expired():
            self.after += 1
            if self.after == 1:
                self.sim.fire("time_ran_out")
        else:
            self.before += 1
        return self.now

    def expired(self):
        return self.cut > 0 and self.first is not None and self.last - self.first > self.cut

    def margin(self):
        """The time used is not so near the limit that rounding decides."""
        return self.first is None or abs(self.last - self.first - self.cut) > 2

    def bound(self, net):
        out = {}
        for a in net["arcs"]:
            out[a[0]] = out.get(a[0], 0) + 1
        return (self.before + 2) * (max([1] + list(out.values())) + 1) + 50


def accepts(net, toks, outs):
    """Least weight of a path with this input and this output (without flags), or None."""
    known = {x for s, t, i, o, w in net["arcs"] for x in (i, o)} | set(net.get("syms", []))
    best = {(0, 0, 0): 0.0}
    work = [(0, 0, 0)]
    fin = M.finals_of(net)
    while work:
        c = work.pop(0)
        s, i, j = c
        for a, t, x, y, w in net["arcs"]:
            if a != s:
                continue
            i2, j2 = i, j
            if x != M.EPS:
                if i == len(toks) or not (x == toks[i] or x in (M.IDE, M.UNK) and toks[i] not in known):
                    continue
                i2 += 1
            if y != M.EPS:
                if j == len(outs) or (toks[i] if y == M.IDE else y) != outs[j]:
                    continue
                j2 += 1
            d, v = (t, i2, j2), best[c] + w
            if d not in best or v < best[d] - 1e-6:
                best[d] = v
                work.append(d)
    v = [w + fin[s] for (s, i, j), w in best.items() if i == len(toks) and j == len(outs) and s in fin]
    return min(v) if v else None


def check(ctx, plan):
    return {"lib": check_lib, "tool": check_tool, "heavy": check_heavy}[plan["mode"]](ctx, plan)


def check_lib(ctx, plan):
    s = ctx.sim(dict(plan["cfg"], max_steps=60000))
    clk = Clock(s)
    verdict = []

    def script():
        for t, (typ, net) in enumerate(plan["nets"]):
            r = yield M.mk("T%d" % t, "tropical", net)
            r = yield "un\tT%d\tconvert\t%s" % (t, typ)
            if r[0] != "ok":
                return verdict.append(("setup", str(r)))
        for op in plan["ops"]:
            t, fn, lim, w, cut, tick, jump, pause = op
            net = plan["nets"][t][1]
            toks = M.tokenize(net, w)
            arg = "".join("\t" + M.enc(x) for x in toks) if fn in ("lookup", "lookup_fd") else "\t" + M.enc(w)
            clk.begin(cut, tick, jump, pause)
            r = yield "%s\tT%d\t%d\t%s%s" % (fn, t, lim, repr(cut / 1e6), arg)
            e = lookup_error(ctx, plan, op, clk, r)
            if e:
                return verdict.append(e)
        verdict.append(None)
    n = s.client([], name="lookups")
    drive(n, script())
    try:
        s.run()
    except S.Stuck as e:
        return ctx.bad("no-end:lib", "%s: clock calls before %d, after %d: %s" % (plan["ops"], clk.before, clk.after, e))
    ctx.nontrivial = bool(s.fired.get("time_ran_out"))
    if died(n):
        return ctx.bad("died:lib", "%s: %s" % (plan["ops"], n.outcome()))
    if not verdict:
        return ctx.bad("failed:lib", "%s: %s" % (plan["ops"], n.outcome()))
    if verdict[0]:
        ctx.bad("%s:lib" % verdict[0][0], verdict[0][1])


def lookup_error(ctx, plan, op, clk, r):
    t, fn, lim, w, cut, tick, jump, pause = op
    typ, net = plan["nets"][t]
    if r[0] != "ok":
        return "failed", "%s: %s" % (op, r)
    if clk.after > clk.bound(net):
        return "late", "%s: went on for %d clock calls after the time was used up (%d before)" % (op, clk.after, clk.before)
    toks = M.tokenize(net, w)
    weights = typ == "olw"
    got = parse_paths2(r[1]) if fn == "lookup_pairs" else parse_paths1(r[1])

    def rnd(x):
        return round(x, 3) if weights else 0.0
    if fn == "lookup_pairs":
        got = {(rnd(x), M.out_side(p)) for x, p in got}
    else:
        got = {(rnd(x), tuple(o for o in p if o not in (M.EPS, "") and M.flag(o) is None)) for x, p in got}
    if any(M.UNK in a[2:4] for a in net["arcs"]):
        return None
    m = M.lookup_paths(net, toks)
    if m is None:
        if any(M.flag(a[2]) for a in net["arcs"]):
            return None
        for x, p in sorted(got)[:5]:
            v = accepts(net, toks, p)
            if v is None or weights and v > x + 1e-3:
                return "wrong", "%s: result %s is not a path (best %s)" % (op, (x, p), v)
        return None
    full = {(rnd(x), M.out_side(p)) for x, p in m}
    if not got <= full:
        return "wrong", "%s: results %s are not paths" % (op, sorted(got - full))
    if lim >= 0 and len(m) > lim:
        if len(got) > lim:
            return "limit", "%s: %d results" % (op, len(got))
        return None
    if got != full and not (clk.expired() or not clk.margin()):
        return "missing", "%s: results %s are missing although the time (%s us of %s) was not used up" % \
            (op, sorted(full - got), None if clk.first is None else clk.last - clk.first, cut)
    ctx.sims["main"].probe("complete" if got == full else "cut")
    return None


def feed_lines(s, clk, plan, lines, marks, node_ref):
    """A pipe that delivers one line whenever the tool waits, and starts its share of the clock."""
    pipe = S.Pipe("stdin")
    state = {"k": 0}

    def feed():
        k = state["k"]
        if k:
            marks.append((len(node_ref[0].stdout), clk.before, clk.after, clk.expired(), clk.margin(), clk.bound(plan["nets"][0][2][0]) if plan.get("nets") else 0))
        if k >= len(lines):
            return None
        state["k"] = k + 1
        w, tick, jump = lines[k]
        clk.begin(plan["cut"], tick, jump, 1000)
        return w.encode() + b"\n"
    pipe.feed = feed
    return pipe


def run_lines(ctx, s, plan, argv, files, lines, clk):
    for p, d in files.items():
        s.fs[p] = bytearray(d)
    marks, ref = [], []
    pipe = feed_lines(s, clk, plan, lines, marks, ref)
    n = s.spawn(argv[0], argv, stdin=pipe)
    ref.append(n)
    s.run()
    return n, marks


def blocks_of(n, marks):
    out, at = [], 0
    for m in marks:
        out.append(bytes(n.stdout)[at:m[0]])
        at = m[0]
    return out


def tool_argv(plan, cut):
    t = plan["tool"]
    return (["hfst-" + t] + plan["opts"] + (["-t", repr(plan["cut"] / 1e6)] if cut else []) +
            (["-i", "/v/in.hfst"] if t == "lookup" else ["/v/in.hfst"]))


def check_tool(ctx, plan):
    files = zoo.prepare(ctx, {"nets": plan["nets"], "texts": {}})
    if files is None:
        return
    s = ctx.sim(dict(plan["cfg"], max_steps=60000))
    clk = Clock(s)
    argv = tool_argv(plan, True)
    words = [l[0] for l in plan["lines"]]
    try:
        n, marks = run_lines(ctx, s, plan, argv, files, plan["lines"], clk)
    except S.Stuck as e:
        return ctx.bad("no-end:" + plan["tool"], "%s on %s: %s" % (argv, plan["lines"], e))
    ctx.nontrivial = bool(s.fired.get("time_ran_out"))
    if n.outcome() != "exit:0":
        if exploded(n):
            ctx.nontrivial = False
            return
        return ctx.bad("died:" + plan["tool"], "%s on %s: %s %s" % (argv, plan["lines"], n.outcome(), bytes(n.stderr)[-200:]))
    if len(marks) != len(words):
        return ctx.bad("lines:" + plan["tool"], "%s on %s: took %d lines" % (argv, words, len(marks)))
    got = blocks_of(n, marks)
    net = plan["nets"][0][2][0]
    finite = not c04.input_eps_cycle(M.invert(net) if plan["tool"] == "flookup" else net)
    full = {}
    for k, w in enumerate(words):
        if marks[k][2] > marks[k][5]:
            return ctx.bad("late:" + plan["tool"], "%s on %s, line %d: went on for %d clock calls after the time was used up" % (argv, plan["lines"], k, marks[k][2]))
        if not finite:
            continue
        if w not in full:
            f = ctx.sim({"perturb": False, "max_steps": 200000}, "full")
            for p, d in files.items():
                f.fs[p] = bytearray(d)
            m = f.spawn("hfst-" + plan["tool"], tool_argv(plan, False), stdin=w.encode() + b"\n")
            f.run()
            if m.outcome() != "exit:0":
                return ctx.bad("failed:" + plan["tool"], "%s on %r: %s" % (tool_argv(plan, False), w, m.outcome()))
            full[w] = bytes(m.stdout)
        if got[k] == full[w]:
            s.probe("complete")
            continue
        if not marks[k][3] and marks[k][4]:
            return ctx.bad("missing:" + plan["tool"], "%s on %s, line %d: %r, but %r without the cut-off, and the time was not used up" % (argv, plan["lines"], k, got[k], full[w]))
        s.probe("cut")
        if "-n" in plan["opts"]:
            continue
        a, b = set(got[k].split(b"\n")), set(full[w].split(b"\n"))
        extra = [x for x in a - b if not (b"+?" in x or b"inf" in x)]
        if extra:
            return ctx.bad("wrong:" + plan["tool"], "%s on %s, line %d: %r, not among the answers without the cut-off %r" % (argv, plan["lines"], k, extra[:3], full[w]))


HEAVY = {"ol": {"arcs": [[0, 0, "a", "x", 0.0], [0, 0, "a", "y", 0.0], [0, 0, "a", "z", 0.5], [0, 1, "b", "b", 0.0]], "finals": [[1, 0.5]], "syms": []},
         "flags": {"arcs": [[0, 0, "a", "x", 0.0], [0, 0, "a", "y", 0.0], [0, 0, "a", "z", 0.5], [0, 1, "@P.F.x@", "@P.F.x@", 0.0], [1, 2, "b", "b", 0.0]],
                   "finals": [[2, 0.5]], "syms": []}}
HEAVY_PM = 'Define TOP [ [ a:x | a:y | a:z ]* b | a ] EndTag(A) ;\n'


def check_heavy_lib(ctx, plan):
    """A sequence of matches in one PmatchContainer; the time runs out in the one with the long input."""
    c04.SCRIPTS["heavy"] = [HEAVY_PM]
    files = c04.prepare(ctx, {"tool": "heavy", "script": 0})
    if files is None:
        return
    s = ctx.sim(plan["cfg"])
    clk = Clock(s)
    for p, d in files.items():
        s.fs[p] = bytearray(d)
    verdict = []

    def call(op, cut):
        return "pm_%s\tpm\t%s\t%s" % ("match" if op[0] == "m" else "locate", M.enc(op[1]), cut)

    def script():
        yield "pm_load\tpm\t" + M.enc("/v/in.hfst")
        for op in plan["ops"]:
            clk.begin(250_000 if op[2] else 0, 0, plan["jump"] if len(op[1]) > 10 else -1, 1000)
            r = yield call(op, "0.25" if op[2] else "0")
            if r[0] != "ok":
                return verdict.append(("failed", "%s: %s" % (op, r)))
            if clk.after > 2:
                return verdict.append(("late", "%s: went on for %d clock calls after the time was used up" % (op, clk.after)))
            if clk.expired():
                s.probe("cut")
                continue
            f = ctx.sim({"perturb": False}, "full")
            for p, d in files.items():
                f.fs[p] = bytearray(d)
            got = []

            def alone():
                yield "pm_load\tpm\t" + M.enc("/v/in.hfst")
                got.append((yield call(op, "0")))
            drive(f.client([], name="alone"), alone())
            f.run()
            if not got or got[0] != r:
                return verdict.append(("missing", "%s: %s in %s, but %s alone and without a cut-off" % (op, r, plan["ops"], got)))
            s.probe("complete")
        verdict.append(None)
    n = s.client([], name="matches")
    drive(n, script())
    s.run()
    ctx.nontrivial = bool(s.fired.get("time_ran_out"))
    if died(n) or not verdict:
        return ctx.bad("died:pmatch-lib", "%s: %s" % (plan["ops"], n.outcome()))
    if verdict[0]:
        ctx.bad("%s:pmatch-lib" % verdict[0][0], verdict[0][1])


def check_heavy(ctx, plan):
    if plan["what"] == "library":
        return check_heavy_lib(ctx, plan)
    s = ctx.sim(plan["cfg"])
    clk = Clock(s)
    lines = [[w, 0, plan["jump"] if len(w) > 10 else -1] for w in plan["lines"]]
    if plan["what"] in ("pmatch", "pmatch-locate", "tokenize"):
        c04.SCRIPTS["heavy"] = [HEAVY_PM]
        files = c04.prepare(ctx, {"tool": "heavy", "script": 0})
        argv = {"pmatch": ["hfst-pmatch", "-n"], "pmatch-locate": ["hfst-pmatch", "-n", "-l", "-w"], "tokenize": ["hfst-tokenize"] + plan.get("opts", [])}[plan["what"]]
        argv = argv + ["/v/in.hfst"]
    else:
        files = zoo.prepare(ctx, {"nets": [["/v/in.hfst", "olw" if plan["weights"] else "ol", [HEAVY["flags" if "flags" in plan["what"] else "ol"]]]], "texts": {}})
        argv = ["hfst-optimized-lookup"] + (["-u"] if plan["uniq"] else []) + ["/v/in.hfst"]
    if files is None:
        return
    full = argv[:1] + ["-t", "0.25"] + argv[1:]
    what = argv[0][5:]
    if plan["jump"] < 0:
        lines = [l for l in lines if len(l[0]) < 10] or [["ab", 0, -1]]
    n, marks = run_lines(ctx, s, plan, full, files, lines, clk)
    ctx.nontrivial = bool(s.fired.get("time_ran_out"))
    if n.outcome() != "exit:0":
        return ctx.bad("died:" + what, "%s on %s: %s" % (full, lines, n.outcome()))
    got = blocks_of(n, marks)
    if len(got) != len(lines):
        return ctx.bad("lines:" + what, "%s on %s: took %d lines" % (full, lines, len(got)))
    for k, l in enumerate(lines):
        if marks[k][2] > 2:
            return ctx.bad("late:" + what, "%s on %s, line %d: went on for %d clock calls after the time was used up" % (full, lines, k, marks[k][2]))
        if len(l[0]) > 10 and marks[k][3]:
            s.probe("cut")
            if what == "tokenize" and plan["opts"] == ["-n"] and got[k].replace(b"\n", b"") != l[0].encode():
                return ctx.bad("text:" + what, "%s on %s, line %d: %r is not the text" % (full, lines, k, got[k]))
            continue
        f = ctx.sim({"perturb": False}, "full")
        for p, d in files.items():
            f.fs[p] = bytearray(d)
        m = f.spawn(argv[0], argv, stdin=l[0].encode() + b"\n")
        f.run()
        if bytes(m.stdout) != got[k]:
            return ctx.bad("missing:" + what, "%s on %s, line %d: %r, but %r without the cut-off" % (full, lines, k, got[k], bytes(m.stdout)))
        s.probe("complete")
