"""C14: a pipeline of transducer tools applies each operation to each transducer of the stream, in order."""
import copy
import models as M
import algebra as A
import sim as S
from props.util import *
from props import c11
from props.c11 import Skip, need, no_ide, no_unk, determinizable, acyclic

ID = "C14"
STAGES = ["invert", "reverse", "determinize", "minimize", "remove-epsilons", "project", "repeat", "push-weights", "push-labels", "prune-alphabet", "name",
          "edit-metadata", "fst2fst", "head", "tail", "multiply", "reweight", "substitute", "insert-freely", "kill-paths",
          "concatenate", "disjunct", "conjunct", "subtract", "compose", "priority-disjunct", "shuffle", "text", "split"]
TOOLS = sorted({"hfst-" + t for t in STAGES if t != "text"} | {"hfst-fst2txt", "hfst-txt2fst"})
RUNS = {"quick": 9000, "thorough": 400000}
RULE = ("a plan is a stream of transducers and a pipeline of one to four tools with their options and second inputs, run as processes connected by pipes of "
        "generated capacity; faults: a tool of the pipeline killed at any step, a failing read; non-trivial: at least two transducers or two tools")
REAL = ["libhfst", "the command line tools " + ", ".join(TOOLS)]
TYPES = ["tropical", "tropical", "foma", "sfst"]
FMT = {"tropical": "openfst-tropical", "foma": "foma", "sfst": "sfst"}
BINARY = {"concatenate": "concatenate", "disjunct": "disjunct", "conjunct": "intersect", "subtract": "subtract", "compose": "compose",
          "priority-disjunct": "priority_union"}


def gen_stage(r, first, last):
    t = r.choice(STAGES)
    s = {"tool": t, "argv": []}
    if t == "split" and not last:
        t = s["tool"] = "invert"
    if t == "project":
        s["argv"] = ["-p", r.choice(["input", "output"])]
    elif t == "repeat":
        s["argv"] = r.choice([["-f", "1", "-t", "2"], ["-f", "0", "-t", "1"], ["-t", "2"], ["-f", "2"], []])
    elif t == "push-weights":
        s["argv"] = ["-p", r.choice(["initial", "final"])]
    elif t == "push-labels":
        s["argv"] = ["-p", r.choice(["initial", "final"])]
    elif t == "name":
        s["argv"] = ["-n", r.choice(["newname", "ä", "x y"])]
    elif t == "edit-metadata":
        s["argv"] = ["-a", "key=value"]
    elif t == "fst2fst":
        s["argv"] = ["-f", FMT[r.choice(TYPES)]]
    elif t == "head":
        s["argv"] = ["-n", r.choice(["1", "2", "3", "-1", "-2"])]
    elif t == "tail":
        s["argv"] = r.choice([["-n", "1"], ["-n", "2"], ["-n", "3"], ["-n", "+1"], ["-n", "+2"], []])
    elif t == "multiply":
        s["argv"] = ["-n", r.choice(["1", "2", "3"])]
    elif t == "reweight":
        s["argv"] = r.choice([["-S", "a", "-a", "3"], ["-b", "2"], ["-b", "0"], ["-a", "1.5", "-e"], ["-I", "b", "-a", "1"], ["-O", "a", "-a", "0.5"],
                              ["-S", "a", "-a", "1", "-A"], ["-I", "b", "-a", "1", "-A"], ["-O", "a", "-a", "2", "-A"], ["-l", "1", "-a", "2"], ["-u", "1", "-a", "2"], ["-T", "/v/tsv"]])
        if "-T" in s["argv"]:
            s["files"] = {"/v/tsv": "a\t+2\n# comment\n\nc\t3\nb\t+0.5\n"}
    elif t == "substitute":
        c = r.random()
        if c < 0.4:
            s["argv"] = r.choice([["-f", "a", "-t", "b"], ["-f", "b", "-t", "z"], ["-f", "a:a", "-t", "b:c"], ["-f", "a", "-t", "@_EPSILON_SYMBOL_@"]])
            if ":" not in s["argv"][1] and r.random() < 0.2:
                s["argv"].append("--nonsense")      # an option that does not exist: the tool refuses
                s["refused"] = True
        elif c < 0.8:
            s["argv"] = ["-F", "/v/subst"] + r.choice([[], ["--in-order"]])
            s["files"] = {"/v/subst": r.choice(["a\tb\n", "a\tz\nb\ty\n", "a\tb\nb\tc\n", "a:a\tb:c\n", "# x\na\tz\n\nc\tz\n"])}
        else:
            s["argv"] = ["-f", "a", "-T", "/v/to"]
            s["to"] = c11.gen_net(r, False)
    elif t == "insert-freely":
        s["argv"] = ["-a", r.choice(["x:x", "x:y", "a:b"])]
    elif t == "kill-paths":
        s["argv"] = ["-S", r.choice("abc")]
    elif t in BINARY or t == "shuffle":
        s["n"] = r.choice([0, 0, 0, 1, 1, 2, -1])
        s["second"] = []
        s["other_type"] = r.choice(TYPES) if r.random() < 0.2 else None
    elif t == "text":
        s["argv"] = r.choice([["att"], ["att"], ["prolog"]])
    return s


def reweight(net, argv):
    o = {argv[i][1]: argv[i + 1] for i in range(0, len(argv) - 1) if argv[i][0] == "-" and not argv[i + 1].startswith("-")}
    net = {"arcs": list(net["arcs"]), "finals": sorted(M.finals_of(net).items()), "syms": net["syms"]}
    if "T" in o:
        for sym, op, x in (("a", "-a", "2"), ("c", "-b", "3"), ("b", "-a", "0.5")):
            net = reweight(net, ["-S", sym, op, x])
        return net
    add, mul = float(o.get("a", 0)), float(o.get("b", 1))
    lo, hi = float(o.get("l", -1e30)), float(o.get("u", 1e30))

    def f(w):
        return mul * w + add if lo <= w <= hi else w

    def arc(i, out):
        return "-e" not in argv and ("I" not in o or i == o["I"]) and ("O" not in o or out == o["O"]) and ("S" not in o or o["S"] in (i, out))
    fin = "-A" not in argv      # a symbol selects among the arcs; final weights are left out with -A only
    return {"arcs": [[s, t, i, out, f(w) if arc(i, out) else w] for s, t, i, out, w in net["arcs"]],
            "finals": [[s, f(w) if fin else w] for s, w in net["finals"]], "syms": net["syms"]}


def one(st, net, typ, k):
    """What the tool makes of one transducer (the k-th of the stream)."""
    t, argv = st["tool"], st["argv"]
    w = typ == "tropical"
    if t in ("invert", "reverse", "determinize", "minimize", "remove-epsilons", "prune-alphabet"):
        return c11.model_unary(net, typ, t.replace("-", "_"), [])
    if t == "project":
        return c11.model_unary(net, typ, argv[1] + "_project", [])
    if t == "repeat":
        o = dict(zip(argv[::2], argv[1::2]))
        if typ == "foma":
            need(A.known(net))
        need(no_unk(net))
        if "-t" in o:
            return A.times_to(net, int(o.get("-f", 0)), int(o["-t"]))
        return A.concat(A.times(net, int(o.get("-f", 0))), A.star(net))
    if t == "push-weights":
        need(w)
        return net
    if t == "push-labels":
        need(w and acyclic(net) and no_unk(net) and no_ide(net))
        return net
    if t in ("name", "edit-metadata", "split"):
        return net
    if t == "reweight":
        need(w and no_ide(net) and net["arcs"])
        return reweight(net, argv)
    if t == "kill-paths":
        need(no_ide(net) and typ != "foma")
        return {"arcs": [a for a in net["arcs"] if argv[1] not in a[2:4]], "finals": net["finals"], "syms": net["syms"]}
    if t == "insert-freely":
        need(no_unk(net) and no_ide(net))
        return A.insert_freely(net, tuple(argv[1].split(":")))
    if t == "substitute":
        need(no_ide(net))
        if "to" in st:
            need(no_ide(st["to"]) and (typ != "foma" or A.known(st["to"])))     # libfoma merges an empty alphabet wrongly
            return c11.model_binary(net, weightless(st["to"]) if not w else st["to"], typ, "subst_tr", "a")
        if "-F" in argv:
            rules = [l.split("\t") for l in next(iter(st["files"].values())).split("\n") if l and l[0] != "#"]
        else:
            rules = [[argv[1], argv[3]]]
        if ":" in rules[0][0]:
            need(rules[0][0] != rules[0][1])
            return A.substitute_pair(net, tuple(rules[0][0].split(":")), tuple(rules[0][1].split(":")))
        if "-F" in argv and "--in-order" not in argv:
            m = dict(rules)
            return {"arcs": [[s, d, m.get(i, i), m.get(o, o), x] for s, d, i, o, x in net["arcs"]], "finals": net["finals"],
                    "syms": sorted(A.known(net) | set(m.values()))}
        for a, b in rules:
            net = A.substitute(net, a, b, True, True)
        return net
    raise Skip()


def weightless(net):
    return M.strip_weights(net)


def size(net):
    return len(net["arcs"]) + len(net["finals"])


def apply(st, items, typ, r=None):
    """(items, type, fails) after a stage; with r, generates the second stream of a binary stage."""
    t, argv = st["tool"], st["argv"]
    if st.get("refused"):
        return [], typ, True
    if t in ("head", "tail"):
        n = argv[1] if argv else "1"
        k = int(n)
        if t == "head":
            return (items[:k] if k > 0 else items[:k]), typ, False
        return (items[k - 1:] if n[0] == "+" else items[-k:]), typ, False
    if t == "multiply":
        return [x for x in items for _ in range(int(argv[1]))], typ, False
    if t == "fst2fst":
        to = next(k for k in FMT if FMT[k] == argv[1])
        return [x if to == "tropical" else weightless(x) for x in items], to, False
    if t == "text":
        need(items and all(no_ide(x) for x in items))     # the text has no list of known symbols
        if argv == ["prolog"]:
            need(all(x["arcs"] and x["finals"] for x in items))
        return items, typ, False
    if t in BINARY or t == "shuffle":
        if r is not None:
            n = {0: len(items), 1: 1, 2: len(items) + 1, -1: len(items) - 1}[st["n"]]
            st["second"] = [c11.gen_net(r, False) for _ in range(max(1, n))]
            for x in st["second"]:
                if t in ("conjunct", "subtract", "shuffle"):
                    for a in x["arcs"]:
                        a[3] = a[2]
        sec = st["second"]
        t2 = st["other_type"] or typ
        need(t2 == typ or typ == "tropical" or t2 != "tropical")   # the first type is the output type, unless that loses weights
        need(items)
        if typ != "tropical" or t2 != "tropical":
            sec = [weightless(x) for x in sec]
        out = []
        if t == "compose" and len(items) == 1:      # the one tool that lets the first stream be the single one
            return [c11.model_binary(items[0], b, typ, "compose", None) for b in sec], typ, False
        for i, a in enumerate(items):
            b = sec[i] if i < len(sec) and len(sec) > 1 else sec[0] if len(sec) == 1 else None
            if b is None:
                break
            if t == "shuffle":
                need(no_ide(a, b) and A.automaton(a) and A.automaton(b) and acyclic(a) and acyclic(b) and not A.known(a) & A.known(b))
                out.append(A.shuffle(a, b))
            else:
                out.append(c11.model_binary(a, b, typ, BINARY[t], None))
        bad = len(sec) > 1 and len(sec) != len(items) or len(sec) > len(items)
        return out, typ, bad
    return [one(st, x, typ, k) for k, x in enumerate(items)], typ, False


def gen(r, tier):
    while True:
        typ = r.choice(TYPES)
        items = [c11.gen_net(r, False) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
        plan = {"type": typ, "items": items, "stages": [], "cfg": soft_cfg(r), "caps": [r.choice([7, 64, 300, 4096, 65536]) for _ in range(4)],
                "feed": r.choice(["file", "stdin"]), "fault": r.choice([None] * 6 + ["kill", "kill", "read"]), "seed": r.randrange(1 << 30)}
        cur = [weightless(x) if typ != "tropical" else x for x in items]
        n = r.choice([1, 1, 2, 2, 3, 4])
        tries = 0
        while len(plan["stages"]) < n and tries < 30:
            tries += 1
            st = gen_stage(r, not plan["stages"], len(plan["stages"]) == n - 1)
            if st["tool"] == "reweight" and plan["stages"] and st["argv"][:1] != ["-b"] and st["argv"][-1] != "-A":
                continue
            try:
                out, t2, bad = apply(st, cur, typ, r)
            except (Skip, M.TooBig):
                continue
            if any(size(x) > 60 for x in out):
                continue
            for p in list(st.get("files", {})):      # every stage has files of its own
                q = p + str(len(plan["stages"]))
                st["argv"] = [q if a == p else a for a in st["argv"]]
                st["files"][q] = st["files"].pop(p)
            plan["stages"].append(st)
            cur, typ = out, t2
            if bad or not cur:
                break
        if plan["stages"]:
            if plan["fault"] == "kill":
                plan["victim"] = [r.randrange(len(plan["stages"])), r.choice([1, 5, 20, 60, 200])]
            elif plan["fault"] == "read":
                plan["cfg"]["read_eio"] = r.choice([0.02, 0.1])
                plan["cfg"]["only_eio"] = ["/v/in", "stdin", "/v/to"] + ["/v/%s%d" % (p, k) for k in range(4) for p in ("second", "tsv", "subst")]
            return plan


def argvs(plan):
    """[(argv, stage index)] with pipes between consecutive entries; a text stage is two processes."""
    out = []
    typ = plan["type"]
    for k, st in enumerate(plan["stages"]):
        t = st["tool"]
        if t == "text":
            pro = st["argv"] == ["prolog"]
            out.append((["hfst-fst2txt"] + (["-f", "prolog"] if pro else []), k))
            out.append((["hfst-txt2fst", "-f", FMT[typ]] + (["--prolog"] if pro else ["-e", "@0@"]), k))
        elif t in BINARY or t == "shuffle":
            out.append((["hfst-" + t, "-2", "/v/second%d" % k], k))
        elif t == "split":
            out.append((["hfst-split", "-p", "/v/part"], k))
        else:
            out.append((["hfst-" + t] + st["argv"], k))
        if t == "fst2fst":
            typ = next(x for x in FMT if FMT[x] == st["argv"][1])
    return out


def build_stream(path, typ, nets):
    yield "outopen\to\t%s\t%s\t1" % (path, typ)
    for k, n in enumerate(nets):
        yield M.mk("A", typ, n)
        yield "name\tA\tn%d" % k
        yield "outwrite\to\tA"
    yield "outclose\to"


def check(ctx, plan):
    cur, typ = [weightless(x) if plan["type"] != "tropical" else x for x in plan["items"]], plan["type"]
    expect = [(cur, typ)]
    fails = None
    try:
        for k, st in enumerate(plan["stages"]):
            cur, typ, bad = apply(st, cur, typ)
            expect.append((cur, typ))
            if bad:
                fails = k
                break
    except (Skip, M.TooBig, IndexError):    # a minimised plan can be one that is never generated
        ctx.nontrivial = False
        return
    prep = ctx.sim({"perturb": False}, "prep")

    def make():
        yield from build_stream("/v/in", plan["type"], plan["items"])
        t = plan["type"]
        for k, st in enumerate(plan["stages"]):
            if st.get("second"):
                yield from build_stream("/v/second%d" % k, st["other_type"] or t, st["second"])
            if "to" in st:
                yield from build_stream("/v/to", t, [st["to"]])
            if st["tool"] == "fst2fst":
                t = next(x for x in FMT if FMT[x] == st["argv"][1])
    c = prep.client([], name="prep")
    drive(c, make())
    prep.run()
    if died(c):
        return ctx.bad("prepare-failed", c.outcome())
    s = ctx.sim(dict(plan["cfg"], max_steps=1500000))
    for p, d in prep.fs.items():
        s.fs[p] = bytearray(d)
    for st in plan["stages"]:
        for p, t in st.get("files", {}).items():
            s.fs[p] = bytearray(t.encode())
    procs = argvs(plan)
    nodes, pipe = [], None
    for k, (argv, stage) in enumerate(procs):
        lastp = k == len(procs) - 1
        stdin = pipe
        if k == 0:
            stdin = ("file", "/v/in") if plan["feed"] == "stdin" else b""
            if plan["feed"] == "file":
                argv = argv + (["-1", "/v/in"] if "/v/second0" in argv else ["-i", "/v/in"])
        if lastp:
            if argv[0] not in ("hfst-split",):
                argv = argv + ["-o", "/v/out"]
            nodes.append(s.spawn(argv[0], argv, stdin=stdin))
        else:
            pipe = S.Pipe("p%d" % k, cap=plan["caps"][k % 4])
            nodes.append(s.spawn(argv[0], argv, stdin=stdin, stdout=pipe))
    what = " | ".join(" ".join(a) for a, _ in procs)
    victim = None
    if plan["fault"] == "kill":
        victim = nodes[min(plan["victim"][0], len(nodes) - 1)]
        left = [plan["victim"][1]]

        def until():
            left[0] -= 1
            if left[0] <= 0 and victim.status is None:
                s.kill(victim)
                s.fire("killed_tool")
                return True
            return False
        s.run(until)
    s.run()
    for n, (argv, _) in zip(nodes, procs):
        if n is not victim and died(n) and n.outcome() not in ("signal:SIGPIPE", "signal:SIGABRT"):
            return ctx.bad("died:" + argv[0], "%s: %s ended with %s %s" % (what, argv[0], n.outcome(), bytes(n.stderr)[-200:]))
    ctx.nontrivial = len(plan["items"]) > 1 or len(nodes) > 1
    for a, _ in procs:
        s.probe("tool:" + a[0])
    hurt = s.fired.get("killed_tool") or s.fired.get("read_eio")
    last = nodes[-1]
    if not hurt:
        # a reader that needs no more input ends first; its writer then gets SIGPIPE or finishes
        for k, (n, (argv, stage)) in enumerate(zip(nodes, procs)):
            want_fail = fails is not None and stage == fails
            o = n.outcome()
            if want_fail:
                if o == "exit:0":
                    return ctx.bad("not-refused:" + argv[0], "%s: %s accepted what it must refuse" % (what, argv[0]))
            elif o == "signal:SIGPIPE" or o == "exit:1" and fails is not None and stage < fails:
                pass    # the next tool ended first: it needs no more input, or has a problem of its own
            elif o != "exit:0":
                if fails is None and not expect[stage][0]:
                    return      # what a tool makes of an empty stream is its own affair
                if fails is not None and stage > fails:
                    continue
                if o == "exit:1" and k + 1 < len(nodes) and procs[k + 1][0][0] in ("hfst-head",) and nodes[k + 1].outcome() == "exit:0":
                    continue    # head went away, the writer says so
                return ctx.bad("failed:" + argv[0], "%s: %s ended with %s: %s" % (what, argv[0], o, bytes(n.stderr)[-300:]))
        if fails is not None:
            s.probe("refused")
            return
    else:
        for n, (argv, _) in zip(nodes, procs):
            if n.outcome() == "exit:0" and n.read_failed and argv[0] != "hfst-head":
                return ctx.bad("read-error-ignored:" + argv[0], "%s: %s had a read error and ended with exit:0" % (what, argv[0]))
        if last.outcome() != "exit:0":
            return
    items, typ = expect[-1]
    if fails is not None:
        return
    trs = []
    reader = ctx.sim({"perturb": False}, "read")
    for p, d in s.fs.items():
        reader.fs[p] = bytearray(d)
    outs = ["/v/out"] if plan["stages"][-1]["tool"] != "split" else ["/v/part%d.hfst" % (i + 1) for i in range(len(items))]
    if plan["stages"][-1]["tool"] == "split":
        extra = [p for p in s.fs if p.startswith("/v/part") and p not in outs]
        if extra and not hurt:
            return ctx.bad("wrong-count:hfst-split", "%s: unexpected files %s" % (what, extra))
        missing = [p for p in outs if p not in s.fs]
        if missing and not hurt:
            return ctx.bad("wrong-count:hfst-split", "%s: files missing: %s" % (what, missing))
        if hurt:
            return
    got = []

    def reading():
        for p in outs:
            g = []
            yield from read_all("i", p, g)
            got.append(g)
    c = reader.client([], name="reader")
    drive(c, reading())
    reader.run()
    for g in got:
        if g and g[-1][0] in ("open", "eof", "fail") and not (g[-1][0] == "eof" and g[-1][1:] == ("ok", "1")):
            if not items and g[-1][0] == "open":
                continue
            if hurt and not [x for x in g if x[0] == "tr"]:
                continue
            return ctx.bad("unreadable", "%s ended with success, its output cannot be read: %s" % (what, g[-1]))
        trs += [x for x in g if x[0] == "tr"]
    if hurt and any(st["tool"] == "text" for st in plan["stages"]):
        return      # AT&T text has no end mark
    if hurt:
        # the tools that were not hurt must have worked on what they got: a beginning of the stream of the hurt one
        for n in range(max([len(plan["items"])] + [len(e[0]) for e in expect if e[0]]), -1, -1):
            if matches(ctx, plan, n, trs):
                s.probe("cut-pipeline-consistent")
                return
        return ctx.bad("cut-pipeline", "%s: after %s the pipeline ended with success, but its %d transducers are not what any beginning of its input gives" %
                       (what, dict(s.fired), len(trs)))
    if len(trs) != len(items):
        return ctx.bad("wrong-count:" + procs[-1][0][0], "%s: %d transducers expected, %d found" % (what, len(items), len(trs)))
    for k, (want, g) in enumerate(zip(items, trs)):
        if g[2]["type"] != typ:
            return ctx.bad("wrong-type:" + procs[-1][0][0], "%s: transducer %d has type %s, not %s" % (what, k, g[2]["type"], typ))
        try:
            d = A.diff(want, g[1], typ == "tropical")
        except M.TooBig:
            s.probe("too-big")
            continue
        s.probe("compared")
        if d:
            return ctx.bad("relation:" + "|".join(st["tool"] for st in plan["stages"]), "%s: transducer %d of %d is wrong: %s; expected %s, got %s" %
                           (what, k, len(items), d, c11.brief(want), c11.brief(g[1])))
        if plan["stages"][-1]["tool"] == "name" and g[2]["name"] != plan["stages"][-1]["argv"][1]:
            return ctx.bad("name", "%s: transducer %d is called %r" % (what, k, g[2]["name"]))
        if plan["stages"][-1]["tool"] == "edit-metadata" and g[2]["props"].get("key") != "value":
            return ctx.bad("metadata", "%s: transducer %d has properties %r" % (what, k, g[2]["props"]))


def matches(ctx, plan, n, trs):
    """Are the transducers those the pipeline makes when the hurt tool delivered only the first ones?"""
    for at in range(len(plan["stages"]) + 1):
        cur, typ = [weightless(x) if plan["type"] != "tropical" else x for x in plan["items"]], plan["type"]
        try:
            if at == 0:
                cur = cur[:n]
            for k, st in enumerate(plan["stages"]):
                cur, typ, bad = apply(st, cur, typ)
                if at == k + 1:
                    cur = cur[:n]
        except Skip:
            return True
        if len(cur) != len(trs):
            continue
        try:
            if not any(A.diff(w, g[1], typ == "tropical") for w, g in zip(cur, trs)):
                return True
        except M.TooBig:
            return True
    return False
