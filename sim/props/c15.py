"""C15: what a tool writes is a function of its input and options."""
import models as M
from props.util import *
from props import zoo, srcs

ID = "C15"
TOOLS = zoo.TOOLS
RUNS = {"quick": 4500, "thorough": 300000}
RULE = ("a plan is one generated command line (stream tools on generated transducers, lookups, compilers on generated sources) and two environments that differ in "
        "what is not input: contents of fresh memory and of the stack, order of addresses, clock, process number, random numbers, pieces in which input arrives and output leaves, buffer sizes; "
        "non-trivial: the tool ended with success and wrote something")
REAL = ["libhfst", "the HFST command line tools: " + ", ".join(t[5:] for t in TOOLS)]
ASSUMES = ["hfst-fst2strings --random, hfst-xfst 'random' commands and hfst-traverse are not run: their results are meant to vary"]


def gen(r, tier):
    if r.random() < 0.45:
        c = {"kind": "source", "nets": [], "texts": {}, "stdin": "", "outs": []}
        t = r.choice(["regexp2fst", "regexp2fst", "lexc", "lexc", "twolc", "pmatch2fst", "calculate", "strings2fst", "xfst", "xfst"])
        f = ["-f", r.choice(["openfst-tropical", "foma", "sfst"])]
        src = {"regexp2fst": lambda: "".join(srcs.xre(r) + " ;\n" for _ in range(r.randint(1, 3))), "lexc": lambda: srcs.lexc(r), "twolc": lambda: srcs.twolc(r),
               "pmatch2fst": lambda: srcs.pmatch(r), "calculate": lambda: srcs.sfst(r), "strings2fst": lambda: srcs.strings(r), "xfst": lambda: srcs.xfst(r)}[t]()
        c["texts"]["/v/src"] = src
        c["argv"] = {"xfst": ["hfst-xfst", "-F", "/v/src"] + r.choice([[], ["-f", "foma"]]), "lexc": ["hfst-lexc"] + r.choice([f, []]) + ["/v/src", "-o", "/v/out"],
                     "pmatch2fst": ["hfst-pmatch2fst", "-i", "/v/src", "-o", "/v/out"], "twolc": ["hfst-twolc", "-i", "/v/src", "-o", "/v/out"],
                     "calculate": ["hfst-calculate"] + f + ["-i", "/v/src", "-o", "/v/out"]}.get(t, ["hfst-" + t] + f + ["-i", "/v/src", "-o", "/v/out"])
    else:
        c = zoo.gen_case(r)
    env = [dict(soft_cfg(r), heap=r.random() < 0.8, pid=r.choice([1, 4242, 99999]), now=r.choice([1_000_000_000_000_000, 1_700_000_000_123_456, 3_000_000, 4_102_444_800_000_000]),
                clock_jump=r.choice([0, 0.2])) for _ in range(2)]
    return {"case": c, "env": env}


def check(ctx, plan):
    c = plan["case"]
    tool = c["argv"][0]
    files = zoo.prepare(ctx, c)
    if files is None:
        return
    res = []
    for k in range(2):
        s = ctx.sim(plan["env"][k], "env%d" % k)
        n, outs = zoo.run_case(s, c, files)
        res.append((n, outs))
    (a, x), (b, y) = res
    s.probe("tool:" + tool)
    if any(n.signalled() and n.outcome() in ("signal:SIGXCPU", "signal:SIGABRT") for n in (a, b)):
        s.probe("gave-up:" + tool)
        ctx.nontrivial = False
        return
    ctx.nontrivial = a.outcome() == "exit:0" and any(x.values())
    if a.outcome() != b.outcome():
        return ctx.bad("exit-differs:" + tool, "%s: %s, and %s in another environment: %s | %s" % (c["argv"], a.outcome(), b.outcome(), bytes(a.stderr)[-200:], bytes(b.stderr)[-200:]))
    for p in sorted(set(x) | set(y)):
        if x.get(p) != y.get(p):
            u, v = x.get(p, b""), y.get(p, b"")
            k = next((i for i, (e, f) in enumerate(zip(u, v)) if e != f), min(len(u), len(v)))
            return ctx.bad("differs:" + tool, "%s: output %s depends on the environment (%d and %d bytes, first difference at %d: %r and %r)" %
                           (c["argv"], p, len(u), len(v), k, u[max(0, k - 20):k + 40], v[max(0, k - 20):k + 40]))
    if bytes(a.stderr) != bytes(b.stderr):
        k = next((i for i, (e, f) in enumerate(zip(a.stderr, b.stderr)) if e != f), 0)
        return ctx.bad("messages-differ:" + tool, "%s: messages depend on the environment: %r and %r" % (c["argv"], bytes(a.stderr)[max(0, k - 30):k + 50], bytes(b.stderr)[max(0, k - 30):k + 50]))
