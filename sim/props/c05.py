"""C05: interactive use: every complete request is answered before the tool waits for more input."""
import sim as S
import models as M
from props.util import *
from props import zoo, c04

ID = "C05"
TOOLS = c04.TOOLS + ["hfst-proc"]
RUNS = {"quick": 10000, "thorough": 300000}
RULE = ("a plan is a lookup tool or text processor with options and a sequence of requests (lines, or NUL-terminated blocks), delivered by a partner "
        "process in seeded pieces; each time the tool waits for input the delivered output is compared with the answers to the complete requests; "
        "non-trivial: the tool waited at least once after a complete request")
REAL = ["libhfst", "hfst-lookup, hfst-flookup, hfst-optimized-lookup, hfst-pmatch, hfst-tokenize, hfst-proc"]

TOK0 = [["--gtd"], ["--gtd", "--superblanks"], ["--superblanks", "--cg"], ["--gtd", "-w"]]
PROC = [["-z"], ["-z", "-p"], ["-z", "-C"], ["-z", "-x"], ["-z", "-N", "1"], ["-z", "-W"], ["-z", "-c"], ["-z", "-w"]]
PIECES = ["cat", "dog", "the", " ", " ", "foo bar", "foo", "xyz", ",", "ab", "cats", "Cat", "DOG", "\n", "a"]


def gen(r, tier):
    if r.random() < 0.6:
        plan = c04.gen(r, tier)
        plan["opts"] = [o for o in plan["opts"] if o not in ("-I", "/v/lines")]
        for k in ("read_eio", "only_eio"):
            plan["cfg"].pop(k, None)
        plan["sep"] = "\n"
    else:
        plan = {"tool": r.choice(["tokenize", "proc"]), "nets": [], "texts": {}, "cfg": soft_cfg(r), "sep": "\0", "end": "\0"}
        if plan["tool"] == "tokenize":
            plan["script"] = 0
            plan["opts"] = r.choice(TOK0)
        else:
            plan["nets"] = [["/v/in.hfst", r.choice(["ol", "olw"]), [proc_lexicon(r)]]]
            plan["opts"] = r.choice(PROC)
        blanks = plan["tool"] == "proc" or "--superblanks" in plan["opts"]
        plan["lines"] = []
        for _ in range(r.choice([1, 2, 3, 5])):
            t = "".join(r.choice(PIECES + (["[<b>]", "[\n]"] if blanks else [])) for _ in range(r.randint(0, 6)))
            plan["lines"].append(t + r.choice(["", "\n", "[]" if blanks else "\n"]))
    plan["pieces"] = [r.choice([0, 1, 2, 3, 5, 20, 1000]) for _ in range(r.randint(1, 6))]
    return plan


def proc_lexicon(r):
    ws = []
    for w in r.sample(["cat", "dog", "the", "ab", "cats", "xyz", "foo bar", "cat the", "-ab"], r.randint(2, 5)):
        for tag in r.sample(["<n>", "<v>", "<adj>"], r.randint(1, 2)):
            ws.append([(c, c) for c in w] + [(M.EPS, tag)])
    return M.chain_net(r, ws)


def check(ctx, plan):
    files = c04.prepare(ctx, plan)
    if files is None:
        return
    lines, sep = plan["lines"], plan["sep"].encode()
    argv = c04.argv_of(plan)
    tool = plan["tool"]
    blocks = {}
    for l in lines:
        if l not in blocks:
            r = ctx.sim({"perturb": False, "max_steps": 200000}, "one")
            m = c04.run_tool(r, plan, files, c04.esc(l) + sep)
            if m.outcome() != "exit:0":
                return ctx.bad("failed:" + tool, "%s on %r alone: %s %s" % (argv, l[:60], m.outcome(), bytes(m.stderr)[-200:]))
            blocks[l] = bytes(m.stdout)
    s = ctx.sim(plan["cfg"])
    for p, d in files.items():
        s.fs[p] = bytearray(d)
    data = sep.join(c04.esc(l) for l in lines) + sep
    ends = [i + 1 for i in range(len(data)) if data[i:i + 1] == sep]
    pos = {"n": 0, "k": 0, "checked": 0}
    pipe = S.Pipe("stdin")

    def feed():
        done = sum(1 for e in ends if e <= pos["n"])
        want = b"".join(blocks[l] for l in lines[:done])
        got = bytes(node.stdout)
        if done:
            pos["checked"] += 1
        if not strip(got).startswith(strip(want)):
            ctx.bad("waits:" + tool, "%s waits for input after %d complete requests of %s but has delivered only %r, expected %r" %
                    (argv, done, c04.short(lines), got[-60:], want[-60:]))
            s.kill(node, "verdict")
            return b""
        if pos["n"] >= len(data):
            return None
        # the partner sends the next piece: a few bytes past the next request boundary at most
        k = plan["pieces"][pos["k"] % len(plan["pieces"])]
        pos["k"] += 1
        nxt = next(e for e in ends if e > pos["n"])
        n = nxt if k == 0 else min(len(data), pos["n"] + k)
        out = data[pos["n"]:n]
        pos["n"] = n
        return out
    pipe.feed = feed
    node = s.spawn("hfst-" + tool, argv, stdin=pipe)
    s.run()
    ctx.nontrivial = pos["checked"] > 0
    s.probe("waits-checked", pos["checked"])
    if ctx.violations:
        return
    if exploded(node):
        ctx.nontrivial = False
        return
    if died(node):
        return ctx.bad("died:" + tool, "%s on %s: %s" % (argv, c04.short(lines), node.outcome()))
    if node.outcome() != "exit:0":
        return ctx.bad("failed:" + tool, "%s on %s: %s %s" % (argv, c04.short(lines), node.outcome(), bytes(node.stderr)[-200:]))
    want = b"".join(blocks[l] for l in lines)
    if strip(bytes(node.stdout)) != strip(want):
        ctx.bad("output:" + tool, "%s on %s: %r, expected %r" % (argv, c04.short(lines), bytes(node.stdout)[-200:], want[-200:]))


def strip(b):
    return b
