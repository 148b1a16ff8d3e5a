"""C04: lookup tools answer every input line exactly once, in order, whatever came before and however the input arrives."""
import unicodedata
import models as M
from props.util import *
from props import zoo

ID = "C04"
TOOLS = ["hfst-lookup", "hfst-flookup", "hfst-optimized-lookup", "hfst-pmatch", "hfst-tokenize", "hfst-pmatch2fst"]
RUNS = {"quick": 10000, "thorough": 300000}
RULE = ("a plan is a lookup tool with options, one or more generated transducers (or a pmatch script) and a sequence of input lines "
        "(repeated, unknown, empty, very long, with odd characters, last one unterminated), fed with a seeded split of reads, buffer sizes and "
        "interrupted calls, sometimes with a read error; non-trivial: at least two lines")
REAL = ["libhfst", "hfst-lookup, hfst-flookup, hfst-optimized-lookup, hfst-pmatch, hfst-tokenize"]

LOOKUP_OPTS = [[], [], ["-q"], ["-p"], ["-O", "cg"], ["-O", "apertium"], ["-b", "1"], ["-n", "2"], ["-X", "print-pairs"], ["-X", "print-space"],
               ["-X", "show-flags"], ["-X", "quote-special"], ["-e", "EPS"], ["-F", "apertium"], ["-F", "spaced"], ["-c", "2"]]
OL_OPTS = [[], ["-w"], ["-u"], ["-x"], ["-n", "2"], ["-b", "1"], ["-f"], ["-e"], ["-w", "-u"], ["-x", "-w"]]
PM_OPTS = [["-n"], ["-n", "-l"], ["-n", "-x"], ["-n", "-l", "-w"], ["-n", "--no-mark-patterns"], ["-n", "--delete-patterns"]]
TOK_OPTS = [["-n"], ["-n", "--xerox"], ["-n", "--cg"], ["--visl"], ["-n", "--finnpos"], ["-n", "-a"], ["-n", "-w", "--xerox"], ["-n", "-u", "--xerox"]]
ODD_LINES = ["", " ", "zzz", "ä€𐐀", "a:b", "\\", "a\\", "[x]", "a[x]b", "@_EPSILON_SYMBOL_@", "+?", "a b", "\t", "0", "a\u0301", "+N", "<a>", "%", "@P.F.V@", "\udcff", "a\udcc3", "\udce4b", "a\udced\udca0\udc80", "\ufeffa", "a\ud7ff"]


def words_of(r, net, k):
    """Random input strings of paths of the net."""
    arcs = {}
    for s, t, i, o, w in net["arcs"]:
        arcs.setdefault(s, []).append((t, i))
    fin = {s for s, w in net["finals"]}
    out = []
    for _ in range(k):
        s, w = 0, []
        for _ in range(r.randint(0, 9)):
            if s in fin and r.random() < 0.3 or s not in arcs:
                break
            s, i = r.choice(arcs[s])
            if i not in M.SPECIAL and not i.startswith("@"):
                w.append(i)
            elif i == M.IDE:
                w.append(r.choice("xyzä"))
        out.append("".join(w))
    return out


def gen_lookup_net(r):
    c = r.random()
    if c < 0.55:
        net = zoo.lexicon(r)
    else:
        net = M.trim(M.gen_net(r, states=r.randint(1, 4), arcs=r.randint(1, 8), syms=["a", "b", "c", "+N", "ä"][:r.randint(2, 5)],
                               eps=0.0 if c < 0.8 else 0.1))
        if input_eps_cycle(net):
            net["arcs"] = [a for a in net["arcs"] if a[2] != M.EPS]
            net = M.trim(net)
    if r.random() < 0.25:
        n = 1 + max([0] + [max(a[0], a[1]) for a in net["arcs"]])
        net["arcs"].append([0, n, M.IDE, M.IDE, 0.5])
        net["finals"].append([n, 0.0])
    if r.random() < 0.15:
        net["arcs"].append([0, 0, "a", "a", 0.0])
    for x in net["arcs"] + net["finals"]:
        x[-1] = min(x[-1], 512.0)       # lookup adds and takes back float weights: keep sums exact
    return net


def input_eps_cycle(net):
    e = {}
    for s, t, i, o, w in net["arcs"]:
        if i == M.EPS or i.startswith("@"):
            e.setdefault(s, set()).add(t)
    for s in e:
        seen, work = set(), [s]
        while work:
            for t in e.get(work.pop(), ()):
                if t == s:
                    return True
                if t not in seen:
                    seen.add(t)
                    work.append(t)
    return False


def input_deterministic(net):
    seen = set()
    for s, t, i, o, w in net["arcs"]:
        if i in M.SPECIAL or (s, i) in seen:
            return False
        seen.add((s, i))
    return True


def gen(r, tier):
    t = r.choice(["lookup", "lookup", "lookup", "optimized-lookup", "optimized-lookup", "flookup", "pmatch", "tokenize"])
    plan = {"tool": t, "nets": [], "texts": {}, "cfg": soft_cfg(r)}
    if t in ("pmatch", "tokenize"):
        plan["script"] = r.randrange(len(SCRIPTS[t]))
        plan["opts"] = r.choice(PM_OPTS if t == "pmatch" else TOK_OPTS)
        pool = ["the cat", "a dog ran", "cat", "the  fox", "run the dog", "foo bar cat", "foo", "dogcat", "xyz!", "cat,dog", "<s>", "the cat the dog"]
    else:
        k = r.choice([1, 1, 1, 2]) if t == "lookup" else 1
        typ = r.choice(M.ALL_TYPES) if t == "lookup" else r.choice(["ol", "olw"]) if t == "optimized-lookup" else r.choice(["tropical", "foma"])
        plan["nets"] = [["/v/in.hfst", typ, [gen_lookup_net(r) for _ in range(k)]]]
        for net in plan["nets"][0][2] if t == "flookup" else []:
            if input_eps_cycle(M.invert(net)):
                net["arcs"] = [[s, q, i, i if o == M.EPS else o, w] for s, q, i, o, w in net["arcs"]]
        plan["opts"] = list(r.choice(OL_OPTS if t == "optimized-lookup" else LOOKUP_OPTS if t == "lookup" else [[], ["-p"], ["-O", "cg"], ["-b", "1"]]))
        if k > 1:
            plan["opts"] += r.choice([[], ["-C", "composition"], ["-C", "priority-union"]])
        if t == "lookup" and r.random() < 0.15:
            plan["opts"] += ["-I", "/v/lines"]
        pool = [w for n in plan["nets"][0][2] for w in words_of(r, n, 6)]
    lines = []
    long_char = "a" if all(input_deterministic(M.invert(n) if plan["tool"] == "flookup" else n) for x in plan["nets"] for n in x[2]) else "z"
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        c = r.random()
        w = r.choice(pool)
        if c < 0.2:
            w = r.choice(ODD_LINES)
        elif c < 0.35 and w:
            i = r.randrange(len(w))
            w = w[:i] + r.choice("abcxyzä+ ") + w[i + 1:]
        elif c < 0.45 and lines:
            w = r.choice(lines)
        elif c < 0.49:
            w = long_char * r.choice([100, 130, 250] if plan["tool"] == "flookup" else [100, 130, 500, 998, 1000, 1100, 4990, 5001, 6000])
        lines.append(w)
    plan["lines"] = lines
    plan["end"] = r.choice(["\n", "\n", "\n", ""])
    plan["eol"] = "\n"
    if r.random() < 0.1:
        plan["cfg"]["read_eio"] = r.choice([0.02, 0.2])
        plan["cfg"]["only_eio"] = ["stdin", "/v/lines"]
    return plan


SCRIPTS = {"pmatch": [zoo.PMATCH, 'Define A {cat} | {dog} ;\nDefine TOP [A EndTag(X)] | [{the} EndTag(D)] ;\n',
                      'Define TOP [Alpha+ EndTag(W)] | [Num+ EndTag(N)] ;\n'],
           "tokenize": [zoo.PMATCH_TOK]}
CACHE = {}


def prepare(ctx, plan):
    key = (plan["tool"], plan.get("script"))
    if plan.get("script") is not None:
        if key not in CACHE:
            c = {"nets": [], "texts": {"/v/p.txt": SCRIPTS[plan["tool"]][plan["script"]]}, "pre": [["hfst-pmatch2fst", "-i", "/v/p.txt", "-o", "/v/in.hfst"]]}
            from run import Ctx
            sub = Ctx(ctx.z, "script")
            files = zoo.prepare(sub, c)
            sub.close()
            if files is None:
                ctx.violations += sub.violations
                return None
            CACHE[key] = {"/v/in.hfst": files["/v/in.hfst"]}
        return CACHE[key]
    return zoo.prepare(ctx, {"nets": plan["nets"], "texts": {}})


def argv_of(plan):
    t = plan["tool"]
    if t == "lookup":
        return ["hfst-lookup"] + plan["opts"] + ["-i", "/v/in.hfst"]
    return ["hfst-" + t] + plan["opts"] + ["/v/in.hfst"]


def run_tool(s, plan, files, text):
    for p, d in files.items():
        s.fs[p] = bytearray(d)
    s.fs["/v/lines"] = bytearray(text)
    n = s.spawn("hfst-" + plan["tool"], argv_of(plan), stdin=b"" if "/v/lines" in plan["opts"] else text)
    s.run()
    return n


def esc(l):
    return l.encode("utf-8", "surrogateescape")


def check(ctx, plan):
    files = prepare(ctx, plan)
    if files is None:
        return
    lines = plan["lines"]
    ctx.nontrivial = len(lines) > 1
    s = ctx.sim(plan["cfg"])
    text = b"\n".join(esc(l) for l in lines) + (b"\n" if lines and lines[-1] == "" else esc(plan["end"]))
    tool = plan["tool"]
    n = run_tool(s, plan, files, text)
    hit = s.fired.get("read_eio")
    if exploded(n) or n.outcome() == "signal:SIGXCPU" and (max(len(l) for l in lines) > 100 or b"infinite results" in n.stderr):  # the lookup that is not optimized takes time cubic in the length
        ctx.nontrivial = False
        return
    if n.signalled():
        return ctx.bad("died:" + tool, "%s on %s: %s %s" % (argv_of(plan), short(lines), n.outcome(), bytes(n.stderr)[-200:]))
    if hit:
        s.probe("read-error")
        if n.outcome() == "exit:0":
            ctx.bad("read-error-ignored:" + tool, "%s: reading the input failed, but the tool ended with success" % argv_of(plan))
        return
    if n.outcome() != "exit:0":
        return ctx.bad("failed:" + tool, "%s on %s: %s %s" % (argv_of(plan), short(lines), n.outcome(), bytes(n.stderr)[-200:]))
    blocks, want = {}, b""
    for l in lines:
        if l not in blocks:
            r = ctx.sim({"perturb": False, "max_steps": 200000}, "one")
            m = run_tool(r, plan, files, esc(l) + b"\n")
            if m.outcome() != "exit:0":
                return ctx.bad("failed:" + tool, "%s on %r alone: %s" % (argv_of(plan), l[:60], m.outcome()))
            blocks[l] = bytes(m.stdout)
        want += blocks[l]
    got = bytes(n.stdout)
    if got != want:
        i = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        return ctx.bad("lines:" + tool, "%s on %s: output differs from the answers to the single lines at byte %d: %r, expected %r" %
                       (argv_of(plan), short(lines), i, got[max(0, i - 20):i + 40], want[max(0, i - 20):i + 40]))
    if tool in ("lookup", "optimized-lookup", "flookup"):
        for l in blocks:
            e = answer_error(plan, l, blocks[l].decode("utf-8", "surrogateescape"))
            if e:
                return ctx.bad("answer:" + tool, "%s, line %r: %s" % (argv_of(plan), l[:80], e))
            s.probe("answers-checked")


def short(lines):
    return [l if len(l) < 50 else "%s... (%d)" % (l[:10], len(l)) for l in lines]


def cg_rows(line, block):
    ls = block.split("\n")
    if ls[0] != '"<%s>"' % line:
        return None
    out = []
    for l in ls[1:]:
        f = l.split("\t")
        if l == "":
            continue
        if len(f) < 2 or f[0] != "" or f[1][:1] != '"' or '"' not in f[1][1:]:
            return None
        b, a = f[1][1:].split('"', 1)
        out.append("%s\t%s\tinf" % (line, line + "+?") if f[-1] == "Inf" else "%s\t%s\t%s" % (line, b + a, f[-1]))
    return "\n".join(out)


def apertium_rows(block):
    block = block.rstrip("\n")
    if block[:1] != "^" or block[-1:] != "$":
        return None
    f = block[1:-1].split("/")
    return "\n".join("%s\t%s" % (f[0], "+?" if x == "*" + f[0] else x) for x in f[1:])


PLAIN_OPTS = ("-q", "-p", "-I", "/v/lines", "-w", "-x", "-O", "cg", "apertium", "-X", "print-space")


def answer_error(plan, line, block):
    """The answers themselves, against the model (plain output format only)."""
    tool = plan["tool"]
    if any(o not in PLAIN_OPTS for o in plan["opts"]) or len(plan["nets"][0][2]) != 1 or len(line) > 60:
        return None
    typ, net = plan["nets"][0][1], plan["nets"][0][2][0]
    if tool == "flookup":
        net = M.invert(net)
    if tool == "optimized-lookup" and any(a[2] == M.IDE for a in net["arcs"]):
        return None     # the stand-alone implementation knows no identity symbol
    if any(0xd800 <= ord(c) < 0xe000 for c in line):
        return None if block.strip() else "no answer"
    if any(c in line for c in "\t\\@\"[]^/$<>") or any(ord(c) < 32 or unicodedata.combining(c) for c in line):
        return None
    if "apertium" in plan["opts"] and len(M.tokenize(net, line)) != len(line):
        return None     # that input format is split into characters
    want = M.answers(net, line, weights=typ in M.WEIGHTED)
    if want is None:
        return None
    if "cg" in plan["opts"]:
        block = cg_rows(line, block)
    elif "apertium" in plan["opts"]:
        block = apertium_rows(block)
    if block is None:
        return "malformed answer"
    rows = [l.split("\t") for l in block.split("\n") if l]
    if "print-space" in plan["opts"]:
        if " " in line:
            return None
        rows = [[x.replace(" ", "") for x in f] for f in rows]
    got = {}
    for f in rows:
        if f[0] != line:
            return "answered for %r" % f[0]
        if len(f) > 1 and f[1] == line + "+?" or f[-1] == "+?" or len(f) > 2 and f[2] == "inf":
            if want:
                return "not found, expected %s" % sorted(want)
            return None
        w = float(f[2]) if len(f) > 2 else None
        if len(f) < 2:
            return "malformed answer %r" % f
        if f[1] not in got or got[f[1]] is None or w is not None and w < got[f[1]]:
            got[f[1]] = w
    if set(got) != set(want):
        return "answers %s, expected %s" % (sorted(got), sorted(want))
    for o in want:
        if got[o] is not None and not M.close(got[o], want[o]):
            return "weight %s of %r, expected %s" % (got[o], o, want[o])
    return None
