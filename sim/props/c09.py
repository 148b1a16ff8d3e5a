"""C09: what a compiler produces depends on its source alone: not on what the process compiled before, and never on a part of the source."""
import models as M
import algebra as A
from props.util import *
from props import zoo, srcs

ID = "C09"
TOOLS = ["hfst-regexp2fst", "hfst-lexc", "hfst-twolc", "hfst-pmatch2fst", "hfst-xfst", "hfst-calculate", "hfst-strings2fst", "hfst-txt2fst", "hfst-substitute", "hfst-reweight"]
RUNS = {"quick": 3500, "thorough": 200000}
RULE = ("a plan is either a history of operations on several compiler objects of one process (definitions, compilations and failing compilations of regular expressions, lexc, pmatch, twolc and "
        "xfst sources, from text and from files), each result compared with the one a fresh process computes from the successful definitions of that object alone, or the command line of a compiler "
        "with its source files; faults: files that are missing or damaged, fail to open, or fail to read from some byte on; non-trivial: three results compared, or a fault that fired")
REAL = ["libhfst: XreCompiler, LexcCompiler, PmatchCompiler, TwolcCompiler, XfstCompiler", "hfst-regexp2fst, hfst-lexc, hfst-twolc, hfst-pmatch2fst, hfst-xfst, hfst-calculate, hfst-strings2fst, hfst-txt2fst"]
ASSUMES = ["the settings of the compilers that are documented as global (verbosity, error stream, harmonization) are left alone"]

GARBAGE = ["[", "]", "{", "}", "\"", "%", ";", "|", "\n", "<", ">", ":", " .o. ", "LEXICON ", "Define ", "@", "(", ")", "!", "_", "=>", "\t", "ä", "0", "~", "-", "END\n"]
TYPES = ["tropical", "tropical", "foma", "sfst"]
FMT = {"tropical": "openfst-tropical", "foma": "foma", "sfst": "sfst"}


def corrupt(r, t):
    if not t:
        return r.choice(GARBAGE)
    k = r.randrange(len(t))
    c = r.random()
    if c < 0.4:
        return t[:k]
    if c < 0.8:
        return t[:k] + r.choice(GARBAGE) + t[k:]
    return t[:k] + t[k + 1:]


def strings(r):
    out = [r.choice(srcs.WORDS) for _ in range(r.randint(1, 12))]
    if r.random() < 0.1:
        out.insert(r.randrange(len(out)), "ab" * r.choice([400, 499, 500, 501, 600]))
    return "\n".join(out) + r.choice(["\n", ""])


def data_files(r, typ):
    """Files that regular expressions and pmatch scripts include, by kind."""
    f, n = {}, []
    for k in range(r.randint(1, 3)):
        kind = r.choice(["txt", "stxt", "re", "bin", "lexc", "pl", "inc"])
        p = "/v/d%d.%s" % (k, kind)
        if kind == "txt":
            f[p] = strings(r)
        elif kind == "stxt":
            f[p] = "".join(" ".join(r.choice(srcs.WORDS)) + "\n" for _ in range(r.randint(1, 5)))
        elif kind == "re":
            f[p] = srcs.xre(r, 2) + r.choice([";\n", " ;", "\n"])
        elif kind == "lexc":
            f[p] = srcs.lexc(r)
        elif kind == "inc":
            f[p] = "".join("Define I%d {%s} ;\n" % (i, r.choice(srcs.WORDS)) for i in range(r.randint(1, 3)))
        elif kind == "pl":
            f[p] = "network(net).\n" + "".join("symbol(net, \"%s\").\n" % x for x in "xy") + "".join("arc(net, %d, %d, \"%s\").\n" % (i, i + 1, r.choice("abc")) for i in range(r.randint(1, 4))) + \
                "final(net, 1).\n"
        else:
            n.append([p, typ, [M.chain_net(r, [[(c, r.choice([c, "x"])) for c in r.choice(srcs.WORDS)] for _ in range(r.randint(1, 4))])]])
            f[p] = None
    if r.random() < 0.15:
        f["/v/missing.txt"] = f["/v/missing.re"] = False
    return f, n


def reader(r, f, pm):
    p = r.choice(sorted(x for x in f if x.startswith(("/v/d", "/v/m"))) or ["/v/missing.txt"])
    kind = p.rsplit(".", 1)[1]
    if kind == "inc" and not pm or kind == "lexc" and not pm:
        p, kind = "/v/missing.txt", "txt"
    return p, {"txt": '@txt"%s"', "stxt": '@stxt"%s"', "re": '@re"%s"', "bin": '@bin"%s"', "pl": '@pl"%s"', "lexc": '@lexc"%s"', "inc": '@include"%s"'}[kind] % p


def xre_text(r, names, funs, f):
    c = r.random()
    used = []
    if f and c < 0.25:
        p, t = reader(r, f, False)
        used.append(p)
        t = r.choice(["%s", "[%s] " + r.choice("abc"), "[%s | {cat}]"]) % t
    elif funs and c < 0.35:
        n, a = r.choice(funs)
        t = "%s(%s)" % (n, ", ".join(srcs.xre(r, 1, names) for _ in range(a)))
    else:
        t = srcs.xre(r, 3, names)
    t += r.choice([" ;", ";", "", " ; ! done"])
    if r.random() < 0.2:
        t = corrupt(r, t)
    return t, used


def pm_text(r, f):
    inc, used = None, []
    if f and r.random() < 0.5:
        p, t = reader(r, f, True)
        used.append(p)
        inc = t if p.endswith(".inc") else "Define C %s ;" % t
    t = srcs.pmatch(r, inc)
    if inc and r.random() < 0.7:
        t = t.replace("Define TOP [", "Define TOP [%s EndTag(c)] | [" % ("I0" if used[0].endswith(".inc") else "C"), 1)
    if r.random() < 0.2:
        t = corrupt(r, t)
    return t, used


def gen_session(r):
    typ = r.choice(TYPES)
    f, nets = data_files(r, typ)
    objs, steps = {}, []
    kinds = r.choice([["xre", "xre"], ["xre", "lexc"], ["lexc", "lexc"], ["pmc", "xre"], ["pmc", "pmc"], ["xfst", "xre"], ["twolc", "lexc"], ["twolc", "twolc"],
                      ["xre", "lexc", "pmc", "xfst", "twolc"]])
    for k, kind in enumerate(kinds):
        objs["O%d" % k] = [kind, typ if r.random() < 0.7 else r.choice(TYPES), r.choice([0, 0, 0, 1]), r.choice([0, 0, 0, 1]), r.choice(["", "", "/v", "/w"])]
    names = {o: [] for o in objs}
    funs = {o: [] for o in objs}
    nsrc = 0
    for _ in range(r.randint(3, 10)):
        o = r.choice(sorted(objs))
        kind = objs[o][0]
        if kind == "xre":
            c = r.random()
            if c < 0.3:
                n = r.choice(["A", "B", "Cat", "a"])
                t, used = xre_text(r, names[o], funs[o], f)
                steps.append([o, "def", used, n, t])
                names[o] = sorted(set(names[o]) | {n})
            elif c < 0.4:
                n, a = r.choice(["F", "G"]), r.choice([1, 2])
                body = "[" + r.choice(["%s %s", "%s | [%s]*", "%s .o. %s"]) % tuple(r.choice(['"@%s(%d@"' % (n, i + 1) for i in range(a)] + ["a", "b:c"]) for _ in range(2)) + "]"
                steps.append([o, "deff", [], n + "(", a, body])
                funs[o].append((n, a))
            elif c < 0.45:
                steps.append([o, "undef", [], r.choice(["A", "B", "Cat", "a"])])
            elif c < 0.5:
                steps.append([o, "list", [], r.choice(["L", "M"]), r.sample("abcdx", r.randint(1, 3))])
            else:
                t, used = xre_text(r, names[o], funs[o], f)
                steps.append([o, "compile", used, t])
        elif kind == "lexc":
            ps = []
            for _ in range(r.choice([1, 1, 1, 2])):
                c = r.random()
                p = "/v/l%d.lexc" % nsrc
                nsrc += 1
                f[p] = srcs.lexc(r)
                if c < 0.25:
                    f[p] = corrupt(r, f[p])
                elif c < 0.3:
                    f[p] = False
                ps.append(p)
            steps.append([o, r.choice(["run", "run", "value"]), ps, ps])
        elif kind == "pmc":
            t, used = pm_text(r, f)
            if objs[o][4] and r.random() < 0.5:
                t = t.replace('"/v/', '"')
                if objs[o][4] != "/v":
                    used = used + ["?"]
            steps.append([o, "pm", used, t])
        elif kind == "xfst":
            c = r.random()
            if c < 0.5:
                t, used = xre_text(r, names[o], [], f)
                steps.append([o, "line", used, "regex %s;\n" % t.split("!")[0].replace(";", " ")])
            elif c < 0.8:
                n = r.choice(["A", "B", "Cat"])
                t, used = xre_text(r, names[o], [], f)
                steps.append([o, "line", used, "define %s %s;\n" % (n, t.split("!")[0].replace(";", " "))])
                names[o] = sorted(set(names[o]) | {n})
            else:
                steps.append([o, "line", [], r.choice(["union net\n", "concatenate net\n", "invert net\n", "nonsense\n", "define F(X) X X ;\n", "regex F(a b) ;\n", "undefine A\n", "pop stack\n"])])
        else:
            p = "/v/t%d.twolc" % nsrc
            nsrc += 1
            f[p] = srcs.twolc(r)
            if r.random() < 0.25:
                f[p] = corrupt(r, f[p])
            elif r.random() < 0.06:
                f[p] = False
            steps.append([o, "twolc", [p], p])
    for p in list(f):
        if f[p] and r.random() < 0.05 and not p.endswith((".lexc", ".twolc")):
            f[p] = corrupt(r, f[p])
    plan = {"mode": "session", "objs": objs, "steps": steps, "texts": f, "nets": nets, "cfg": soft_cfg(r), "bad": None}
    have = sorted(p for p in f if f[p] or f[p] is None)
    if have and r.random() < 0.45:
        p = r.choice(have)
        plan["bad"] = [p, r.choice(["open", "read", "read", "read"]), r.choice([0, 0, 1, 5, r.randint(0, 60), r.randint(0, 300), 10 ** 6])]
    return plan


def gen_tool(r):
    typ = r.choice(TYPES)
    t = r.choice(["regexp2fst", "lexc", "lexc", "twolc", "pmatch2fst", "xfst", "calculate", "strings2fst", "txt2fst", "substitute", "reweight"])
    f, nets = ({}, []) if t not in ("regexp2fst", "pmatch2fst", "xfst") else data_files(r, typ)
    f = {p: x for p, x in f.items() if x is not False}
    fm = ["-f", FMT[typ]]
    out, stdin, main = ["-o", "/v/out"], "", ["/v/src"]
    if t == "regexp2fst":
        f["/v/src"] = "".join(xre_text(r, (), (), {p: x for p, x in f.items() if not p.endswith((".inc", ".lexc"))})[0].split("!")[0].replace(";", " ") + ";\n" for _ in range(r.randint(1, 3)))
        argv = ["hfst-regexp2fst"] + fm + r.choice([[], ["-j"], ["-l"], ["-S"]])
        if "-l" in argv:
            f["/v/src"] = f["/v/src"].replace(";", "")
    elif t == "lexc":
        f["/v/src"] = srcs.lexc(r)
        if r.random() < 0.3:
            f["/v/src2"] = srcs.lexc(r).split("LEXICON Root\n", 1)[1].split("\n", 1)[1]
            main.append("/v/src2")
        argv = ["hfst-lexc"] + fm + r.choice([[], ["-F"], ["-A"]])
    elif t == "twolc":
        f["/v/src"] = srcs.twolc(r)
        argv = ["hfst-twolc"] + fm
    elif t == "pmatch2fst":
        f["/v/src"] = pm_text(r, f)[0]
        argv = ["hfst-pmatch2fst"]
    elif t == "xfst":
        f["/v/src"] = srcs.xfst(r, "/v/out")
        argv = ["hfst-xfst"] + fm
        out = []
    elif t == "calculate":
        f["/v/src"] = srcs.sfst(r)
        if r.random() < 0.4:
            f["/v/lex"] = "".join(r.choice(srcs.WORDS[:6]) + "\n" for _ in range(r.randint(1, 5)))
            f["/v/src"] = f["/v/src"].rstrip("\n") + ' | "/v/lex"\n'
        if r.random() < 0.3:
            f["/v/inc"] = "$I$ = (a|b) c\n"
            f["/v/src"] = f["/v/src"].replace("\n", '\n#include "/v/inc"\n', 1)
        argv = ["hfst-calculate"] + fm
    elif t == "strings2fst":
        f["/v/src"] = srcs.strings(r) + r.choice(["", "x" * 3000 + "\n"])
        argv = ["hfst-strings2fst"] + fm + r.choice([[], ["-j"]])
        if r.random() < 0.4:
            f["/v/syms"] = "".join(r.choice(["ab", "ca", "+N", "do", "xy"]) + "\n" for _ in range(r.randint(1, 4)))
            argv += ["-m", "/v/syms"]
    elif t == "txt2fst":
        f["/v/src"] = zoo.att_text(r)
        argv = ["hfst-txt2fst"] + fm
    else:
        nets = [["/v/in", "tropical", [M.chain_net(r, [[(c, c) for c in r.choice(srcs.WORDS)] for _ in range(r.randint(1, 5))]) for _ in range(r.randint(1, 2))]]]
        f["/v/in"] = None
        f["/v/src"] = "".join("%s\t%s\n" % (r.choice("abcd") + (":" + r.choice("abcd") if t == "substitute" and r.random() < 0 else ""), r.choice("xyz") if t == "substitute" else r.choice(["1", "0.5", "2"]))
                              for _ in range(r.randint(1, 6)))
        argv = ["hfst-" + t, "-i", "/v/in", "-F" if t == "substitute" else "-T", "/v/src"]
        main = []
    where = "file"
    if main:
        if t == "xfst":
            where = r.choice(["-F", "-F", "-l", "stdin"])
            if where == "-l":
                argv += ["-l", "/v/src"]
                stdin = ""
            elif where == "-F":
                argv += ["-F", "/v/src"]
            else:
                argv += [r.choice(["-r", "-p"])]       # (readline does not tell a failed read from the end)
                stdin = ["file", "/v/src"]
        elif t == "lexc":
            if len(main) == 1 and r.random() < 0.3:
                where, stdin = "stdin", ["file", "/v/src"]
            else:
                argv += main
        else:
            where = r.choice(["-i", "-i", "stdin"])
            if where == "-i":
                argv += ["-i", "/v/src"]
            else:
                stdin = ["file", "/v/src"]
    c = {"nets": nets, "texts": {p: x for p, x in f.items() if x is not None}, "argv": argv + out, "stdin": stdin}
    p = "stdin" if where == "stdin" and r.random() < 0.6 else r.choice(sorted(set(f) - {"/v/in"} - ({"/v/src"} if where == "stdin" else set())) or ["stdin"])
    if where != "stdin" and r.random() < 0.5:
        p = "/v/src"
    plan = {"mode": "tool", "case": c, "cfg": soft_cfg(r), "bad": [p, r.choice(["open", "read", "read", "read", "read"]) if p != "stdin" else "read", r.choice([0, 0, 1, 5, r.randint(0, 60), r.randint(0, 300), 10 ** 6])]}
    n = len(c["texts"].get("/v/src" if p == "stdin" else p, "x" * 300).encode())
    if plan["bad"][2] > n or r.random() < 0.2:
        plan["bad"][2] = n         # the whole source arrives, its end does not
    return plan


def gen(r, tier):
    return gen_session(r) if r.random() < 0.6 else gen_tool(r)


# ---- sessions --------------------------------------------------------------------------------------------------------------
def new_ops(o, spec):
    kind, typ, x, y, inc = spec
    return {"xre": ["xre_new\t%s\t%s" % (o, typ), "xre_expand\t%s\t%d" % (o, 1 - x)], "lexc": ["lexc_new\t%s\t%s\t%d\t%d" % (o, typ, x, y)], "pmc": ["pmc_new\t%s\t%s\t%s" % (o, typ, M.enc(inc))],
            "xfst": ["xfst_new\t%s\t%s" % (o, typ)], "twolc": []}[kind]


def step_gen(o, spec, st, fresh, out):
    """Perform one step; puts [status, {name: net}] in out."""
    verb = st[1]
    nets = {}
    if verb in ("def", "deff", "undef", "list"):
        a = [str(x) for x in st[3:]]
        op = {"def": "xre_def", "deff": "xre_deff", "undef": "xre_undef", "list": "xre_list"}[verb]
        if verb == "list":
            a = [st[3]] + st[4]
        r = yield "\t".join([op, o] + ([M.enc(a[0])] + [M.enc(x) for x in a[1:]] if verb != "deff" else [M.enc(a[0]), a[1], M.enc(a[2])]))
        out.append([r, nets])
        return
    if verb == "compile":
        r = yield "xre_compile\t%s\tV\t%s" % (o, M.enc(st[3]))
        if r == ("ok", ""):
            nets["V"] = (yield "show\tV")[1]
    elif verb == "run":
        r = ("ok", "")
        if not fresh:
            r = yield "lexc_reset\t%s" % o
        for p in st[3]:
            if r[0] == "ok":
                r = yield "lexc_parse\t%s\t%s" % (o, M.enc(p))
        if r[0] == "ok":
            r = yield "lexc_compile\t%s\tV" % o
        if r == ("ok", ""):
            nets["V"] = (yield "show\tV")[1]
    elif verb == "value":
        r = yield "lexc_value\tV\t%s\t%s" % (spec[1], M.enc(st[3][0]))
        if r == ("ok", ""):
            nets["V"] = (yield "show\tV")[1]
    elif verb == "pm":
        r = yield "pmc_compile\t%s\tP\t%s" % (o, M.enc(st[3]))
        if r[0] == "ok":
            for l in r[1].split("\n"):
                if l:
                    nets[l] = (yield "show\tP" + M.dec(l))[1]
            r = ("ok", "" if nets else "null")
    elif verb == "line":
        r = yield "xfst_line\t%s\t%s" % (o, M.enc(st[3]))
        k = yield "xfst_stack\t%s\tS" % o
        for i in range(int(k[1])):
            nets[str(i)] = (yield "show\tS%d" % i)[1]
    else:
        tgt = "/v/twolc.out"
        r = yield "twolc\t%s\t%s\t%s\t%d\t%d" % (M.enc(st[3]), tgt, spec[1], spec[2], spec[3])
        if r == ("ok", "0"):
            g = []
            yield from read_all("i", tgt, g)
            yield "indel\ti"
            nets["status"] = str(g[-1][:3])
            for i, x in enumerate(g):
                if x[0] == "tr":
                    nets[str(i)] = x[1]
    out.append([r, nets])


def failed(st, res):
    (status, val), nets = res
    if status != "ok":
        return True
    v = st[1]
    return v == "def" and val == "0" or v in ("compile", "run", "value", "pm") and val == "null" or v == "twolc" and val != "0"


def different(a, b, weights):
    if sorted(a) != sorted(b):
        return "results %s, expected %s" % (sorted(b), sorted(a))
    for k in sorted(a):
        if a[k] == b[k]:
            continue
        if k == "status":
            return "%s, expected %s" % (b[k], a[k])
        x, y = [M.parse_net(n) if isinstance(n, str) else n for n in (a[k], b[k])]
        try:
            d = A.diff(x, y, weights)
        except M.TooBig:
            continue
        if d:
            return "%s: %s" % (k, d)
        if alpha(x) != alpha(y):
            return "%s: alphabet %s, expected %s" % (k, sorted(alpha(y)), sorted(alpha(x)))
    return None


def died_alone(ctx, files, objs, steps, got):
    """Does the step in which the session died end a fresh process that has only made the definitions of its object, too?"""
    k = min(len(got), len(steps) - 1)
    o = steps[k][0]
    f = ctx.sim({"perturb": False, "max_steps": 200000}, "dead")
    for p, d in files.items():
        f.fs[p] = bytearray(d)

    def ops():
        for x in new_ops(o, objs[o]):
            yield x
        for h, res in zip(steps[:k], got):
            if h[0] == o and h[1] in ("def", "deff", "undef", "list", "line") and not failed(h, res):
                yield from step_gen(o, objs[o], h, True, [])
        yield from step_gen(o, objs[o], steps[k], True, [])
    m = f.client([], name="dead")
    drive(m, ops())
    f.run()
    return died(m) or m.outcome() != "exit:0"


def check_session(ctx, plan):
    c = {"texts": {p: t for p, t in plan["texts"].items() if t}, "nets": plan["nets"]}
    files = zoo.prepare(ctx, c)
    if files is None:
        return
    for p, t in plan["texts"].items():
        if t == "":
            files[p] = b""
    objs, steps, bad = plan["objs"], plan["steps"], plan["bad"]
    s = ctx.sim(dict(plan["cfg"], bad={bad[0]: bad[1:]} if bad else {}))
    for p, d in files.items():
        s.fs[p] = bytearray(d)
    got, marks = [], []

    def ops():
        for o in sorted(objs):
            for x in new_ops(o, objs[o]):
                yield x
        for st in steps:
            n = s.fired.get("bad_open", 0) + s.fired.get("bad_read", 0)
            yield from step_gen(st[0], objs[st[0]], st, False, got)
            marks.append(s.fired.get("bad_open", 0) + s.fired.get("bad_read", 0) > n)
    n = s.client([], name="session")
    drive(n, ops())
    s.run()
    if exploded(n) or n.signalled() and n.outcome() == "signal:SIGXCPU":
        ctx.nontrivial = False
        return
    k0 = len(got)
    if died(n) or n.outcome() != "exit:0":
        st = steps[min(k0, len(steps) - 1)]
        if died_alone(ctx, files, objs, steps, got):
            ctx.nontrivial = False       # it dies of its (damaged) source, whatever happened before
            return
        return ctx.bad("died:" + objs[st[0]][0], "the process ended with %s in step %d (%s) of %s%s: %s" % (n.outcome(), k0, st, steps[:k0], " with %s unreadable" % bad if bad else "", bytes(n.stderr)[-300:]))
    done = {o: [] for o in objs}
    compared = 0
    for k, st in enumerate(steps):
        o, verb, used = st[:3]
        spec = objs[o]
        mine = got[k]
        # the reference: a fresh process, this object, its successful definitions
        want = []
        if verb not in ("deff", "undef", "list"):
            f = ctx.sim({"perturb": False, "max_steps": 200000}, "ref%d" % k)
            for p, d in files.items():
                f.fs[p] = bytearray(d)

            def ref(hist=list(done[o])):
                for x in new_ops(o, spec):
                    yield x
                for h in hist:
                    yield from step_gen(o, spec, h, True, [])
                yield from step_gen(o, spec, st, True, want)
            m = f.client([], name="alone")
            drive(m, ref())
            f.run()
            if exploded(m) or m.signalled() and m.outcome() == "signal:SIGXCPU":
                ctx.nontrivial = False
                return
            if died(m) or m.outcome() != "exit:0" or not want:
                return ctx.bad("died-alone:" + spec[0], "%s alone after %s: %s %s" % (st, done[o], m.outcome(), bytes(m.stderr)[-300:]))
            a, b = failed(st, want[0]), failed(st, mine)
            hit = marks[k]
            where = "step %d %s of %s%s" % (k, st, steps[:k], " with %s unreadable" % bad if bad else "")
            s.probe(("failed:" if b else "compiled:") + verb + ("-fault" if hit else ""))
            if hit and verb == "line":
                done[o] = None
            if b and hit:
                pass
            elif a != b and not (hit and verb == "line"):
                if b:
                    return ctx.bad("refused:" + spec[0], "%s failed (%s) but succeeds in a fresh process" % (where, mine[0]))
                return ctx.bad("accepted:" + spec[0], "%s succeeded but fails in a fresh process (%s)%s" % (where, want[0][0], ", although its source could not be read" if hit else ""))
            elif not (hit and verb == "line"):
                if not b or verb == "line":
                    d = different(want[0][1], mine[1], spec[1] == "tropical")
                    if d:
                        return ctx.bad(("part:" if hit else "history:") + spec[0], "%s: %s (in a fresh process the expected one)" % (where, d))
                    if want[0][0] != mine[0]:
                        return ctx.bad("result:" + spec[0], "%s returned %s, in a fresh process %s" % (where, mine[0], want[0][0]))
                compared += 1
        if done[o] is None:
            # what an xfst session does after a file it could not read is the concern of C10
            steps = [x if x[0] != o else None for x in steps]
            return
        if verb in ("def", "deff", "undef", "list", "line") and not failed(st, mine):
            done[o].append(st)
    ctx.nontrivial = compared >= 3


# ---- tools -----------------------------------------------------------------------------------------------------------------
def check_tool(ctx, plan):
    c, bad = plan["case"], plan["bad"]
    files = zoo.prepare(ctx, c)
    if files is None:
        return
    r = ctx.sim({"perturb": False, "max_steps": 400000}, "healthy")
    a, want = zoo.run_case(r, c, files)
    s = ctx.sim(dict(plan["cfg"], bad={bad[0]: bad[1:]}, max_steps=400000))
    b, got = zoo.run_case(s, c, files)
    if any(x.outcome() in ("signal:SIGXCPU",) or exploded(x) for x in (a, b)):
        ctx.nontrivial = False
        return
    tool = c["argv"][0]
    hit = [k for k in s.fired if k.startswith("bad_")]
    ctx.nontrivial = bool(hit)
    if died(a):
        return ctx.bad("died:" + tool, "%s ended with %s: %s" % (c["argv"], a.outcome(), bytes(a.stderr)[-300:]))
    if died(b):
        return ctx.bad("died-fault:" + tool, "%s with %s unreadable ended with %s: %s" % (c["argv"], bad, b.outcome(), bytes(b.stderr)[-300:]))
    s.probe("%s:%s:%s" % (tool, hit[0] if hit else "clean", "exit0" if b.outcome() == "exit:0" else "failed"))
    if hit and a.outcome() == "exit:0" and b.outcome() == "exit:0" and want != got:
        p = next(p for p in sorted(set(want) | set(got)) if want.get(p) != got.get(p))
        return ctx.bad("part:" + tool, "%s reports success although %s could not be read: %s has %r, from the complete source %r; messages %s" %
                       (c["argv"], bad, p, got.get(p, b"")[-80:], want.get(p, b"")[-80:], bytes(b.stderr)[-200:]))
    if hit and a.outcome() != "exit:0" and b.outcome() == "exit:0":
        return ctx.bad("part-accepted:" + tool, "%s reports success although %s could not be read; from the complete source it fails: %s" % (c["argv"], bad, bytes(a.stderr)[-200:]))
    if not hit and (a.outcome() != b.outcome() or want != got):
        return ctx.bad("unstable:" + tool, "%s: %s, in pieces %s" % (c["argv"], a.outcome(), b.outcome()))


def check(ctx, plan):
    (check_session if plan["mode"] == "session" else check_tool)(ctx, plan)
