"""Command lines of the HFST tools: one generated invocation is a plan

  {"nets": [[path, type, [net, ...]], ...], "texts": {path: text}, "argv": [...], "stdin": "" | ["file", path] | text,
   "outs": [paths written]}

used by the properties that quantify over all tools."""
import models as M
from props.util import *

LEXC = """Multichar_Symbols +N +V +Sg +Pl
LEXICON Root
Nouns ;
Verbs ;
LEXICON Nouns
cat N ;
dog N "weight: 1.5" ;
fox:foxe N ;
LEXICON Verbs
walk V ;
< a b* [c|d] > V ;
LEXICON N
+N+Sg:0 # ;
+N+Pl:s # ;
LEXICON V
+V:0 # ;
END
"""
TWOLC = """Alphabet a b c d e ;
Sets Vowel = a e ; Cons = b c d ;
Rules
"b becomes c between vowels" b:c <=> Vowel: _ Vowel: ;
"a drops before d" a:0 <= _ d: ;
"""
PMATCH = """Define Noun {cat} | {dog} | {fox} ;
Define Det {the} | {a} ;
Define TOP [Det " " Noun] EndTag(NP) | {run} EndTag(V) ;
"""
PMATCH_TOK = """Define words [{cat}:{cat+N} | {dog}:{dog+N} | {the}:{the+D} | {foo bar}:{foo bar+MWE}] ;
Define blank Whitespace | Punct ;
Define morphoword words LC([blank | #]) RC([blank | #]) ;
Define unknownform [ ["a-z"]+ - words.u ] ;
Define unknownwordEmpty unknownform:0 LC([blank | #]) RC([blank | #]) ;
Define TOP [ morphoword | unknownwordEmpty ] EndTag(token) ;
"""
SFST = "ALPHABET = [a-z]\n(cat:dog|b*) {abc}:{d}\n"
XRE = ["a b c ;\n[a|b]* c:d ;\n?* x ;\n", "{cat} | {dog}::2.5 ;\n", "a -> b || c _ d ;\n", "[a:b]+ .o. [b:c]* ;\n"]
XFST = ["regex a b | c ;\nprint net\nsave stack /v/out.xfst\n", "define A {cat} | {dog} ;\nregex A A ;\nwrite att > /v/out.att\nprint words\n",
        "regex [a:b]* c ;\napply up bbc\napply down aac\nwrite prolog > /v/out.pl\n", "regex {foo} ;\nregex {bar} ;\nunion net\nprint size\n"]
WORDS = ["cat", "dog", "cats", "abc", "a", "b", "ab", "xyz", "", "cat+N+Sg", "foxes", "ä", "the cat"]
CYC = dict(acyclic=False)


def lexicon(r, k=None):
    ws = []
    for _ in range(k or r.randint(2, 6)):
        w = [(c, c if r.random() < 0.8 else r.choice("abcd")) for c in r.choice(["cat", "dog", "cab", "ab", "abc", "bad", "a", "dada", "abracadabracadabra"])]
        if r.random() < 0.3:
            w.append((M.EPS, "+N") if r.random() < 0.5 else ("+N", M.EPS))
        ws.append(w)
    return M.chain_net(r, ws)


def some_net(r, acyclic=None):
    if acyclic if acyclic is not None else r.random() < 0.5:
        return lexicon(r)
    return M.trim(M.gen_net(r, states=r.randint(1, 4), syms=M.PLAIN[:r.randint(2, 4)]))


UNARY = {
    "invert": [[]], "reverse": [[]], "determinize": [[]], "minimize": [[]], "remove-epsilons": [[]],
    "project": [["-p", "input"], ["-p", "output"]],
    "repeat": [["-f", "1", "-t", "2"], ["-f", "0"], ["-t", "2"], []],
    "push-weights": [["-p", "initial"], ["-p", "final"]], "push-labels": [["-p", "initial"], ["-p", "final"]],
    "prune-alphabet": [[]], "name": [["-n", "newname"]], "edit-metadata": [["-a", "key=value"]],
    "fst2fst": [["-f", "foma"], ["-f", "sfst"], ["-f", "openfst-log"], ["-f", "openfst-tropical"], ["-f", "olw"], ["-f", "ol"], ["-b", "-f", "foma"]],
    "head": [["-n", "1"], ["-n", "2"]], "tail": [["-n", "1"], ["-n", "2"]],
    "reweight": [["-a", "1.5"], ["-b", "2", "-e"], ["-S", "a", "-a", "3"]],
    "substitute": [["-f", "a", "-t", "b"], ["-f", "a:a", "-t", "b:c"]],
    "eliminate-flags": [[]], "multiply": [["-n", "2"]], "insert-freely": [["-a", "x:x"]], "kill-paths": [["-S", "b"]],
    "affix-guessify": [[]],
}
BINARY = {"compose": [[]], "concatenate": [[]], "conjunct": [[]], "disjunct": [[]], "subtract": [[]], "shuffle": [[]],
          "priority-disjunct": [[]], "compose-intersect": [[]]}
TEXTOUT = {"fst2txt": [[], ["-f", "prolog"], ["-f", "dot"], ["-w"], ["-D"]],
           "fst2strings": [["-n", "20"], ["-c", "1", "-n", "5"], ["-w", "-n", "9"]],
           "summarize": [[], ["-v"]], "dump-alphabets": [[]], "edit-metadata": [["-p"]]}
ALL = (["hfst-" + t for t in list(UNARY) + list(BINARY) + list(TEXTOUT)] +
       ["hfst-" + t for t in "compare check-alpha lookup flookup optimized-lookup proc pmatch tokenize txt2fst strings2fst regexp2fst lexc "
        "twolc pmatch2fst calculate xfst split info format pair-test grep expand-equivalences realign".split()])
TOOLS = sorted(set(ALL))


def gen_case(r, kinds=None):
    kind = r.choice(kinds or ["unary", "unary", "binary", "textout", "textout", "lookup", "lookup", "compile", "compile", "special"])
    c = {"kind": kind, "nets": [], "texts": {}, "stdin": "", "outs": []}
    typ = r.choice(M.ALGEBRA_TYPES)
    named = r.random() < 0.5
    if kind in ("unary", "textout"):
        table = UNARY if kind == "unary" else TEXTOUT
        t = r.choice(sorted(table))
        n = r.choice([1, 1, 2, 3])
        acyclic = True if t == "fst2strings" or t == "affix-guessify" else None
        if t in ("reweight", "affix-guessify", "push-weights") or typ == "log" and t in ("determinize", "repeat", "minimize", "eliminate-flags", "remove-epsilons"):
            typ = "tropical"
        if t in ("push-labels", "affix-guessify"):
            acyclic = True
        c["nets"].append(["/v/in.hfst", typ, [some_net(r, acyclic) for _ in range(n)]])
        c["argv"] = ["hfst-" + t] + r.choice(table[t])
        if r.random() < 0.5:
            c["argv"] += ["-i", "/v/in.hfst"]
        else:
            c["stdin"] = ["file", "/v/in.hfst"]
    elif kind == "binary":
        t = r.choice(sorted(BINARY))
        n = r.choice([1, 1, 2])
        if t == "compose-intersect":
            n = 1
        typ = typ if typ != "log" else "tropical"
        acyclic = True if t in ("shuffle", "compose-intersect") else None
        c["nets"].append(["/v/a.hfst", typ, [some_net(r, acyclic) for _ in range(n)]])
        c["nets"].append(["/v/b.hfst", typ, [some_net(r, acyclic) for _ in range(r.choice([1, n]))]])
        if t == "shuffle":
            for x in c["nets"]:
                x[2] = [M.chain_net(r, [[(a, a)] for a in r.sample("abcd", 2)]) for _ in x[2]]
        if t in ("conjunct", "subtract", "shuffle"):
            for x in c["nets"]:
                for net in x[2]:
                    for a in net["arcs"]:
                        a[3] = a[2]
        if t == "priority-disjunct":  # subtracts, so it determinises; that does not end for some weighted transducers
            for x in c["nets"]:
                for net in x[2]:
                    net["arcs"] = [a[:4] + [0.0] for a in net["arcs"]]
                    net["finals"] = [[f[0], 0.0] for f in net["finals"]]
        c["argv"] = ["hfst-" + t, "-1", "/v/a.hfst", "-2", "/v/b.hfst"]
    elif kind == "lookup":
        t = r.choice(["lookup", "flookup", "optimized-lookup", "proc", "pmatch", "tokenize", "pair-test"])
        words = [r.choice(WORDS) for _ in range(r.randint(1, 8))]
        c["stdin"] = "".join(w + "\n" for w in words)
        if t in ("pmatch", "tokenize"):
            c["texts"]["/v/p.txt"] = PMATCH if t == "pmatch" else PMATCH_TOK
            c["pre"] = [["hfst-pmatch2fst", "-i", "/v/p.txt", "-o", "/v/in.hfst"]]
            c["argv"] = ["hfst-" + t, "/v/in.hfst"] + (r.choice([[], ["--cg"], ["--xerox"], ["--gtd"], ["--visl"], ["--conllu"], ["--finnpos"], ["-i"], ["--gtd", "--superblanks"]]) if t == "tokenize" else [])
        elif t in ("optimized-lookup", "proc"):
            c["nets"].append(["/v/in.hfst", "olw", [lexicon(r)]])
            c["argv"] = ["hfst-" + t] + (r.choice([[], ["-p"], ["-C"], ["-x"]]) if t == "proc" else r.choice([[], ["-w"]])) + ["/v/in.hfst"]
        elif t == "pair-test":
            c["nets"].append(["/v/in.hfst", "tropical", [M.gen_net(r, states=2, arcs=6, syms=["a", "b", "c"], final_p=1.0)]])
            c["texts"]["/v/pairs"] = "".join(" ".join(r.choice(["a", "b", "a:b", "b:c"]) for _ in range(r.randint(1, 3))) + "\n" for _ in range(r.randint(1, 4)))
            c["argv"] = ["hfst-pair-test", "-i", "/v/in.hfst", "-I", "/v/pairs", "-N"]
            c["any_exit"] = True
        else:
            c["nets"].append(["/v/in.hfst", r.choice(["olw", "ol", "tropical", "foma"]) if t == "lookup" else r.choice(["tropical", "foma"]), [lexicon(r)]])
            c["argv"] = ["hfst-" + t] + (r.choice([[], ["-q"], ["-p"]]) if t == "lookup" else [])
            c["argv"] += ["-i", "/v/in.hfst"] if t == "lookup" else ["/v/in.hfst"]
    elif kind == "compile":
        t = r.choice(["txt2fst", "strings2fst", "regexp2fst", "lexc", "twolc", "pmatch2fst", "calculate", "xfst"])
        f = ["-f", r.choice(["tropical", "foma", "sfst"])]
        f = ["-f", {"tropical": "openfst-tropical", "log": "openfst-log"}.get(f[1], f[1])]
        src = {"txt2fst": lambda: att_text(r), "strings2fst": lambda: "".join(w + "\n" for w in r.sample(WORDS[:7], r.randint(1, 5))),
               "regexp2fst": lambda: r.choice(XRE), "lexc": lambda: LEXC, "twolc": lambda: TWOLC,
               "pmatch2fst": lambda: r.choice([PMATCH, PMATCH_TOK]), "calculate": lambda: SFST, "xfst": lambda: r.choice(XFST)}[t]()
        c["texts"]["/v/src"] = src
        if t == "xfst":
            c["argv"] = ["hfst-xfst", "-F", "/v/src"] + r.choice([[], ["-f", "foma"]])
        elif t == "lexc":
            c["argv"] = ["hfst-lexc"] + r.choice([f, []]) + ["/v/src"]
        elif t == "pmatch2fst":
            c["argv"] = ["hfst-pmatch2fst", "-i", "/v/src"]
        elif t == "calculate":
            c["argv"] = ["hfst-calculate"] + f + ["-i", "/v/src"]
        elif t == "twolc":
            c["argv"] = ["hfst-twolc", "-i", "/v/src"]
        else:
            c["argv"] = ["hfst-" + t] + f + (["-e", "0"] if t == "txt2fst" else []) + ["-i", "/v/src"]
    else:
        t = r.choice(["compare", "check-alpha", "split", "format"])
        if t in ("compare", "check-alpha"):
            a = some_net(r)
            typ = typ if typ != "log" else "tropical"
            c["nets"] = [["/v/a.hfst", typ, [a]], ["/v/b.hfst", typ, [a if r.random() < 0.5 else some_net(r)]]]
            c["argv"] = ["hfst-" + t, "-1", "/v/a.hfst", "-2", "/v/b.hfst"]
            c["any_exit"] = True
        elif t == "info":
            c["argv"] = ["hfst-info"]
        elif t == "format":
            c["argv"] = ["hfst-format", "-l"]
        else:
            c["nets"].append(["/v/in.hfst", typ, [some_net(r) for _ in range(r.randint(1, 3))]])
            c["argv"] = ["hfst-split", "-i", "/v/in.hfst", "-p", "/v/part"]
    tool = c["argv"][0]
    if named and tool not in ("hfst-xfst", "hfst-optimized-lookup", "hfst-proc", "hfst-pmatch", "hfst-tokenize", "hfst-split", "hfst-info",
                              "hfst-format", "hfst-flookup"):
        c["argv"] += ["-o", "/v/out"]
    return c


def att_text(r):
    out = []
    for k in range(r.randint(1, 2)):
        net = some_net(r)
        for s, t, i, o, w in net["arcs"]:
            out.append("\t".join([str(s), str(t), i if i != M.EPS else "0", o if o != M.EPS else "0", "%g" % w]))
        for s, w in net["finals"]:
            out.append("%d\t%g" % (s, w))
        out.append("--")
    return "\n".join(out[:-1]) + "\n"


def build_files(nets):
    for path, typ, items in nets:
        yield "outopen\to\t%s\t%s\t1" % (path, typ)
        for k, n in enumerate(items):
            yield M.mk("A", typ, n)
            yield "name\tA\tn%d" % k
            yield "outwrite\to\tA"
        yield "outclose\to"


def prepare(ctx, c, tag="prep"):
    """A fault-free simulation that makes the input files of a case; returns {path: bytes}."""
    s = ctx.sim({"perturb": False}, tag)
    for p, t in c["texts"].items():
        s.fs[p] = bytearray(t.encode())
    if c["nets"]:
        n = s.client([], name="prep")
        drive(n, build_files(c["nets"]))
        s.run()
        if died(n):
            ctx.bad("prepare-failed", "%s %s" % (n.outcome(), bytes(n.stderr)[-200:]))
            return None
    for argv in c.get("pre", []):
        n = s.spawn(argv[0], argv)
        s.run()
        if n.outcome() != "exit:0":
            ctx.bad("prepare-failed", "%s ended with %s: %s" % (argv, n.outcome(), bytes(n.stderr)[-300:]))
            return None
    return {p: bytes(d) for p, d in s.fs.items()}


def run_case(s, c, files):
    """Run the case's tool in simulation s on a copy of the files; returns (node, outputs)."""
    for p, d in files.items():
        s.fs[p] = bytearray(d)
    i = c["stdin"]
    stdin = tuple(i) if isinstance(i, list) else i.encode()
    n = s.spawn(c["argv"][0], c["argv"], stdin=stdin)
    s.run()
    outs = {p: bytes(d) for p, d in s.fs.items() if p not in files or bytes(d) != files[p]}
    outs["stdout"] = bytes(n.stdout)
    return n, outs
