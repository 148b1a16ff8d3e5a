#!/usr/bin/env python3
"""Builds the system under simulation from /repo's working tree, out of tree.

  /verif/build/src     mirror of the sources of /repo (generated parsers excluded)
  /verif/build/obj     objects, reused only when the command line and the contents of
                       every file the object was made from are unchanged
  /verif/build/bin     libhfst_sim.so, one .so per command line tool, and the node (zygote)

Nothing is written in /repo.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
SRC, OBJ, BIN = (os.path.join(BUILD, d) for d in ("src", "obj", "bin"))
SUBDIRS = ["libhfst/src", "back-ends/sfst", "back-ends/dlfcn", "tools/src"]
EXT = (".cc", ".h", ".hh", ".hpp", ".c", ".ll", ".yy", ".cpp", ".inc", ".tcc")

GRAMMARS = {  # directory -> (bison grammars, flex scanners)
    "libhfst/src/parsers": (
        ["xre_parse", "pmatch_parse", "lexc-parser", "xfst-parser", "sfst-compiler",
         "htwolcpre1-parser", "htwolcpre2-parser", "htwolcpre3-parser"],
        ["xre_lex", "pmatch_lex", "lexc-lexer", "xfst-lexer", "sfst-scanner",
         "htwolcpre1-lexer", "htwolcpre2-lexer", "htwolcpre3-lexer"]),
}

LIB = {
    "libhfst/src": """HfstApply HfstInputStream HfstTransducer HfstOutputStream HfstRules HfstXeroxRules
        HfstDataTypes HfstSymbolDefs HfstTokenizer HfstFlagDiacritics HfstExceptionDefs
        HarmonizeUnknownAndIdentitySymbols HfstLookupFlagDiacritics HfstEpsilonHandler
        HfstStrings2FstTokenizer HfstPrintDot HfstPrintPCKimmo hfst-string-conversions string-utils""",
    "libhfst/src/implementations": """ConvertTransducerFormat HfstTropicalTransducerTransitionData
        HfstBasicTransition HfstBasicTransducer ConvertSfstTransducer ConvertTropicalWeightTransducer
        ConvertLogWeightTransducer ConvertFomaTransducer ConvertOlTransducer ConvertXfsmTransducer
        compose_intersect/ComposeIntersectRulePair compose_intersect/ComposeIntersectLexicon
        compose_intersect/ComposeIntersectRule compose_intersect/ComposeIntersectFst
        compose_intersect/ComposeIntersectUtilities SfstTransducer TropicalWeightTransducer
        LogWeightTransducer FomaTransducer HfstOlTransducer
        optimized-lookup/transducer optimized-lookup/convert optimized-lookup/ospell
        optimized-lookup/pmatch optimized-lookup/pmatch_tokenize optimized-lookup/find_epsilon_loops""",
    "libhfst/src/parsers": """xre_utils XreCompiler pmatch_utils PmatchCompiler lexc-utils LexcCompiler
        SfstCompiler SfstUtf8 SfstBasic SfstAlphabet xfst-utils XfstCompiler xfst_help_message
        TwolcCompiler commandline_src/CommandLine alphabet_src/Alphabet io_src/InputReader
        string_src/string_manipulation variable_src/RuleSymbolVector variable_src/RuleVariables
        variable_src/RuleVariablesConstIterator variable_src/VariableValues""",
    "back-ends/sfst": "alphabet basic utf8 compact fst operators determinise generate hopcroft",
}
COMMON = ["hfst-program-options", "hfst-commandline", "hfst-tool-metadata"]
PLAIN_TOOLS = """affix-guessify check-alpha compare compose-intersect compose concatenate conjunct determinize
    disjunct dump-alphabets priority-disjunct multiply expand-equivalences edit-metadata eliminate-flags
    format fst2fst fst2strings fst2txt grep head info invert insert-freely kill-paths lookup flookup
    pair-test minimize name pmatch tokenize project prune-alphabet push-labels push-weights realign
    pmatch2fst remove-epsilons repeat reverse reweight shuffle split strings2fst substitute subtract
    summarize tail traverse txt2fst""".split()
TOOLS = {"hfst-" + t: ["tools/src/hfst-" + t] + ["tools/src/" + c for c in COMMON] for t in PLAIN_TOOLS}
C = ["tools/src/" + c for c in COMMON]
TOOLS["hfst-calculate"] = ["tools/src/sfst-main"] + C
TOOLS["hfst-lexc"] = ["tools/src/hfst-lexc-compiler"] + C
TOOLS["hfst-guessify"] = ["tools/src/hfst-guessify", "tools/src/guessify_fst"] + C
TOOLS["hfst-guess"] = ["tools/src/hfst-guess", "tools/src/generate_model_forms", "tools/src/guessify_fst"] + C
TOOLS["hfst-optimized-lookup"] = ["tools/src/hfst-optimized-lookup"]
TOOLS["hfst-regexp2fst"] = ["tools/src/hfst-regexp2fst", "tools/src/hfst-file-to-mem"] + C
TOOLS["hfst-xfst"] = ["tools/src/parsers/hfst-xfst", "tools/src/hfst-file-to-mem"] + C
TOOLS["hfst-twolc"] = ["tools/src/hfst-twolc/src/hfst-twolc"]
TOOLS["hfst-proc"] = ["tools/src/hfst-proc/" + s for s in
    "hfst-proc formatter lookup-path lookup-state tokenizer transducer applicators alphabet".split()]

CXX = "g++"
FLAGS = ("-DHAVE_CONFIG_H -D_GNU_SOURCE -D_USE_MATH_DEFINES -DHFST_SIM -D_GLIBCXX_ASSERTIONS "
         "-msse -msse2 -mfpmath=sse -O1 -g1 -fPIC -w -fno-semantic-interposition").split()
LIBS = "-lfoma -lfst -licui18n -licuuc -licudata -lreadline -lz -lm -lpthread -ldl".split()


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def sha(b):
    return hashlib.sha256(b).hexdigest()


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def mirror():
    want = set()
    for sub in SUBDIRS:
        top = os.path.join(REPO, sub)
        gen = set()
        for d, (ys, ls) in GRAMMARS.items():
            for y in ys:
                gen |= {os.path.join(d, y + e) for e in (".cc", ".hh", ".h", ".c")}
            for l in ls:
                gen.add(os.path.join(d, l + ".cc"))
        for root, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in (".libs", ".deps", "test", "tests", "build"))
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(root, f), REPO)
                if f.endswith(EXT) and rel not in gen:
                    with open(os.path.join(root, f), "rb") as h:
                        put(os.path.join(SRC, rel), h.read())
                    want.add(rel)
    with open(os.path.join(HERE, "config.h"), "rb") as h:
        put(os.path.join(SRC, "config.h"), h.read())
    want.add("config.h")
    for d, (ys, ls) in GRAMMARS.items():
        for y in ys:
            want |= {f"{d}/{y}.cc", f"{d}/{y}.hh", f"{d}/{y}.stamp"}
        for l in ls:
            want |= {f"{d}/{l}.cc", f"{d}/{l}.cc.stamp"}
    for root, dirs, files in os.walk(SRC):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if rel not in want:
                os.unlink(os.path.join(root, f))


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def gen_one(d, name, kind):
    cwd = os.path.join(SRC, d)
    src = name + (".yy" if kind == "y" else ".ll")
    with open(os.path.join(cwd, src), "rb") as f:
        key = sha(f.read())
    stamp = os.path.join(cwd, name + (".stamp" if kind == "y" else ".cc.stamp"))
    try:
        with open(stamp) as f:
            if f.read() == key and os.path.exists(os.path.join(cwd, name + ".cc")):
                return
    except OSError:
        pass
    tmp = os.path.join(BUILD, "gen-" + name + "-" + kind)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    if kind == "y":
        run(["bison", "-y", "-d", "-Wno-yacc", "-Wno-deprecated", os.path.join(cwd, src)], tmp)
        for a, b in (("y.tab.c", ".cc"), ("y.tab.h", ".hh")):
            t = open(os.path.join(tmp, a), encoding="utf-8", errors="surrogateescape").read()
            guard = re.sub(r"[^A-Z0-9]", "_", (name + ".hh").upper())
            t = t.replace("YY_YY_Y_TAB_H_INCLUDED", "YY_" + guard).replace("y.tab.c", name + ".cc").replace("y.tab.h", name + ".hh")
            put(os.path.join(cwd, name + b), t.encode("utf-8", "surrogateescape"))
    else:
        run(["flex", "--outfile=lex.yy.c", os.path.join(cwd, src)], tmp)
        t = open(os.path.join(tmp, "lex.yy.c"), encoding="utf-8", errors="surrogateescape").read()
        put(os.path.join(cwd, name + ".cc"), t.replace('"lex.yy.c"', '"%s.cc"' % name).encode("utf-8", "surrogateescape"))
    shutil.rmtree(tmp)
    with open(stamp, "w") as f:
        f.write(key)


class Compiler:
    def __init__(self):
        self.h = {}

    def hash(self, p):
        if p not in self.h:
            try:
                with open(p, "rb") as f:
                    self.h[p] = sha(f.read())
            except OSError:
                self.h[p] = None
        return self.h[p]

    def compile(self, srcpath, objname, extra=()):
        obj = os.path.join(OBJ, objname + ".o")
        man = os.path.join(OBJ, objname + ".json")
        with open(srcpath, "rb") as f:
            text = f.read()
        std = "c++17" if re.search(rb'#include *<fst/fstlib\.h>', text) else "c++20"
        incs = ["-I" + os.path.join(SRC, d) for d in
                (".", "libhfst/src", "libhfst/src/parsers", "back-ends", "tools/src", "tools/src/parsers")]
        cmd = [CXX] + FLAGS + ["-std=" + std] + list(extra) + incs + ["-c", srcpath]
        key = sha(" ".join(cmd).encode())
        try:
            with open(man) as f:
                m = json.load(f)
            if m["key"] == key and os.path.exists(obj) and all(self.hash(p) == h for p, h in m["deps"].items()):
                return obj, False
        except (OSError, ValueError, KeyError):
            pass
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        run(cmd + ["-MMD", "-MF", obj + ".d", "-o", obj], SRC)
        with open(obj + ".d") as f:
            deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = [os.path.normpath(os.path.join(SRC, p)) for p in deps]
        with open(man, "w") as f:
            json.dump({"key": key, "deps": {p: self.hash(p) for p in deps}}, f)
        return obj, True


def link(out, objs, libs, extra=()):
    outp = os.path.join(BIN, out)
    cmd = [CXX] + list(extra) + ["-o", outp] + objs + libs
    key = sha(json.dumps([cmd] + [sha(open(o, "rb").read()) for o in objs]).encode())
    try:
        with open(outp + ".key") as f:
            if f.read() == key and os.path.exists(outp):
                return
    except OSError:
        pass
    os.makedirs(BIN, exist_ok=True)
    run(cmd, BIN)
    with open(outp + ".key", "w") as f:
        f.write(key)


def main(jobs=None):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    comp = Compiler()
    objs = {}
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        # the two slowest compilations do not depend on generated code: start them first
        todo = []
        for d, names in LIB.items():
            names = names.split()
            if d == "libhfst/src/parsers":
                names += sorted("rule_src/" + f[:-3] for f in os.listdir(os.path.join(SRC, d, "rule_src")) if f.endswith(".cc"))
                names += [n for part in GRAMMARS[d] for n in part]
            todo += [d + "/" + n for n in names]
        tool_objs = sorted({s for v in TOOLS.values() for s in v})
        todo.sort(key=lambda n: (not n.endswith("WeightTransducer") or "Convert" in n))
        futs = {}
        early = [n for n in todo if not n.startswith("libhfst/src/parsers")]
        gens = [ex.submit(gen_one, d, y, "y") for d, (ys, ls) in GRAMMARS.items() for y in ys]
        gens += [ex.submit(gen_one, d, l, "l") for d, (ys, ls) in GRAMMARS.items() for l in ls]
        for n in early[:2]:
            futs[n] = ex.submit(comp.compile, os.path.join(SRC, n + ".cc"), n)
        for g in gens:
            g.result()
        for n in todo + tool_objs:
            if n not in futs:
                if not os.path.exists(os.path.join(SRC, n + ".cc")) and n.endswith("XfsmTransducer"):
                    continue
                futs[n] = ex.submit(comp.compile, os.path.join(SRC, n + ".cc"), n)
        for n in ("node", "client"):
            futs["sim/" + n] = ex.submit(comp.compile, os.path.join(HERE, n + ".cc"), "sim/" + n,
                                           ("-U_FORTIFY_SOURCE", "-fno-builtin") if n == "node" else ())
        ncomp = 0
        for n, f in futs.items():
            objs[n], did = f.result()
            ncomp += did
        link("libhfst_sim.so", [objs[n] for n in todo if n in objs], LIBS,
             ["-shared", "-Wl,-soname,libhfst_sim.so", "-Wl,-z,now"])
        ls = []
        for t, ss in TOOLS.items():
            ls.append(ex.submit(link, t + ".so", [objs[s] for s in ss], ["-L" + BIN, "-lhfst_sim"] + LIBS,
                                ["-shared", "-Wl,-Bsymbolic", "-Wl,-rpath,$ORIGIN", "-Wl,-z,now"]))
        ls.append(ex.submit(link, "hfstsim", [objs["sim/node"], objs["sim/client"]], ["-L" + BIN, "-lhfst_sim"] + LIBS,
                            ["-rdynamic", "-Wl,-rpath,$ORIGIN", "-Wl,-z,now"]))
        for l in ls:
            l.result()
    log("%d compiled, %d objects, %.1f s" % (ncomp, len(objs), time.time() - t0))
    return time.time() - t0


if __name__ == "__main__":
    try:
        main()
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
