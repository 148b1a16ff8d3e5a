"""C10: an xfst session follows the stack machine it documents; a command that fails changes nothing."""
import re
import models as M
import algebra as A
from props.util import *
from props import c11
from props.c11 import Skip, need, determinizable, acyclic

ID = "C10"
TOOLS = ["hfst-xfst"]
RUNS = {"quick": 10000, "thorough": 400000}
RULE = ("a plan is a history of commands for hfst-xfst (regular expressions, definitions, functions, stack commands, unary and n-ary operations, substitutions, tests, "
        "printing, applying, saving and loading networks, text files), given as a script, by pipe, line by line or with -e; the stack is saved after every command and compared with a "
        "model; faults: files that are missing, damaged or fail to open, read, write or close, commands that must fail, a crash of the session at any step followed by a new session "
        "that loads what was saved; non-trivial: three commands that change the stack")
REAL = ["libhfst", "hfst-xfst"]
NAMES = ["Foo", "Bar", "Bäz"]
FUNS = ["Fun", "Gun"]
UN = {"invert net": "invert", "reverse net": "reverse", "minimize net": "minimize", "determinize net": "determinize", "epsilon-remove net": "remove_epsilons",
      "upper-side net": "input_project", "lower-side net": "output_project", "one-plus net": "repeat_plus", "zero-plus net": "repeat_star", 
      "negate net": "negate", "prune net": "prune"}
IT = {"union net": "disjunct", "concatenate net": "concatenate", "compose net": "compose", "intersect net": "intersect", "shuffle net": "shuffle"}
BIN = {"minus net": "subtract", "crossproduct net": "cross_product", "ignore net": "insert_freely"}
VARS = {"print-space": "OFF", "print-weight": "OFF", "minimal": "ON", "hopcroft-min": "ON", "name-nets": "OFF", "obey-flags": "ON", "retokenize": "ON", "assert": "OFF", "print-pairs": "OFF", "maximum-weight": "OFF"}
NOPS = ["compact sigma", "complete net", "sort net", "print stack", "print size", "print aliases", "show variables", "print lists", "print defined", "cleanup net", "print arc-tally", "collect epsilon-loops", "print properties"]
LISTS = ["Vow", "Con"]
FLAGNETS = [(["P.F.a", "P.F.b"], ["R.F.a", "R.F.b"]), (["P.F.a", "P.G.a"], ["D.F.a", "D.G.b"]), (["U.F.a", "U.F.b"], ["U.F.a", "U.F.b"]), (["P.F.a"], ["C.F", "R.F.a"])]
INNER = {"a*": ["star", ["s", "a"]], "a|b": ["or", ["s", "a"], ["s", "b"]], "ab": ["s", "ab"], "(b)c": ["cat", ["opt", ["s", "b"]], ["s", "c"]], "a+": ["plus", ["s", "a"]],
         "[b|c]a": ["cat", ["or", ["s", "b"], ["s", "c"]], ["s", "a"]], "c": ["s", "c"], "a|0": ["opt", ["s", "a"]]}
WORDS = ["a", "b", "ab", "c", "abc", "ba", "cab", "aa", ""]


# ---- regular expressions ---------------------------------------------------------------------------------------------------
def gen_re(r, d, names=(), funs=(), var=()):
    if d <= 0 or r.random() < 0.1:
        c = r.random()
        if var and c < 0.5:
            return ["var", r.choice(var)]
        if names and c < 0.3:
            return ["def", r.choice(names)]
        if c < 0.6:
            return ["s", r.choice("abc")]
        if c < 0.75:
            return ["p", r.choice("abc0"), r.choice("abc0")]
        if c < 0.85:
            return ["w", r.choice([w for w in WORDS if w])]
        return r.choice([["wt", "a", 1.5], ["wt", "b", 0.25], ["eps"], ["s", "d"], ["any"], ["q", "+N"]])
    x = lambda: gen_re(r, d - 1, names, funs, var)
    c = r.random()
    if c < 0.28:
        return ["cat", x(), x()]
    if c < 0.52:
        return ["or", x(), x()]
    if c < 0.62:
        return [r.choice(["star", "plus", "opt", "twice"]), x()]
    if c < 0.74:
        return [r.choice(["inv", "rev", "up", "low"]), x()]
    if c < 0.80:
        return ["comp", x(), x()]
    if c < 0.85:
        return ["minus", ["up", x()], ["up", x()]]
    if c < 0.90:
        return ["and", ["low", x()], ["low", x()]]
    if c < 0.93:
        return ["neg", ["up", x()]]
    if c < 0.95:
        return ["contains", ["up", x()]]
    if c < 0.97:
        return ["cross", ["up", x()], ["up", x()]]
    if funs and c < 0.99:
        f, n = r.choice(funs)
        return ["call", f] + [x() for _ in range(n)]
    return x()


def text(e):
    k = e[0]
    if k in ("s", "def", "var"):
        return e[1]
    if k == "p":
        return "%s:%s" % (e[1], e[2])
    if k == "w":
        return "{%s}" % e[1]
    if k == "wt":
        return "%s::%g" % (e[1], e[2])
    if k == "eps":
        return "[]"
    if k == "any":
        return "?"
    if k == "q":
        return '"%s"' % e[1]
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(text(x) for x in e[2:]))
    t = [text(x) for x in e[1:]]
    return {"cat": "[%s %s]", "or": "[%s | %s]", "star": "[%s]*", "plus": "[%s]+", "opt": "(%s)", "twice": "[%s]^2", "inv": "[%s].i", "rev": "[%s].r", "up": "[%s].u",
            "low": "[%s].l", "comp": "[%s .o. %s]", "minus": "[%s - %s]", "and": "[%s & %s]", "neg": "~[%s]", "contains": "$[%s]", "cross": "[%s .x. %s]"}[k] % tuple(t)


def sym(i, o, w=0.0):
    i, o = (M.EPS if x == "0" else x for x in (i, o))
    n = {"arcs": [[0, 1, i, o, w]], "finals": [[1, 0.0]], "syms": []}
    n["syms"] = sorted(A.known(n))
    return n


def ev(e, m, env=()):
    """The relation a regular expression means in the state m of the session."""
    k = e[0]
    w = m.typ == "tropical"
    if k == "s" or k == "q":
        return sym(e[1], e[1])
    if k == "var":
        return dict(env)[e[1]]
    if k == "def":
        need(e[1] not in m.defs or noflags(m.defs[e[1]]))       # what flags mean in an operation is another matter
        return m.defs[e[1]] if e[1] in m.defs else sym(e[1], e[1])
    if k == "p":
        return sym(e[1], e[2])
    if k == "w":
        n = M.chain_net(None, [[(c, c) for c in e[1]]], weighted=False)
        n["syms"] = sorted(A.known(n))
        return n
    if k == "wt":
        return sym(e[1], e[1], e[2] if w else 0.0)
    if k == "eps":
        need(w or m.typ == "sfst")
        return A.epsilon()
    if k == "any":
        return sym(M.IDE, M.IDE)
    if k == "call":
        need(e[1] in m.funs and len(m.funs[e[1]][0]) == len(e) - 2)
        params, body = m.funs[e[1]]
        return ev(body, m, tuple(zip(params, [ev(x, m, env) for x in e[2:]])))
    a = [ev(x, m, env) for x in e[1:]]
    if k in ("star", "plus", "opt", "twice", "inv", "rev", "up", "low", "neg"):
        op = {"star": "repeat_star", "plus": "repeat_plus", "opt": "optionalize", "inv": "invert", "rev": "reverse", "up": "input_project", "low": "output_project",
              "neg": "negate", "twice": "repeat_n"}[k]
        return m.fit(c11.model_unary(a[0], m.typ, op, [2]))
    if k == "contains":
        u = A.universal(())
        return m.fit(A.concat(A.concat(u, a[0]), u))
    op = {"cat": "concatenate", "or": "disjunct", "comp": "compose", "minus": "subtract", "and": "intersect", "cross": "cross_product"}[k]
    return m.fit(c11.model_binary(a[0], a[1], m.typ, op, None))


# ---- the session -----------------------------------------------------------------------------------------------------------
class Session:
    def __init__(self, typ):
        self.typ, self.stack, self.defs, self.funs, self.files, self.weights = typ, [], {}, {}, {}, False
        self.lists, self.vars, self.quit = {}, dict(VARS), False

    def copy(self):
        m = Session(self.typ)
        m.stack, m.defs, m.funs, m.files = list(self.stack), dict(self.defs), dict(self.funs), dict(self.files)
        m.weights, m.lists, m.vars, m.quit = self.weights, dict(self.lists), dict(self.vars), self.quit
        return m

    def fit(self, n):
        n = A.reduce(n)
        need(len(n["arcs"]) <= 60)
        w = self.typ == "tropical"
        need(determinizable(n, w))
        need(self.typ != "foma" or A.known(n))
        return n


def step(m, c):
    """Do command c on the model m. Returns what the session must print (a predicate on the output lines) or None. A command that fails leaves m alone:
    returns 'fail'."""
    k = c[0]
    st = m.stack
    if k == "regex":
        st.append(m.fit(ev(c[1], m)))
    elif k == "define":
        m.defs[c[1]] = m.fit(ev(c[2], m))
    elif k == "defpop":
        if not st:
            return "fail"
        m.defs[c[1]] = st.pop()
    elif k == "deffun":
        m.funs[c[1]] = (c[2], c[3])
        ev(c[3], m, tuple((p, sym("a", "a")) for p in c[2]))
    elif k == "undefine":
        for x in c[1]:
            m.defs.pop(x, None)
    elif k == "push":
        if c[1] not in m.defs:
            return "fail"
        st.append(m.defs[c[1]])
    elif k == "pushall":
        for x in sorted(m.defs, key=lambda s: s.encode()):
            st.append(m.defs[x])
    elif k == "pop":
        if not st:
            return "fail"
        st.pop()
    elif k == "clear":
        del st[:]
    elif k == "turn":
        st.reverse()
    elif k == "rotate":
        if st:
            st.insert(0, st.pop())
    elif k == "name":
        if not st:
            return "fail"
    elif k == "un":
        if not st:
            return "fail"
        if c[1] == "negate net" and not A.automaton(st[-1]):
            need(any(a[2] != a[3] for a in st[-1]["arcs"]) and clearly_not_automaton(st[-1]))
            return "fail"
        st[-1] = m.fit(c11.model_unary(st[-1], m.typ, UN[c[1]], []))
    elif k == "bin":
        if len(st) < 2:
            return "fail"
        a, b = st[-1], st[-2]
        need(noflags(a) and noflags(b))
        if c[1] == "crossproduct net" and not (A.automaton(a) and A.automaton(b)):
            need(clearly_not_automaton(a) or clearly_not_automaton(b))
            return "fail"
        need(c[1] != "ignore net" or A.automaton(a))        # where the other network can be inserted depends on the alignment
        n = m.fit(c11.model_binary(a, b, m.typ, BIN[c[1]], None))
        st[-2:] = [n]
    elif k == "it":
        if len(st) < 2:
            return "fail"
        n = st[-1]
        need(all(noflags(x) for x in st))
        for b in reversed(st[:-1]):
            if c[1] == "shuffle net":
                need(A.automaton(n) and A.automaton(b) and acyclic(n) and acyclic(b) and c11.no_ide(n, b))
                n = m.fit(A.shuffle(n, b))
            else:
                n = m.fit(c11.model_binary(n, b, m.typ, IT[c[1]], None))
        st[:] = [n]
    elif k == "subsym":
        if not st:
            return "fail"
        need(c11.no_ide(st[-1]) and any(c[2] in a[2:4] for a in st[-1]["arcs"]))
        st[-1] = m.fit(A.substitute(st[-1], c[2], c[1], True, True))
    elif k == "subdef":
        if not st or c[1] not in m.defs:
            return "fail"
        need(any(c[2] in a[2:4] for a in st[-1]["arcs"]) and all(a[2:4] == [c[2], c[2]] or c[2] not in a[2:4] for a in st[-1]["arcs"]))
        need(c[2] not in A.known(m.defs[c[1]]) and c11.no_ide(st[-1], m.defs[c[1]]))
        st[-1] = m.fit(c11.model_binary(st[-1], m.defs[c[1]], m.typ, "subst_tr", c[2]))
    elif k == "label":
        if not st:
            return "fail"
        prs = sorted({tuple(a[2:4]) for a in st[-1]["arcs"]})
        need(prs and c11.no_ide(st[-1]) and (M.EPS, M.EPS) not in prs)
        need(all(M.EPS not in p for p in prs))      # a pair with epsilon depends on how the network is aligned
        need(all(p[0] == p[1] for p in prs))
        st[-1] = {"arcs": [[0, 1, i, o, 0.0] for i, o in prs], "finals": [[1, 0.0]], "syms": sorted(A.known(st[-1]))}
    elif k == "sigma":
        if not st:
            return "fail"
        need(c11.no_ide(st[-1]) and A.known(st[-1]) == {x for a in st[-1]["arcs"] for x in a[2:4] if x not in M.SPECIAL})
        need(A.known(st[-1]))
        st.append({"arcs": [[0, 1, x, x, 0.0] for x in sorted(A.known(st[-1]))], "finals": [[1, 0.0]], "syms": sorted(A.known(st[-1]))})
    elif k == "fail":
        return "fail"
    elif k == "save":
        if not st:
            return "fail"
        m.files[c[1]] = ("stack", list(st))
    elif k == "saved":
        if not m.defs:
            return "fail"
        m.files[c[1]] = ("defs", dict(m.defs))
    elif k == "load":
        f = m.files.get(c[1])
        if f is None or f[0] == "bad":
            return "fail"
        need(f[0] == "stack")
        st.extend(f[1])
    elif k == "loadd":
        f = m.files.get(c[1])
        if f is None or f[0] == "bad":
            return "fail"
        need(f[0] == "defs")
        m.defs.update(f[1])
    elif k in ("write", ):
        need(st)        # the file is created, empty, all the same
        m.files[c[1]] = (c[2], st[-1] if m.weights else M.strip_weights(st[-1]))
    elif k == "read":
        f = m.files.get(c[1])
        if f is None or f[0] == "bad":
            return "fail"
        need(f[0] == c[2])
        st.append(f[1])
    elif k == "test":
        t = c[1][7:] if c[1].startswith("assert ") else c[1]
        if len(st) < (1 if t not in ("test equivalent", "test overlap", "test sublanguage") else 2):
            return "fail"
        ans = answer(m, t)
        if not ans and m.quit and (c[1] != t or m.vars["assert"] == "ON"):
            return "fail"
        if t == "test identity" and not ans and same_sides(st[-1]):
            return lambda out: None if truth(out, False) is None else ":sides" if truth(out, True) is None else truth(out, False)
        return lambda out: truth(out, ans)
    elif k == "words":
        if len(c) > 3 and c[3]:
            need(c[3] in m.defs)
            n = m.defs[c[3]]
        else:
            if not st:
                return "fail"
            n = st[-1]
        n = A.iproj(n) if c[1] == "upper-words" else A.oproj(n) if c[1] == "lower-words" else n
        need(A.automaton(n) and c11.no_ide(n) and noflags(n) and acyclic(n) and len(n["arcs"]) < 30 and not any(x[2].startswith("+") for x in n["arcs"]))
        need(m.typ == "tropical" or all(x[-1] == 0 for x in n["arcs"] + n["finals"]))
        want = shown(n, m)
        lim = c[2] if len(c) > 2 else 0
        return lambda out: lines_are(c[1], out, want, m, lim)
    elif k == "apply" or k == "applyf":
        if not st:
            return "fail"
        n = st[-1] if c[1] == "down" else A.invert(st[-1])
        need(acyclic(n) and c11.no_ide(n) and noflags(n) and m.vars["print-space"] == "OFF" and m.vars["print-pairs"] == "OFF")
        want = []
        for w in ([c[2]] if k == "apply" else c[3]):
            res = M.answers(n, w, m.typ == "tropical")
            need(res is not None and len(res) < 20)
            want.append(light(res, m))
        return lambda out: applied(c, out, want, m)
    elif k == "redir":
        chk = step(m, c[2])
        need(callable(chk) and (c[2][0] not in ("longest", "shortest") or M.trim(st[-1])["finals"] and acyclic(st[-1])))
        m.files[c[1]] = ("text",)
        return chk
    elif k == "nop":
        if c[1] in ("compact sigma", "complete net", "cleanup net"):
            if not st:
                return "fail"
            need(c11.no_ide(st[-1]))
        if c[1] == "complete net" and not A.automaton(st[-1]):
            need(clearly_not_automaton(st[-1]))
            return "fail"
    elif k == "flags":
        e = flagnet(c)
        m.stack.append(m.fit(A.eliminate_flags(e, c[3] or None)))
        want = shown(A.reduce(A.eliminate_flags(e)), m)
        return lambda out: lines_are("words with flag diacritics", out, want, m, 0)
    elif k == "lookup":
        if not st:
            return "fail"
        need(all(M.trim(n)["finals"] for n in st) and not (c[2] and m.quit))
        n = st[-1]
        res = M.answers(n, c[1], m.typ == "tropical")
        need(res is not None and len(res) < 20 and acyclic(n) and c11.no_ide(n) and noflags(n) and m.vars["print-space"] == "OFF")
        return lambda out: applied(["apply", "down", c[1]], out, [light(res, m)], m)
    elif k == "crep":
        need(m.vars["retokenize"] == "ON")
        lit = M.chain_net(None, [[(x, x) for x in (["^["] + list(c[2]) + ["^]"])]], weighted=False)
        val = ev(INNER[c[2]], m)
        n = A.cross(lit, val) if c[1] == "lower" else A.cross(val, lit)
        n["syms"] = sorted(A.known(lit) | A.known(val))
        out_ = A.concat(A.concat(sym("x", "x"), n), sym("b", "b"))
        if c[3]:
            out_ = A.union(out_, sym("c", "c"))
        st.append(m.fit(out_))
    elif k == "rfile":
        n = filenet(c, m)
        m.files[c[1]] = ("src", c[2])
        st.append(m.fit(n))
    elif k == "wdef":
        need(c[2] in m.defs)
        m.files[c[1]] = ("stack", [m.defs[c[2]]])
    elif k == "list":
        need(c[1] not in m.defs)        # an error, and what the list is then
        m.lists[c[1]] = sorted(c[2])
        return lambda out: ranged(out, c[1], m)
    elif k == "unlist":
        m.lists.pop(c[1], None)
        return lambda out: ranged(out, c[1], m)
    elif k == "listdef":
        if c[1] in m.lists:
            return "fail"
        m.defs[c[1]] = m.fit(ev(c[2], m))
    elif k == "sub":
        if not st:
            return "fail"
        n = st[-1]
        need(c[3] != "symbol" or len(c[2]) < 2)      # two symbols: a pair of each with each
        need(A.automaton(n) and c11.no_ide(n) and any(x[2] == c[1] for x in n["arcs"]) and c[1] in A.known(n))
        new_ = [tuple(x.split(":")) * (2 if ":" not in x else 1) for x in c[2]]
        arcs = []
        for x in n["arcs"]:
            arcs += [x] if x[2] != c[1] else [[x[0], x[1], M.EPS if i == "0" else i, M.EPS if o == "0" else o, x[4]] for i, o in new_]
        kn = (A.known(n) - {c[1]}) | {y for x in new_ for y in x if y != "0"}
        st[-1] = m.fit({"arcs": arcs, "finals": n["finals"], "syms": sorted(kn)})
    elif k == "pname":
        if not st:
            return "fail"
        return lambda out: None if out[-1:] == ["Name " + c[1]] and out[:-1].count("Name " + c[1]) == 0 else "print name printed %s" % out[:3]
    elif k == "psigma":
        if not st:
            return "fail"
        n = st[-1]
        used = {x for a in n["arcs"] for x in a[2:4]}
        need(A.known(n) == used - set(M.SPECIAL) and (c11.no_ide(n) or used & {M.UNK, M.IDE}))
        l = sorted(A.known(n), key=lambda x: x.encode())
        want = ["Sigma: " + ", ".join((["?"] if used & {M.UNK, M.IDE} else []) + l), "Size: %d." % len(l)]
        if used & {M.UNK, M.IDE}:       # which symbols an expression has besides is not settled when ? covers them
            need(len(n["arcs"]) <= 3 and live(n))
            return lambda out: None if out and (out[0] + ",").startswith("Sigma: ?,") else "print sigma printed %s, expected ? in it" % out[:2]
        return lambda out: None if out[:2] == want else "print sigma printed %s, expected %s" % (out[:2], want)
    elif k == "plabels":
        if not st:
            return "fail"
        prs = sorted({tuple(a[2:4]) for a in st[-1]["arcs"]})
        need(prs and c11.no_ide(st[-1]) and all(p[0] == p[1] != M.EPS for p in prs))
        want = ["Labels: " + ", ".join(sorted((p[0] for p in prs), key=lambda x: x.encode())), "Size: %d" % len(prs)]
        return lambda out: None if out[:2] == want else "print labels printed %s, expected %s" % (out[:2], want)
    elif k == "random":
        if not st:
            return "fail"
        n = st[-1]
        n = A.iproj(n) if c[1].endswith("upper") else A.oproj(n) if c[1].endswith("lower") else n
        need(A.automaton(n) and c11.no_ide(n) and noflags(n) and m.vars["print-space"] == "OFF" and m.vars["print-weight"] == "OFF")
        return lambda out: sampled(c, out, n)
    elif k == "tally":
        if not st:
            return "fail"
        n = st[-1]
        need(c11.no_ide(n) and n["arcs"] and not any(M.EPS in x[2:4] for x in n["arcs"]))
        prs = {tuple(x[2:4]) for x in n["arcs"]}
        want = sorted(i if i == o else i + ":" + o for i, o in prs)
        return lambda out: None if out and sorted(re.findall(r"\d+\. (\S+) [1-9]\d*", out[0])) == want else "print label-tally printed %s, expected the labels %s" % (out[:2], want)
    elif k == "shortest":
        if not st:
            return "fail"
        n = M.trim(st[-1])
        need(A.automaton(n) and c11.no_ide(n) and noflags(n) and m.vars["print-space"] == "OFF" and m.vars["print-weight"] == "OFF")
        l = shortest(n)
        if l is None:
            return lambda out: None if out[:1] == ["transducer is empty"] else "%s printed %s for the empty network" % (c[1], out[:2])
        if c[1].endswith("size"):
            return lambda out: None if out[:1] == [str(l)] else "%s printed %s, the shortest string has length %d" % (c[1], out[:2], l)
        ws = {"".join(x[0]) for x in M.relation(M.strip_weights(n), l, 2000) if len(x[0]) == l}
        return lambda out: None if out and out[0] in ws and not any(out[1:]) else "%s printed %s, the shortest strings are %s" % (c[1], out[:2], sorted(ws)[:5])
    elif k == "longest":
        if not st:
            return "fail"
        need(m.vars["print-space"] == "OFF" and m.vars["print-weight"] == "OFF")
        need(m.typ != "foma" or not any(M.EPS in x[2:4] for x in st[-1]["arcs"]))      # fsm_epsilon_remove of libfoma
        want = []
        for n in (A.iproj(st[-1]), A.oproj(st[-1])):
            n = A.reduce(n)
            need(c11.no_ide(n) and noflags(n))
            want.append(None if not acyclic(n) else (c11.longest(n), n) if n["finals"] else ())
        return lambda out: longest_ok(c[1], out, want)
    elif k == "set":
        v, x = c[1].split()
        m.vars[v] = x
        m.weights = m.vars["print-weight"] == "ON"
        return lambda out: None if any("variable %s = %s" % (v, x) in l for l in out) else "show %s printed %s, expected %s" % (v, out[:3], x)
    else:
        raise AssertionError(k)
    return None


def same_sides(n):
    a, b = A.iproj(n), A.oproj(n)
    try:
        return A.diff(A.determinize(a, False) if hasattr(A, "determinize") else a, b, False, 4) is None
    except M.TooBig:
        raise Skip()


def light(res, m):
    """The answers maximum-weight allows."""
    if m.vars["maximum-weight"] == "OFF":
        return res
    need(not any(abs(w - float(m.vars["maximum-weight"])) < 1e-3 and w != float(m.vars["maximum-weight"]) for w in res.values()))
    return {x: w for x, w in res.items() if w <= float(m.vars["maximum-weight"])}


def sampled(c, out, n):
    out = [l for l in out if l]
    lim = c[2] or 15
    if len(out) > lim:
        return "%s %d printed %d words" % (c[1], lim, len(out))
    for l in out:
        r = M.answers(n, l, False)
        if r is not None and not r:
            return "%s printed %r, which is not in the network" % (c[1], l)
    if not out and acyclic(n) and any(x[0] for x in M.relation(n, 4)):
        return "%s printed nothing" % c[1]


def noflags(n):
    return not any(x.startswith("@") and x.count(".") for x in A.known(n))


def live(n):
    t = M.trim(n)
    return len(t["arcs"]) == len(n["arcs"])


def plain(*nets):
    return all(x[-1] == 0 for n in nets for x in n["arcs"] + n["finals"])


def shortest(n):
    d, work = {0: 0}, [0]
    fin = M.finals_of(n)
    for p in work:      # all arcs have length one: the nets are free of epsilon
        for s, t, i, o, w in n["arcs"]:
            if s == p and t not in d:
                d[t] = d[p] + 1
                work.append(t)
    need(not any(M.EPS in x[2:4] for x in n["arcs"]))
    return min([d[q] for q in fin if q in d], default=None)


def longest_ok(what, out, want):
    out = [l for l in out if l]
    if want == [None, None]:
        return None if out == ["transducer is cyclic"] else "%s printed %s" % (what, out[:3])
    if () in want:
        return None if out == ["transducer is empty"] else "%s printed %s for the empty network" % (what, out[:3])
    for name, w, l in zip(("Upper", "Lower"), want, out + ["", ""]):
        if w is None:
            if l != name + " level is cyclic.":
                return "%s printed %s" % (what, out[:3])
        elif what.endswith("size"):
            if l != "%s: %d" % (name, w[0]):
                return "%s printed %s, the longest string has length %d" % (what, out[:3], w[0])
        else:
            try:
                ws = {"".join(x[0]) for x in M.relation(M.strip_weights(w[1]), w[0], 2000) if len(x[0]) == w[0]}
            except M.TooBig:
                continue
            if not l.startswith(name + ": ") or l[7:] not in ws:
                return "%s printed %s, the longest strings are %s" % (what, out[:3], sorted(ws)[:5])
    return None


def answer(m, t):
    """What the test must say about the stack."""
    st = m.stack
    n = st[-1]
    if t in ("test null", "test non-null"):
        return (not M.trim(n)["finals"]) == (t == "test null")
    if t in ("test upper-universal", "test lower-universal"):
        need(plain(n))
        p = m.fit(A.iproj(n) if "upper" in t else A.oproj(n))
        need(not any(M.UNK in a[2:4] for a in n["arcs"]))
        return not M.trim(A.subtract(A.universal(A.known(p)), p))["finals"]
    if t in ("test upper-bounded", "test lower-bounded"):       # upper: the output strings, as the help says
        return acyclic(A.reduce(A.oproj(n) if "upper" in t else A.iproj(n)))
    if t == "test infinitely-ambiguous":
        n = A.reduce(n)
        return not acyclic({"arcs": [a for a in n["arcs"] if a[2] == M.EPS]})
    if t == "test identity":
        need(plain(n))
        if A.automaton(n):
            return True
        need(clearly_not_automaton(n) and c11.no_ide(n))
        return False
    a, b = st[-1], st[-2]
    need(c11.no_ide(a, b) and A.automaton(a) and A.automaton(b) and determinizable(a, m.typ == "tropical") and determinizable(b, m.typ == "tropical"))
    if t == "test equivalent":
        need(acyclic(a) and acyclic(b) and c11.longest(a) <= 3 and c11.longest(b) <= 3 and c11.fine(a, b))
        return A.diff(a, b, m.typ == "tropical", 4) is None
    need(len(st) == 2 and plain(a, b))
    if t == "test overlap":
        return bool(M.trim(A.intersect(a, b))["finals"])
    return not M.trim(A.subtract(a, b))["finals"]


def shown(n, m):
    """{printed word: least weight}"""
    res = {}
    for x, w in M.relation(n, 30, 400).items():
        t = (" " if m.vars["print-space"] == "ON" else "").join(x[0])
        res[t] = min(w, res.get(t, w))
    return res


def weighted_lines(what, out, m):
    got = {}
    for l in out:
        t = l.split("\t")
        if len(t) > 1 and m.weights:
            try:
                v = float(t[1])
            except ValueError:
                return "%s printed %r" % (what, l), {}
            got[t[0]] = min(v, got.get(t[0], v))
        elif m.weights and t[0] != "???":
            return "%s printed no weight: %r" % (what, l), {}
        else:
            got[t[0]] = None
    return None, got


def lines_are(what, out, want, m, lim):
    if out and out[-1] == "" and "" not in want:
        out = out[:-1]
    err, got = weighted_lines(what, out, m)
    if err:
        return err
    if lim:
        if not set(got) <= set(want) or len(got) != min(lim, len(want)):
            return "%s %d printed %s, the words are %s" % (what, lim, sorted(got)[:8], sorted(want)[:8])
    elif set(got) != set(want):
        return "%s printed %s, the words are %s" % (what, sorted(got)[:8], sorted(want)[:8])
    for w, v in got.items():
        if v is not None and m.typ == "tropical" and not lim and abs(v - want[w]) > 1e-3:
            return "%s printed %r with weight %g, expected %g" % (what, w, v, want[w])
    return None


def applied(c, out, want, m):
    out = [l for l in out if l or any("" in w for w in want)]
    best = {}
    for w in want:
        for x, v in w.items():
            best[x] = min(v, best.get(x, v))
        if not w:
            best["???"] = 0.0
    err, got = weighted_lines("apply", out, m)
    if err:
        return err
    if set(got) != set(best):
        return "apply %s printed %s, expected %s" % (" ".join(str(x) for x in c[1:]), sorted(got)[:8], sorted(best)[:8])
    for x, v in got.items():
        if v is not None and m.typ == "tropical" and len(want) == 1 and abs(v - best[x]) > 1e-3:
            return "apply %s printed %r with weight %g, expected %g" % (" ".join(str(x) for x in c[1:]), x, v, best[x])
    return None


def ranged(out, name, m):
    l = [x.split() for x in out if x.strip()]
    want = [[name + ":"] + m.lists[name]] if name in m.lists else [["No", "such", "list", "defined:", name]]
    return None if l[-1:] == want else "print list %s printed %s, expected %s" % (name, l[-1:], want)


def flagnet(c):
    """x FLAG a FLAG y: every pair of one flag of the first list and one of the second, with a letter between."""
    arcs, n = [], {"finals": [[3, 0.0]], "syms": []}
    for j, f in enumerate(c[1]):
        arcs.append([0, 1, "@%s@" % f, "@%s@" % f, 0.0])
    arcs += [[1, 2, x, x, 0.0] for x in "ab"]
    for j, f in enumerate(c[2]):
        arcs.append([2, 4 + j, "@%s@" % f, "@%s@" % f, 0.0])
        arcs.append([4 + j, 3, "abc"[j], "abc"[j], 0.0])
    n["arcs"] = arcs
    n["syms"] = sorted(A.known(n))
    return n


def flagtext(c):
    q = lambda f: '"@%s@"' % f
    return "[%s] [a|b] [%s]" % ("|".join(q(f) for f in c[1]), "|".join("%s %s" % (q(f), "abc"[j]) for j, f in enumerate(c[2])))


def filenet(c, m):
    """The network a source file describes."""
    kind, data = c[2], c[3]
    if kind == "regex":
        return ev(data, m)
    n = M.chain_net(None, [[(x, x) if ":" not in x else tuple(x.split(":")) for x in (w.split(" ") if kind == "spaced-text" else w)] for w in data], weighted=False)
    n["syms"] = sorted(A.known(n))
    if kind == "lexc":
        n["syms"] = sorted(set(n["syms"]))
    return n


def filetext(c):
    kind, data = c[2], c[3]
    if kind == "regex":
        return text(data) + " ;\n"
    if kind == "lexc":
        return "LEXICON Root\n" + "".join("%s # ;\n" % w for w in data) + "END\n"
    return "".join(w + "\n" for w in data)


def clearly_not_automaton(n):
    """No alignment of the relation is an automaton: some pair of strings differs."""
    try:
        return any(a != b for a, b in M.relation(n, 3))
    except M.TooBig:
        return False


def truth(out, want):
    t = [l for l in out if "(1 = TRUE, 0 = FALSE)" in l]
    if len(t) != 1 or t[0][0] != "01"[want]:
        return "printed %s, expected %d" % (out[:3], want)


def command(c):
    k = c[0]
    return {"regex": lambda: "regex %s ;" % text(c[1]), "define": lambda: "define %s %s ;" % (c[1], text(c[2])), "defpop": lambda: "define " + c[1],
            "deffun": lambda: "define %s(%s) %s ;" % (c[1], ", ".join(c[2]), text(c[3])), "undefine": lambda: "undefine " + " ".join(c[1]),
            "push": lambda: "push " + c[1], "pushall": lambda: "push", "pop": lambda: "pop", "clear": lambda: "clear", "turn": lambda: "turn", "rotate": lambda: "rotate",
            "name": lambda: "name " + c[1], "un": lambda: c[1], "bin": lambda: c[1], "it": lambda: c[1], "subsym": lambda: "substitute symbol %s for %s" % (c[1], c[2]),
            "subdef": lambda: "substitute defined %s for %s" % (c[1], c[2]), "label": lambda: "label net", "sigma": lambda: "sigma net", "fail": lambda: c[1],
            "save": lambda: "save stack " + c[1], "saved": lambda: "save defined > " + c[1], "load": lambda: "load stack " + c[1], "loadd": lambda: "load defined " + c[1],
            "write": lambda: "write %s > %s" % (c[2], c[1]), "read": lambda: "read %s %s" % (c[2], c[1]), "test": lambda: c[1],
            "words": lambda: "print " + c[1] + (" " + c[3] if len(c) > 3 and c[3] else "") + (" %d" % c[2] if len(c) > 2 and c[2] else ""),
            "apply": lambda: "apply %s %s" % (c[1], c[2]), "set": lambda: "set " + c[1] + "\nshow " + c[1].split()[0],
            "applyf": lambda: "apply %s < %s" % (c[1], c[2]), "redir": lambda: command(c[2]) + " > " + c[1], "nop": lambda: c[1],
            "flags": lambda: "regex %s ;\nprint words\neliminate flag%s" % (flagtext(c), " " + c[3] if c[3] else "s"),
            "lookup": lambda: "lookup-optimize\n%sapply down %s\nremove-optimization" % (c[2] + "\n" if c[2] else "", c[1]),
            "crep": lambda: "regex [x \"^[\" {%s} \"^]\" b]%s ;\ncompile-replace %s" % (re_quote(c[2]), " | c" if c[3] else "", c[1]),
            "rfile": lambda: "read %s %s%s" % (c[2], "< " if c[2] in ("regex", "text", "spaced-text") else "", c[1]),
            "wdef": lambda: "write definition %s > %s" % (c[2], c[1]),
            "list": lambda: "list %s %s\nprint list %s" % (c[1], "%s-%s" % (c[2][0], c[2][-1]) if c[3] else " ".join(c[2]) + " ;", c[1]),
            "unlist": lambda: "unlist %s\nprint list %s" % (c[1], c[1]), "listdef": lambda: "define %s %s ;" % (c[1], text(c[2])),
            "sub": lambda: "substitute %s %s for %s" % (c[3], " ".join(c[2]) or "NOTHING", c[1] + (":" + c[1] if c[3] == "label" and c[4] else "")),
            "pname": lambda: "name %s\nprint name" % c[1], "psigma": lambda: "print sigma", "plabels": lambda: "print labels",
            "random": lambda: "print " + c[1] + (" %d" % c[2] if c[2] else ""), "tally": lambda: "print label-tally", "shortest": lambda: c[1], "longest": lambda: c[1]}[k]()


def re_quote(t):
    return t


FAILING = ["regex [a [ ;", "regex a | ;", "define Foo [b ;", "load stack /v/nothing", "load defined /v/nothing", "read att /v/nothing", "read prolog /v/nothing",
           "read regex < /v/nothing", "read text < /v/nothing", "read spaced-text < /v/nothing", "apply up < /v/nothing", "apply down < /v/nothing", "read lexc /v/nothing",
           "save stack /v/missing-dir/x", "write att > /v/missing-dir/x", "write prolog > /v/missing-dir/x", "push Nothing", "undefine Nothing", "frobnicate", "print net Nothing",
           "load stack /v/garbage", "load defined /v/garbage", "read att /v/badatt", "read prolog /v/garbage", "read regex < /v/badre", "read regex < /v/empty", "load stack /v/empty",
           "load stack /v/cut", "load defined /v/cut", "write definition Nothing > /v/wdef", "read lexc /v/badlexc", "read spaced-text < /v/badtext", "read text /v/badtext", "eliminate flag X", "test bla"]


def gen_more(r, k, st):
    """The commands that look at the stack, read sources and take detours."""
    c = r.random()
    if c < 0.22:
        t = r.choice(["test upper-universal", "test lower-universal", "test upper-bounded", "test lower-bounded", "test infinitely-ambiguous", "test identity", "test null",
                      "test non-null", "test equivalent", "test overlap", "test sublanguage"])
        return ["test", ("assert " if r.random() < 0.3 and "infinitely" not in t else "") + t]
    if c < 0.34:
        return r.choice([["shortest", "print shortest-string"], ["shortest", "print shortest-string-size"], ["longest", "print longest-string"], ["longest", "print longest-string-size"],
                         ["psigma"], ["psigma"], ["plabels"], ["tally"], ["random", r.choice(["random-words", "random-upper", "random-lower"]), r.choice([0, 0, 1, 3])]])
    if c < 0.44:
        inner = ["words", r.choice(["words", "upper-words", "lower-words"])] if r.random() < 0.6 else r.choice([["psigma"], ["plabels"], ["longest", "print longest-string"],
                 ["shortest", "print shortest-string"], ["tally"], ["random", r.choice(["random-words", "random-upper", "random-lower"]), r.choice([0, 2])], ["words", "words", r.choice([1, 2, 5]), ""], ["words", r.choice(["words", "upper-words"]), 0, r.choice(NAMES)]])
        p = "/v/w%d" % k
        return ["redir", p, inner] if r.random() < 0.8 else inner
    if c < 0.50:
        return ["nop", r.choice(NOPS)]
    if c < 0.56:
        a, b = r.choice(FLAGNETS)
        return ["flags", a, b, r.choice(["", "", "F", "G"] if any(".G" in x for x in a) else ["", "F"])]
    if c < 0.64:
        return ["lookup", r.choice([w for w in WORDS if w]), r.choice(["", "", "invert net", "apply up a", "define Zip", "negate net", "lookup-optimize", "print sigma", "test null"])]
    if c < 0.69:
        return ["crep", r.choice(["lower", "upper"]), r.choice(sorted(INNER)), r.random() < 0.3]
    if c < 0.79:
        p = "/v/src%d.txt" % k
        kind = r.choice(["regex", "text", "spaced-text", "lexc"])
        ws = r.sample([w for w in WORDS if w] + ["äb", "dd"], r.randint(1, 4))
        data = gen_re(r, 2) if kind == "regex" else [" ".join(r.choice(["a", "b", "foo", "a:b", "c:foo"]) for _ in range(r.randint(1, 3))) for _ in ws] if kind == "spaced-text" else ws
        return ["rfile", p, kind, data]
    if c < 0.83:
        p = "/v/f%d" % k
        st["files"].append((p, "save"))
        return ["wdef", p, r.choice(NAMES)]
    if c < 0.88:
        n = r.choice(LISTS)
        q = r.random()
        if q < 0.3:
            return ["unlist", n]
        if q < 0.45:
            return ["listdef", n, gen_re(r, 1)]
        if q < 0.7:
            a = r.randint(0, 20)
            return ["list", n, [chr(97 + x) for x in range(a, a + r.randint(2, 6))], True]
        return ["list", n, r.sample(["a", "b", "c", "foo", "ä", "aa"], r.randint(1, 4)), False]
    if c < 0.94:
        kind = r.choice(["symbol", "label"])
        new_ = r.sample(["a", "x", "foo", "d"], r.randint(0, 2)) if kind == "symbol" else r.sample(["a", "x:y", "foo:0", "d"], r.randint(0, 3))
        return ["sub", r.choice("abc"), new_, kind, r.random() < 0.5]
    if c < 0.97:
        return ["applyf", r.choice(["up", "down"]), "/v/in%d.txt" % k, r.sample([w for w in WORDS if w], r.randint(1, 4))]
    return ["pname", r.choice(["foo", "Bar1", "ä"])]


def gen_cmd(r, k, st):
    """st: rough state of generation (names, functions, files)."""
    if r.random() < 0.25:
        return gen_more(r, k, st)
    c = r.random()
    d = r.choice([1, 2, 2, 3])
    if c < 0.30:
        return ["regex", gen_re(r, d, NAMES[:2] if r.random() < 0.6 else (), st["funs"])]
    if c < 0.38:
        return ["define", r.choice(NAMES), gen_re(r, d, NAMES if r.random() < 0.3 else (), st["funs"])]
    if c < 0.41:
        return ["defpop", r.choice(NAMES)]
    if c < 0.43:
        f, n = r.choice(FUNS), r.randint(1, 2)
        ps = ["X", "Yy"][:n]
        st["funs"].append((f, n))
        return ["deffun", f, ps, gen_re(r, 2, (), (), ps)]
    if c < 0.45:
        return ["undefine", r.sample(NAMES, r.randint(1, 2))]
    if c < 0.50:
        return ["push", r.choice(NAMES)]
    if c < 0.57:
        return [r.choice(["pop", "turn", "turn", "rotate", "rotate", "clear", "pushall"])]
    if c < 0.66:
        return ["un", r.choice(sorted(UN))]
    if c < 0.70:
        return ["bin", r.choice(sorted(BIN))]
    if c < 0.74:
        return ["it", r.choice(sorted(IT))]
    if c < 0.76:
        return ["subsym", r.choice("abz"), r.choice("abc")]
    if c < 0.78:
        return ["subdef", r.choice(NAMES), r.choice("abc")]
    if c < 0.80:
        return [r.choice(["label", "sigma"])] if r.random() < 0.6 else ["name", r.choice(["net1", "ä"])]
    if c < 0.84:
        return ["fail", r.choice(FAILING)]
    if c < 0.90:
        q = r.random()
        if q < 0.4 or not st["files"]:
            p = "/v/f%d" % k
            kind = r.choice(["save", "save", "saved", "write", "write"])
            if kind == "write":
                f = r.choice(["att", "prolog"])
                st["files"].append((p, f))
                return ["write", p, f]
            st["files"].append((p, kind))
            return [kind, p]
        p, f = r.choice(st["files"])
        return ["load", p] if f == "save" else ["loadd", p] if f == "saved" else ["read", p, f]
    if c < 0.93:
        return ["test", r.choice(["test null", "test non-null", "test equivalent", "test overlap", "test sublanguage"])]
    if c < 0.96:
        return ["words", r.choice(["words", "upper-words", "lower-words"])]
    if c < 0.985:
        return ["apply", r.choice(["up", "down"]), r.choice([w for w in WORDS if w])]
    return ["set", r.choice(["maximum-weight 1", "maximum-weight 0.25", "maximum-weight OFF", "name-nets ON", "print-weight ON", "print-weight ON", "print-weight OFF", "minimal OFF", "print-space OFF", "print-space ON", "hopcroft-min OFF", "minimal ON",
                             "assert ON"])]


def gen(r, tier):
    st = {"funs": [], "files": []}
    n = r.choice([3, 6, 10, 15])
    plan = {"type": r.choice(["tropical", "tropical", "tropical", "foma", "sfst"]), "mode": r.choice(["F", "p", "r", "r", "e", "l"]), "quiet": r.random() < 0.8,
            "cmds": [gen_cmd(r, k, st) for k in range(n)], "cfg": soft_cfg(r), "bad": None, "quit": False, "crash": None}
    plan["spans"] = []
    if r.random() < 0.3:
        a = sorted(r.sample(range(n), 2))
        plan["spans"] = [a]
        if a[1] - a[0] > 2 and r.random() < 0.6:
            b = sorted(r.sample(range(a[0], a[1] + 1), 2))
            plan["spans"].append(b)
    c = r.random()
    files = [(k, x) for k, x in enumerate(plan["cmds"]) if x[0] in ("save", "saved", "load", "loadd", "write", "read", "rfile", "redir", "wdef")]
    if c < 0.25 and files:
        k, x = r.choice(files)
        w = x[0] in ("save", "saved", "write", "redir", "wdef")
        plan["bad"] = [x[1], r.choice(["open", "write", "write", "close"] if w else ["open", "read", "read"]), r.choice([0, 1, 10, 40, 100, 200, 400])]
    elif c < 0.35:
        plan["quit"] = True
    elif c < 0.5:
        plan["crash"] = r.choice([0.002, 0.006, 0.02])
    return plan


GARBAGE = {"/v/garbage": "this is not a transducer\n", "/v/badatt": "0\t1\ta\n0\tx\n", "/v/badre": "[a [ ;\n", "/v/empty": "", "/v/badtext": "a b\na :\nc\n", "/v/badlexc": "LEXICON Root\nfoo bar baz ;\nEND\n"}


def files(ctx, plan):
    s = ctx.sim({"perturb": False}, "prepare")
    got = []
    n = s.client([], name="prep")

    def ops():
        yield M.mk("A", plan["type"], {"arcs": [[0, 1, "a", "b", 0.0], [1, 2, "c", "c", 0.0]], "finals": [[2, 0.0]], "syms": ["a", "b", "c"]})
        yield "name\tA\tFoo"
        yield "outopen\to\t/v/cut\t%s\t1" % plan["type"]
        yield "outwrite\to\tA"
        yield "outwrite\to\tA"
        yield "outclose\to"
        yield "outdel\to"
    drive(n, ops())
    s.run()
    f = {p: t.encode() for p, t in GARBAGE.items()}
    cut = bytes(s.fs["/v/cut"])
    f["/v/cut"] = cut[:len(cut) * 3 // 4]
    return f


def walk(plan, cmds, apply_bad=None):
    """States of the model after each command: [(command text, model or None when the command fails, printed-check)]. Ends before the first command the model does not cover.
    apply_bad: whether commands that use the bad file take effect (None: they fail)."""
    m = Session(plan["type"])
    m.quit = plan["quit"]
    out = []
    bad = plan["bad"][0] if plan["bad"] else None
    for k, c in enumerate(cmds):
        m2 = m.copy()
        try:
            touched = bad is not None and len(c) > 1 and c[1] == bad
            if touched and not apply_bad:
                if c[0] in ("save", "saved", "write", "redir", "wdef"):
                    need(c[0] not in ("redir", "wdef") or callable(step(m2.copy(), c)) or c[0] == "wdef")
                    if not m2.stack and c[0] not in ("saved", "wdef", "redir") or c[0] == "saved" and not m2.defs:
                        chk = "fail"
                    else:
                        m2.files[c[1]] = ("bad",)
                        chk = "bad"
                else:
                    chk = "fail"
            else:
                chk = step(m2, c)
        except (Skip, M.TooBig):
            break
        m = m if chk == "fail" else m2
        out.append((c, m.copy(), chk))
    return out


def put_source(s, c):
    if c[0] == "rfile":
        s.fs[c[1]] = bytearray(filetext(c).encode())
    else:
        s.fs[c[2]] = bytearray("".join(w + "\n" for w in c[3]).encode())


def script(s, plan, trace, start=0, crashing=False):
    """Commands with a save of the stack and a marker after each; a span of them is put in a file of its own that is executed with source."""
    spans = [(i, j) for i, j in plan["spans"] if start <= i and j < len(trace)]

    def lines(i, j, inside):
        l = []
        k = i
        while k <= j:
            sp = next((x for x in spans if x[0] == k and x[1] <= j and x not in inside), None)
            if sp:
                name = "/v/src%d-%d" % sp
                s.fs[name] = bytearray("".join(x + "\n" for x in lines(sp[0], sp[1], inside + [sp])).encode())
                l.append("source " + name)
                k = sp[1] + 1
                continue
            c, m, chk = trace[k]
            l += command(c).split("\n")
            if c[0] in ("rfile", "applyf"):
                put_source(s, c)
            if m.stack:
                l.append("save stack /v/s%d" % k)
            if crashing and m.defs:
                l.append("save defined > /v/d%d" % k)
            l.append("echo #%d#" % k)
            k += 1
        return l
    return lines(start, len(trace) - 1, [])


def launch(s, plan, lines, name="xfst"):
    argv = ["hfst-xfst"] + (["-q"] if plan["quiet"] else []) + ["-f", {"tropical": "openfst-tropical"}.get(plan["type"], plan["type"])]
    if plan["mode"] == "e":
        for x in lines:
            argv += ["-e", x + "\n"]
        return s.spawn("hfst-xfst", argv + ["-E", "quit\n"], stdin=b"")
    t = "".join(x + "\n" for x in lines)
    if plan["mode"] == "F":
        s.fs["/v/script"] = bytearray(t.encode())
        return s.spawn("hfst-xfst", argv + ["-F", "/v/script"], stdin=b"")
    if plan["mode"] == "l":
        h = len(lines) // 2
        s.fs["/v/script"] = bytearray("".join(x + "\n" for x in lines[:h]).encode() or b"\n")
        return s.spawn("hfst-xfst", argv + ["-l", "/v/script", "-r"], stdin="".join(x + "\n" for x in lines[h:]).encode())
    return s.spawn("hfst-xfst", argv + ["-" + plan["mode"]], stdin=t.encode())


def sections(out):
    """{k: lines printed by command k}"""
    d, cur = {}, []
    for l in bytes(out).decode("utf-8", "replace").split("\n"):
        while l.startswith("hfst[") and "]: " in l:
            l = l.split("]: ", 1)[1]
        if len(l) > 2 and l[0] == "#" and l[-1] == "#" and l[1:-1].isdigit():
            d[int(l[1:-1])] = cur
            cur = []
        elif not l.startswith("? bytes."):
            cur.append(l)
    return d


def read_back(ctx, s, paths):
    r = ctx.sim({"perturb": False}, "read")
    res = {}

    def ops():
        for p in paths:
            g = res[p] = []
            yield from read_all("i", p, g)
            yield "indel\ti"
    for p in paths:
        if p in s.fs:
            r.fs[p] = bytearray(s.fs[p])
    c = r.client([], name="reader")
    drive(c, ops())
    r.run()
    out = {}
    for p, g in res.items():
        out[p] = [x[1] for x in g if x[0] == "tr"] if g and g[-1][0] == "eof" and g[-1][1:] == ("ok", "1") else str(g[-1:])
    return out


def differs(want, got, typ):
    if len(want) != len(got):
        return "%d networks on the stack, expected %d" % (len(got), len(want))
    for k, (a, b) in enumerate(zip(want, got)):
        try:
            d = A.diff(a, b, typ == "tropical")
        except M.TooBig:
            continue
        if d:
            return "network %d of %d (the last is the top): %s" % (k + 1, len(want), d)
    return None


def check(ctx, plan):
    traces = [walk(plan, plan["cmds"])]
    if plan["bad"]:
        traces.append(walk(plan, plan["cmds"], True))
        # what both cover
        n = min(len(t) for t in traces)
        traces = [t[:n] for t in traces]
    tr = traces[0]
    if len(tr) < 2:
        ctx.nontrivial = False
        return
    ctx.nontrivial = len([1 for c, m, chk in tr if c[0] in ("regex", "un", "bin", "it", "push", "pop", "turn", "rotate", "load", "defpop")]) >= 3
    cfg = dict(plan["cfg"], max_steps=400000)
    if plan["crash"]:
        cfg["crash"] = plan["crash"]
    if plan["bad"]:
        cfg["bad"] = {plan["bad"][0]: plan["bad"][1:]}
    s = ctx.sim(cfg, "main")
    fs = files(ctx, plan)
    for p, b in fs.items():
        s.fs[p] = bytearray(b)
    crashing = plan["crash"] is not None
    lines = (["set quit-on-fail ON"] if plan["quit"] else []) + script(s, plan, tr, 0, crashing)
    n = launch(s, plan, lines)
    s.run()
    what = "; ".join(lines)
    if died(n):
        last = max([-1] + list(sections(n.stdout)))
        return ctx.bad("died:" + (tr[last + 1][0][1] if last + 1 < len(tr) and tr[last + 1][0][0] in ("un", "bin", "it", "fail", "test") else tr[min(last + 1, len(tr) - 1)][0][0]),
                       "the session ended with %s in command %d of: %s | %s" % (n.outcome(), last + 1, what, bytes(n.stderr)[-300:]))
    sec = sections(n.stdout)
    done = [k for k in sec if sec.get(k) is not None]
    if plan["quit"] and any(chk == "fail" for c, m, chk in tr):
        s.probe("quit-on-fail:" + n.outcome())
        tr = tr[:max([-1] + done) + 1]
        for k in range(len(tr)):
            if k not in sec:
                return ctx.bad("skipped", "command %d has been passed over: %s" % (k, what))
        if n.outcome() == "exit:0" and len(done) < len(traces[0]):
            return ctx.bad("stopped-silently", "the session stopped after command %d with exit:0: %s" % (len(done) - 1, what))
    elif crashing and n.killed:
        last = max([-1] + done)
        s.probe("crashed")
        tr2 = traces[0]
        s2 = ctx.sim(dict(plan["cfg"], max_steps=400000), "again")
        for p in s.fs:
            s2.fs[p] = bytearray(s.fs[p])
        pre = []
        start = last + 1
        if last >= 0:
            m = tr2[last][1]
            if m.stack:
                pre.append("load stack /v/s%d" % last)
            if m.defs:
                pre.append("load defined /v/d%d" % last)
        # functions are not saved: give them again; commands after the crash that read files written before still can
        fun = [command(c) for c, m, chk in tr2[:start] if c[0] == "deffun" and chk is None]
        sets = [command(c) for c, m, chk in tr2[:start] if c[0] == "set"]
        lines2 = pre + fun + sets + ["echo #99999#"] + script(s2, plan, tr2, start, True)
        n2 = launch(s2, plan, lines2)
        s2.run()
        what = "; ".join(lines[:3 * start]) + " KILLED; " + "; ".join(lines2)
        if died(n2):
            return ctx.bad("died-after-crash", "the second session ended with %s: %s | %s" % (n2.outcome(), what, bytes(n2.stderr)[-300:]))
        sec2 = sections(n2.stdout)
        for k in range(start, len(tr2)):
            if k not in sec2:
                return ctx.bad("lost-after-crash", "command %d did not run in the second session (%s): %s | %s" % (k, n2.outcome(), what, bytes(n2.stderr)[-300:]))
            sec[k] = sec2[k]
        s2.probe("recovered")
        s = s2
    else:
        for k in range(len(tr)):
            if k not in sec:
                return ctx.bad("lost:" + tr[k][0][0] + (":" + tr[k][0][1] if tr[k][0][0] == "fail" else ""), "the session ended (%s) before command %d (%s) was done: %s | %s" % (n.outcome(), k, command(tr[k][0]), what, bytes(n.stderr)[-300:]))
        if n.outcome() != "exit:0" and not any(chk in ("fail", "bad") for c, m, chk in tr):
            return ctx.bad("exit", "the session ended with %s: %s | %s" % (n.outcome(), what, bytes(n.stderr)[-200:]))
    if not plan["quit"] and any(chk in ("fail", "bad") for c, m, chk in tr) and not n.killed:
        msgs = bytes(n.stderr) + bytes(n.stdout)
        for c, m, chk in tr:
            if chk in ("fail", "bad") and (not plan["bad"] or any(x.startswith("bad_") for x in s.fired)) and c[0] in ("load", "loadd", "read", "save", "saved", "write", "rfile", "redir", "wdef") and not n.stderr:
                return ctx.bad("silent:" + c[0], "%s failed without a message: %s" % (command(c), what))
    got = read_back(ctx, s, ["/v/s%d" % k for k in range(len(tr)) if tr[k][1].stack])
    alts = [t for t in traces]
    why = None
    for t in alts:
        why = None
        if t is not traces[0] and plan["bad"][1] != "close":
            break
        for k in range(len(tr)):
            c, m, chk = t[k]
            if callable(chk) and plan["quiet"]:
                got_ = sec.get(k, [])
                if c[0] == "redir":
                    got_ = bytes(s.fs.get(c[1], b"")).decode("utf-8", "replace").split("\n")
                    got_ = got_[:-1] if got_[-1] == "" else got_
                d = chk(got_)
                if d:
                    why = ("printed:" + ("test identity:sides" if d == ":sides" else c[1] if c[0] in ("test", "shortest", "longest") else c[2][0] + ">" if c[0] == "redir" else c[0]), "command %d (%s): %s | %s" % (k, command(c), d, what))
                    break
            if not tr[k][1].stack:
                continue        # the script does not save it here
            if m.stack:
                g = got["/v/s%d" % k]
                if isinstance(g, str):
                    why = ("unsaved", "after command %d (%s) the stack was not saved: %s: %s" % (k, command(c), g, what))
                    break
                d = differs(m.stack, g, plan["type"])
                if d:
                    why = ("stack:" + (c[1] if c[0] in ("un", "bin", "it", "fail") else c[0]), "after command %d (%s): %s; session: %s" % (k, command(c), d, what))
                    break
            elif tr[k][0] is c and "/v/s%d" % k in s.fs:
                why = ("stack-not-empty", "after command %d" % k)
                break
        if why is None:
            break
    if why:
        return ctx.bad(*why)
    for c, m, chk in tr:
        s.probe(("failed:" if chk == "fail" else "cmd:") + (c[1] if c[0] in ("un", "bin", "it", "test", "shortest", "longest", "nop") else c[0] + ":" + c[3] if c[0] == "sub" else c[0]))
