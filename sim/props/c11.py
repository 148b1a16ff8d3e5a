"""C11: a workspace of transducers under any history of operations, failures, saves, crashes and reloads follows the relational model."""
import models as M
import algebra as A
import sim as S
from props.util import *

ID = "C11"
TOOLS = []
RUNS = {"quick": 30000, "thorough": 400000}
RULE = ("a plan is a workspace of named transducers of one back end or several and a history of operations on them (algebra, optimisation, conversion, copies, "
        "assignments, operations that must fail, saves to a file, crashes at any step followed by a reload of the last complete save); after each step every "
        "variable is compared with the model; non-trivial: at least three operations succeeded")
REAL = ["libhfst (HfstTransducer, OpenFst, SFST and foma back ends, streams)"]
TYPES = ["tropical", "tropical", "foma", "sfst"]
VARS = "ABCD"

UNARY = ["invert", "reverse", "input_project", "output_project", "repeat_star", "repeat_plus", "repeat_n", "repeat_n_plus", "repeat_n_minus", "repeat_n_to_k",
         "optionalize", "determinize", "minimize", "optimize", "remove_epsilons", "prune", "push_weights", "negate", "substitute", "substitute_pair",
         "set_final_weights", "insert_freely", "n_best", "convert", "prune_alphabet"]
BINARY = ["concatenate", "disjunct", "intersect", "subtract", "compose", "cross_product", "priority_union", "lenient_composition", "insert_freely", "subst_tr",
          "shuffle", "b_insert_freely", "b_substitute", "b_harmonize"]
MORE = ["transform_weights", "push_labels", "subst_map", "subst_pairmap", "subst_pairset", "subst_func", "disjunct_path", "b_same", "b_substitute", "b_subst_pair",
        "b_subst_pairset", "b_insert_freely", "b_insert_freely_set", "b_disjunct", "b_remove_pair", "b_add", "b_remove", "b_final", "b_nonfinal", "b_sort",
        "b_copy", "via"]
ASK = ["is_automaton", "is_cyclic", "is_infinitely_ambiguous", "has_weights", "longest", "longest_paths", "shortest_paths", "paths", "some_paths", "initial_symbols"]
FLAGS = ["@%s.%s@" % (o, x) for o in "PRDCU" for x in ("F.x", "F.y", "G.x")] + ["@R.F@", "@D.F@", "@C.F@", "@C.G@", "@D.G@"]
FLAGS = [f for f in FLAGS if f[1] != "C" or f.count(".") == 1]


def flag_net(r):
    """Words with flag diacritics."""
    n = r.randint(2, 4)
    net = {"arcs": [], "finals": [[n, r.choice([0.0, 0.5])]], "syms": []}
    fl = r.sample(FLAGS, r.randint(1, 5))
    for s in range(n):
        for _ in range(r.randint(1, 2)):
            x = r.choice(fl + ["a", "b"]) if r.random() < 0.8 else r.choice("ab")
            net["arcs"].append([s, s + 1, x, x if M.flag(x) else r.choice([x, "c"]), r.choice([0.0, 0.0, 0.5])])
    if r.random() < 0.3:
        x = r.choice(fl + ["a"])
        net["arcs"].append([r.randrange(n + 1), r.randrange(n + 1), x, x, 0.25])
    if r.random() < 0.3:
        net["finals"].append([r.randrange(n), 0.0])
    net = M.trim(net)
    net["syms"] = sorted(A.known(net))
    return net


def pair(r):
    x = r.choice("abcz")
    return [x, x if r.random() < 0.4 else r.choice(["a", "b", "x", "z", M.EPS])]


def gen_net(r, neg=True):
    auto = r.random() < 0.5
    c = r.random()
    syms = ["a", "b", "c"][:r.randint(2, 3)] if r.random() < 0.7 else ["a", "x", "y"]
    if c < 0.15:
        net = M.trim(M.gen_net(r, states=1, arcs=r.randint(0, 1), syms=syms, transducer=not auto, eps=0.0))
    elif c < 0.6:
        net = M.trim(M.gen_net(r, states=r.randint(2, 4), arcs=r.randint(1, 5), syms=syms, transducer=not auto, eps=r.choice([0, 0.15]), acyclic=True))
    else:
        net = M.trim(M.gen_net(r, states=r.randint(1, 3), arcs=r.randint(1, 4), syms=syms, transducer=not auto, eps=r.choice([0, 0, 0.1])))
    if r.random() < 0.2:
        n = A.size(net)
        net["arcs"].append([0, n, M.IDE, M.IDE, 0.0])
        net["finals"].append([n, 0.0])
    if not auto and r.random() < 0.15:
        n = A.size(net)
        net["arcs"].append([r.randrange(n), n, *r.choice([(M.UNK, M.UNK), (M.UNK, r.choice(syms)), (r.choice(syms), M.UNK), (M.UNK, M.EPS)]), r.choice([0.0, 0.5])])
        net["finals"].append([n, 0.0])
    for x in net["arcs"] + net["finals"]:
        x[-1] = min(x[-1], 4.0)
    if neg and r.random() < 0.12 and acyclic(net):
        for x in net["arcs"] + net["finals"]:
            if r.random() < 0.5:
                x[-1] = -x[-1] - r.choice([0.0, 0.25])
    if auto:
        for a in net["arcs"]:
            a[3] = a[2]
    net["syms"] = sorted(A.known(net))
    return net


def gen_op(r, types):
    c = r.random()
    v = r.choice(VARS)
    if c < 0.08:
        return ["mk", v, r.choice(types), gen_net(r)]
    if c < 0.16:
        return ["copy", v, r.choice(VARS)]
    if c < 0.20:
        return ["assign", v, r.choice(VARS)]
    if c < 0.26:
        return ["compare", v, r.choice(VARS)]
    if c < 0.31:
        return ["save"]
    if c < 0.35:
        return ["crash", r.choice([0, 1, 2, 3, 5, 8, 13, 30])]
    if c < 0.62:
        return ["bin", v, r.choice(BINARY), r.choice(VARS), r.choice("abc")]
    if c < 0.69:
        return ["ask", v, r.choice(ASK)]
    if c < 0.72:
        t = r.choice([t for t in types if t != "foma"] or ["tropical"])
        return ["flags", t, flag_net(r), r.choice(["", "", "F", "G"])]
    if c < 0.84:
        op = r.choice(MORE)
        args = []
        if op == "transform_weights":
            args = [r.choice(["double", "half"])]
        elif op == "push_labels":
            args = [r.randint(0, 1)]
        elif op == "subst_map":
            args = sum([[x, r.choice(["a", "b", "z", M.EPS])] for x in r.sample("abcx", r.randint(1, 3))], [])
        elif op == "subst_pairmap":
            ks = {tuple(pair(r)): pair(r) for _ in range(r.randint(1, 3))}
            args = sum([list(k) + ks[k] for k in ks], [])
        elif op in ("subst_pairset", "b_subst_pairset"):
            args = sum([pair(r) for _ in range(r.randint(1, 4))], [])
        elif op == "b_subst_pair":
            args = pair(r) + pair(r)
        elif op == "disjunct_path":
            args = sum([pair(r) for _ in range(r.randint(0, 3))], [])
        elif op == "b_disjunct":
            args = [r.choice([0.0, 0.5, 2.0])] + sum([pair(r) for _ in range(r.randint(0, 3))], [])
        elif op == "b_substitute":
            args = [r.choice("abx"), r.choice(["a", "b", "z", M.EPS]), r.randint(0, 1), r.randint(0, 1)]
        elif op == "b_insert_freely":
            args = pair(r) + [r.choice([0.0, 0.5])]
        elif op == "b_insert_freely_set":
            args = [r.choice([0.0, 0.5])] + sum([pair(r) for _ in range(r.randint(1, 3))], [])
        elif op == "b_remove_pair":
            args = pair(r)
        elif op in ("b_add", "b_remove"):
            args = [r.randint(0, 4), r.randint(0, 4)] + pair(r) + [r.choice([0.0, 0.5]) if op == "b_add" else r.randint(0, 1)]
        elif op == "b_final":
            args = [r.randint(0, 5), r.choice([0.0, 1.5])]
        elif op == "b_nonfinal":
            args = [r.randint(0, 4)]
        elif op == "via":
            args = [r.choice(["olw", "ol", "log", "foma", "sfst"])]
        return ["more", v, op] + args
    op = r.choice(UNARY)
    args = []
    if op in ("repeat_n", "repeat_n_plus", "repeat_n_minus"):
        args = [r.randint(0, 2)]
    elif op == "repeat_n_to_k":
        k = r.randint(0, 2)
        args = [k, k + r.randint(0, 1)]
    elif op == "push_weights":
        args = [r.randint(0, 1)]
    elif op == "n_best":
        args = [r.randint(1, 3)]
    elif op == "substitute":
        args = [r.choice("abx"), r.choice(["a", "b", "z", M.EPS]), r.randint(0, 1), r.randint(0, 1)]
    elif op == "substitute_pair":
        args = [r.choice("ab"), r.choice("abc"), r.choice("axz"), r.choice(["a", "z", M.EPS])]
    elif op == "insert_freely":
        p = r.choice("abz")
        args = [p, p]
    elif op == "set_final_weights":
        args = [r.choice([0.5, 2.0]), r.choice([1, 1, 0])]
    elif op == "convert":
        args = [r.choice(["tropical", "foma", "sfst"])]
    return ["un", v, op] + args


def gen(r, tier):
    types = [r.choice(TYPES)] if r.random() < 0.8 else TYPES
    plan = {"nets": [[v, r.choice(types), gen_net(r)] for v in VARS], "cfg": soft_cfg(r), "ops": []}
    plan["ops"] = [gen_op(r, types) for _ in range(r.choice([3, 6, 10, 16]))]
    return plan


class Skip(Exception):
    pass


def need(c):
    if not c:
        raise Skip()


def no_ide(*nets):
    return all(M.IDE not in a[2:4] and M.UNK not in a[2:4] for n in nets for a in n["arcs"])


def no_unk(*nets):
    return all(M.UNK not in a[2:4] for n in nets for a in n["arcs"])


def nonneg(*nets):
    return all(x[-1] >= 0 for n in nets for x in n["arcs"] + n["finals"])


def model_more(net, typ, op, args):
    w = typ == "tropical"
    if op == "transform_weights":
        need(w)
        return A.weights(net, (lambda x: 2 * x) if args[0] == "double" else (lambda x: x / 2))
    if op == "push_labels":
        need(w and no_unk(net) and no_ide(net))
        return net
    if op in ("b_same", "b_sort", "b_copy"):
        return net
    if op == "via":
        return net if w and args[0] in ("olw", "log") else M.strip_weights(net)
    ps = [tuple(args[k:k + 2]) for k in range(0, len(args) - 1, 2)]
    if op in ("b_final", "b_nonfinal"):
        need(args[0] < A.size(net) or op == "b_final")
        fin = M.finals_of(net)
        if op == "b_final":
            fin[args[0]] = args[1] if w else 0.0
        else:
            fin.pop(args[0], None)
        return {"arcs": net["arcs"], "finals": [[s, x] for s, x in fin.items()], "syms": net["syms"]}
    if op in ("b_add", "b_remove"):
        s, t, i, o = args[:4]
        k = (i, o) != (M.EPS, M.EPS) and {i, o} - {M.EPS} <= A.known(net)
        need(no_ide(net) or k and op == "b_add")
        if op == "b_add":
            return {"arcs": net["arcs"] + [[s, t, i, o, args[4] if w else 0.0]], "finals": net["finals"], "syms": sorted(A.known(net) | ({i, o} - {M.EPS}))}
        return {"arcs": [a for a in net["arcs"] if a[:4] != [s, t, i, o]], "finals": net["finals"], "syms": net["syms"]}
    if op in ("disjunct_path", "b_disjunct"):
        if op == "disjunct_path":
            need(typ in ("tropical", "sfst"))
            p, x = ps, 0.0
        else:
            p, x = [tuple(args[k:k + 2]) for k in range(1, len(args), 2)], args[0] if w else 0.0
        # a path is added along the arcs that are there: meant for tries
        need(no_ide(net) and is_trie(net) and all(q[0] != M.EPS for q in p))
        return A.union(net, A.path_net(p, x))
    need(no_ide(net))
    if op == "subst_map":
        m = dict(ps)
        need(not (set(m) & {v for v in m.values()}))
        return A.replace_pairs(net, lambda p: [(m.get(p[0], p[0]), m.get(p[1], p[1]))], m.values())
    if op == "subst_pairmap":
        m = {tuple(args[k:k + 2]): tuple(args[k + 2:k + 4]) for k in range(0, len(args), 4)}
        return A.replace_pairs(net, lambda p: [m.get(p, p)], [x for v in m.values() for x in v])
    if op == "subst_func":
        return A.replace_pairs(net, lambda p: [(p[1], "a"), ("a", "a")] if p[0] == "a" and p[1] != "a" else [p])
    if op in ("subst_pairset", "b_subst_pairset"):
        return A.replace_pairs(net, lambda p: sorted(set(ps[1:])) if p == ps[0] else [p], [x for v in ps[1:] for x in v])
    if op == "b_subst_pair":
        return A.replace_pairs(net, lambda p: [ps[1]] if p == ps[0] else [p], ps[1])
    if op == "b_substitute":
        need(args[2] or args[3])
        return A.substitute(net, *args)
    if op in ("b_insert_freely", "b_insert_freely_set"):
        q, x = ([tuple(args[:2])], args[2]) if op == "b_insert_freely" else ([tuple(args[k:k + 2]) for k in range(1, len(args), 2)], args[0])
        n = A.with_alphabet(net, {y for p in q for y in p} - {M.EPS})
        need(nonneg(net))
        return {"arcs": n["arcs"] + [[s, s, i, o, x if w else 0.0] for s in range(A.size(n)) for i, o in q], "finals": n["finals"], "syms": n["syms"]}
    if op == "b_remove_pair":
        return {"arcs": [a for a in net["arcs"] if (a[2], a[3]) != ps[0]], "finals": net["finals"], "syms": net["syms"]}
    raise Skip()


def is_trie(net):
    """A deterministic tree from state 0."""
    seen, into = set(), set()
    for s, t, i, o, w in net["arcs"]:
        if (s, i, o) in seen or t in into or t == 0:
            return False
        seen.add((s, i, o))
        into.add(t)
    return all(w == 0 for *_, w in net["arcs"])


def model_unary(net, typ, op, args):
    """The expected net after the operation, 'same' semantics included; Skip when the operation is not tried on this operand."""
    w = typ == "tropical"
    if op == "invert":
        return A.invert(net)
    if op == "reverse":
        return A.reverse(net)
    if op == "input_project":
        need(no_unk(net))
        return A.iproj(net)
    if op == "output_project":
        need(no_unk(net))
        return A.oproj(net)
    if op in ("repeat_star", "repeat_plus", "repeat_n_plus"):
        need(nonneg(net))
    if op in ("negate", "substitute", "substitute_pair", "push_weights", "prune_alphabet"):
        need(no_unk(net))
    if op.startswith("repeat") or op == "optionalize":
        need(typ != "foma" or A.known(net))  # the system's libfoma (not part of this repository) crashes on an empty alphabet
    if op == "repeat_star":
        return A.star(net)
    if op == "repeat_plus":
        return A.plus(net)
    if op == "repeat_n":
        return A.times(net, args[0])
    if op == "repeat_n_plus":
        return A.concat(A.times(net, args[0]), A.star(net))
    if op == "repeat_n_minus":
        return A.times_to(net, 0, args[0])
    if op == "repeat_n_to_k":
        return A.times_to(net, args[0], args[1])
    if op == "optionalize":
        return A.optional(net)
    if op in ("determinize", "minimize", "optimize"):
        need(determinizable(net, w))
        return net
    if op == "prune_alphabet":
        need(no_ide(net))
    if op == "remove_epsilons":
        need(typ != "foma")  # fsm_epsilon_remove of the system's libfoma (not part of this repository) crashes on chains of epsilons
    if op in ("remove_epsilons", "prune", "convert", "prune_alphabet"):
        return net
    if op == "push_weights":
        need(w)
        return net
    if op == "negate":
        need(A.automaton(net))
        return A.negate(net)
    if op == "substitute":
        # whether a symbol that is replaced on one side only stays known depends on the type, and identity depends on that
        need((args[0] in A.known(net) and args[2] and args[3] or no_ide(net)) and (args[2] or args[3]))
        return A.substitute(net, args[0], args[1], args[2], args[3])
    if op == "substitute_pair":
        need(no_ide(net))
        return A.substitute_pair(net, (args[0], args[1]), (args[2], args[3]))
    if op == "set_final_weights":
        return A.final_weights(net, args[0], args[1]) if w else net
    if op == "insert_freely":
        need(no_unk(net))
        return A.insert_freely(net, (args[0], args[1]))
    raise Skip()


def determinizable(net, weighted):
    """Acyclic, or without weights: determinisation certainly ends."""
    if not weighted or all(x[-1] == 0 for x in net["arcs"] + net["finals"]):
        return True
    return acyclic(net)


def acyclic(net):
    out = {}
    for a in net["arcs"]:
        out.setdefault(a[0], set()).add(a[1])
    state = {}

    def go(s):
        state[s] = 1
        for t in out.get(s, ()):
            if state.get(t) == 1 or t not in state and not go(t):
                return False
        state[s] = 2
        return True
    return all(go(s) for s in list(out) if s not in state)


def model_binary(a, b, typ, op, sym):
    w = typ == "tropical"
    if op not in ("concatenate", "disjunct", "intersect", "subtract", "b_harmonize"):
        need(no_unk(a, b))
    if op == "concatenate":
        return A.concat(a, b)
    if op == "disjunct":
        return A.union(a, b)
    if op == "compose":
        return A.compose(a, b)
    if op == "intersect":
        need(A.automaton(a) and A.automaton(b) or A.pair_free(a) and A.pair_free(b))
        need(determinizable(a, w) and determinizable(b, w))
        return A.intersect(a, b)
    if op == "subtract":
        need(A.automaton(a) and A.automaton(b) or A.pair_free(a) and A.pair_free(b))
        need(determinizable(a, w) and determinizable(b, w))
        return A.subtract(a, b)
    if op == "cross_product":
        need(A.automaton(a) and A.automaton(b) and no_ide(a, b) and acyclic(a) and acyclic(b))
        return A.cross(a, b)
    if op == "priority_union":
        need(no_ide(a, b) and acyclic(a) and acyclic(b))
        return A.priority_union(a, b)
    if op == "lenient_composition":
        need(no_ide(a, b) and acyclic(a) and acyclic(b))
        return A.lenient(a, b)
    if op == "b_harmonize":
        return A.with_alphabet(a, A.known(b))
    if op == "shuffle":
        need(A.automaton(a) and A.automaton(b) and no_ide(a, b) and determinizable(a, w) and determinizable(b, w))
        return A.shuffle(a, b)
    if op == "b_insert_freely":
        need(no_ide(a, b))
        op = "insert_freely"
    if op == "b_substitute":
        need(no_ide(a, b))
        op = "subst_tr"
    if op == "insert_freely":
        need(nonneg(b))
        a, b = A.harmonize(a, b)
        r = {"arcs": list(a["arcs"]), "finals": list(a["finals"]), "syms": a["syms"]}
        n = A.size(a)
        for s in range(A.size(a)):
            c = A.shift(b, n)
            r["arcs"] += c["arcs"] + [[s, n, M.EPS, M.EPS, 0.0]] + [[f, s, M.EPS, M.EPS, w] for f, w in c["finals"]]
            n += A.size(b)
        return r
    if op == "subst_tr":
        need(no_ide(a) or sym in A.known(a))
        a, b = A.harmonize(a, b)
        r = {"arcs": [], "finals": list(a["finals"]), "syms": a["syms"]}
        n = A.size(a)
        for s, t, i, o, x in a["arcs"]:
            if (i, o) != (sym, sym):
                r["arcs"].append([s, t, i, o, x])
                continue
            c = A.shift(b, n)
            r["arcs"] += c["arcs"] + [[s, n, M.EPS, M.EPS, x]] + [[f, t, M.EPS, M.EPS, w] for f, w in c["finals"]]
            n += A.size(b)
        return r
    raise Skip()


class Workspace:
    def __init__(self, ctx, s, plan):
        self.ctx, self.s, self.plan = ctx, s, plan
        self.types, self.nets, self.raw = {}, {}, {}
        self.done, self.snap, self.crash_at, self.good = 0, None, None, 0
        self.snaps = 0
        self.restart = False

    def bad(self, cls, text):
        self.ctx.bad(cls, "after %s: %s" % (self.plan["ops"][:self.done], text))

    def look(self, v, want, why, weights=None):
        """Read variable v back and compare it with the expected net."""
        r = yield "show\t" + v
        if r[0] != "ok":
            self.bad("unusable:" + why, "%s cannot be shown: %s" % (v, r))
            return False
        m = yield "meta\t" + v
        t = parse_meta(m[1])["type"]
        if t != self.types[v]:
            self.bad("type:" + why, "%s became %s" % (v, t))
            return False
        if r[1] == self.raw.get(v) and want is self.nets.get(v):
            return True
        got = M.parse_net(r[1])
        try:
            d = A.diff(want, got, weights if weights is not None else t == "tropical")
            self.s.probe("compared")
        except M.TooBig:
            d = None
            self.s.probe("too-big")
        if d:
            self.bad("relation:" + why, "%s (%s) is wrong: %s; expected %s, got %s" % (v, t, d, brief(want), brief(got)))
            return False
        self.raw[v], self.nets[v] = r[1], got
        return True

    def others(self, but, why):
        for v in VARS:
            if v not in but and v in self.nets:
                ok = yield from self.look(v, self.nets[v], why)
                if not ok:
                    return False
        return True

    def boot(self):
        if self.snap is None:
            for v, t, net in self.plan["nets"]:
                if not (yield from self.make(v, t, net)):
                    return False
            return True
        path, nets, types = self.snap
        self.nets, self.types, self.raw = dict(nets), dict(types), {}
        for t in sorted(set(types.values())):
            r = yield "inopen\ti\t%s.%s" % (path, t)
            if r[0] != "ok":
                self.bad("reload", "saved workspace cannot be opened: %s" % (r,))
                return False
            for v in VARS:
                if types.get(v) != t:
                    continue
                r = yield "inread\ti\t" + v
                if r[0] != "ok":
                    self.bad("reload", "%s cannot be read back: %s" % (v, r))
                    return False
                if not (yield from self.look(v, nets[v], "reload")):
                    return False
            r = yield "indel\ti"
        self.s.probe("reloaded")
        return True

    def make(self, v, t, net):
        if t != "tropical":
            net = M.strip_weights(net)
        r = yield M.mk(v, t, net)
        if r[0] != "ok":
            self.bad("failed:mk", "%s: %s" % (net, r))
            return False
        self.types[v] = t
        self.nets.pop(v, None)
        self.raw.pop(v, None)
        return (yield from self.look(v, net, "mk"))

    def save(self):
        self.snaps += 1
        path = "/v/ws%d" % self.snaps
        for t in sorted(set(self.types.values())):
            for o in ["outopen\to\t%s.%s\t%s\t1" % (path, t, t)] + ["outwrite\to\t" + v for v in VARS if self.types.get(v) == t] + ["outclose\to", "outdel\to"]:
                r = yield o
                if r[0] != "ok":
                    self.bad("failed:save", "%s: %s" % (o, r))
                    return False
        self.snap = (path, dict(self.nets), dict(self.types))
        return True

    def session(self):
        ok = yield from self.boot()
        if not ok:
            return
        ops = self.plan["ops"]
        while self.done < len(ops):
            op = ops[self.done]
            self.done += 1
            if op[0] == "crash":
                self.crash_at = self.s.steps + op[1]
                yield from self.save()
                self.crash_at = None
                continue
            if not (yield from self.step(op)):
                return

    def step(self, op):
        k = op[0]
        if k == "save":
            return (yield from self.save())
        if k == "mk":
            return (yield from self.make(op[1], op[2], op[3])) and (yield from self.others([op[1]], "mk"))
        if k == "flags":
            return (yield from self.flags(op[1], op[2], op[3]))
        v = op[1]
        if k in ("copy", "assign"):
            u = op[2]
            r = yield "%s\t%s\t%s" % (k, v, u)
            if k == "assign" and self.types[u] != self.types[v]:
                if r[0] != "hfst":
                    self.bad("no-error:assign", "%s: %s" % (op, r))
                    return False
                self.s.fire("failing_operation")
                return (yield from self.others([], "failed-assign"))
            if r[0] != "ok":
                self.bad("failed:" + k, "%s: %s" % (op, r))
                return False
            self.types[v] = self.types[u]
            want = self.nets[u]
            if u != v:
                self.nets.pop(v)
                self.raw.pop(v, None)
            self.good += 1
            return (yield from self.look(v, want, k)) and (yield from self.others([v], k))
        if k == "compare":
            return (yield from self.compare(v, op[2]))
        if k == "ask":
            return (yield from self.ask(v, op[2]))
        if k == "more":
            return (yield from self.more(v, op[2], op[3:]))
        if k == "un":
            return (yield from self.unary(v, op[2], op[3:]))
        return (yield from self.binary(v, op[2], op[3], op[4]))

    def compare(self, v, u):
        a, b = self.nets[v], self.nets[u]
        if self.types[v] != self.types[u]:
            r = yield "compare\t%s\t%s" % (v, u)
            if r[0] == "ok":
                self.bad("no-error:compare", "transducers of types %s and %s were compared" % (self.types[v], self.types[u]))
                return False
            self.s.fire("failing_operation")
            return (yield from self.others([], "failed-compare"))
        w = self.types[v] == "tropical"
        if not (no_unk(a, b) and A.pair_free(a) and A.pair_free(b) and determinizable(a, w) and determinizable(b, w)):
            return True
        r = yield "compare\t%s\t%s" % (v, u)
        if r[0] != "ok":
            self.bad("failed:compare", "%s %s: %s" % (v, u, r))
            return False
        try:
            d = A.diff(a, b, w)
        except M.TooBig:
            return True
        if d is not None and r[1] == "1":
            self.bad("compare", "%s and %s compare equal, but %s" % (brief(a), brief(b), d))
            return False
        if d is None and r[1] == "0" and (acyclic(a) and acyclic(b) and longest(a) <= 3 and longest(b) <= 3 and fine(a, b) or v == u):
            self.bad("compare", "%s and %s compare unequal" % (brief(a), brief(b)))
            return False
        self.s.probe("compare")
        return (yield from self.others([], "compare"))

    def unary(self, v, op, args):
        net, typ = self.nets[v], self.types[v]
        try:
            want = model_unary(net, typ, op, args) if op != "n_best" else None
            if op == "n_best":
                need(typ == "tropical" and acyclic(net) and no_unk(net) and nonneg(net))
        except (Skip, M.TooBig):
            return True
        if len(net["arcs"]) > 40 and op not in ("invert", "input_project", "output_project"):
            return True
        r = yield "un\t%s\t%s%s" % (v, op, "".join("\t" + (M.enc(x) if isinstance(x, str) else str(x)) for x in args))
        if r[0] != "ok":
            self.bad("failed:" + op, "%s of %s (%s): %s" % ([op] + args, brief(net), typ, r))
            return False
        self.good += 1
        if op == "n_best":
            return (yield from self.n_best(v, net, args[0])) and (yield from self.others([v], op))
        weights = None
        if op == "convert":
            weights = typ == "tropical" and args[0] == "tropical"
            self.types[v] = args[0]
        if op == "negate":
            weights = False
        return (yield from self.look(v, want, op, weights)) and (yield from self.others([v], op))

    def more(self, v, op, args):
        net, typ = self.nets[v], self.types[v]
        if len(net["arcs"]) > 40:
            return True
        try:
            want = model_more(net, typ, op, args)
        except (Skip, M.TooBig):
            return True
        rest = "".join("\t" + (M.enc(x) if isinstance(x, str) else str(x)) for x in args)
        if op == "push_labels":
            r = yield "un\t%s\t%s%s" % (v, op, rest)
        elif op == "via":
            r = yield "un\t%s\tconvert\t%s" % (v, args[0])
            if r[0] == "ok":
                r = yield "un\t%s\tconvert\t%s" % (v, typ)
        else:
            r = yield "more\t%s\t%s%s" % (v, op, rest)
        if r[0] != "ok":
            self.bad("failed:" + op, "%s of %s (%s): %s" % ([op] + args, brief(net), typ, r))
            return False
        self.good += 1
        return (yield from self.look(v, want, op)) and (yield from self.others([v], op))

    def flags(self, typ, net, feature):
        v = "F"     # not one of the variables: gone again afterwards
        ok = yield from self.flags1(v, typ, net, feature)
        for d in (self.nets, self.raw, self.types):
            d.pop(v, None)
        yield "drop\t" + v
        return ok and (yield from self.others([], "flags"))

    def flags1(self, v, typ, net, feature):
        if not (yield from self.make(v, typ, net)):
            return False
        net = self.nets.pop(v)
        has = any(M.flag(x) and M.flag(x)[1] == feature for x in A.known(net))
        if feature and not has:
            r = yield "more\t%s\teliminate_flag\t%s" % (v, feature)
            if r[0] != "hfst":
                self.bad("no-error:eliminate_flag", "%s of %s: %s" % (feature, brief(net), r))
                return False
            self.s.fire("failing_operation")
            return True
        if not determinizable(net, typ == "tropical"):
            return True
        r = yield ("more\t%s\teliminate_flag\t%s" % (v, feature) if feature else "un\t%s\teliminate_flags" % v)
        if r[0] != "ok":
            self.bad("failed:eliminate_flags", "%s of %s (%s): %s" % (feature, brief(net), typ, r))
            return False
        self.good += 1
        return (yield from self.look(v, A.eliminate_flags(net, feature or None), "eliminate_flags"))

    def ask(self, v, q):
        net, typ = self.nets[v], self.types[v]
        t = M.trim(net)
        e, arg = None, ""
        cyc = not acyclic(net)
        if cyc != (not acyclic(t)) or len(net["arcs"]) > 30:
            return True
        if typ == "foma" and not trimmed(net):
            return True     # the system's libfoma answers wrongly for nets with useless states
        if q in ("longest", "longest_paths"):
            arg = "\t0"
            if any(M.EPS in a[2:4] or M.UNK in a[2:4] for a in net["arcs"]):
                return True
        if q in ("shortest_paths",) and (cyc or not determinizable(net, True) or not nonneg(net)):
            return True
        if q == "initial_symbols" and typ != "tropical":
            return True
        if q in ("paths", "some_paths"):
            r = yield "paths\t%s\t%d\t%d" % (v, -1 if q == "paths" else 3, -1)
        else:
            r = yield "more\t%s\t%s%s" % (v, q, arg)
        if q in ("longest", "longest_paths", "paths") and cyc:
            if r[0] != "hfst":
                self.bad("no-error:" + q, "%s of a cyclic transducer %s: %s" % (q, brief(net), r))
                return False
            self.s.fire("failing_operation")
            return (yield from self.others([], "failed-" + q))
        if r[0] != "ok":
            self.bad("failed:" + q, "%s of %s (%s): %s" % (q, brief(net), typ, r))
            return False
        self.good += 1
        self.s.probe("asked")
        got = r[1].strip("\n")
        try:
            e = self.answer(q, got, net, t, typ, cyc)
        except M.TooBig:
            e = None
        if e:
            self.bad("answer:" + q, "%s of %s (%s) gave %r: %s" % (q, brief(net), typ, got[:300], e))
            return False
        return (yield from self.others([], q))

    def answer(self, q, got, net, t, typ, cyc):
        def flag_is(x):
            return None if got == ("1" if x else "0") else "expected %s" % x
        if q == "is_cyclic":
            return flag_is(cyc)
        if q == "is_automaton":
            if A.automaton(net):
                return flag_is(True)
            return flag_is(False) if really_transducer(net) else None
        if q == "has_weights":
            return flag_is(any(x[-1] != 0 for x in net["arcs"] + net["finals"])) if typ == "tropical" else flag_is(False)
        if q == "is_infinitely_ambiguous":
            a, b = ({"arcs": [x for x in n["arcs"] if x[2] == M.EPS], "finals": []} for n in (net, t))
            return flag_is(not acyclic(b)) if acyclic(a) == acyclic(b) else None
        if q == "longest":
            want = longest(t) if t["finals"] else -1
            return None if got == str(want) else "expected %d" % want
        w = typ == "tropical"
        if q in ("paths", "some_paths", "shortest_paths"):
            have, full = pairs_of(got), M.relation(net if w else M.strip_weights(net), 6)
            if not cyc and longest(t) > 6:
                return None
            if q == "paths":
                return M.rel_diff(full, have, True)
            for k in have:
                if k not in full and len(k[0]) <= 6 and len(k[1]) <= 6:
                    return "%s is not there" % M.show_pair(k)
                if k in full and full[k] > have[k] + 1e-3:
                    return "%s has weight %g, expected %g" % (M.show_pair(k), have[k], full[k])
            if full and not have:
                return "nothing"
            if q == "shortest_paths" and full and not M.close(min(full.values()), min(have.values())):
                return "the best weight is %g" % min(full.values())
            return "too many" if len(have) > (3 if q == "some_paths" else 1) else None
        if q == "longest_paths":
            n = longest(t)
            full = {k: v for k, v in M.relation(t if w else M.strip_weights(t), 7).items() if len(k[0]) == n} if t["finals"] else {}
            if n > 7:
                return None
            return M.rel_diff(full, pairs_of(got.partition("\n")[2]), True)
        if q == "initial_symbols":
            out = A.outgoing(t)
            seen, work, want = {0}, [0], set()
            while work:
                for u, i, o, x in out.get(work.pop(), ()):
                    if i != M.EPS:
                        want.add(i)
                    elif u not in seen:
                        seen.add(u)
                        work.append(u)
            if len(t["arcs"]) != len(net["arcs"]):
                return None
            have = {M.dec(x) for x in got.split("\n") if x}
            return None if have == want else "expected %s" % sorted(want)
        return None

    def n_best(self, v, net, n):
        r = yield "show\t" + v
        if r[0] != "ok":
            self.bad("unusable:n_best", "%s" % (r,))
            return False
        got = M.parse_net(r[1])
        try:
            a, b = M.relation(net, 5), M.relation(got, 5)
        except M.TooBig:
            a = b = {}
        e = None
        for k in b:
            if k not in a:
                e = "extra %s" % M.show_pair(k)
            elif not M.close(a[k], b[k]) and b[k] < a[k]:
                e = "%s has weight %g, expected %g" % (M.show_pair(k), b[k], a[k])
        if a and not b and longest(net) <= 5:
            e = "nothing is left"
        elif a and longest(net) <= 5 and not M.close(min(a.values()), min(b.values())):
            e = "the best path is not there"
        elif len(b) > n:
            e = "%d string pairs are left" % len(b)
        if e:
            self.bad("relation:n_best", "%d best paths of %s: %s: %s" % (n, brief(net), e, brief(got)))
            return False
        self.nets[v], self.raw[v] = got, r[1]
        return True

    def binary(self, v, op, u, sym):
        a, b, typ = self.nets[v], self.nets[u], self.types[v]
        fail = False
        if typ != self.types[u]:
            if op in ("insert_freely", "subst_tr") or op.startswith("b_"):
                return True
            fail = True
        elif op == "cross_product" and not (A.automaton(a) and A.automaton(b)) and no_unk(a, b) and acyclic(a) and acyclic(b):
            fail = True
            if not really_transducer(a) and not really_transducer(b):
                return True
        elif op == "shuffle" and not (A.automaton(a) and A.automaton(b)) and no_ide(a, b):
            fail = True
        if op == "subst_tr" and u == v:
            return True
        if typ == "foma" and not (trimmed(a) and trimmed(b)):
            return True     # the system's libfoma crashes on nets with useless states
        if not fail:
            try:
                want = model_binary(a, b, typ, op, sym)
            except (Skip, M.TooBig):
                return True
            if len(a["arcs"]) * len(b["arcs"]) > 400:
                return True
        if op == "subst_tr":
            r = yield "subst_tr\t%s\t%s\t%s\t%s" % (v, sym, sym, u)
        elif op.startswith("b_"):
            r = yield "b_bin\t%s\t%s\t%s\t%s\t%s" % (v, op[2:], u, sym, sym)
        else:
            r = yield "bin\t%s\t%s\t%s" % (v, op, u)
        if fail:
            if r[0] == "ok":
                self.bad("no-error:" + op, "%s on %s (%s) and %s (%s) did not fail" % (op, brief(a), typ, brief(b), self.types[u]))
                return False
            if r[0] != "hfst":
                self.bad("failed:" + op, "%s: %s" % (op, r))
                return False
            self.s.fire("failing_operation")
            return (yield from self.others([], "failed-" + op))
        if r[0] != "ok":
            self.bad("failed:" + op, "%s of %s and %s (%s): %s" % (op, brief(a), brief(b), typ, r))
            return False
        self.good += 1
        return (yield from self.look(v, want, op)) and (yield from self.others([v], op))


def pairs_of(text):
    """{(in, out): least weight} of printed paths."""
    d = {}
    for x, p in parse_paths2(text):
        k = (tuple(i for i, o in p if i not in (M.EPS, "")), tuple(o for i, o in p if o not in (M.EPS, "")))
        d[k] = min(x, d.get(k, float("inf")))
    return d


def trimmed(n):
    t = M.trim(n)
    return len(t["arcs"]) == len(n["arcs"]) and len(t["finals"]) == len(M.finals_of(n))


def really_transducer(n):
    try:
        return any(k[0] != k[1] for k in M.relation(n, 3))
    except M.TooBig:
        return False


def fine(*nets):
    """Weights where rounding cannot tip a comparison: far from the tolerance of the comparison (1/1024)."""
    ws = [a[4] for n in nets for a in n["arcs"]] + [f[1] for n in nets for f in n["finals"]]
    return all(abs(w * 4 - round(w * 4)) < 1e-5 for w in ws)


def longest(net):
    out = {}
    for a in net["arcs"]:
        out.setdefault(a[0], []).append(a[1])
    memo = {}

    def go(s):
        if s not in memo:
            memo[s] = max([0] + [1 + go(t) for t in out.get(s, ())])
        return memo[s]
    return go(0)


def brief(n):
    return {"arcs": [[s, t, x(i), x(o), w] for s, t, i, o, w in n["arcs"][:12]], "finals": n["finals"][:6]}


def x(s):
    return {M.EPS: "0", M.IDE: "@", M.UNK: "?"}.get(s, s)


def check(ctx, plan):
    s = ctx.sim(plan["cfg"])
    ws = Workspace(ctx, s, plan)
    for life in range(20):
        n = s.client([], name="workspace%d" % life)
        drive(n, ws.session())
        s.run(until=lambda: ws.crash_at is not None and s.steps >= ws.crash_at and n.status is None)
        if ctx.violations:
            break
        if n.status is None:
            s.kill(n, "crash")
            s.fire("crash")
            ws.crash_at = None
            if ws.snap is None:
                ws.nets, ws.types, ws.raw = {}, {}, {}
            continue
        if died(n):
            ws.bad("died", "%s at %s: %s" % (n.outcome(), plan["ops"][ws.done - 1:ws.done], {v: (ws.types[v], brief(ws.nets[v])) for v in VARS if v in ws.nets}))
        break
    ctx.nontrivial = ws.good >= 3
    s.probe("operations", ws.good)
