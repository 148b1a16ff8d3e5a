"""C07: what a lookup returns depends on the transducer and the input only, not on the lookups before it."""
import models as M
from props.util import *
from props import zoo, c04

ID = "C07"
TOOLS = ["hfst-pmatch2fst"]
RUNS = {"quick": 12000, "thorough": 300000}
RULE = ("a plan is up to three transducers (flag diacritics, multicharacter symbols, identity, epsilons), perhaps a pmatch network, and a sequence of "
        "lookups on them in one process, with limits, cut-offs, unknown characters, ambiguity tests, failing calls, copies and a save in between; "
        "non-trivial: at least two lookups on one transducer")
REAL = ["libhfst (optimized lookup, HfstBasicTransducer lookup, pmatch)"]

FLAGS = ["@P.F.x@", "@P.F.y@", "@N.F.x@", "@R.F.x@", "@R.F@", "@D.F.x@", "@D.F@", "@C.F@", "@U.F.x@", "@U.F.y@", "@P.G.x@", "@U.G.x@", "@D.G@"]


def flag_net(r):
    ws = []
    for _ in range(r.randint(2, 6)):
        w = []
        for c in r.choice(["cat", "dog", "ab", "abc", "aab", "", "ba"]):
            if r.random() < 0.45:
                f = r.choice(FLAGS)
                w.append((f, f))
            w.append((c, c if r.random() < 0.7 else r.choice(["x", M.EPS, "+N"])))
        if r.random() < 0.5:
            f = r.choice(FLAGS)
            w.append((f, f))
        ws.append(w)
    net = M.chain_net(r, ws)
    if r.random() < 0.3:
        f = r.choice(FLAGS)
        net["arcs"].append([0, 0, f, f, 0.5])
    return net


def cap(net):
    for x in net["arcs"] + net["finals"]:
        x[-1] = min(x[-1], 512.0)
    return net


def gen_net(r):
    return cap(flag_net(r)) if r.random() < 0.45 else c04.gen_lookup_net(r)


def gen_words(r, net):
    pool = c04.words_of(r, net, 6) + ["", "a", "zz", "ab", "€", "aäz", "q" * 30]
    return pool


def gen_op(r, k, pools, loops, script):
    c = r.random()
    if script is not None and c < 0.25:
        return ["pm", r.choice("ml"), r.choice(["the cat", "a dog ran", "cat", "", "foo", "the  fox", "run the dog cat", "dogcat", "the", "the ca"])]
    t = r.randrange(k)
    w = r.choice(pools[t])
    if w and r.random() < 0.25:
        i = r.randrange(len(w))
        w = w[:i] + r.choice("abcxyzä€+ ") + w[i + 1:]
    if c < 0.35:
        return ["infinite", t, w]
    if c < 0.45:
        return ["save", t]
    if c < 0.50:
        return ["copy", t]
    if c < 0.55:
        return ["wrong", t, w]
    if c < 0.7:
        return ["b", t, r.choice(["-", "-", "0", "1", "3"]) if not loops[t] else r.choice(["0", "1"]), r.choice(["-", "-", "-", "2.5", "0"]), r.choice([-1, -1, -1, 1, 2]), r.choice([0, 1, 1]), w]
    return ["lookup", t, r.choice(["lookup", "lookups", "lookup_fd", "lookup_fds", "lookup_pairs"]), r.choice([-1, -1, -1, 1, 2, 3]), w]


def gen(r, tier):
    k = r.choice([1, 1, 2, 3])
    plan = {"tool": "pmatch", "nets": [[r.choice(["ol", "olw"]), gen_net(r)] for _ in range(k)], "cfg": soft_cfg(r, perturb=True)}
    script = plan["script"] = r.randrange(len(c04.SCRIPTS["pmatch"])) if r.random() < 0.25 else None
    pools = [gen_words(r, n) for t, n in plan["nets"]]
    plan["ops"] = [gen_op(r, k, pools, [c04.input_eps_cycle(n) for t, n in plan["nets"]], script) for _ in range(r.choice([2, 4, 8, 12]))]
    return plan


def toks(net, w):
    return M.tokenize(net, w)


def op_text(plan, op):
    """Client operations of one step."""
    if op[0] == "pm":
        return ["pm_%s\tpm\t%s\t0" % ("match" if op[1] == "m" else "locate", M.enc(op[2]))]
    t = op[1]
    net = plan["nets"][t][1]
    if op[0] == "infinite":
        return ["infinite\tT%d\t%s" % (t, "\t".join(M.enc(x) for x in toks(net, op[2])))] if op[2] else ["infinite\tT%d" % t]
    if op[0] == "save":
        return ["outopen\to\t/v/save\t%s\t1" % plan["nets"][t][0], "outwrite\to\tT%d" % t, "outclose\to", "outdel\to",
                "inopen\ti\t/v/save", "inread\ti\tR", "indel\ti", "show\tR"]
    if op[0] == "copy":
        return ["copy\tC\tT%d" % t, "show\tC", "drop\tC"]
    if op[0] == "wrong":
        return ["empty\tE\ttropical", "lookup\tE\t-1\t0\t" + M.enc(op[2]), "drop\tE"]
    if op[0] == "b":
        return ["blookup\tB%d\t%s\t%s\t%d\t%d%s" % (t, op[2], op[3], op[4], op[5], "".join("\t" + M.enc(x) for x in toks(net, op[6])))]
    fn, lim, w = op[2:]
    if fn in ("lookup", "lookup_fd"):
        arg = "".join("\t" + M.enc(x) for x in toks(net, w))
    else:
        arg = "\t" + M.enc(w)
    return ["%s\tT%d\t%d\t0%s" % (fn, t, lim, arg)]


def setup(plan, which=None):
    out = []
    for t, (typ, net) in enumerate(plan["nets"]):
        if which is None or which == t:
            out += [M.mk("T%d" % t, "tropical", net), "basic\tB%d\tT%d" % (t, t), "un\tT%d\tconvert\t%s" % (t, typ)]
    if plan["script"] is not None and which in (None, "pm"):
        out.append("pm_load\tpm\t/v/in.hfst")
    return out


def session(ctx, s, plan, ops, which, files):
    """Results of each op: list of lists of (status, value)."""
    for p, d in (files or {}).items():
        s.fs[p] = bytearray(d)
    results = []

    def script():
        for o in setup(plan, which):
            r = yield o
            if r[0] != "ok":
                results.append([("setup",) + r])
                return
        for op in ops:
            res = []
            for o in op_text(plan, op):
                r = yield o
                res.append(r)
            results.append(res)
    n = s.client([], name="lookups")
    drive(n, script())
    s.run()
    if died(n):
        results.append([("died", n.outcome() + " " + bytes(n.stderr)[-200:].decode("utf-8", "replace"))])
    return results


def canon(r):
    """Comparable form of a result: network images by meaning-free normal form, path lists as sets."""
    return [(st, tuple(sorted(v.split("\n")))) for st, v in r]


def check(ctx, plan):
    files = None
    if plan["script"] is not None:
        files = c04.prepare(ctx, plan)
        if files is None:
            return
    s = ctx.sim(plan["cfg"])
    got = session(ctx, s, plan, plan["ops"], None, files)
    per = {}
    for op in plan["ops"]:
        per[op[1] if op[0] != "pm" else "pm"] = per.get(op[1] if op[0] != "pm" else "pm", 0) + 1
    ctx.nontrivial = any(v > 1 for v in per.values())
    fresh = {}
    for k, op in enumerate(plan["ops"]):
        if k >= len(got) or got[k] and got[k][0][0] in ("died", "setup"):
            return ctx.bad("died:" + op[0], "at %s after %s: %s" % (op, plan["ops"][:k], got[-1:]))
        key = repr(op)
        if key not in fresh:
            f = ctx.sim({"perturb": False}, "fresh")
            r = session(ctx, f, plan, [op], "pm" if op[0] == "pm" else op[1], files)
            fresh[key] = r[0] if r else [("none", "")]
        a, b = canon(got[k]), canon(fresh[key])
        if a != b:
            return ctx.bad("history:" + op[0], "%s gave %s after %s, but %s in a fresh process" % (op, show(got[k]), plan["ops"][:k], show(fresh[key])))
        e = model_error(plan, op, fresh[key], s)
        if e:
            return ctx.bad("answer:" + op[0] + (":" + op[2] if op[0] == "lookup" else ""), "%s: %s" % (op, e))


def show(r):
    return [v if len(v) < 300 else v[:300] + "..." for st, v in r]


def model_error(plan, op, res, s):
    if any(st != "ok" for st, v in res) and op[0] != "wrong":
        return "failed: %s" % show(res)
    if op[0] in ("pm", "copy", "wrong"):
        return None
    typ, net = plan["nets"][op[1]]
    weights = typ in M.WEIGHTED
    if op[0] == "save":
        back = M.parse_net(res[-1][1])
        if not weights:
            net = M.strip_weights(net)
        try:
            a, b = M.relation(net, 6), M.relation(back, 6)
        except M.TooBig:
            return None
        d = M.rel_diff(a, b, weights)
        return d and "the saved transducer differs: " + d
    w = op[-1]
    tk = toks(net, w)
    s.probe("model-lookups")
    if op[0] == "infinite":
        m = M.lookup_paths(net, tk, True, weights)
        if res[0][1] == "1" and m is not None and not has_eps_loop(net):
            return "reported infinitely ambiguous, but has %d paths" % len(m)
        return None
    flags = bool(op[5]) if op[0] == "b" else True
    m = M.lookup_paths(net, tk, flags)

    def rnd(w):
        return round(w, 3)
    if m is None:
        return None
    if any(M.UNK in a[2:4] for a in net["arcs"]):
        return None
    if op[0] == "lookup" and op[2] != "lookup_pairs":
        full = {(rnd(x), M.out_side(p)) for x, p in m}
        got = {(rnd(x), tuple(o for o in p if o not in (M.EPS, "") and M.flag(o) is None)) for x, p in parse_paths1(res[0][1])}
    else:
        full = {(rnd(x), M.out_side(p)) for x, p in m}
        got = {(rnd(x), M.out_side(p)) for x, p in parse_paths2(res[0][1])}
    if op[0] == "lookup" and not weights:     # in memory the unweighted format keeps weights, in a file it does not
        full, got = ({(0.0, p) for x, p in q} for q in (full, got))
    lim = op[3] if op[0] == "lookup" else op[4]
    if op[0] == "b" and op[3] != "-":
        full = {x for x in full if x[0] <= float(op[3]) + 1e-6}
    if op[0] == "b" and op[2] != "-" and any(a[2] == M.EPS or M.flag(a[2]) for a in net["arcs"]):
        return None if got <= full else "paths %s that do not exist" % sorted(got - full)
    if not got <= full:
        return "paths %s that do not exist (all: %s)" % (sorted(got - full), sorted(full))
    if lim < 0 or len(m) <= lim:
        if got != full:
            return "paths %s are missing" % sorted(full - got)
    elif len(got) > lim or not got and full and lim > 0:
        return "%d paths for a limit of %d of %d" % (len(got), lim, len(full))
    return None


def has_eps_loop(net):
    return c04.input_eps_cycle(net)
