"""C08: random paths are paths of the transducer, with their weights, for any sequence of random numbers."""
import models as M
import sim as S
from props.util import *
from props import zoo, c07

ID = "C08"
TOOLS = ["hfst-fst2strings", "hfst-xfst"]
RUNS = {"quick": 9000, "thorough": 300000}
RULE = ("a plan is a transducer (cyclic, with dead ends, epsilons, flag diacritics), a way to draw random paths (library, flag-aware library call, "
        "hfst-fst2strings -r, xfst print random-*), a number, and a stream of random numbers (uniform, constant, alternating, adversarial start) and clock; "
        "non-trivial: at least one path was drawn")
REAL = ["libhfst (random path extraction, conversion, xfst)", "hfst-fst2strings"]

STYLES = ["uniform", "zero", "max", "mod4", "alternate", "small"]


def small_net(r):
    """Few paths, no cycles, every state useful: every path must turn up."""
    n = r.randint(2, 4)
    net = {"arcs": [], "finals": [[n - 1, r.choice([0.0, 1.5])]], "syms": []}
    for s in range(n - 1):
        net["arcs"].append([s, s + 1, "abc"[s], r.choice(["x", "a", M.EPS]), r.choice([0.0, 0.5, 3.0])])
    for _ in range(r.randint(0, 2)):
        s, t = sorted(r.sample(range(n), 2))
        net["arcs"].append([s, t, r.choice("de"), r.choice("yz"), r.choice([0.0, 1.0])])
    if r.random() < 0.5:
        net["finals"].append([r.randrange(n - 1), r.choice([0.0, 4.0])])
    return net


def gen(r, tier):
    mode = r.choice(["lib", "lib", "lib", "fd", "fd", "strings", "strings", "xfst", "all", "all"])
    c = r.random()
    if mode == "all":
        net = small_net(r)
    elif c < 0.35:
        net = M.gen_net(r, states=r.randint(1, 5), arcs=r.randint(0, 8), syms=["a", "b", "c", "+N"], eps=0.15)
    elif c < 0.6:
        net = M.trim(M.gen_net(r, states=r.randint(2, 5), arcs=r.randint(1, 8), syms=["a", "b", "c", "+N"], eps=0.15))
    elif c < 0.8:
        net = zoo.lexicon(r)
    else:
        net = c07.flag_net(r)
    c07.cap(net)
    typ = r.choice(["tropical", "tropical", "sfst", "foma"] + (["log", "ol", "olw"] if mode == "fd" else []))
    if mode == "xfst":
        typ = r.choice(["tropical", "foma"])
    if typ == "foma":
        net = M.trim(net)
    return {"mode": mode, "type": typ, "net": net, "n": r.choice([1, 1, 2, 3, 5, 10, 0]) if mode != "all" else 60, "style": r.choice(STYLES) if mode != "all" else "uniform",
            "prefix": r.choice([0, 3, 20, 60]), "filter": r.random() < 0.5, "opts": r.choice([[], ["-w"], ["-w"], ["-X", "obey-flags", "-w"]]),
            "level": r.choice(["words", "upper", "lower"]), "time": r.choice([0, 1, 10**9, 2**31]), "rseed": r.randrange(10**9), "cfg": soft_cfg(r)}


def rand_stream(s, plan):
    import random
    rng = random.Random(plan["rseed"])
    k = {"n": 0}

    def f(node, kind):
        k["n"] += 1
        if k["n"] <= plan["prefix"]:
            st = plan["style"]
            v = {"uniform": rng.getrandbits(31), "zero": 0, "max": 2**31 - 1, "mod4": 4 * rng.getrandbits(20) + 1, "alternate": k["n"] % 2,
                 "small": k["n"] % 5}[st]
            if st != "uniform":
                s.fire("adversarial_random")
            return v
        return rng.getrandbits(31)
    s.rand_fn = f
    s.now = plan["time"] * 1_000_000


def path_weights(net, path, weights):
    """Weights of the accepting paths with exactly these symbol pairs."""
    cur = {0: {0.0}}
    for p in path:
        nxt = {}
        for s, t, i, o, w in net["arcs"]:
            if s in cur and (i, o) == p:
                nxt.setdefault(t, set()).update(round(x + (w if weights else 0), 4) for x in cur[s])
        cur = nxt
    fin = {}
    for s, w in net["finals"]:
        fin[s] = w
    return {round(x + (fin[s] if weights else 0), 4) for s in cur for x in cur[s] if s in fin}


def flags_ok(path):
    st = frozenset()
    for i, o in path:
        f = M.flag(i)
        if f is not None:
            st = M.apply_flag(st, f)
            if st is None:
                return False
    return True


def all_paths(net):
    out = []
    fin = M.finals_of(net)

    def go(s, p, w):
        if s in fin:
            out.append((round(w + fin[s], 3), p))
        for a, t, i, o, x in net["arcs"]:
            if a == s:
                go(t, p + ((i, o),), w + x)
    go(0, (), 0.0)
    return out


def check(ctx, plan):
    s = ctx.sim(dict(plan["cfg"], max_steps=60000))
    try:
        if plan["mode"] == "strings":
            return check_tool(ctx, plan, s)
        if plan["mode"] == "xfst":
            return check_xfst(ctx, plan, s)
        return check_lib(ctx, plan, s)
    except S.Stuck as e:
        ctx.bad("no-end:" + plan["mode"], "%s paths of %s: %s" % (plan["n"], plan["net"], e))


def check_lib(ctx, plan, s):
    net, typ = plan["net"], plan["type"]
    weights = typ not in ("sfst", "foma", "ol")
    res = []

    def script():
        r = yield M.mk("T", "tropical", net)
        r = yield "un\tT\tconvert\t" + typ
        r = yield "show\tT"
        res.append(r)
        rand_stream(s, plan)
        r = yield ("random_fd\tT\t%d\t%d" % (plan["n"], plan["filter"])) if plan["mode"] == "fd" else "random\tT\t%d" % plan["n"]
        res.append(r)
        r = yield "show\tT"
        res.append(r)
    n = s.client([], name="random")
    drive(n, script())
    s.run()
    if died(n) or len(res) != 3:
        return ctx.bad("died:" + plan["mode"], "%d paths of %s (%s): %s" % (plan["n"], net, typ, n.outcome()))
    if any(st != "ok" for st, v in res):
        return ctx.bad("failed:" + plan["mode"], "%d paths of %s (%s): %s" % (plan["n"], net, typ, res))
    if res[0] != res[2]:
        return ctx.bad("changed:" + plan["mode"], "drawing paths changed the transducer %s (%s)" % (net, typ))
    # the reference is the transducer as the library shows it (conversion is not in question here)
    back = M.parse_net(res[0][1])
    got = parse_paths2(res[1][1])
    ctx.nontrivial = bool(got)
    s.probe("paths", len(got))
    if len(got) > plan["n"]:
        return ctx.bad("number:" + plan["mode"], "%d paths instead of %d of %s" % (len(got), plan["n"], net))
    hidden = plan["mode"] == "fd" and plan["filter"] and any(M.flag(a[2]) for a in net["arcs"])
    for w, p in got:
        e = None
        if hidden:
            if any(M.flag(i) or M.flag(o) for i, o in p):
                e = "contains flag diacritics"
            else:
                e = hidden_error(back, p, w, weights)
        else:
            ws = path_weights(back, p, weights)
            if not ws:
                e = "is not a path"
            elif not any(M.close(w, x) for x in ws):
                e = "has weight %s, expected %s" % (w, sorted(ws))
            elif plan["mode"] == "fd" and not flags_ok(p):
                e = "is not allowed by the flag diacritics"
        if e:
            return ctx.bad("path:" + plan["mode"], "random path %s %s (%s, %s)" % ((w, p), e, typ, net))
    if plan["mode"] == "all":
        full = {(x if weights else 0.0, p) for x, p in all_paths(back) if p}    # (the empty path is drawn only when nothing else is possible)
        have = {(round(w, 3), p) for w, p in got if p}
        s.probe("all-paths-checked")
        if full != have:
            return ctx.bad("never:all", "of the paths of %s (%s), %s never turn up (%d draws)" % (net, typ, sorted(full - have), plan["n"]))


def hidden_error(net, p, w, weights):
    """Is there an accepting path that gives p when its flags are left out?"""
    fin = M.finals_of(net)
    seen = set()
    work = [(0, 0, frozenset(), 0.0)]
    found = []
    while work:
        c = work.pop()
        if c in seen or len(seen) > 5000:
            continue
        seen.add(c)
        s, k, fl, x = c
        if k == len(p) and s in fin:
            v = x + (fin[s] if weights else 0)
            if M.close(v, w):
                return None
            found.append(v)
        if weights and x > w + 1:
            continue
        for a, t, i, o, y in net["arcs"]:
            if a != s:
                continue
            x2 = round(x + (y if weights else 0), 4)
            f = M.flag(i)
            if f is not None:
                f2 = M.apply_flag(fl, f)
                if f2 is not None:
                    work.append((t, k, f2, x2))
            elif k < len(p) and (i, o) == p[k]:
                work.append((t, k + 1, fl, x2))
    if len(seen) > 5000:
        return None
    return "has weight %s, expected one of %s" % (w, found[:5]) if found else "is not a path allowed by the flag diacritics"


def string_weights(net, upper, lower, weights):
    """Weights of accepting paths with these input and output strings, up to a bound on the path."""
    fin = M.finals_of(net)
    seen, work, found = set(), [(0, 0, 0, 0.0)], set()
    while work:
        c = work.pop()
        if c in seen:
            continue
        seen.add(c)
        if len(seen) > 20000:
            return None
        s, i, j, x = c
        if i == len(upper) and j == len(lower) and s in fin:
            found.add(round(x + (fin[s] if weights else 0), 3))
        if x > 40000:
            continue
        for a, t, u, v, y in net["arcs"]:
            if a != s:
                continue
            u = "" if u == M.EPS or M.flag(u) else u
            v = "" if v == M.EPS or M.flag(v) else v
            if upper.startswith(u, i) and (lower is None or lower.startswith(v, j)):
                work.append((t, i + len(u), j + len(v), round(x + (y if weights else 0), 3)))
    return found


def check_tool(ctx, plan, s):
    net, typ = plan["net"], plan["type"]
    weights = typ not in ("sfst", "foma")
    files = zoo.prepare(ctx, {"nets": [["/v/in.hfst", typ, [net]]], "texts": {}})
    if files is None:
        return
    s.fs["/v/in.hfst"] = bytearray(files["/v/in.hfst"])
    rand_stream(s, plan)
    n = max(1, plan["n"])
    argv = ["hfst-fst2strings", "-r", str(n)] + plan["opts"] + ["-i", "/v/in.hfst"]
    t = s.spawn("hfst-fst2strings", argv)
    s.run()
    if t.outcome() != "exit:0":
        return ctx.bad("died:strings", "%s on %s (%s): %s %s" % (argv, net, typ, t.outcome(), bytes(t.stderr)[-100:]))
    rows = bytes(t.stdout).decode("utf-8", "replace").split("\n")[:-1]
    ctx.nontrivial = bool(rows)
    s.probe("paths", len(rows))
    if len(rows) > n:
        return ctx.bad("number:strings", "%s printed %d lines for %s" % (argv, len(rows), net))
    if any(x in a[2:4] for a in net["arcs"] for x in (M.UNK, M.IDE)) or "obey-flags" in plan["opts"]:
        return
    for l in rows:
        f = l.split("\t")
        if ("-w" in plan["opts"]) != (len(f) > 1):
            return ctx.bad("path:strings", "%s: malformed line %r" % (argv, l))
        u, _, v = f[0].partition(":")
        if ":" not in f[0]:
            v = u
        ws = string_weights(net, u, v, weights)
        if ws is None:
            continue
        if not ws:
            return ctx.bad("path:strings", "%s printed %r, which is not a string pair of %s (%s)" % (argv, l, net, typ))
        if len(f) > 1 and not any(M.close(float(f[1]), x) for x in ws):
            return ctx.bad("path:strings", "%s printed %r, but its weights are %s in %s (%s)" % (argv, l, sorted(ws)[:5], net, typ))


def check_xfst(ctx, plan, s):
    net, typ = plan["net"], plan["type"]
    files = zoo.prepare(ctx, {"nets": [["/v/in.hfst", typ, [net]]], "texts": {}})
    if files is None:
        return
    s.fs["/v/in.hfst"] = bytearray(files["/v/in.hfst"])
    s.fs["/v/x.script"] = bytearray(("set print-weight ON\nload stack /v/in.hfst\necho <<<\nprint random-%s %d\necho >>>\n" % (plan["level"], max(1, plan["n"]))).encode())
    rand_stream(s, plan)
    argv = ["hfst-xfst", "-f", {"tropical": "openfst-tropical", "foma": "foma"}[typ], "-F", "/v/x.script"]
    t = s.spawn("hfst-xfst", argv)
    s.run()
    if t.outcome() != "exit:0":
        return ctx.bad("died:xfst", "%s on %s: %s %s" % (argv, net, t.outcome(), bytes(t.stderr)[-100:]))
    out = bytes(t.stdout).decode("utf-8", "replace")
    if "<<<\n" not in out or ">>>" not in out:
        return ctx.bad("died:xfst", "%s on %s: output %r" % (argv, net, out[-200:]))
    rows = out.split("<<<\n", 1)[1].rsplit(">>>", 1)[0].split("\n")[:-1]
    ctx.nontrivial = bool(rows)
    s.probe("paths", len(rows))
    if len(rows) > max(1, plan["n"]):
        return ctx.bad("number:xfst", "%s printed %s for %s" % (argv, rows, net))
    if any(x in a[2:4] for a in net["arcs"] for x in (M.UNK, M.IDE)):
        return
    lv = plan["level"]
    for l in rows:
        if lv == "words" and any(a[2] != a[3] for a in net["arcs"]):
            continue
        l, _, wt = l.partition("\t")
        m = net if lv != "lower" else M.invert(net)
        m = dict(m, arcs=[[a, b, i, i, w] for a, b, i, o, w in m["arcs"]]) if lv != "words" else m
        ws = string_weights(m, l, l, typ == "tropical")
        if ws is not None and not ws:
            return ctx.bad("path:xfst", "print random-%s printed %r, which is not in %s (%s)" % (lv, l, net, typ))
        if ws is not None and not any(M.close(float(wt), x) for x in ws):
            return ctx.bad("path:xfst", "print random-%s printed %r with weight %s, expected %s in %s (%s)" % (lv, l, wt, sorted(ws)[:5], net, typ))
