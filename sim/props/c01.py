"""C01: a transducer stream delivers exactly what was written into it."""
import models as M
from props.util import *

ID = "C01"
TOOLS = ["hfst-fst2fst", "hfst-head", "hfst-tail"]
RUNS = {"quick": 12000, "thorough": 400000}
RULE = ("a plan is a random list of transducers (format, symbols, weights, name, properties) written by one simulated process "
        "and read by another through a file, a pipe or a pipeline of conversion tools; non-trivial: at least one transducer "
        "was written; distinct by event log")
REAL = ["libhfst streams, all back ends (OpenFst, SFST, foma, optimized lookup)", "hfst-fst2fst", "hfst-head", "hfst-tail", "libstdc++/libc streams"]

HEADER_PROPS = ("type", "version", "name", "minimal")


def gen_text(r, longest=300):
    k = r.random()
    if k < 0.3:
        return ""
    if k < 0.8:
        return "".join(r.choice("abc xyzäö€-_:.,") for _ in range(r.randint(1, 12))).strip()
    return "n" * r.choice([127, 128, 200, 255, 256, 257, longest])


def gen_symbols(r, typ):
    s = list(M.PLAIN[:r.randint(1, 4)])
    if r.random() < 0.4:
        odd = [x for x in M.ODD if "\n" not in x]
        s += r.sample(odd, r.randint(1, 4))
    if r.random() < 0.05:
        s += ["s%d" % i for i in range(r.choice([40, 130, 300]))]
    return s


def gen_item(r, typ):
    syms = gen_symbols(r, typ)
    if len(syms) > 30:
        words = [[(x, x)] for x in syms]
        net = M.chain_net(r, words)
        net["arcs"] = net["arcs"][:r.choice([20, 100, 300])]
        ok = {t for _, t, _, _, _ in net["arcs"]}
        net["finals"] = [f for f in net["finals"] if f[0] in ok]
    else:
        net = M.gen_net(r, syms=syms, unk=r.choice([0, 0, 0.2]), extra_syms=r.choice([0, 0, 2]))
    props = []
    for k in range(r.choice([0, 0, 1, 3])):
        props.append([r.choice(["author", "z-last", "character-encoding", "note", "language", "x"]), gen_text(r)])
    return {"net": net, "name": gen_text(r), "props": props}


def gen(r, tier):
    typ = r.choice(M.ALL_TYPES)
    via = r.choice(["file", "file", "pipe", "pipe", "tools", "cat"])
    n = r.choice([1, 1, 2, 3, 5])
    plan = {"type": typ, "via": via, "items": [gen_item(r, typ) for _ in range(n)], "cfg": soft_cfg(r),
            "cap": r.choice([1, 16, 512, 65536]), "tools": [], "files": r.choice([1, 2]) if via == "cat" else 1}
    if r.random() < 0.03:
        it = r.choice(plan["items"])
        it["props"].append(["note", "L" * r.choice([8000, 32500, 32768, 40000, 60000])])
    if r.random() < 0.03 and via in ("file", "pipe"):
        it = gen_item(r, typ)       # a header that does not fit: writing it must fail and leave the stream as it was
        it["toolong"] = 1
        it["props"].append(["note", "L" * r.choice([65536, 66000, 131100])])
        plan["items"].insert(r.randint(0, len(plan["items"])), it)
    if any(len(v) > 5000 for it in plan["items"] for k, v in it["props"]):
        plan["cfg"].update(short_read=r.choice([0, 0.01]), short_write=0.01, eintr=0, bufsizes=[0, 4096])
        plan["cap"] = r.choice([4096, 65536])
    plan["close"] = r.choice(["close", "close", "del"])
    if via == "tools":
        ts = [r.choice(["tropical", "log", "sfst", "foma", "olw", "head", "tail"]) for _ in range(r.randint(1, 3))]
        plan["tools"] = ts
    return plan


def writer(items, typ, stream, path, before, how="close"):
    r = yield "outopen\to\t%s\t%s\t1" % (path, typ)
    before.append(("open", r))
    if r[0] != "ok":
        return
    for it in items:
        yield M.mk("A", typ, it["net"])
        if it["name"]:
            yield "name\tA\t" + M.enc(it["name"])
        for k, v in it["props"]:
            yield "prop\tA\t%s\t%s" % (M.enc(k), M.enc(v))
        n = yield "show\tA"
        m = yield "meta\tA"
        w = yield "outwrite\to\tA"
        before.append(("tr", n, m, w))
    r = yield "out%s\to" % how
    before.append(("close", r))


def check(ctx, plan):
    typ, via = plan["type"], plan["via"]
    s = ctx.sim(plan["cfg"])
    before, got = [], []
    ctx.nontrivial = bool(plan["items"])
    if via in ("pipe", "tools"):
        p = S_Pipe("p0", plan["cap"])
        w = s.client([], stdout=p, name="writer")
        drive(w, writer(plan["items"], typ, "o", "-", before, plan["close"]))
        src = p
        nodes = [w]
        for i, t in enumerate(plan["tools"]):
            q = S_Pipe("p%d" % (i + 1), plan["cap"])
            argv = {"head": ["hfst-head", "-n", "99"], "tail": ["hfst-tail", "-n", "99"]}.get(t) or \
                ["hfst-fst2fst", "-f", {"tropical": "openfst-tropical", "log": "openfst-log", "olw": "olw"}.get(t, t)]
            nodes.append(s.spawn(argv[0], argv, stdin=src, stdout=q))
            src = q
        rd = s.client([], stdin=src, name="reader")
        drive(rd, read_all("i", "-", got))
        s.run()
        for n in nodes[1:]:
            if n.outcome() != "exit:0":
                return ctx.bad("tool-failed", "%s ended with %s: %s" % (n.name, n.outcome(), bytes(n.stderr)[-300:]))
    else:
        files = []
        k = plan["files"]
        for i in range(k):
            part = plan["items"][i::k]
            path = "/v/f%d.hfst" % i
            w = s.client([], name="writer")
            drive(w, writer(part, typ, "o", path, before, plan["close"]))
            s.run()
            files.append(path)
        if k > 1:
            data = b"".join(bytes(s.fs.get(f, b"")) for f in files)
            s.fs["/v/all.hfst"] = bytearray(data)
            path = "/v/all.hfst"
        rd = s.client([], name="reader")
        drive(rd, read_all("i", path, got))
        s.run()
    for n in s.nodes:
        if died(n):
            return ctx.bad("process-died", "%s: %s %s" % (n.name, n.outcome(), bytes(n.stderr)[-300:]))
    order = [it for i in range(plan["files"]) for it in plan["items"][i::plan["files"]]] if via not in ("pipe", "tools") else plan["items"]
    wrote = [b for b in before if b[0] == "tr"]
    for it, b in zip(order, wrote):
        if it.get("toolong") and b[3][0] == "ok":
            return ctx.bad("overlong-accepted", "a header of more than 65535 bytes was accepted")
    wrote = [b for it, b in zip(order, wrote) if not it.get("toolong")]
    order = [it for it in order if not it.get("toolong")]
    for b in before:
        if b[0] != "tr" and b[1][0] != "ok":
            return ctx.bad("write-refused", "%s failed without a fault: %s" % (b[0], b[1]))
    for b in wrote:
        if b[3][0] != "ok":
            return ctx.bad("write-refused", "writing failed without a fault: %s" % (b[3],))
    trs = [g for g in got if g[0] == "tr"]
    if not order:
        return
    if got[-1][0] != "eof" or got[-1][1:] != ("ok", "1") or len(trs) != len(order):
        return ctx.bad("wrong-count", "%d transducers written, %d read, reader ended with %s" % (len(order), len(trs), got[-1][:3]))
    types = [typ] + [t for t in plan["tools"] if t not in ("head", "tail")]
    weighted = all(t in M.WEIGHTED for t in types)
    for k, (it, b, g) in enumerate(zip(order, wrote, trs)):
        want_name, want_props = it["name"], {}
        for key, v in it["props"]:
            want_props[key] = v
        meta = g[2]
        if meta["type"] != types[-1]:
            return ctx.bad("wrong-type", "transducer %d: written as %s, read as %s" % (k, types[-1], meta["type"]))
        d = M.net_diff(it["net"], g[1], weighted)
        if d:
            return ctx.bad("different-relation", "transducer %d (%s): %s" % (k, ">".join(types), d))
        if len(types) == 1:
            d = M.net_diff(M.parse_net(b[1][1]), g[1], weighted)
            if d:
                return ctx.bad("different-relation", "transducer %d (%s): differs from the one written: %s" % (k, typ, d))
            a0, a1 = alpha(M.parse_net(b[1][1])), alpha(g[1])
            if a0 != a1:
                return ctx.bad("different-alphabet", "transducer %d: lost %s, gained %s" % (k, sorted(a0 - a1), sorted(a1 - a0)))
        if plan["tools"]:
            continue    # tools rewrite names
        if meta["name"] != want_name:
            return ctx.bad("different-name", "transducer %d: named %r, read %r" % (k, want_name, meta["name"]))
        p1 = {a: b2 for a, b2 in meta["props"].items() if a not in HEADER_PROPS}
        p0 = parse_meta(b[2][1])["props"]
        p0 = {a: b2 for a, b2 in p0.items() if a not in HEADER_PROPS}
        for key in want_props:
            if p0.get(key) != want_props[key]:
                return ctx.bad("different-properties", "transducer %d: property %r set to %r, reads %r" % (k, key, want_props[key], p0.get(key)))
        if p0 != p1:
            return ctx.bad("different-properties", "transducer %d: properties %r, read %r" % (k, p0, p1))


from sim import Pipe as S_Pipe  # noqa: E402
