"""C02: a damaged or unreadable transducer stream is never mistaken for a whole one."""
import models as M
from props.util import *
from props.c01 import gen_item, writer
from sim import Pipe

ID = "C02"
TOOLS = ["hfst-fst2fst", "hfst-head", "hfst-fst2txt", "hfst-invert"]
RUNS = {"quick": 24000, "thorough": 400000}
RULE = ("a plan is a list of transducers, a format, a way to damage the stream (cut at a byte, writer killed inside a write, writer "
        "killed while piping, disk full while writing, read error) and a reader (library or tool); the intact stream's transducer "
        "boundaries come from a fault-free simulation of the same writer; non-trivial: the damage actually happened")
REAL = ["libhfst streams, all back ends (OpenFst, SFST, foma, optimized lookup)", "hfst-fst2fst", "hfst-head", "hfst-fst2txt", "hfst-invert"]


def gen(r, tier):
    typ = r.choice(M.ALL_TYPES)
    n = r.choice([1, 1, 2, 3])
    how = r.choice(["cut", "cut", "cut", "crash", "pipecrash", "full", "eio", "eio"])
    items = [gen_item(r, typ) for _ in range(n)]
    for it in items:
        it["props"] = it["props"][:1]
    plan = {"type": typ, "items": items, "how": how, "reader": r.choice(["lib", "lib", "tool"]),
            "tool": r.choice(["fst2fst", "head", "fst2txt", "invert"]), "cfg": soft_cfg(r), "cut": [r.randrange(4), r.random(), r.randrange(1, 40)],
            "pipe": r.random() < 0.4, "cap": r.choice([1, 16, 65536])}
    rate = r.choice([0.02, 0.1, 0.4])
    if how == "crash":
        plan["wcfg"] = dict(plan["cfg"], crash=rate)
    elif how == "full":
        plan["wcfg"] = dict(plan["cfg"], write_enospc=rate)
    elif how == "pipecrash":
        plan["cfg"] = dict(plan["cfg"], crash=rate * 0.3)
        plan["pipe"] = True
    elif how == "eio":
        plan["rcfg"] = dict(plan["cfg"], read_eio=rate)
    return plan


def cut_point(spec, bounds):
    kind, frac, near = spec
    total = bounds[-1]
    if kind == 0:
        return int(frac * total)
    b = bounds[int(frac * len(bounds)) % len(bounds)]
    if kind == 1:
        return max(0, b - near)
    if kind == 2:
        return min(total, b + near)
    return b


def ref_writer(items, typ, out):
    """The same writer, but each transducer in a file of its own."""
    for n, it in enumerate(items):
        yield M.mk("A", typ, it["net"])
        if it["name"]:
            yield "name\tA\t" + M.enc(it["name"])
        for k, v in it["props"]:
            yield "prop\tA\t%s\t%s" % (M.enc(k), M.enc(v))
        sh = yield "show\tA"
        r1 = yield "outopen\to\t/v/one%d\t%s\t1" % (n, typ)
        r2 = yield "outwrite\to\tA"
        r3 = yield "outclose\to"
        out.append((sh, r1, r2, r3))


def check(ctx, plan):
    typ, how = plan["type"], plan["how"]
    # 1. what the stream looks like when nothing goes wrong, and where each transducer ends
    ref = ctx.sim({}, "ref")
    nets, bounds = [], [0]
    w = ref.client([], name="w")
    bf = []
    drive(w, ref_writer(plan["items"], typ, bf))
    ref.run()
    for k in range(len(plan["items"])):
        if died(w) or len(bf) <= k or any(b[0] != "ok" for b in bf[k]):
            return ctx.bad("write-refused", "writing failed without a fault: %s %s" % (w.outcome(), bf[k:]))
        nets.append(M.parse_net(bf[k][0][1]))
        bounds.append(bounds[-1] + len(ref.fs["/v/one%d" % k]))
    full = b"".join(bytes(ref.fs["/v/one%d" % k]) for k in range(len(plan["items"])))
    # 2. the damaged stream
    ctx.nontrivial = True
    got = []
    s = None
    if how in ("cut", "eio"):
        data = full[:cut_point(plan["cut"], bounds)] if how == "cut" else full
    elif how in ("crash", "full"):
        ws = ctx.sim(plan["wcfg"], "write")
        w = ws.client([], name="writer")
        bf = []
        drive(w, writer(plan["items"], typ, "o", "/v/out", bf))
        ws.run()
        if died(w):
            return ctx.bad("writer-died", "%s: %s" % (w.outcome(), bytes(w.stderr)[-300:]))
        if "/v/out" not in ws.fs:
            ctx.nontrivial = False
            return
        data = bytes(ws.fs["/v/out"])
        if not full.startswith(data):
            return ctx.bad("not-a-prefix", "a writer that was %s left %d bytes which are not a prefix of the %d-byte stream" %
                           ("killed" if how == "crash" else "out of disk space", len(data), len(full)))
    # 3. the reader
    s = ctx.sim(plan.get("rcfg", plan["cfg"]), "read")
    writer_node = None
    if plan["pipe"]:
        src = Pipe("p", plan["cap"])
        if how == "pipecrash":
            writer_node = s.client([], stdout=src, name="writer")
            drive(writer_node, writer(plan["items"], typ, "o", "-", []))
        else:
            src.buf += data
        stdin, path = src, "-"
    else:
        s.fs["/v/in"] = bytearray(data)
        stdin, path = None, "/v/in"
    tool = None
    if plan["reader"] == "lib":
        rd = s.client([], stdin=stdin, name="reader")
        drive(rd, read_all("i", path, got))
    else:
        t = plan["tool"]
        argv = {"fst2fst": ["hfst-fst2fst", "-f", "foma"], "head": ["hfst-head", "-n", "99"], "fst2txt": ["hfst-fst2txt"],
                "invert": ["hfst-invert"]}[t]
        if t == "invert" and typ in ("ol", "olw"):
            argv = ["hfst-head", "-n", "99"]
        if path != "-":
            argv = argv + ["-i", path]
        rd = tool = s.spawn(argv[0], argv, stdin=stdin)
    s.run()
    if how == "pipecrash":
        if writer_node.killed is None:
            data = full
        else:
            data = None
    if rd.killed:           # the crash hit the reader
        ctx.nontrivial = False
        return
    faulted = how == "eio" and s.fired.get("read_eio")
    if how == "eio" and not faulted:
        ctx.nontrivial = False
    bad_ends = ("SIGSEGV", "SIGBUS", "SIGFPE", "SIGILL", "SIGXCPU", "SIGKILL")
    if tool is None and died(rd):
        return ctx.bad("reader-died:" + typ, "%s reading a damaged %s stream (%s): %s" % (rd.outcome(), typ, how, bytes(rd.stderr)[-200:]))
    if tool is not None and any(x in rd.outcome() for x in bad_ends):
        return ctx.bad("reader-died:" + typ, "%s %s reading a damaged %s stream (%s): %s" % (rd.name, rd.outcome(), typ, how, bytes(rd.stderr)[-200:]))
    weighted = typ in M.WEIGHTED
    if data is not None:
        complete = max(i for i, b in enumerate(bounds) if b <= len(data))
        whole = bounds[complete] == len(data)
    else:
        complete, whole = None, None
    desc = "%s stream, %s" % (typ, how) + ("" if data is None else ", %d of %d bytes, transducers end at %s" % (len(data), len(full), bounds[1:]))
    if tool is None:
        trs = [g for g in got if g[0] == "tr"]
        if len(trs) > len(nets):
            return ctx.bad("extra-transducer:" + typ, "%s: %d transducers read" % (desc, len(trs)))
        for k, g in enumerate(trs):
            if complete is not None and not faulted and k >= complete:
                return ctx.bad("partial-accepted:" + typ, "%s: an incomplete transducer was accepted as number %d" % (desc, k + 1))
            d = M.net_diff(nets[k], g[1], weighted)
            if d:
                return ctx.bad("wrong-transducer:" + typ, "%s: transducer %d: %s" % (desc, k + 1, d))
        end = got[-1] if got else ("none",)
        clean = end[0] == "eof" and end[1:] == ("ok", "1")
        if faulted:
            if clean and s.fired["read_eio"]:
                return ctx.bad("error-as-end:" + typ, "%s: a read error after %d transducers was reported as end of stream" % (desc, len(trs)))
            if end[0] == "toomany":
                return ctx.bad("endless:" + typ, desc)
            return
        if data is None:
            return          # writer killed at an unknown byte: the prefix check above applies
        if whole and len(data):
            if not clean or len(trs) != complete:
                return ctx.bad("intact-refused:" + typ, "%s: %d transducers read, ended with %s" % (desc, len(trs), end))
        elif len(data):
            if clean:
                return ctx.bad("cut-as-end:" + typ, "%s: %d transducers read, then a clean end of stream" % (desc, len(trs)))
            if len(trs) != complete:
                return ctx.bad("complete-lost:" + typ, "%s: only %d transducers read, then %s" % (desc, len(trs), end))
        else:
            if trs:
                return ctx.bad("extra-transducer:" + typ, desc)
    else:
        ok = rd.outcome() == "exit:0"
        if faulted and ok:
            return ctx.bad("error-as-success:" + typ, "%s: %s met a read error and exited with success" % (desc, rd.name))
        if data is not None and not faulted and len(data):
            if not whole and ok:
                return ctx.bad("cut-as-success:" + typ, "%s: %s exited with success on a cut stream" % (desc, rd.name))
            if whole and not ok:
                return ctx.bad("intact-refused:" + typ, "%s: %s ended with %s: %s" % (desc, rd.name, rd.outcome(), bytes(rd.stderr)[-200:]))
