"""C03: reported success means that the output is complete."""
import models as M
from props.util import *
from props import zoo
from props.c01 import gen_item, writer

ID = "C03"
TOOLS = zoo.TOOLS
RUNS = {"quick": 10000, "thorough": 300000}
RULE = ("a plan is one generated command line (or a library writer) with its input files, and a fault on its output: disk full after n bytes, "
        "an I/O error in a write, an error in close, output that cannot be opened, a reader of standard output that goes away; "
        "non-trivial: the fault happened")
REAL = ["libhfst", "the HFST command line tools: " + ", ".join(t[5:] for t in TOOLS)]
ASSUMES = ["standard error is never counted as output"]

FAULTS = ("disk_full", "write_eio", "close_eio", "open_error", "epipe", "enospc")


def gen(r, tier):
    fault = r.choice(["enospc", "enospc", "enospc", "eio", "close", "open", "epipe"])
    rate = r.choice([0.05, 0.2, 0.5, 1.0])
    cfg = soft_cfg(r)
    if fault == "enospc":
        cfg["write_enospc"] = rate
    elif fault == "eio":
        cfg["write_eio"] = rate
    elif fault == "close":
        cfg["close_eio"] = rate
    elif fault == "open":
        cfg["open_fail"] = rate * 0.4
    plan = {"fault": fault, "cfg": cfg, "drop": r.choice([0, 1, 5, 50, 300])}
    if r.random() < 0.2:
        typ = r.choice(M.ALL_TYPES)
        plan["lib"] = {"type": typ, "items": [gen_item(r, typ) for _ in range(r.choice([1, 2, 3]))], "path": r.choice(["/v/out", "-"])}
        plan["fault"] = fault
    else:
        plan["case"] = zoo.gen_case(r)
    return plan


class Hangup:
    pass


def check(ctx, plan):
    if plan["fault"] == "epipe":
        plan = dict(plan, cfg=dict(plan["cfg"]))
    if "lib" in plan:
        return check_lib(ctx, plan)
    c = plan["case"]
    files = zoo.prepare(ctx, c)
    if files is None:
        return
    ref = ctx.sim({"perturb": False, "max_steps": 200000}, "ref")
    n0, outs0 = zoo.run_case(ref, c, files)
    if n0.signalled():
        ref.probe("reference-died:" + c["argv"][0])     # not about output: nothing to compare with
        ctx.nontrivial = False
        return
    s = ctx.sim(plan["cfg"])
    if plan["fault"] == "epipe":
        s.hangup = plan["drop"]
    n, outs = zoo.run_case(s, c, files)
    hit = any(s.fired.get(k) for k in FAULTS)
    ctx.nontrivial = hit
    tool = c["argv"][0]
    s.probe("tool:" + tool)
    if hit:
        s.probe("fault-in:" + tool)
    if n.signalled() and n.outcome() not in ("signal:SIGABRT", "signal:SIGPIPE"):
        return ctx.bad("died:" + tool, "%s: %s after %s" % (c["argv"], n.outcome(), s.fired))
    ok0, ok = n0.outcome(), n.outcome()
    lossy = [k for k in s.fired if k in FAULTS]
    if not hit:
        if ok != ok0 or outs != outs0:
            return ctx.bad("unstable:" + tool, "%s: %s with %s, %s with %s and no failing operation" %
                           (c["argv"], ok0, sizes(outs0), ok, sizes(outs)))
        return
    if tool == "hfst-xfst" and bytes(n.stderr) not in bytes(n0.stderr):
        return      # a session: a command that fails says so and the session goes on
    if ok0 == "exit:0" and ok == "exit:0":
        for p in sorted(set(outs0) | set(outs)):
            if outs0.get(p) != outs.get(p):
                return ctx.bad("incomplete:" + tool, "%s: %s ended with %s, but output %s has %d bytes of %d (%s)" %
                               (c["argv"], tool, ok, p, len(outs.get(p, b"")), len(outs0.get(p, b"")), ", ".join(lossy)))


def sizes(o):
    return {k: len(v) for k, v in o.items()}


def check_lib(ctx, plan):
    l = plan["lib"]
    b0, b1 = [], []
    ref = ctx.sim({"perturb": False}, "ref")
    n0 = ref.client([], name="writer")
    drive(n0, writer(l["items"], l["type"], "o", l["path"], b0))
    ref.run()
    s = ctx.sim(plan["cfg"])
    if plan["fault"] == "epipe":
        s.hangup = plan["drop"]
    n = s.client([], name="writer")
    drive(n, writer(l["items"], l["type"], "o", l["path"], b1))
    s.run()
    if died(n) and n.outcome() != "signal:SIGPIPE" or died(n0):
        return ctx.bad("writer-died", "%s writer: %s %s" % (l["type"], n.outcome(), bytes(n.stderr)[-200:]))
    ctx.nontrivial = any(s.fired.get(k) for k in FAULTS)
    a, b = (bytes(n0.stdout), bytes(n.stdout)) if l["path"] == "-" else (bytes(ref.fs.get("/v/out", b"")), bytes(s.fs.get("/v/out", b"")))
    good = not n.signalled() and all((x[-1][0] == "ok") for x in b1) and len(b1) == len(b0)
    if good and a != b:
        return ctx.bad("lib-incomplete:" + l["type"], "%s stream to %s: every write and the close succeeded, but %d of %d bytes were written (%s)" %
                       (l["type"], l["path"], len(b), len(a), ", ".join(s.fired)))
    if good and s.fired.get("close_eio"):
        return ctx.bad("lib-close:" + l["type"], "%s stream to %s: the error in close was not reported" % (l["type"], l["path"]))
    if not ctx.nontrivial and not good:
        return ctx.bad("lib-refused:" + l["type"], "without a fault: %s" % ([x[-1] for x in b1],))
