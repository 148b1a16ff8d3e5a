"""Shared pieces of the property checks."""
import models as M

CHUNKS = dict(short_read=0.25, short_write=0.2, eintr=0.05, sched=0.3, bufsizes=(0, 0, 1, 3, 16, 255, 4096))


def soft_cfg(r, **kw):
    """A swarm configuration without failing operations: chunking, interruption, scheduling, buffer sizes."""
    c = dict(short_read=r.choice([0, 0.05, 0.3, 0.9]), short_write=r.choice([0, 0.05, 0.3]), eintr=r.choice([0, 0, 0.05]),
             sched=r.choice([0, 0.1, 0.5]), bufsizes=r.choice([[0], [0, 1, 7], [16, 255, 4096], [0, 64]]), max_steps=200000)
    c.update(kw)
    return c


def drive(node, gen):
    """Let a Python generator play the client: it yields operations and receives (status, value)."""
    state = {"started": False}

    def source(n):
        try:
            if not state["started"]:
                state["started"] = True
                return next(gen)
            st, _, val = n.results[-1].partition("\t")
            return gen.send((st, val))
        except StopIteration:
            return None
    node.op_source = source


def parse_meta(text):
    d = {"props": {}}
    for l in text.split("\n"):
        f = l.split("\t")
        if f[0] in ("type", "name"):
            d[f[0]] = M.dec(f[1])
        elif f[0] == "prop":
            d["props"][M.dec(f[1])] = M.dec(f[2])
    return d


def parse_paths1(text):
    out = []
    for l in text.split("\n"):
        if l:
            f = l.split("\t")
            out.append((float(f[0]), tuple(M.dec(x) for x in f[1:])))
    return out


def parse_paths2(text):
    out = []
    for l in text.split("\n"):
        if l:
            f = l.split("\t")
            s = [M.dec(x) for x in f[1:]]
            out.append((float(f[0]), tuple(zip(s[0::2], s[1::2]))))
    return out


def exploded(node):
    """Out of memory (3 GB) while following several epsilon cycles five times each: exponentially many results, not a defect."""
    return node.outcome() == "signal:SIGABRT" and b"bad_alloc" in node.stderr and b"Got infinite results" in node.stderr


def died(node):
    """A description when the process was ended by a signal the simulator did not send."""
    if node.signalled() and not node.killed:
        return node.outcome()
    return None


def alpha(net):
    return {a for a in net["syms"] if a not in M.SPECIAL}


def read_all(stream, path, out, limit=64):
    """Generator: read every transducer of a stream; results appended to out."""
    r = yield "inopen\t%s\t%s" % (stream, path)
    out.append(("open",) + r)
    if r[0] != "ok":
        return
    for k in range(limit):
        r = yield "ineof\t" + stream
        if r != ("ok", "0"):
            out.append(("eof",) + r)
            if r == ("ok", "1"):
                yield "inclose\t" + stream
            return
        r = yield "inread\t%s\tR" % stream
        if r[0] != "ok":
            out.append(("fail",) + r)
            return
        n = yield "show\tR"
        m = yield "meta\tR"
        if n[0] != "ok" or m[0] != "ok":
            out.append(("unusable",) + n + m)
            return
        out.append(("tr", M.parse_net(n[1]), parse_meta(m[1])))
    out.append(("toomany",))
