"""C12: the text formats lose nothing: what is written as AT&T or prolog text reads back as the same transducers."""
import models as M
import algebra as A
import sim as S
from props.util import *

ID = "C12"
TOOLS = ["hfst-fst2txt", "hfst-txt2fst", "hfst-xfst"]
RUNS = {"quick": 15000, "thorough": 400000}
RULE = ("a plan is a stream of transducers over unusual symbols and weights, a text format, the route (tools joined by a pipe or a file, library, xfst), the type to read back, and "
        "either no fault, a failing read, or damage to the text; non-trivial: the text has an arc")
REAL = ["libhfst", "hfst-fst2txt", "hfst-txt2fst", "hfst-xfst"]
ASSUMES = ["symbols that contain a line break or other white space than space and tab, and the symbols %0 and %? in prolog, have no representation in the formats and are not generated"]
SYMS = ["a", "b", "c", "ä", "日本", "𐐀", "+N", "+Pl", " ", "a b", "\t", "x\ty", ":", "::", "a:b", "\\", "\\\\", "\\\"", "\"", "\"\"", "a\\", "\\n", "?", "%", "%a", "@", "@P.F.V@", "@D.F@",
        "#", "##", "--", "-", "(", ")", ").", ",", ", ", "1", "12", "'", "{", "}", "<x>", "/", "arc(", "//", "|", "_", "*", "é́", "0", "@_X", "NO_NAME_1"]
FMT = {"tropical": "openfst-tropical", "foma": "foma", "sfst": "sfst", "log": "openfst-log"}


def symbol(r, typ):
    if r.random() < 0.12:
        n = r.choice([98, 99, 100, 101, 120, 200, 254, 255, 256, 300, 1000, 5000])
        return r.choice("abä€") * n if r.random() < 0.7 else r.choice(["\\", "\"", " "]) * min(n, 300) + "q"
    return r.choice(SYMS)


def weight(r):
    c = r.random()
    if c < 0.4:
        return r.choice([0.0, 0.5, 1.0, 2.25])
    if c < 0.7:
        return r.choice([0.00001, 0.000125, 3.14159, 123456.789, 1048576.5, 1e9, 3e30, 99.999999])
    return r.choice([0.0, 12.0, -1.5])


def gen_net(r, typ, prolog):
    syms = sorted({symbol(r, typ) for _ in range(r.randint(1, 4))} | {"a"})
    net = M.gen_net(r, syms=syms, unk=0.15 if prolog else 0.0)
    neg = r.random() < 0.2
    for x in net["arcs"] + net["finals"]:
        x[-1] = weight(r)
        if not neg or len(net["arcs"]) > 0 and A.size(net) > 0 and any(a[1] <= a[0] for a in net["arcs"]):
            x[-1] = abs(x[-1])
    net["syms"] = sorted(A.known(net) | ({symbol(r, typ)} if prolog and r.random() < 0.4 else set()))
    return net


def gen(r, tier):
    prolog = r.random() < 0.45
    typ = r.choice(["tropical", "tropical", "tropical", "foma", "sfst", "log"])
    plan = {"type": typ, "format": "prolog" if prolog else "att", "to": r.choice(["tropical", "foma", "sfst", "log"]) if r.random() < 0.4 else typ,
            "items": [gen_net(r, typ, prolog) for _ in range(r.choice([1, 1, 2, 3]))],
            "route": r.choice(["pipe", "file", "lib", "lib", "xfst"]), "cfg": soft_cfg(r), "opts": r.choice([[], [], ["-w"], ["-D"]]),
            "eps": r.choice([None, None, None, "0", "<eps>"]), "cap": r.choice([16, 100, 4096, 65536]), "damage": None, "name": r.choice(["n%d", "n%d", "net %d", "n %d, (x)."])}
    if plan["route"] == "xfst":
        plan["items"] = plan["items"][:1]
        plan["to"] = plan["type"] = "foma" if typ == "foma" else "tropical"
        plan["opts"], plan["eps"] = [], None
        for n in plan["items"]:     # reading in xfst minimises: nothing that makes this long or inexact
            n["arcs"] = [a for a in n["arcs"] if a[0] < a[1]]
            for x in n["arcs"] + n["finals"]:
                x[-1] = min(abs(x[-1]), 4.0) if x[-1] in (0.5, 1.0, 2.25) else 0.0
    c = r.random()
    if c < 0.15 and plan["route"] in ("pipe", "file"):
        plan["cfg"]["read_eio"] = r.choice([0.1, 0.5])
        plan["cfg"]["only_eio"] = ["/v/text", "stdin"]
    elif c < 0.4:
        plan["route"] = "file"
        plan["damage"] = [[r.choice(["cut", "drop", "dup", "flip", "insert", "line", "swap"]), r.randrange(1 << 20), r.choice(["\0", "\t", "\n", "\"", "x", "9", "-", "\xff", "(", ",", "--\n", "1\t2\n",
                           "0\t1\ta\n", "\n\n", "999999\t5\n", "arc(", "%s%n", "\r\n", "3\t4\t" + "z" * 300 + "\tb\t1\n", "y" * 2000])] for _ in range(r.randint(1, 3))]
    return plan


def damage(text, ops):
    b = bytearray(text)
    for kind, at, what in ops:
        k = at % (len(b) + 1)
        if kind == "cut":
            del b[k:]
        elif kind == "drop":
            del b[k:k + 1 + at % 7]
        elif kind == "dup":
            b[k:k] = b[max(0, k - 20):k]
        elif kind == "flip" and k < len(b):
            b[k] ^= 1 << (at % 8)
        elif kind == "insert":
            b[k:k] = what.encode("latin-1")
        elif kind == "line":
            l = bytes(b).split(b"\n")
            l.insert(at % len(l), what.encode("latin-1").rstrip(b"\n"))
            b = bytearray(b"\n".join(l))
        elif kind == "swap":
            l = bytes(b).split(b"\n")
            i, j = at % len(l), (at // 7) % len(l)
            l[i], l[j] = l[j], l[i]
            b = bytearray(b"\n".join(l))
    return bytes(b)


def usable(plan):
    if not plan["items"] or plan["format"] not in ("att", "prolog"):
        return False
    for n in plan["items"]:
        if not M.valid_net(n):
            return False
        s = set(A.known(n)) | set(n["syms"])
        if plan["format"] == "prolog" and s & {"%0", "%?"}:
            return False
        if plan["format"] == "att" and any(x in a[2:4] for a in n["arcs"] for x in (M.UNK, M.IDE)):
            return False
        if plan["eps"] and plan["eps"] in s:
            return False
        if any(len(x) > 200 for x in s) and plan["type"] == "foma" and plan["route"] in ("pipe", "file"):
            pass
    return True


def check(ctx, plan):
    if not usable(plan):
        ctx.nontrivial = False
        return
    typ, to, items = plan["type"], plan["to"], plan["items"]
    weighted = typ in ("tropical", "log") and to in ("tropical", "log") and "-D" not in plan["opts"]
    s = ctx.sim(dict(plan["cfg"], max_steps=1500000))
    if plan["route"] in ("pipe", "file", "xfst"):
        prep = ctx.sim({"perturb": False}, "prep")
        c = prep.client([], name="prep")

        def make():
            yield "outopen\to\t/v/in\t%s\t1" % typ
            for k, n in enumerate(items):
                yield M.mk("A", typ, n)
                yield "name\tA\t%s" % M.enc(plan.get("name", "n %d, (x).") % k)
                yield "outwrite\to\tA"
            yield "outclose\to"
        drive(c, make())
        prep.run()
        if died(c):
            return ctx.bad("prepare-failed", c.outcome())
        s.fs["/v/in"] = bytearray(prep.fs["/v/in"])
        pro = plan["format"] == "prolog"
        w = ["hfst-fst2txt", "-i", "/v/in"] + (["-f", "prolog"] if pro else []) + plan["opts"]
        rd = ["hfst-txt2fst", "-f", FMT[to]] + (["--prolog"] if pro else ["-e", plan["eps"]] if plan["eps"] else []) + ["-o", "/v/out"]
        if plan["route"] == "xfst":
            w = ["hfst-xfst"] + (["-f", "foma"] if typ == "foma" else []) + ["-F", "/v/script"]
            rd = []
            f = plan["format"]
            s.fs["/v/script"] = bytearray(("load stack /v/in\nset print-weight ON\nwrite %s > /v/text\nclear stack\nread %s /v/text\nsave stack /v/out\n" % (f, f)).encode())
            a = b = s.spawn(w[0], w)
            rd = w
            s.run()
        elif plan["route"] == "pipe":
            pipe = S.Pipe("text", cap=plan["cap"])
            a = s.spawn(w[0], w, stdout=pipe)
            b = s.spawn(rd[0], rd, stdin=pipe)
            s.run()
        else:
            a = s.spawn(w[0], w + ["-o", "/v/text"])
            s.run()
            if plan["damage"]:
                t = damage(bytes(s.fs["/v/text"]), plan["damage"])
                s.fire("damaged_text")
                s.fs["/v/text"] = bytearray(t)
            b = s.spawn(rd[0], rd + ["-i", "/v/text"])
            s.run()
        what = " | ".join([" ".join(w), " ".join(rd)])
        for n, v in ((a, w), (b, rd)):
            if n is a and n.outcome() == "signal:SIGPIPE" and b.outcome() != "exit:0":
                continue    # the reader gave up
            if died(n) and not (n.outcome() == "signal:SIGXCPU" and plan["damage"]) and not (n.outcome() == "signal:SIGABRT" and b"bad_alloc" in n.stderr and plan["damage"]):
                return ctx.bad("died:" + v[0], "%s: %s ended with %s: %s" % (what, v[0], n.outcome(), bytes(n.stderr)[-200:]))
        ctx.nontrivial = any(n["arcs"] for n in items)
        s.probe("%s-%s" % (plan["format"], plan["route"]))
        for n, v in ((a, w), (b, rd)):
            if n.read_failed:
                if n.outcome() == "exit:0":
                    return ctx.bad("read-error-ignored:" + v[0], "%s: %s could not read its input and ended with exit:0" % (what, v[0]))
                s.probe("read-error-reported")
                return
        if plan["damage"]:
            s.probe("damaged:" + b.outcome())
            if b.outcome() not in ("exit:0", "exit:1", "signal:SIGABRT", "signal:SIGXCPU"):     # a damaged state number can ask for more memory than there is
                return ctx.bad("odd-exit", "%s on damaged text: %s" % (what, b.outcome()))
            if b.outcome() == "exit:1" and not b.stderr:
                return ctx.bad("silent-refusal", "%s on damaged text: refused without a message" % what)
            if b.outcome() == "exit:0":     # what was accepted must be usable
                got = reading(ctx, s, "/v/out")
                if isinstance(got, str):
                    return ctx.bad("unreadable", "%s on damaged text ended with success, its output cannot be read: %s" % (what, got))
            return
        if plan["route"] == "xfst" and plan["format"] == "prolog" and "," in plan["name"]:
            s.probe("refused-name")
            if b"Could not write network" not in b.stderr + b.stdout:
                return ctx.bad("silent", "%s: a network with a comma in its name was written without a message" % what)
            return
        for n, v in ((a, w), (b, rd)):
            if n.outcome() != "exit:0":
                return ctx.bad("failed:%s:%s" % (plan["format"], v[0]), "%s: %s ended with %s: %s" % (what, v[0], n.outcome(), bytes(n.stderr)[-300:]))
        got = reading(ctx, s, "/v/out")
        if isinstance(got, str):
            return ctx.bad("unreadable", "%s: output cannot be read: %s" % (what, got))
    else:
        what = "%s text by %s" % (plan["format"], plan["route"])
        got, log = [], []
        n = s.client([], name="lib")
        drive(n, lib(plan, got, log))
        s.run()
        ctx.nontrivial = any(x["arcs"] for x in items)
        s.probe("%s-%s" % (plan["format"], plan["route"]))
        if died(n):
            return ctx.bad("died:" + plan["route"], "%s: %s after %s" % (what, n.outcome(), log[-1:]))
        if log and log[-1][0] != "ok":
            return ctx.bad("failed:%s:%s" % (plan["format"], plan["route"]), "%s: %s" % (what, log[-1]))
    if len(got) != len(items):
        return ctx.bad("wrong-count", "%s: %d transducers written, %d read" % (what, len(items), len(got)))
    for k, (x, y) in enumerate(zip(items, got)):
        d = different(x, y, weighted)
        if d:
            return ctx.bad("differs:%s:%s" % (plan["format"], plan["route"]), "%s: transducer %d is not the same after reading: %s" % (what, k, d))
        if plan["format"] == "prolog" and plan["route"] != "xfst" and {typ, to} <= {"tropical", "log"}:     # other types prune
            lost = (set(x["syms"]) | A.known(x)) - set(y["syms"]) - set(M.SPECIAL)
            if lost:
                return ctx.bad("alphabet:%s" % plan["route"], "%s: transducer %d has lost symbols of its alphabet: %s" % (what, k, sorted(lost)[:5]))


def different(want, got, weighted):
    if not weighted:
        want, got = M.strip_weights(want), M.strip_weights(got)
    if M.exact(want) == M.exact(got) and not any(a[4] for a in want["arcs"]):
        return None
    for n in (3, 2, 1):
        try:
            return M.rel_diff(M.relation(want, n), M.relation(got, n), weighted, 5e-6)
        except M.TooBig:
            pass
    return None


def reading(ctx, s, path):
    r = ctx.sim({"perturb": False}, "read")
    r.fs[path] = bytearray(s.fs.get(path, b""))
    g = []
    c = r.client([], name="reader")
    drive(c, read_all("i", path, g))
    r.run()
    if died(c):
        return c.outcome()
    if not g or g[-1][0] != "eof" or g[-1][1:] != ("ok", "1"):
        return str(g[-1:])
    return [x[1] for x in g if x[0] == "tr"]


def lib(plan, got, log):
    def op(x):
        r = yield x
        log.append(r + (x[:60],))
        return r
    pro = plan["format"] == "prolog"
    w = 1 if "-D" not in plan["opts"] else 0
    yield from op("fopen\tF\t/v/text\tw")
    for k, n in enumerate(plan["items"]):
        if k:
            yield from op("fputs\tF\t%s" % M.enc("\n" if pro else "--\n"))
        yield from op(M.mk("A", plan["type"], n))
        yield from op("prologwrite\tF\tA\tname%d\t%d" % (k, w) if pro else "attwrite\tF\tA\t%d" % w)
    yield from op("fclose\tF")
    yield from op("fopen\tF\t/v/text\tr")
    for k, n in enumerate(plan["items"]):
        r = yield from op("prologread\tF\tB\t%s" % plan["to"] if pro else "attread\tF\tB\t%s\t%s" % (plan["to"], M.enc("@0@")))
        if r[0] != "ok":
            return
        r = yield from op("show\tB")
        got.append(M.parse_net(r[1]))
    yield from op("fclose\tF")
