"""Reference model: small weighted transducers as plain lists, and what they mean.

A net is {"arcs": [[src, dst, in, out, weight], ...], "finals": [[state, weight], ...], "syms": [extra alphabet]}.
State 0 is initial. Its meaning is the relation {(input string, output string): best weight},
computed here independently of HFST and up to a bounded string length.
"""
import math

EPS = "@_EPSILON_SYMBOL_@"
UNK = "@_UNKNOWN_SYMBOL_@"
IDE = "@_IDENTITY_SYMBOL_@"
SPECIAL = (EPS, UNK, IDE)
WEIGHTED = ("tropical", "log", "olw")
ALL_TYPES = ("tropical", "log", "sfst", "foma", "ol", "olw")
ALGEBRA_TYPES = ("tropical", "log", "sfst", "foma")


def enc(s):
    out = []
    for b in s.encode("utf-8", "surrogateescape"):
        out.append("%%%02X" % b if b <= 32 or b == 37 or b == 127 else chr(b))
    return "".join(out).encode("latin-1").decode("utf-8", "surrogateescape") or "%"


def dec(s):
    if s == "%":
        return ""
    b = s.encode("utf-8", "surrogateescape")
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == 37:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out.decode("utf-8", "surrogateescape")


def net_text(net):
    ls = ["a\t%d\t%d\t%s\t%s\t%.9g" % (s, t, enc(i), enc(o), w) for s, t, i, o, w in net["arcs"]]
    ls += ["f\t%d\t%.9g" % (s, w) for s, w in net["finals"]]
    ls += ["s\t" + enc(a) for a in net.get("syms", [])]
    return "\n".join(ls)


def parse_net(text):
    net = {"arcs": [], "finals": [], "syms": []}
    for l in text.split("\n"):
        f = l.split("\t")
        if f[0] == "a":
            net["arcs"].append([int(f[1]), int(f[2]), dec(f[3]), dec(f[4]), float(f[5])])
        elif f[0] == "f":
            net["finals"].append([int(f[1]), float(f[2])])
        elif f[0] == "s":
            net["syms"].append(dec(f[1]))
    return net


def mk(var, typ, net):
    return "mk\t%s\t%s\n%s" % (var, typ, net_text(net))


def strip_weights(net):
    return {"arcs": [[s, t, i, o, 0.0] for s, t, i, o, w in net["arcs"]],
            "finals": [[s, 0.0] for s, w in net["finals"]], "syms": list(net.get("syms", []))}


def finals_of(net):
    d = {}
    for s, w in net["finals"]:
        d[s] = w          # HFST: the last setting of a final weight holds
    return d


class TooBig(Exception):
    pass


def relation(net, maxlen, limit=4000):
    """{(in, out): min weight} for strings with len(in) <= maxlen and len(out) <= maxlen."""
    out = {}
    for s, t, i, o, w in net["arcs"]:
        out.setdefault(s, []).append((t, () if i == EPS else (i,), () if o == EPS else (o,), w))
    fin = finals_of(net)
    best = {(0, (), ()): 0.0}
    work = [(0, (), ())]
    rounds = 0
    while work:
        nxt = {}
        for conf in work:
            s, a, b = conf
            w0 = best[conf]
            for t, i, o, w in out.get(s, ()):
                a2, b2 = a + i, b + o
                if len(a2) > maxlen or len(b2) > maxlen:
                    continue
                k, v = (t, a2, b2), w0 + w
                if k not in best or v < best[k] - 1e-9:
                    best[k] = v
                    nxt[k] = 1
        if len(best) > limit:
            raise TooBig()
        work = list(nxt)
        rounds += 1
        if rounds > 10000:
            raise TooBig()
    rel = {}
    for (s, a, b), w in best.items():
        if s in fin:
            v = w + fin[s]
            k = (a, b)
            if k not in rel or v < rel[k]:
                rel[k] = v
    return rel


def rel_equal(a, b, weights=True, tol=1e-3):
    return rel_diff(a, b, weights, tol) is None


def rel_diff(a, b, weights=True, tol=1e-3):
    for k in a:
        if k not in b:
            return "missing %s" % show_pair(k)
    for k in b:
        if k not in a:
            return "extra %s" % show_pair(k)
    if weights:
        for k in a:
            if not close(a[k], b[k], tol):
                return "%s has weight %g, expected %g" % (show_pair(k), b[k], a[k])
    return None


def close(x, y, tol=1e-3):
    if x == y or (math.isinf(x) and math.isinf(y)):
        return True
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def show_pair(k):
    return "%s:%s" % ("".join("<%s>" % x for x in k[0]), "".join("<%s>" % x for x in k[1]))


def exact(net):
    """Sorted arcs and finals, states as they are."""
    return (sorted((s, t, i, o, round(w, 4)) for s, t, i, o, w in net["arcs"]),
            sorted((s, round(w, 4)) for s, w in finals_of(net).items()))


def net_diff(want, got, weights=True, maxlen=4):
    """None when the two nets mean the same (up to maxlen), else a description."""
    if not weights:
        want, got = strip_weights(want), strip_weights(got)
    if exact(want) == exact(got):
        return None
    n = maxlen
    while n >= 1:
        try:
            return rel_diff(relation(want, n), relation(got, n), weights)
        except TooBig:
            n -= 1
    return None


# ---- generation ---------------------------------------------------------------------------------
PLAIN = ["a", "b", "c", "d"]
ODD = ["ä", "€", "𐐀", "multi", "+Pl", " ", "\t", ":", "0", "?", "@", "%", "\\", "<x>", "'", '"', "#", "--", "@P.F.V@", "@D.F@",
       "@_X", "x\ny", "é́", "_", "|", "EOF", "##", "a b", "HFST", "\x01", "[", "]"]


def weight(r, special=False):
    c = r.random()
    if c < 0.35:
        return 0.0
    if c < 0.8:
        return r.randrange(0, 17) / 4.0
    if c < 0.93:
        return float(r.choice([0.125, 10, 100, 1000, 12345.5, 0.0009765625, 65536, 1048576]))
    return float(r.choice([0.0, 0.75, 3.0]))


def gen_net(r, states=None, arcs=None, syms=None, weighted=True, transducer=True, eps=0.15, unk=0.0, acyclic=False,
            extra_syms=0, final_p=0.35, nonneg_cycle=True):
    n = states or r.randint(1, 5)
    m = arcs if arcs is not None else r.randint(0, 2 * n + 1)
    syms = syms or PLAIN[:r.randint(1, 4)]
    net = {"arcs": [], "finals": [], "syms": []}

    def sym():
        if r.random() < eps:
            return EPS
        return r.choice(syms)
    for k in range(m):
        s = r.randrange(n)
        t = r.randrange(n)
        if acyclic:
            if n == 1:
                break
            s, t = sorted(r.sample(range(n), 2))
        if r.random() < unk:
            i, o = r.choice([(IDE, IDE), (UNK, UNK), (UNK, r.choice(syms)), (r.choice(syms), UNK), (EPS, UNK), (UNK, EPS)])
            if not transducer:
                i = o = IDE
        else:
            i = sym()
            o = sym() if transducer and r.random() < 0.5 else i
        net["arcs"].append([s, t, i, o, weight(r) if weighted else 0.0])
    for s in range(n):
        if r.random() < final_p:
            net["finals"].append([s, weight(r) if weighted else 0.0])
    if not net["finals"] and r.random() < 0.9:
        net["finals"].append([r.randrange(n), weight(r) if weighted else 0.0])
    for k in range(extra_syms):
        net["syms"].append(r.choice(syms + ODD[:8]))
    return net


def chain_net(r, words, weighted=True):
    """A lexicon-like acyclic net: one path per word (list of (in, out) symbol pairs)."""
    net = {"arcs": [], "finals": [], "syms": []}
    nxt = 1
    for w in words:
        s = 0
        for i, o in w:
            net["arcs"].append([s, nxt, i, o, weight(r) if weighted and r.random() < 0.3 else 0.0])
            s = nxt
            nxt += 1
        net["finals"].append([s, weight(r) if weighted else 0.0])
    return net


def tokenize(net, line):
    """Longest-match split of a line into input symbols of the net; None when it is ambiguous what HFST should do."""
    syms = {i for s, t, i, o, w in net["arcs"] if i not in SPECIAL}
    multi = sorted((x for x in syms if len(x) > 1), key=len, reverse=True)
    out = []
    k = 0
    while k < len(line):
        m = next((x for x in multi if line.startswith(x, k)), line[k])
        out.append(m)
        k += len(m)
    return out


def answers(net, line, weights=True, limit=3000):
    """{output string: least weight} of the paths whose input is the line; None when not finite or too many."""
    toks = tokenize(net, line)
    known = {x for s, t, i, o, w in net["arcs"] for x in (i, o)} | set(net.get("syms", []))
    arcs = {}
    for s, t, i, o, w in net["arcs"]:
        if o == UNK or i == UNK or i.startswith("@") and i not in SPECIAL:
            return None
        arcs.setdefault(s, []).append((t, i, o, w if weights else 0.0))
    fin = finals_of(net)
    best = {(0, 0, ""): 0.0}
    work = [(0, 0, "")]
    n = 0
    while work:
        conf = work.pop()
        s, k, out = conf
        w0 = best[conf]
        n += 1
        if n > limit:
            return None
        for t, i, o, w in arcs.get(s, ()):
            if i == EPS:
                k2 = k
            elif k < len(toks) and (i == toks[k] or i == IDE and toks[k] not in known):
                k2 = k + 1
            else:
                continue
            o2 = out + ("" if o == EPS else toks[k] if o == IDE else o)
            c, v = (t, k2, o2), w0 + w
            if c not in best or v < best[c] - 1e-9:
                best[c] = v
                work.append(c)
    res = {}
    for (s, k, out), w in best.items():
        if k == len(toks) and s in fin:
            v = w + (fin[s] if weights else 0.0)
            res[out] = min(v, res.get(out, v))
    return res


def flag(sym):
    """(operator, feature, value) of a flag diacritic, else None."""
    f = sym.split(".")
    if len(sym) < 5 or sym[0] != "@" or sym[-1] != "@" or len(f) not in (2, 3) or f[0][1:] not in ("P", "N", "R", "D", "C", "U"):
        return None
    f[-1] = f[-1][:-1]
    return f[0][1:], f[1], f[2] if len(f) == 3 else None


def apply_flag(state, op):
    """The flag values after the operation (a frozenset of (feature, sign, value)), or None when it fails."""
    o, feat, val = op
    d = {f: (sg, v) for f, sg, v in state}
    cur = d.get(feat)
    if o == "P":
        d[feat] = (1, val)
    elif o == "N":
        d[feat] = (-1, val)
    elif o == "C":
        d.pop(feat, None)
    elif o == "R":
        if not (cur is not None if val is None else cur == (1, val)):
            return None
    elif o == "D":
        if not (cur is None if val is None else cur != (1, val)):
            return None
    elif o == "U":
        if cur is None or cur == (1, val) or cur[0] < 0 and cur[1] != val:
            d[feat] = (1, val)
        else:
            return None
    return frozenset((f, sg, v) for f, (sg, v) in d.items())


def lookup_paths(net, toks, flags=True, weights=True, limit=4000):
    """All accepting paths whose input is toks, as [(weight, ((in, out), ...))]; None when infinite or too many."""
    known = {x for s, t, i, o, w in net["arcs"] for x in (i, o)} | set(net.get("syms", []))
    arcs = {}
    for s, t, i, o, w in net["arcs"]:
        arcs.setdefault(s, []).append((t, i, o, w if weights else 0.0))
    fin = finals_of(net)
    out = []
    steps = [0]

    def go(s, k, w0, path, fl, eps):
        steps[0] += 1
        if steps[0] > limit or len(path) > 60:
            raise TooBig()
        if k == len(toks) and s in fin:
            out.append((w0 + (fin[s] if weights else 0.0), path))
        for t, i, o, w in arcs.get(s, ()):
            f = flag(i)
            if i == EPS or f is not None:
                f2 = fl
                if f is not None and flags:
                    f2 = apply_flag(fl, f)
                    if f2 is None:
                        continue
                if (t, f2) in eps:
                    raise TooBig()      # an epsilon cycle
                go(t, k, w0 + w, path + ((i, o),), f2, eps | {(t, f2)})
            elif k < len(toks) and (i == toks[k] or i in (IDE, UNK) and toks[k] not in known):
                go(t, k + 1, w0 + w, path + ((toks[k], toks[k] if o == IDE else o),), fl, frozenset([(t, fl)]))
    try:
        go(0, 0, 0.0, (), frozenset(), frozenset([(0, frozenset())]))
    except TooBig:
        return None
    return out


def out_side(path):
    return tuple(o for i, o in path if o != EPS and o != "" and flag(o) is None)


def invert(net):
    return dict(net, arcs=[[s, t, o, i, w] for s, t, i, o, w in net["arcs"]])


def trim(net):
    """Only states on a path from the initial state to a final one; the initial state always stays."""
    fwd, bwd = {0}, {s for s, w in net["finals"]}
    while True:
        n = len(fwd) + len(bwd)
        for s, t, i, o, w in net["arcs"]:
            if s in fwd:
                fwd.add(t)
            if t in bwd:
                bwd.add(s)
        if len(fwd) + len(bwd) == n:
            break
    keep = sorted((fwd & bwd) | {0})
    num = {q: k for k, q in enumerate(keep)}
    live = fwd & bwd
    return {"arcs": [[num[s], num[t], i, o, w] for s, t, i, o, w in net["arcs"] if s in live and t in live],
            "finals": [[num[s], w] for s, w in net["finals"] if s in live], "syms": list(net.get("syms", []))}


def valid_net(net):
    """Shrinking may leave gaps; HFST creates the states in between, so any net is valid."""
    return True
