"""Reference semantics of the transducer operations, on the nets of models.py.

Written from the meaning of the operations as relations, independently of HFST; plain and slow.
Only tropical weights (or none); unknown symbols are not modelled, identity is."""
import models as M
from models import EPS, IDE, UNK


def new():
    return {"arcs": [], "finals": [], "syms": []}


def size(n):
    return 1 + max([0] + [max(a[0], a[1]) for a in n["arcs"]] + [s for s, w in n["finals"]])


def shift(n, k):
    return {"arcs": [[s + k, t + k, i, o, w] for s, t, i, o, w in n["arcs"]], "finals": [[s + k, w] for s, w in M.finals_of(n).items()],
            "syms": list(n["syms"])}


def known(n):
    return {x for a in n["arcs"] for x in a[2:4] if x not in M.SPECIAL} | {x for x in n["syms"] if x not in M.SPECIAL}


def with_alphabet(n, k):
    """The same relation when the symbols k are known too: identity is spelled out for them."""
    add = sorted(k - known(n))
    arcs = list(n["arcs"])
    for s, t, i, o, w in n["arcs"]:
        if i == IDE and o == IDE:
            arcs += [[s, t, x, x, w] for x in add]
        elif i == UNK and o == UNK:     # any two different symbols
            arcs += [[s, t, x, y, w] for x in add for y in add if x != y] + [[s, t, x, UNK, w] for x in add] + [[s, t, UNK, x, w] for x in add]
        elif i == UNK:
            arcs += [[s, t, x, o, w] for x in add]
        elif o == UNK:
            arcs += [[s, t, i, x, w] for x in add]
    return {"arcs": arcs, "finals": list(n["finals"]), "syms": sorted(known(n) | k)}


def harmonize(a, b):
    k = known(a) | known(b)
    return with_alphabet(a, k), with_alphabet(b, k)


def epsilon():
    return {"arcs": [], "finals": [[0, 0.0]], "syms": []}


def concat(a, b):
    a, b = harmonize(a, b)
    n = size(a)
    c = shift(b, n)
    return {"arcs": a["arcs"] + c["arcs"] + [[s, n, EPS, EPS, w] for s, w in M.finals_of(a).items()], "finals": c["finals"], "syms": a["syms"]}


def union(a, b):
    a, b = harmonize(a, b)
    x = shift(a, 1)
    y = shift(b, 1 + size(a))
    return {"arcs": x["arcs"] + y["arcs"] + [[0, 1, EPS, EPS, 0.0], [0, 1 + size(a), EPS, EPS, 0.0]], "finals": x["finals"] + y["finals"], "syms": a["syms"]}


def plus(a):
    x = shift(a, 1)
    return {"arcs": x["arcs"] + [[0, 1, EPS, EPS, 0.0]] + [[s, 0, EPS, EPS, w] for s, w in x["finals"]], "finals": x["finals"], "syms": x["syms"]}


def star(a):
    return union(epsilon(), plus(a))


def optional(a):
    return union(epsilon(), a)


def times(a, n):
    r = dict(epsilon(), syms=sorted(known(a)))
    for _ in range(n):
        r = concat(r, a)
    return r


def times_to(a, n, k):
    r = times(a, n)
    b = optional(a)
    for _ in range(k - n):
        r = concat(r, b)
    return r


def invert(a):
    return M.invert(a)


def reverse(a):
    x = shift(a, 1)
    return {"arcs": [[t, s, i, o, w] for s, t, i, o, w in x["arcs"]] + [[0, s, EPS, EPS, w] for s, w in x["finals"]], "finals": [[1, 0.0]], "syms": x["syms"]}


def iproj(a):
    return {"arcs": [[s, t, i, i, w] for s, t, i, o, w in a["arcs"]], "finals": list(a["finals"]), "syms": sorted(known(a))}


def oproj(a):
    return {"arcs": [[s, t, o, o, w] for s, t, i, o, w in a["arcs"]], "finals": list(a["finals"]), "syms": sorted(known(a))}


def product(a, b, start, step, final, syms):
    """Explore pairs of configurations."""
    num = {start: 0}
    work = [start]
    out = {"arcs": [], "finals": [], "syms": sorted(syms)}
    while work:
        c = work.pop()
        f = final(c)
        if f is not None:
            out["finals"].append([num[c], f])
        for d, i, o, w in step(c):
            if d not in num:
                num[d] = len(num)
                work.append(d)
                if len(num) > 3000:
                    raise M.TooBig()
            out["arcs"].append([num[c], num[d], i, o, w])
    return out


def outgoing(n):
    d = {}
    for s, t, i, o, w in n["arcs"]:
        d.setdefault(s, []).append((t, i, o, w))
    return d


def compose(a, b):
    a, b = harmonize(a, b)
    x, y, fa, fb = outgoing(a), outgoing(b), M.finals_of(a), M.finals_of(b)

    def step(c):
        p, q = c
        for t, i, o, w in x.get(p, ()):
            if o == EPS:
                yield (t, q), i, EPS, w
            else:
                for t2, i2, o2, w2 in y.get(q, ()):
                    if i2 == o:
                        yield (t, t2), i, o2, w + w2
        for t2, i2, o2, w2 in y.get(q, ()):
            if i2 == EPS:
                yield (p, t2), EPS, o2, w2
    return product(a, b, (0, 0), step, lambda c: fa[c[0]] + fb[c[1]] if c[0] in fa and c[1] in fb else None, a["syms"])


def closure(n, states, out):
    seen, work = set(states), list(states)
    while work:
        for t, i, o, w in out.get(work.pop(), ()):
            if i == EPS and o == EPS and t not in seen:
                seen.add(t)
                work.append(t)
    return frozenset(seen)


def pair_free(n):
    """Pairs of different length cannot be told apart by their symbol pairs."""
    return all((i == EPS) == (o == EPS) for s, t, i, o, w in n["arcs"])


def automaton(n):
    return all(i == o and i != UNK for s, t, i, o, w in n["arcs"])


def intersect(a, b):
    a, b = harmonize(a, b)
    x, y, fa, fb = outgoing(a), outgoing(b), M.finals_of(a), M.finals_of(b)

    def step(c):
        p, q = c
        for t, i, o, w in x.get(p, ()):
            if i == EPS and o == EPS:
                yield (t, q), i, o, w
            else:
                for t2, i2, o2, w2 in y.get(q, ()):
                    if (i2, o2) == (i, o):
                        yield (t, t2), i, o, w + w2
        for t2, i2, o2, w2 in y.get(q, ()):
            if i2 == EPS and o2 == EPS:
                yield (p, t2), EPS, EPS, w2
    return product(a, b, (0, 0), step, lambda c: fa[c[0]] + fb[c[1]] if c[0] in fa and c[1] in fb else None, a["syms"])


def subtract(a, b):
    a, b = harmonize(a, b)
    x, y, fa, fb = outgoing(a), outgoing(b), M.finals_of(a), M.finals_of(b)

    def step(c):
        p, S = c
        for t, i, o, w in x.get(p, ()):
            if i == EPS and o == EPS:
                yield (t, S), i, o, w
            else:
                T = closure(b, {t2 for q in S for t2, i2, o2, w2 in y.get(q, ()) if (i2, o2) == (i, o)}, y)
                yield (t, T), i, o, w
    return product(a, b, (0, closure(b, {0}, y)), step, lambda c: fa[c[0]] if c[0] in fa and not any(q in fb for q in c[1]) else None, a["syms"])


def universal(syms):
    return {"arcs": [[0, 0, x, x, 0.0] for x in sorted(syms) + [IDE]], "finals": [[0, 0.0]], "syms": sorted(syms)}


def negate(a):
    return subtract(universal(known(a)), a)


def cross(a, b):
    """Every input of a to every input of b (automata)."""
    a, b = harmonize(a, b)
    r = compose({"arcs": [[s, t, i, EPS, w] for s, t, i, o, w in a["arcs"]], "finals": a["finals"], "syms": a["syms"]},
                {"arcs": [[s, t, EPS, o, w] for s, t, i, o, w in b["arcs"]], "finals": b["finals"], "syms": b["syms"]})
    return r


def shuffle(a, b):
    a, b = harmonize(a, b)
    x, y, fa, fb = outgoing(a), outgoing(b), M.finals_of(a), M.finals_of(b)

    def step(c):
        p, q = c
        for t, i, o, w in x.get(p, ()):
            yield (t, q), i, o, w
        for t, i, o, w in y.get(q, ()):
            yield (p, t), i, o, w
    return product(a, b, (0, 0), step, lambda c: fa[c[0]] + fb[c[1]] if c[0] in fa and c[1] in fb else None, a["syms"])


def priority_union(a, b):
    """a, and b for the inputs a does not have."""
    a, b = harmonize(a, b)
    d = M.strip_weights(iproj(a))
    x, y, fb = outgoing(b), outgoing(d), M.finals_of(b)
    fd = M.finals_of(d)

    def step(c):
        p, S = c
        for t, i, o, w in x.get(p, ()):
            if i == EPS:
                yield (t, S), i, o, w
            else:
                yield (t, closure(d, {t2 for q in S for t2, i2, o2, w2 in y.get(q, ()) if i2 == i}, y)), i, o, w
    r = product(b, d, (0, closure(d, {0}, y)), step, lambda c: fb[c[0]] if c[0] in fb and not any(q in fd for q in c[1]) else None, b["syms"])
    return union(a, r)


def lenient(a, b):
    return priority_union(compose(a, b), a)


def substitute(a, old, new_, ins, outs):
    return {"arcs": [[s, t, new_ if ins and i == old else i, new_ if outs and o == old else o, w] for s, t, i, o, w in a["arcs"]],
            "finals": list(a["finals"]), "syms": sorted((known(a) - {old}) | {new_})}


def substitute_pair(a, old, new_):
    return {"arcs": [[s, t] + (list(new_) if (i, o) == old else [i, o]) + [w] for s, t, i, o, w in a["arcs"]],
            "finals": list(a["finals"]), "syms": sorted(known(a) | ({x for x in new_ if x != EPS}))}


def final_weights(a, w, inc):
    return {"arcs": list(a["arcs"]), "finals": [[s, x + w if inc else w] for s, x in M.finals_of(a).items()], "syms": list(a["syms"])}


def insert_freely(a, pair):
    k = {x for x in pair if x != EPS}
    a = with_alphabet(a, k)
    return {"arcs": a["arcs"] + [[s, s, pair[0], pair[1], 0.0] for s in range(size(a))], "finals": list(a["finals"]), "syms": a["syms"]}


def weights(a, f):
    return {"arcs": [[s, t, i, o, f(w)] for s, t, i, o, w in a["arcs"]], "finals": [[s, f(w)] for s, w in M.finals_of(a).items()], "syms": list(a["syms"])}


def replace_pairs(a, f, add=()):
    """Each arc becomes one arc for each pair that f gives for its pair."""
    return {"arcs": [[s, t, x, y, w] for s, t, i, o, w in a["arcs"] for x, y in f((i, o))], "finals": list(a["finals"]),
            "syms": sorted(known(a) | {x for x in add if x not in M.SPECIAL})}


def path_net(pairs, w=0.0):
    return {"arcs": [[k, k + 1, i, o, 0.0] for k, (i, o) in enumerate(pairs)], "finals": [[len(pairs), w]],
            "syms": sorted({x for p in pairs for x in p if x not in M.SPECIAL})}


def eliminate_flags(a, feature=None):
    """The paths that the flag diacritics (of one feature, or of all) allow, without them."""
    x, fa = outgoing(a), M.finals_of(a)

    def step(c):
        p, st = c
        for t, i, o, w in x.get(p, ()):
            f = M.flag(i)
            if f is None or feature is not None and f[1] != feature:
                yield (t, st), i, o, w
            else:
                st2 = M.apply_flag(st, f)
                if st2 is not None:
                    yield (t, st2), EPS, EPS, w
    gone = {y for y in known(a) if M.flag(y) and (feature is None or M.flag(y)[1] == feature)}
    return product(a, a, (0, frozenset()), step, lambda c: fa.get(c[0]), known(a) - gone)


def reduce(n):
    """The same weighted relation in fewer states: trim, removal of epsilons, one arc per label and target, merging of states that continue alike."""
    n = M.trim(n)
    fin = M.finals_of(n)
    out = outgoing(n)
    for s in range(size(n)):    # least weights over epsilon arcs
        d, work = {s: 0.0}, [s]
        while work:
            p = work.pop()
            for t, i, o, w in out.get(p, ()):
                if i == EPS and o == EPS and (t not in d or d[p] + w < d[t]):
                    d[t] = d[p] + w
                    work.append(t)
        if len(d) > 1:
            n.setdefault("clo", {})[s] = d
    clo = n.pop("clo", {})
    arcs, nfin = {}, {}
    for s in range(size(n)):
        for q, w0 in clo.get(s, {s: 0.0}).items():
            for t, i, o, w in out.get(q, ()):
                if not (i == EPS and o == EPS):
                    k = (s, t, i, o)
                    arcs[k] = min(arcs.get(k, float("inf")), w0 + w)
            if q in fin:
                nfin[s] = min(nfin.get(s, float("inf")), w0 + fin[q])
    n = M.trim({"arcs": [list(k) + [w] for k, w in arcs.items()], "finals": [[s, w] for s, w in nfin.items()], "syms": sorted(known(n))})
    while True:
        fin = M.finals_of(n)
        out = outgoing(n)
        cls = {s: 0 for s in range(size(n))}
        while True:
            key = {s: (fin.get(s), frozenset((i, o, w, cls[t]) for t, i, o, w in out.get(s, ()))) for s in cls}
            ids = {}
            new_ = {s: ids.setdefault(key[s], len(ids)) for s in sorted(cls)}
            if len(ids) == len(set(cls.values())):
                break
            cls = new_
        if len(set(cls.values())) == len(cls):
            return n
        arcs = {}
        for s, t, i, o, w in n["arcs"]:
            k = (cls[s], cls[t], i, o)
            arcs[k] = min(arcs.get(k, float("inf")), w)
        n = {"arcs": [list(k) + [w] for k, w in arcs.items()], "finals": [[cls[s], w] for s, w in fin.items()], "syms": n["syms"]}
        # the initial state has class 0: it is numbered first


def diff(want, got, weights=True, maxlen=3):
    """None when both mean the same relation (strings up to maxlen), else a description; (None, False) style is avoided:
    raises TooBig when it cannot be told."""
    if not weights:
        want, got = M.strip_weights(want), M.strip_weights(got)
    want, got = harmonize(want, got)
    n = maxlen
    while n >= 1:
        try:
            return M.rel_diff(M.relation(want, n, 6000), M.relation(got, n, 6000), weights)
        except M.TooBig:
            n -= 1
    raise M.TooBig()
