"""C13: running text: nothing of it is lost, added or moved, and each word carries the analyses the transducer gives it."""
import re
import unicodedata
import itertools
import sim as S
import models as M
from props.util import *
from props import zoo, c04

ID = "C13"
TOOLS = ["hfst-proc", "hfst-tokenize", "hfst-pmatch2fst"]
RUNS = {"quick": 10000, "thorough": 300000}
RULE = ("a plan is a text processor (hfst-proc in an output format, generation, or hfst-tokenize in a format), a lexicon, options and a text of known and "
        "unknown words, blanks, superblanks, escapes, multiword units, NULs, delivered in seeded pieces and possibly with a read error; the output is taken apart "
        "and compared with the text and with a reference model of the segmentation; non-trivial: the text has a word and a blank")
REAL = ["libhfst", "hfst-proc", "hfst-tokenize", "hfst-pmatch2fst"]

RESERVED = "[]{}^$/\\@<>"
TAGS = ["<n>", "<v>", "<pl>"]
STEMS = ["cat", "cats", "dog", "the", "a", "ab", "cat and dog", "foo bar", "foo", "-foo", "'s", "Bob", "äö", "x-y", "don't", "of", "foo bar baz", "a b", "NATO", "日本", ".com"]
UNKNOWN = ["xyz", "q", "zz9", "ca", "do", "catx", "foo ba", "-f", "don'", "Ä", "ü", "é", "😀", "foo-bar", "cat-", "日"]
BLANKS = [" ", " ", " ", "\n", "  ", ", ", ". ", "\t", "!", "(", ") ", "-", "'"]
SUPER = ["[<b>]", "[\n]", "[]", "[<a href=\"x\">]", "[ ]", "[\\]]", "[\\[]", "[[t:b:12]]", "[[/]]"]
ESC = ["\\^", "\\$", "\\/", "\\[", "\\]", "\\\\", "\\@", "\\<", "\\>", "\\{", "\\}"]
BAD = ["^", "$", "]", "\\", "[abc", "{", "<zz>", "@", "/", "\\a\\"]


def alph(c):
    """A token (one character) that can be part of a word."""
    return c != "\0" and not c.isspace() and unicodedata.category(c)[0] != "P" and unicodedata.category(c) != "Sm"


def lexicon(r):
    lex = []
    for w in r.sample(STEMS, r.randint(2, 8)):
        for tag in r.sample(TAGS, r.choice([1, 1, 2])):
            lemma = w if r.random() < 0.7 else r.choice(["cat", "do", "Foo", "x", "zo r"])
            lex.append([list(w), list(lemma) + [tag], M.weight(r) if r.random() < 0.4 else 0.0])
    seen, out = set(), []
    for e in lex:
        k = ("".join(e[0]), "".join(e[1]))
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def lex_net(lex):
    net = {"arcs": [], "finals": [], "syms": []}
    k = 1
    for ins, outs, w in lex:
        s = 0
        for j in range(max(len(ins), len(outs))):
            net["arcs"].append([s, k, ins[j] if j < len(ins) else M.EPS, outs[j] if j < len(outs) else M.EPS, 0.0])
            s = k
            k += 1
        net["finals"].append([s, w])
    return net


def vary(r, w):
    return r.choice([w, w, w, w, w.upper(), w[:1].upper() + w[1:], w[:-1] + w[-1:].upper()])


def make_text(r, lex, raw, n):
    words = ["".join(e[0]) for e in lex] or ["cat"]
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            out.append(vary(r, r.choice(words)))
        elif x < 0.6:
            out.append(r.choice(UNKNOWN))
        elif x < 0.66:
            w = r.choice(words)
            out.append(w[:r.randint(0, len(w))])
        elif x < 0.74 and not raw:
            out.append(r.choice(SUPER))
        elif x < 0.78 and not raw:
            out.append(r.choice(ESC))
        elif x < 0.785:
            out.append("z" * r.choice([50, 300, 1100]))
        if r.random() < 0.75:
            out.append(r.choice(BLANKS))
        if " " in "".join(out[-2:]) and not raw and r.random() < 0.3:
            # a superblank where a multiword unit has its blank
            out[-1] = out[-1].replace(" ", r.choice(SUPER), 1)
    return "".join(out)


def gen(r, tier):
    plan = {"cfg": soft_cfg(r), "how": r.choice(["stdin", "stdin", "file", "files"])}
    k = r.random()
    if k < 0.55:
        plan["mode"] = r.choice(["apertium", "apertium", "apertium", "cg", "xerox", "translit"])
        plan["opts"] = {"apertium": r.choice([[], ["-p"], ["-a"]]), "cg": ["-C"], "xerox": ["-x"], "translit": ["-j"]}[plan["mode"]]
        plan["opts"] = plan["opts"] + r.choice([[], [], [], ["-w"], ["-c"], ["-N", "1"], ["-N", "2"], ["-l", "1"], ["-k"]] +
                                               ([["-W"]] if plan["mode"] == "apertium" else []))
        plan["lex"] = lexicon(r)
        plan["type"] = r.choice(["ol", "olw"])
        raw = plan["mode"] == "xerox"
        if plan["mode"] == "apertium" and r.random() < 0.2:
            # symbols of several characters in the input alphabet: the text is looked at as a whole only
            plan["multi"] = True
            raw = True
            for e in plan["lex"]:
                if len(e[0]) > 2 and r.random() < 0.5:
                    k = r.randrange(len(e[0]) - 1)
                    n = r.choice([2, 2, 3])
                    e[0] = e[0][:k] + ["".join(e[0][k:k + n])] + e[0][k + n:]
        plan["text"] = [make_text(r, plan["lex"], raw, r.choice([1, 2, 3, 5, 8, 15, 15, 40 if r.random() < 0.8 else 300]))]
        if r.random() < 0.35:
            plan["opts"] = plan["opts"] + ["-z"]
            for _ in range(r.randint(0, 3)):
                plan["text"].append(make_text(r, plan["lex"], raw, r.choice([0, 1, 2, 4])))
            if r.random() < 0.7:
                plan["text"].append("")
        elif r.random() < 0.6:
            plan["text"][0] += "\n"
        elif r.random() < 0.05:
            plan["text"].append("dog\n")           # a NUL in ordinary text
        if r.random() < 0.06 and not raw:
            t = plan["text"][0]
            i = r.randint(0, len(t))
            plan["text"][0] = t[:i] + r.choice(BAD) + t[i:]
            plan["ill"] = True
        if r.random() < 0.06:
            plan["cfg"]["bad"] = {"stdin" if plan["how"] == "stdin" else "/v/text": ["read", r.choice([0, 0, 1, 2])]}
    elif k < 0.7:
        plan["mode"] = "generate"
        plan["opts"] = [r.choice(["-g", "-n", "-d"])] + r.choice([[], [], ["-c"], ["-w"]])
        plan["lex"] = [[e[1], e[0], e[2]] for e in lexicon(r)]
        plan["type"] = r.choice(["ol", "olw"])
        items = []
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if x < 0.5:
                items.append("^" + "".join(vary(r, c) if r.random() < 0.05 else c for c in r.choice(plan["lex"])[0]) + "$")
            elif x < 0.6:
                items.append("^" + r.choice(["zz", "q", "unk"]) + r.choice(["<n>", "<n><pl>", ""]) + "$")
            elif x < 0.7:
                items.append("^" + r.choice("*@") + r.choice(["xyz", "fo o"]) + r.choice(["", "<n>"]) + "$")
            elif x < 0.78:
                e = r.choice(plan["lex"])[0]
                items.append("^" + "".join(e) + "+" + "".join(r.choice(plan["lex"])[0]) + "$")
            items.append(r.choice(BLANKS + SUPER + ESC + ["word"]))
        plan["text"] = ["".join(items)]
        if r.random() < 0.3:
            plan["opts"] = plan["opts"] + ["-z"]
            plan["text"] += ["^" + "".join(r.choice(plan["lex"])[0]) + "$[]" for _ in range(r.randint(0, 2))] + [""]
    else:
        plan["mode"] = "tokenize"
        plan["lex"] = []
        plan["opts"] = r.choice([["-a"], ["-a", "-n"], ["-a", "-n", "-x"], ["-a", "-n", "-c"], ["--gtd"], ["--gtd", "--superblanks"], ["--visl"], ["-a", "-k"],
                                 ["-a", "-n", "-i"], ["-a", "-n", "-C"], ["-a", "-n", "-f"], ["--gtd", "-W"], ["--gtd", "-l", "1"]])
        pool = ["cat", "dog", "the", "foo bar", "foo", "xyz", "ab", "Cat", "dogs", "ä", "9", "日本", "\\", "q'r", "cafe\u0301", "e\u0301", "cat\u0301", "🇫🇮", "\udc97", "\udce6\udc97", "ca\udcff"]
        out = []
        for _ in range(r.choice([1, 3, 6, 12])):
            out.append(r.choice(pool))
            out.append(r.choice([" ", " ", " ", "\n", ", ", ".\n", "  ", "\n\n", "!", "-"]))
            if "--superblanks" in plan["opts"] and r.random() < 0.3:
                out.append(r.choice(["[<b>]", "[\n]", "[]", "[a\\]b]"]))
            if "--visl" in plan["opts"] and r.random() < 0.1:
                out.append("\n<s id=\"1\">\n")
        if r.random() < 0.4:
            out.pop()
        plan["text"] = ["".join(out)]
        if "--gtd" in plan["opts"] and r.random() < 0.4:
            plan["text"] += ["the dog" + r.choice(["", "\n"]), ""]
        plan["how"] = "stdin"
        if r.random() < 0.06:
            plan["cfg"]["bad"] = {"stdin": ["read", r.choice([0, 0, 1, 2])]}
    return plan


# ---- the text as tokens

def tokens(text, raw):
    """[(source, value, kind)]: kind c (character), b (superblank), ! (not allowed here)."""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if not raw and c == "\\":
            if i + 1 >= len(text) or text[i + 1] == "\0":
                return None
            if text[i + 1] not in RESERVED:
                return "unspecified"            # an escape that the format does not have
            out.append((text[i:i + 2], text[i + 1], "c"))
            i += 2
        elif not raw and c == "[":
            j, close = i + 1, "]"
            wb = text.startswith("[[", i)
            while j < len(text) and text[j] != "]":
                if text[j] == "\\" and text[j + 1:j + 2] not in tuple(RESERVED):
                    return None
                j += 2 if text[j] == "\\" else 1
            if j >= len(text) or wb and not text.startswith("]]", j):
                return None
            j += 2 if wb else 1
            out.append((text[i:j], " ", "b"))
            i = j
        elif not raw and c in RESERVED:
            return None
        else:
            out.append((c, c, "c"))
            i += 1
    return out


# ---- hfst-proc: analysis

def entries(lex, case):
    """The lexicon as a trie: prefix -> entries, with the case rule of the lookup."""
    pre, full = set(), {}
    for k, (ins, outs, w) in enumerate(lex):
        s = "".join(ins)
        for j in range(len(s) + 1):
            pre.add(s[:j])
        full.setdefault(s, []).append(k)
    return pre, full


def steps(active, c, pre, case, known):
    """The prefixes reached by reading c."""
    alt = [c]
    if case != "-c" and c.lower() != c and c.lower() in known:
        alt.append(c.lower())
    return {p + x for p in active for x in alt if p + x in pre}


def caps_of(toks, known):
    v = [t for t in toks[:2]]
    if not v:
        return None
    a, b = v[0], v[-1]
    for s, c, kind in (a, b):
        if kind != "c" or c not in known and c.swapcase() not in known:
            return None
    a, b = a[1], b[1]

    def lo(c):
        return c.lower() == c and c.upper() != c

    def up(c):
        return c.upper() == c and c.lower() != c
    if up(a) and lo(b):
        return "first"
    if up(a) and up(b):
        return "upper"
    return None


def apply_caps(outs, caps):
    if caps == "upper":
        return "".join(o if len(o) > 1 else o.upper() for o in outs)
    if caps == "first":
        return "".join(o if len(o) > 1 or j else o.upper() for j, o in enumerate(outs))
    return "".join(outs)


def segment(toks, lex, case):
    """Left to right, longest match at a word boundary: [("copy", token) | ("word", tokens, [entries]) | ("unknown", tokens)]."""
    pre, full = entries(lex, case)
    known = {c for e in lex for c in e[0]} | {c for e in lex for c in e[1] if len(c) == 1}
    out, i = [], 0
    while i < len(toks):
        active, k, best = {""}, 0, None
        while i + k < len(toks):
            nxt = steps(active, toks[i + k][1], pre, case, known) if toks[i + k][1] in known or toks[i + k][1].lower() in known or toks[i + k][2] == "b" else set()
            if not nxt:
                break
            active = nxt
            k += 1
            hits = [e for p in active for e in full.get(p, [])]
            end = i + k
            if hits and not (alph(toks[end - 1][1]) and end < len(toks) and alph(toks[end][1]) and toks[end][2] == "c"):
                best = (k, hits)
        if best:
            out.append(("word", toks[i:i + best[0]], best[1]))
            i += best[0]
        elif not alph(toks[i][1]) or toks[i][2] == "b":
            out.append(("copy", toks[i]))
            i += 1
        else:
            if k == 0 or i + k < len(toks) and alph(toks[i + k][1]) and toks[i + k][2] == "c":
                k = max(k, 1)
                while i + k < len(toks) and alph(toks[i + k][1]) and toks[i + k][2] == "c":
                    k += 1
            out.append(("unknown", toks[i:i + k]))
            i += k
    return out


def surface(toks):
    return "".join(" " if k == "b" else s for s, v, k in toks)


def blanks(toks):
    return "".join(s for s, v, k in toks if k == "b")


def forms_of(plan, toks, hits):
    """[(weight, symbols of the analysis with the case of the surface form)]"""
    lex, opts = plan["lex"], plan["opts"]
    known = {c for e in lex for c in e[0]} | {c for e in lex for c in e[1] if len(c) == 1}
    caps = None if "-w" in opts or plan["mode"] == "cg" and "-c" not in opts else caps_of(toks, known)
    w = plan["type"] == "olw"
    return sorted((M.strip_w(lex[h][2]) if False else (lex[h][2] if w else 0.0), lex[h][1], caps) for h in hits)


def parse_apertium(out):
    """[("t", text) | ("w", surface, [forms])]"""
    items, i, cur = [], 0, ""
    while i < len(out):
        c = out[i]
        if c == "\\":
            cur += out[i:i + 2]
            i += 2
        elif c == "[":
            j = i + 1
            while j < len(out) and out[j] != "]":
                j += 2 if out[j] == "\\" else 1
            cur += out[i:j + 1]
            i = j + 1
        elif c == "^":
            if cur:
                items.append(("t", cur))
                cur = ""
            j, parts, p = i + 1, [], ""
            while j < len(out) and out[j] != "$":
                if out[j] == "\\":
                    p += out[j:j + 2]
                    j += 2
                elif out[j] == "/":
                    parts.append(p)
                    p = ""
                    j += 1
                else:
                    p += out[j]
                    j += 1
            if j >= len(out):
                items.append(("!", out[i:]))
                return items
            parts.append(p)
            items.append(("w", parts[0], parts[1:]))
            i = j + 1
        else:
            cur += c
            i += 1
    if cur:
        items.append(("t", cur))
    return items


def limited(plan, forms):
    """The analyses that -N and -l leave: (forms that must be there, forms that may be, how many)."""
    opts = plan["opts"]
    forms = sorted(set((w, f) for w, f in forms))
    best = {}
    for w, f in forms:
        best[f] = min(w, best.get(f, w))
    forms = sorted((w, f) for f, w in best.items())
    if "-l" in opts and plan["type"] == "olw":
        n = int(opts[opts.index("-l") + 1])
        classes = sorted({w for w, f in forms})[:n]
        forms = [x for x in forms if x[0] in classes]
    if "-N" in opts:
        n = int(opts[opts.index("-N") + 1])
        if len(forms) > n:
            top = forms[n - 1][0]
            must = {f for w, f in forms if w < top} if plan["type"] == "olw" else set()
            may = {f for w, f in forms if w <= top} if plan["type"] == "olw" else {f for w, f in forms}
            return must, may, n
    s = {f for w, f in forms}
    return s, s, len(s)


def same_forms(plan, want, got):
    must, may, n = limited(plan, want)
    g = set(got)
    return len(got) == len(g) == n and must <= g <= may


def strip_weight(f):
    m = re.match(r"(.*)~-?[0-9.e+-]+~$", f, re.S)
    return m.group(1) if m else f


def merge_text(items):
    out = []
    for it in items:
        if it[0] == "t" and out and out[-1][0] == "t":
            out[-1] = ("t", out[-1][1] + it[1])
        elif it[0] != "t" or it[1]:
            out.append(it)
    return out


def check_apertium(ctx, plan, seg, out, what):
    want = []
    for it in seg:
        if it[0] == "copy":
            want.append(("t", it[1][0]))
        elif it[0] == "word":
            want.append(("w", surface(it[1]), [(w, apply_caps(o, c)) for w, o, c in forms_of(plan, it[1], it[2])]))
            want.append(("t", blanks(it[1])))
        else:
            want.append(("w", surface(it[1]), [(0.0, "*" + surface(it[1]))]))
            want.append(("t", blanks(it[1])))
    want, got = merge_text(want), merge_text(parse_apertium(out))
    for k in range(max(len(want), len(got))):
        w = want[k] if k < len(want) else ("end",)
        g = got[k] if k < len(got) else ("end",)
        if w[0] != g[0] or w[1:2] != g[1:2]:
            cls = "lost" if g[0] == "end" else "text"
            return ctx.bad(cls + ":proc", "%s: where %r is due the output has %r (item %d of %r)" % (what, w[:2], g[:2], k, out[:200]))
        if w[0] == "w":
            f = [strip_weight(x) if "-W" in plan["opts"] else x for x in g[2]]
            if not same_forms(plan, w[2], f):
                return ctx.bad("analyses:proc", "%s: %r has the analyses %r, the transducer gives %r" % (what, w[1], g[2], w[2]))


def cg_reading(outs, caps):
    j = next((i for i, o in enumerate(outs) if len(o) > 1), len(outs))
    return "\t\"" + apply_caps(outs[:j], caps) + "\"" + "".join(("\t" if k == 0 else " ") + o.strip("<>") for k, o in enumerate(outs[j:]))


def check_lines(ctx, plan, seg, out, what):
    """CG and Xerox formats: the words only, in order."""
    got = []
    cg = plan["mode"] == "cg"
    for l in out.replace("\0", "").split("\n"):
        if cg:
            if l.startswith("\"<"):
                got.append([l[2:-2], []])
            elif l:
                if not got:
                    return ctx.bad("text:proc", "%s: a reading without a word: %r" % (what, out[:200]))
                got[-1][1].append(l)
        elif l:
            s, _, f = l.partition("\t")
            if got and got[-1] is not None:
                if got[-1][0] != s:
                    return ctx.bad("text:proc", "%s: two words in one block: %r" % (what, out[:200]))
                got[-1][1].append(f)
            else:
                got.append([s, [f]])
        elif got and got[-1] is not None:
            got.append(None)
    got = [g for g in got if g is not None]
    k = 0
    for it in seg:
        if it[0] == "copy":
            continue
        s = surface(it[1])
        if it[0] == "unknown":
            fs = [(0.0, "\t\"*" + s + "\"" if cg else "+?")]
        else:
            fs = [(w, cg_reading(o, c) if cg else apply_caps(o, c)) for w, o, c in forms_of(plan, it[1], it[2])]
        if "\n" in s or "\t" in s:
            return
        if k >= len(got) or got[k][0] != s:
            return ctx.bad("lost:proc" if k >= len(got) else "text:proc", "%s: the word %r is missing from the output %r" % (what, s, out[:200]))
        if not same_forms(plan, fs, got[k][1]):
            return ctx.bad("analyses:proc", "%s: %r has the analyses %r, the transducer gives %r" % (what, s, got[k][1], fs))
        k += 1
    if k < len(got):
        ctx.bad("text:proc", "%s: the output has a word %r that the text has not" % (what, got[k][0]))
    if out.count("\0") != what.count("\0") and False:
        pass


def check_translit(ctx, plan, seg, out, what):
    pos = 0
    for it in seg:
        if it[0] == "copy":
            alts = [it[1][0]]
        elif it[0] == "unknown":
            alts = ["".join(s for s, v, k in it[1])]
        else:
            must, may, n = limited(plan, [(w, apply_caps(o, c)) for w, o, c in forms_of(plan, it[1], it[2])])
            alts = ["/".join(p) + blanks(it[1]) for p in itertools.permutations(sorted(may), n)]
        a = next((a for a in alts if out.startswith(a, pos)), None)
        if a is None:
            return ctx.bad("text:proc", "%s: at %r the output should go on with %r" % (what, out[max(0, pos - 20):pos + 40], alts[0]))
        pos += len(a)
    if pos < len(out):
        ctx.bad("text:proc", "%s: the output goes on after the text with %r" % (what, out[pos:pos + 60]))


# ---- generation

def esc(s):
    return "".join("\\" + c if c in RESERVED else c for c in s)


def expect_generation(plan, text):
    """[alternatives] per item; None for a text outside the model."""
    lex, mode = plan["lex"], plan["opts"][0]
    by = {}
    for ins, outs, w in lex:
        by.setdefault(tuple(ins), []).append((w if plan["type"] == "olw" else 0.0, "".join(outs)))
    items, i = [], 0
    while i < len(text):
        if text[i] == "\\":
            items.append([text[i:i + 2]])
            i += 2
        elif text[i] == "[":
            j = i + 1
            while text[j] != "]":
                j += 2 if text[j] == "\\" else 1
            if text.startswith("[[", i):
                j += 1
            items.append([text[i:j + 1]])
            i = j + 1
        elif text[i] == "^":
            j = text.index("$", i)
            body = text[i + 1:j]
            i = j + 1
            if body[:1] in ("*", "@"):
                p, rest = body[0], body[1:]
                if p == "*" or mode != "-d":
                    rest = rest.partition("<")[0]
                items.append([("" if mode == "-n" else esc(p)) + esc(rest)])
                continue

            def split(b):
                return tuple(re.findall(r"<[^>]*>|.", b, re.S))

            def look(b):
                f = by.get(split(b))
                if not f:
                    return None
                return ["/".join(p) for p in itertools.permutations(sorted({x for w, x in f}))]
            if body != body.lower():
                return None
            a = look(body)
            if a is None:
                parts = re.split(r"(?<=>)\+", body)
                alts = [""]
                for b in parts:
                    f = look(b)
                    if f is None:
                        f = [("" if mode == "-n" else "#") + esc(b if mode == "-d" else re.sub(r"<[^>]*>", "", b))]
                    alts = [x + y for x in alts for y in f]
                a = alts
            items.append(a)
        else:
            items.append([text[i]])
            i += 1
    return items


# ---- hfst-tokenize

def tok_text(plan, out):
    """The text that the output of hfst-tokenize stands for, up to the characters that the format does not keep: (text, function for the input)."""
    o = plan["opts"]
    lines = out.split("\n")
    if "--gtd" in o:
        acc = []
        for l in lines:
            if l.startswith("\"<"):
                acc.append(l[2:-2].replace("\\\\", "\\").replace("\n", "\\n"))
            elif l.startswith(":"):
                acc.append(l[1:])
            elif l == "<STREAMCMD:FLUSH>":
                acc.append("\0")
        return "".join(acc), lambda t: t.replace("\n", "\\n")
    if "-x" in o:
        acc, block = [], None
        for l in lines:
            if not l:
                block = None
                continue
            f = l.split("\t")
            if f[-1] == f[0] + "+?":
                acc.append(f[0])
                block = None
            elif block != f[0]:
                acc.append(f[0])
                block = f[0]
        return "".join(acc), lambda t: t.replace("\n", "")
    if "-c" in o:
        return "".join(l[2:-2].replace("\\\\", "\\") for l in lines if l.startswith("\"<")), lambda t: t.replace("\n", "")
    if "--visl" in o:
        acc = []
        for l in lines:
            if l.startswith("\"<"):
                acc.append(l[2:-2].replace("\\\\", "\\"))
            elif not l.startswith("\t"):
                acc.append(l)
        return re.sub(r"\s", "", "".join(acc)), lambda t: re.sub(r"\s", "", t)
    if "-C" in o:
        return re.sub(r"\s", "", "".join(l.split("\t")[1] if l.count("\t") > 2 else l for l in lines)), lambda t: re.sub(r"\s", "", t)
    if "-f" in o:
        return re.sub(r"\s", "", "".join(l.split("\t")[0] for l in lines)), lambda t: re.sub(r"\s", "", t)
    if "-i" in o:
        return re.sub(r"\s", "", out), lambda t: re.sub(r"\s", "", t)
    return out.replace("\n", ""), lambda t: t.replace("\n", "")


def check(ctx, plan):
    mode = plan["mode"]
    text = "\0".join(plan["text"])
    data = text.encode("utf-8", "surrogateescape")
    if mode == "tokenize":
        files = c04.prepare(ctx, {"tool": "tokenize", "script": 0})
        argv = ["hfst-tokenize"] + plan["opts"] + ["/v/in.hfst"]
    else:
        if not plan["lex"]:
            return
        files = zoo.prepare(ctx, {"nets": [["/v/in.hfst", plan["type"], [lex_net(plan["lex"])]]], "texts": {}})
        argv = ["hfst-proc"] + plan["opts"] + ["/v/in.hfst"]
    if files is None:
        return
    s = ctx.sim(plan["cfg"])
    for p, d in files.items():
        s.fs[p] = bytearray(d)
    if plan["how"] != "stdin":
        s.fs["/v/text"] = bytearray(data)
        argv.append("/v/text")
        if plan["how"] == "files":
            argv.append("/v/out")
    ctx.nontrivial = any(alph(c) for c in text) and any(c.isspace() for c in text)
    n = s.spawn("hfst-proc" if mode != "tokenize" else "hfst-tokenize", argv, stdin=data if plan["how"] == "stdin" else b"")
    s.run()
    tool = "tokenize" if mode == "tokenize" else "proc"
    what = "%s on %r" % (argv, text if len(text) < 300 else text[:200] + "..." + text[-80:])
    if exploded(n):
        ctx.nontrivial = False
        return
    if n.outcome() == "stuck" or died(n):
        return ctx.bad("died:" + tool, "%s: %s %s" % (what, n.outcome(), bytes(n.stderr)[-200:]))
    if s.fired.get("bad_read"):
        s.probe("read-error")
        if n.outcome() == "exit:0":
            ctx.bad("read-error-ignored:" + tool, "%s: reading the text failed, but the tool ended with success" % what)
        return
    raw = "-x" in plan["opts"] and tool == "proc"
    if tool == "proc" and mode != "generate":
        toks = tokens(text, raw)
        if toks is None:
            s.probe("ill-formed")
            if n.outcome() == "exit:0":
                ctx.bad("accepted:proc", "%s: the text is not in the stream format, but the tool ended with success" % what)
            return
        if toks == "unspecified" or any(tokens(t, raw) is None for t in plan["text"]):
            return
    if n.outcome() != "exit:0":
        return ctx.bad("failed:" + tool, "%s: %s %s" % (what, n.outcome(), bytes(n.stderr)[-200:]))
    out = bytes(s.fs.get("/v/out", b"") if plan["how"] == "files" else n.stdout).decode("utf-8", "surrogateescape")
    if tool == "tokenize":
        got, f = tok_text(plan, out)
        if got != f(text):
            ctx.bad("text:tokenize", "%s: the output stands for %r" % (what, got[:300]))
        return
    if out.count("\0") != text.count("\0"):
        return ctx.bad("nul:proc", "%s: %d NULs in the output" % (what, out.count("\0")))
    if mode == "generate":
        items = expect_generation(plan, text)
        if items is None:
            return
        pos = 0
        for alts in items:
            a = next((a for a in sorted(alts, key=len, reverse=True) if out.startswith(a, pos)), None)
            if a is None:
                return ctx.bad("generation:proc", "%s: at %r the output should go on with %r" % (what, out[max(0, pos - 20):pos + 40], alts[0]))
            pos += len(a)
        if pos < len(out):
            ctx.bad("generation:proc", "%s: the output goes on with %r" % (what, out[pos:pos + 60]))
        return
    if plan.get("multi"):
        items = parse_apertium(out)
        got = "".join(x[1] for x in items)
        if any(x[0] == "!" for x in items) or got != text:
            ctx.bad("text:proc", "%s: the output %r stands for %r" % (what, out[:200], got[:200]))
        for x in items:
            if x[0] == "w":
                s.probe("multi-words")
        return
    case = "-c" if "-c" in plan["opts"] else ""
    segs = [segment(tokens(t, raw), plan["lex"], case) for t in plan["text"]]
    # each part up to a NUL is answered before the NUL
    for t, sg, o in zip(plan["text"], segs, out.split("\0")):
        s.probe("words", sum(1 for x in sg if x[0] == "word"))
        s.probe("multiword", sum(1 for x in sg if x[0] == "word" and any(not alph(v) for _, v, _ in x[1])))
        s.probe("superblank-in-word", sum(1 for x in sg if x[0] == "word" and blanks(x[1])))
        {"apertium": check_apertium, "translit": check_translit}.get(mode, check_lines)(ctx, plan, sg, o, what)
        if ctx.violations:
            return
