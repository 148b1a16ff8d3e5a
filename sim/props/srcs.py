"""Generated source texts for the compilers: regular expressions, lexc, pmatch, xfst scripts, twolc, SFST-PL."""
WORDS = ["cat", "dog", "cab", "ab", "abc", "bad", "a", "b", "dada", "xyz", "fox", "do"]


def xre(r, depth=3, names=()):
    if depth <= 0 or r.random() < 0.15:
        c = r.random()
        if names and c < 0.35:
            return r.choice(names)
        if c < 0.5:
            return r.choice("abcd")
        if c < 0.7:
            return "%s:%s" % (r.choice("abcd"), r.choice("abcd0"))
        if c < 0.85:
            return "{%s}" % r.choice(WORDS)
        return r.choice(["a::1.5", "0", "b::0.25", '"+N"', "[]", "d"])
    x = lambda: xre(r, depth - 1, names)
    c = r.random()
    if c < 0.25:
        return "[%s %s]" % (x(), x())
    if c < 0.5:
        return "[%s | %s]" % (x(), x())
    if c < 0.58:
        return "[%s]%s" % (x(), r.choice(["+", "*", "^2", "^{1,2}"]))
    if c < 0.64:
        return "(%s)" % x()
    if c < 0.70:
        return "[%s].%s" % (x(), r.choice(["u", "l", "i", "r"]))
    if c < 0.80:
        return "[%s .o. %s]" % (x(), x())
    if c < 0.86:
        return "[[%s].u - [%s].u]" % (x(), x())
    if c < 0.92:
        return "[[%s].l & [%s].l]" % (x(), x())
    return "[%s .o. [%s -> %s || %s _ %s]]" % (x(), r.choice("abcd"), r.choice(["a", "b", "x", "0", "[x y]"]), r.choice(["", "a", "b"]), r.choice(["", "c", "d"]))


def lexc(r, bad=None):
    subs = ["N%d" % i for i in range(r.randint(1, 4))]
    out = ["Multichar_Symbols +N +V +Sg +Pl"]
    if r.random() < 0.2:
        out.append("Definitions\n  X = a | b ;")

    def entry(conts):
        c = r.random()
        w = r.choice(WORDS)
        if c < 0.5:
            e = w
        elif c < 0.7:
            e = "%s%s:%s" % (w, r.choice(["", "+N", "+V", "+N+Sg"]), r.choice(WORDS + ["0"]))
        elif c < 0.8:
            e = r.choice(["+N:0", "+V:s", "+Pl:s"])
        elif c < 0.9:
            e = "< %s >" % r.choice(["a b* c", "a:b c", "[a|b] d"])
        else:
            e = ""
        g = r.random()
        return "%s %s %s;" % (e, r.choice(conts), '"weight: %g" ' % r.choice([0.5, 1, 2.25]) if g < 0.2 and e and e[0] != "<" else "")
    out.append("LEXICON Root")
    for _ in range(r.randint(1, 5)):
        out.append(entry(subs + ["#"]))
    for i, s in enumerate(subs):
        out.append("LEXICON " + s)
        for _ in range(r.randint(1, 5)):
            out.append(entry(["#"] + subs[i + 1:]))
    if bad:
        out.insert(r.randrange(1, len(out) + 1), bad)
    return "\n".join(out) + "\n"


def pmatch(r, include=None):
    out = ["Define A [%s] ;" % " | ".join("{%s}" % r.choice(WORDS) for _ in range(r.randint(1, 4))),
           "Define B [%s] ;" % " | ".join("{%s}" % r.choice(WORDS) for _ in range(r.randint(1, 4)))]
    if include:
        out.append(include)
    c = r.random()
    if c < 0.4:
        out.append("Define TOP [A EndTag(%s)] | [B EndTag(%s)] ;" % (r.choice(["x", "y"]), r.choice(["z", "w"])))
    elif c < 0.7:
        out.append("Define TOP [A \" \" B] EndTag(np) | Ins(A) EndTag(a) ;")
    else:
        out.append("Define TOP [A:{%s}] | B LC(Whitespace) EndTag(b) ;" % r.choice(WORDS))
    return "\n".join(out) + "\n"


def twolc(r):
    v, w = r.sample("abcde", 2)
    x, y = r.sample("bcd", 2)
    rules = ['"r1" %s:%s %s %s: _ %s: ;' % (x, y, r.choice(["<=>", "=>", "<="]), v, r.choice([v, w, "%s:%s" % (w, w)])),
             '"r2" %s:0 %s _ %s: ;' % (w, r.choice(["<=", "=>", "<=>"]), r.choice("bcd"))]
    return "Alphabet a b c d e %s:%s %s:0 ;\nSets Vowel = a e ; Cons = b c d ;\nRules\n%s\n" % (x, y, w, "\n".join(rules[:r.randint(1, 2)]))


def sfst(r):
    return "ALPHABET = [a-e]\n" + r.choice(["(%s:%s|%s*) {%s}:{%s}\n", "$x$ = %s:%s\n$x$ | %s {%s}:{%s}\n"]) % tuple(
        r.choice(WORDS) for _ in range(5))


def strings(r):
    return "".join(r.choice(WORDS) + (":" + r.choice(WORDS) if r.random() < 0.3 else "") + ("\t%g" % r.choice([0.5, 1.5, 2]) if r.random() < 0.2 else "") + "\n"
                   for _ in range(r.randint(1, 10)))


def xfst(r, out="/v/out.x"):
    l, n = [], 0
    names = []
    for _ in range(r.randint(2, 8)):
        c = r.random()
        if c < 0.35 or n == 0:
            l.append("regex %s;" % xre(r, 2, names) + " ")
            n += 1
        elif c < 0.45:
            v = r.choice("ABC")
            l.append("define %s %s;" % (v, xre(r, 2, names)))
            names = sorted(set(names) | {v})
        elif c < 0.55 and n > 1:
            l.append(r.choice(["union net", "concatenate net", "compose net"]))
            n = 1
        elif c < 0.7:
            l.append(r.choice(["invert net", "reverse net", "minimize net", "determinize net", "upper-side net", "lower-side net", "optional net"]))
        elif c < 0.85:
            l.append(r.choice(["print net", "print size", "print words 5", "print sigma", "print stack", "print labels", "print defined"]))
        elif c < 0.92:
            l.append("apply %s %s" % (r.choice(["up", "down"]), r.choice(WORDS)))
        else:
            l.append("turn stack")
    l.append(r.choice(["save stack " + out, "write att > " + out, "write prolog > " + out, "print net > " + out]))
    return "\n".join(l) + "\n"
