"""Complete small scopes: every program of a certain small shape.  The quick
checks run all of a scope or a sample of it, the thorough ones all of it."""
import itertools
from wb import Case


def upto(alphabet, n, least=0):
    return [c for k in range(least, n + 1) for c in itertools.product(alphabet, repeat=k)]


SCOPE = {"taken": 0, "of": 0}


def some(rnd, tier, xs, quick):
    """In the quick tier a sample; it differs from seed to seed."""
    xs = list(xs)
    got = xs if tier == "thorough" or len(xs) <= quick else rnd.sample(xs, quick)
    SCOPE["taken"] += len(got)
    SCOPE["of"] += len(xs)
    return got


# C04: every sequence of a few statements.
STATEMENTS = [".org 0", ".org 3", ".org 6", ".byte 1", ".word $302", ".cnop 0, 4", ".cnop 1, 4", ".cnop 2, 0", ".text 2 \"a\"", " ld 3", "@"]


def layouts(rnd, tier):
    out = []
    for seq in some(rnd, tier, upto(STATEMENTS, 4 if tier == "thorough" else 3), 1500):
        labels, lines = [], []
        for s in seq:
            if s == "@":
                labels.append("n%d" % len(labels))
                s = labels[-1] + ":"
            lines.append(s)
        lines += [".byte %s, $EE" % l for l in labels]
        out.append(Case({"main.asm": "\n".join(lines) + "\n"}))
    return out


# C05: every sequence of a few declarations and uses.
DECLARATIONS = ["a:", "A = 3", "b equ a+1", " .word a", " .word b", ".a:", " .word .a", "b:"]


# The same with names that come out of macros and included files.
BROUGHT = [" m", " n", " q a", " x", ".include \"i\"", "a:", ".a:", " .word a", " .word .a", "A = 3", "b:"]
BRINGERS = "%macro m\na: nop\n%end\n%macro n\n.a: nop\n%end\n%macro q %p\n br %p\n%end\n%macro x\na%: br a%\n%end\n"


def brought(rnd, tier):
    return [Case({"main.asm": BRINGERS + "\n".join(c) + "\n", "i": g + "\n"})
            for c in some(rnd, tier, upto(BROUGHT, 4 if tier == "thorough" else 3, 1), 900)
            for g in (rnd.choice(["a:", "b = 1", ".a:", " m", " .word a"]),)]


def scopes(rnd, tier):
    seqs = upto(DECLARATIONS, 4 if tier == "thorough" else 3, 1)
    if tier != "thorough":
        seqs += rnd.sample(list(itertools.product(DECLARATIONS, repeat=4)), 700)
    return [Case({"main.asm": "\n".join(c) + "\n"}) for c in seqs]


# C06: every sequence of a few tokens.
TOKENS = ["1", "7", "-", "*", "(", ")", "+", "/", "&", ">"]


def token_sequences(rnd, tier):
    seqs = upto(TOKENS, 5 if tier == "thorough" else 4)
    return [Case({"main.asm": " .word $7fff & (%s)\n" % " ".join(c) if k % 2 else " .word %s\n" % " ".join(c)})
            for c in some(rnd, tier, seqs, 2600) for k in (rnd.randrange(2),)]


# C06: every chain of three operators, grouped in every way, with one prefix.
def chains(rnd, tier):
    operands, risky, plain = ["773", "1300", "9", "44"], [], []
    for ops in itertools.product("+-*/&|^", repeat=3):
        for k, pre in [(0, "")] + [(k, p) for k in range(4) for p in "-><"]:
            a, b, c, d = [(pre if j == k else "") + x for j, x in enumerate(operands)]
            o, p, q = ops
            for e in ("{a} {o} {b} {p} {c} {q} {d}", "({a}{o}{b}){p}({c} {q} {d})", "{a} {o} ({b} {p} {c}) {q} {d}",
                      "{a}{o}({b}{p}{c}{q}{d})", "{a} {o} (({b} {p} {c}) {q} {d})", "{a}{o}{b} {p} ({c} {q} {d})", "-({a}{o}{b}){p}{c}{q}{d}", "{a}{o}>({b}{p}{c}) {q} {d}"):
                t = e.format(**locals())
                (risky if "/" in t and "(" in t or "/ >9" in t or "/ >44" in t or "/>9" in t or "/>44" in t else plain).append(t)
    risky = some(rnd, tier, risky, 300)
    plain = some(rnd, tier, plain, 2500)
    rnd.shuffle(plain)
    n = 60
    lots = [plain[k:k + n] for k in range(0, len(plain), n)] + [[x] for x in risky[:1500]] + [risky[k:k + 3] for k in range(1500, len(risky), 3)]
    return [Case({"main.asm": "".join(" .word (%s)&$ffff, <((%s)/65536), <((%s)/16777216)\n" % (t, t, t) for t in lot)}) for lot in lots]


# C05, C06: whether an expression has a value, for every small expression over
# operands that have one, have none, or make one pointless to ask for.
def fates(rnd, tier):
    leaves, ops, pres = ["0", "1", "zero", "nowhere", "(1/0)"], "+-*/&|^", ["-", "<", ">"]
    pairs = ["%s %s %s" % (x, o, y) for x in leaves for o in ops for y in leaves]
    one = ["%s%s" % (u, x) for u in pres for x in leaves] + ["%s%s%s" % (u, v, x) for u in pres for v in pres for x in leaves]
    one += ["%s(%s)" % (u, e) for u in pres for e in pairs]
    one += ["%s%s %s %s%s" % (u, x, o, v, y) for u in pres + [""] for v in pres + [""] for x in leaves for o in ops for y in leaves]
    two = [f % (x, o, y, q, z) for f in ("(%s %s %s) %s %s", "%s %s (%s %s %s)", "<(%s %s (%s %s %s))", "%s %s >(%s %s %s)")
           for x in leaves for o in ops for y in leaves for q in ops for z in leaves]
    places = [" .byte %s\n", " .word 1, %s\n", " mov #%s, 0\n", " ld %s\n", "c = %s\n .word c\n", "c = %s\n", "c equ 1 | %s\n .byte 0*c\n", " add #(%s)\n", "%%macro m %%a\n mov %%a, 1\n%%end\n m #%s\n"]
    return [Case({"main.asm": "zero = 0\n" + rnd.choice(places) % e})
            for e in some(rnd, tier, pairs, 200) + some(rnd, tier, one, 1200) + some(rnd, tier, two, 900)]


# C07: every sequence of a few characters.
CHARACTERS = ["a", "1", "0", "x", "%", "$", "'", "\"", "\\", ".", ":", ";", "*", "@", "r", " ", "\n", "b", "-", "o", "8", "é", "\r", "\t"]


def character_sequences(rnd, tier):
    raw = ["".join(c) for c in upto(CHARACTERS, 3)]
    item = [" .byte 1, " + s + "\n" for s in raw] + [" .byte 1, 0" + "".join(c) + "\n" for c in upto("xob0189f'", 4)]
    str_ = [" .byte \"" + "".join(c) + "\"\n" for c in upto(["\\", "\"", "n", "0", "é", ";", "\n", "x"], 3)]
    label = ["".join(c) + ":\n .word a, a.b, _a\n" for c in upto(["a", ".", "_", "$", "1", "%", " ", "b"], 3, 1)]
    return [Case({"main.asm": t}) for t in some(rnd, tier, raw, 800) + some(rnd, tier, item, 1500) +
            some(rnd, tier, str_, 250) + some(rnd, tier, label, 250)]


# C07: every way to start and end comments, lines and files.
def comments(rnd, tier):
    parts = [";", "*", "\r", "\n", " ", "ret", "\\", "\r\n"]
    return [Case({"main.asm": "".join(c)}) for c in some(rnd, tier, upto(parts, 5 if tier == "thorough" else 4), 1800)]


# C08: every call graph of three macros with up to two calls each.
def call_graphs(rnd, tier):
    lists = upto("abc", 2)
    out = []
    for bodies in itertools.product(lists, repeat=3):
        t = ""
        for n, (name, calls) in enumerate(zip("abc", bodies)):
            t += "%%macro %s\nl%%: add #%d\n" % (name, n + 1)
            t += "".join(" %s\n" % c for c in calls) + " br l%\n%end\n"
        t += rnd.choice([" a\n", " a\n b\n", " c\n a\n"])
        out.append(Case({"main.asm": t}))
    return some(rnd, tier, out, 900)


# C08: every way of passing two arguments on, and what the body does with them.
def arguments(rnd, tier):
    out = []
    uses = [" mov #%a, %b\n", " mov #%b, %a\n", " add #%a\n ld %b\n", " be #%b, l%\nl%: be #%a, l%\n", " jmpf %b\n callf %a+1\n",
            " mov #%b+%a, 3\n", " br %a\n bz %b\n", " set1 %b, 3\nl%: dbnz %b, l%\n", " ld %a\n st %b\n", " jmpf %a-%b\n", " mov #-%a, %b*2\n"]
    passed = ["%a", "%b", "l%", "7", "%a+1", "@r1", "#5", "g", "%b*%a", "#%a", ".l", "l"]
    for x, y in itertools.product(passed, repeat=2):
        for use in uses:
            for call in (" outer 3, 4\n", " outer g, .l\n", " outer @r2, 5\n", " outer 1+2, 6-2\n", " outer #1, @r0\n"):
                t = "%macro inner %b, %a\n" + use + "%end\n%macro outer %a, %b\nl%: nop\n inner " + x + ", " + y + "\n%end\n"
                t += "g:\n.l: nop\nl: nop\n" + call
                out.append(Case({"main.asm": t}))
    return some(rnd, tier, out, 1300)


# C08: which definition a call means.
def overloads(rnd, tier):
    out = []
    defs = [("m", ""), ("m", "%x"), ("m", "%x, %y"), ("M", "%y"), ("n", ""), ("ld", "%x"), ("n", "%x, %x")]
    calls = [" m", " m 1", " M 1, 2", " n", " ld 3", " n 1", " m 1, 2, 3"]
    for ds in upto(range(len(defs)), 2):
        t = "".join("%%macro %s %s\n add #%d\n%s%%end\n" % (defs[d][0], defs[d][1], 16 + d, " ld 5\n" if k == 0 else " m\n" if d in (4, 2) else "")
                    for k, d in enumerate(ds))
        for cs in upto(calls, 2, 1):
            out.append(Case({"main.asm": "\n".join(cs[:1]) + "\n" + t + "\n".join(cs[1:]) + "\n"}))
    out = some(rnd, tier, out, 500)
    # every two numbers of parameters
    def par(n):
        return ", ".join("%%p%d" % k for k in range(n))
    def body(n, tag):
        return "%%macro m %s\n add #%d\n%s%%end\n" % (par(n), tag, "".join(" add #%%p%d\n" % k for k in range(n)))
    def call(n):
        return " m %s\n" % ", ".join(str(16 * n + k) for k in range(n))
    for a, b in itertools.combinations(range(12), 2):
        out.append(Case({"main.asm": body(a, 100 + a) + body(b, 100 + b) + call(b) + call(a)}))
        out.append(Case({"main.asm": body(b, 100 + b) + call(a) + call(b)}))
        out.append(Case({"main.asm": body(a, 100 + a) + call(a) + call(b)}))
    SCOPE["taken"] += 198
    SCOPE["of"] += 198
    return out


# C10: every graph of three source files with up to two includes each.
PLACES = {"m": "main.asm", "a": "lib/a.asm", "b": "lib/sub/b.asm"}
WAYS = {("m", "m"): "main.asm", ("m", "a"): "lib/a.asm", ("m", "b"): "lib/sub/b.asm",
        ("a", "m"): "../main.asm", ("a", "a"): "a.asm", ("a", "b"): "sub/b.asm",
        ("b", "m"): "../../main.asm", ("b", "a"): "../a.asm", ("b", "b"): "./b.asm"}


def include_graphs(rnd, tier):
    lists = upto("mab", 2)
    out = []
    for graph in itertools.product(lists, repeat=3):
        fs = {}
        for n, (f, incs) in enumerate(zip("mab", graph)):
            ls = [".byte %d" % (17 * (n + 1))]
            for k, i in enumerate(incs):
                ls += ['.include "%s"' % WAYS[f, i], ".byte %d" % (16 * (n + 1) + k + 2)]
            fs[PLACES[f]] = "\n".join(ls) + rnd.choice(["\n", ""])
        out.append(Case(fs))
    return some(rnd, tier, out, 900)


# C10: every way to start and end comments in a header.
def headers(rnd, tier):
    parts = ["/", "*", "/*", "*/", "//", "\n", "#define V 4", " ", ";", "7"]
    out = []
    for k, c in enumerate(some(rnd, tier, upto(parts, 4), 1200)):
        h = "".join(c)
        before, after = [("", "\n#define W 9\n"), ("#define V 4 ", "\n#define W 9\n"), ("#define V 4\n", ""), ("#define V 4\n", "*/\n#define W V")][k % 4]
        out.append(Case({"main.asm": '.include cpp "h"\n .byte 1' + (", W" if "W" in after else "") + (", V" if "V" in before else "") + "\n", "h": before + h + after}))
    return out


# C10, C18: every place where an included file may be, and be missing.
def include_places(rnd, tier):
    out = []
    there = ["x", "d/x", "e/x", "d/d/x"]
    for main in ("m", "d/m"):
        for path in ("x", "./x", "d/x", "../x", "../d/x", "../e/x", "d/../x", "@ROOT@/d/x"):
            for cwd in ("", "d", "e"):
                for mask in range(16):
                    fs = {f: ".byte %d\n" % (k + 1) for k, f in enumerate(there) if mask >> k & 1}
                    typ, extra = rnd.choice([("", ""), ("asm ", ""), ("bytes ", ""), ("cpp ", ".byte v\n")])
                    if typ == "cpp ":
                        fs = {f: "#define V %d\n" % (k + 1) for k, f in enumerate(there) if mask >> k & 1}
                    # an include in an included file
                    if rnd.random() < .3:
                        fs["i/i"] = '.include %s"%s"\n' % (typ, path)
                        fs[main] = '.include "@ROOT@/i/i"\n' + extra
                    else:
                        fs[main] = '.byte 0\n.include %s"%s"\n' % (typ, path) + extra
                    if rnd.random() < .3:
                        # and another file of that name
                        fs["o/x"] = ".byte 9\n"
                        fs[main] += '.include "@ROOT@/o/x"\n'
                    out.append(Case(fs, main=main, cwd=cwd, spell=rnd.choice(["@ROOT@/" + main, ("../" if cwd else "") + main]),
                                    dirs=["d/d", "e", "i"]))
    return some(rnd, tier, out, 768)


# C17: every pair of items, every length of text.
def small_data(rnd, tier):
    items = ["-129", "-128", "-1", "0", "255", "256", '""', '"a"', '"é"', '"\\0"', "127+1", "-0"]
    words = ["-32769", "-32768", "-1", "0", "255", "256", "65535", "65536", '"a"', "32767+1"]
    texts = ['""', '"a"', '"ab"', '"é"', '"aé"', '"\\0"', '"漢"', '"\\"\\\\"', '"  "', '"abcdefg"']
    out = [" .byte " + ", ".join(c) for c in upto(items, 2)]
    out += [" .word " + ", ".join(c) for c in upto(words, 2)]
    out += [" .%s %s %s\n .byte 1" % (d, n, t) for d in ("text", "string") for n in ("0", "1", "2", "3", "4", "8", "$A", "-1", "1+1") for t in texts]
    out += [" .byte " + ", ".join(c) for c in rnd.sample(list(itertools.product(items, repeat=3)), 150 if tier == "quick" else 1500)]
    return [Case({"main.asm": t + "\n"}) for t in out]


# C09: every small shape of an expression, and every place for one.
OPERATORS = "+-*/&|^"


def shapes():
    out = []
    for a in OPERATORS:
        for b in OPERATORS:
            out += ["700 %s (x %s 5)" % (a, b), "(700 %s x) %s 5" % (a, b), "700 %s x %s 5" % (a, b)]
        for p in "-<>":
            out += ["%s(700 %s x)" % (p, a), "%s700 %s x" % (p, a), "700 %s %sx" % (a, p), "(%sx) %s 3" % (p, a), "700 %s (%sx)" % (a, p)]
    for p in "-<>":
        for q in "-<>":
            out += ["%s %s x" % (p, q), "%s(%s(x))" % (p, q), "%s %s(x + 700)" % (p, q)]
    return out


SPOTS = ["q = %s\n .word q & $7fff\n", "q equ %s\n .word q & $7fff\n", " .word (%s) & $7fff\n", " .byte <(%s), 1\n", " add #<(%s)\n", " ld (%s) & 511\n",
          " mov #<(%s), (%s) & 511\n", " jmpf (%s) & $7fff\n", " be #<(%s), $20\n", " clr1 (%s) & 255, (%s) & 7\n",
          " .cnop (%s) & 3, ((%s) & 7) + 4\n", " m %s\n", " m -(%s) * 2\n"]
BODIES = ["%x", "3 * %x", "%x - 3", "-%x", "<%x", ">%x + 1", "700 / (%x | 1)", "300 ^ %x", "%x & 255"]


def printed(rnd, tier):
    out = []
    for e in shapes():
        for p in some(rnd, tier, SPOTS, 5):
            b = rnd.choice(BODIES) if rnd.random() < .6 else "%x"
            out.append(Case({"main.asm": "x = 37\n%%macro m %%x\n add #<(%s)\n mov #<%s, $100\n%%end\n%s" % (b, b if b[0] == "%" else "(%s)" % b, p.replace("%s", e))},
                            cmd="expand", mode="loc"))
    return out
