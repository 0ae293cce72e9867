"""Generators of programs.  They decide what is explored; what a program must
do is decided by the specification alone."""
import itertools, os, random, re
from wb import Case, Scratch, observe_all

# Operand kinds of every instruction form, and its size in bytes.
_IMM = "add addc sub subc and or xor".split()
FORMS = [(m, k, 2) for m in _IMM for k in (("imm",), ("d9",))] + [(m, ("ri",), 1) for m in _IMM]
FORMS += [(m, ("d9",), 2) for m in "inc dec ld st xch push pop".split()]
FORMS += [(m, ("ri",), 1) for m in "inc dec ld st xch".split()]
FORMS += [(m, (), 1) for m in "mul div rol rolc ror rorc ldc ret reti nop ldf stf".split()]
FORMS += [("mov", ("imm", "d9"), 3), ("mov", ("imm", "ri"), 2)]
FORMS += [("jmp", ("a12",), 2), ("call", ("a12",), 2), ("jmpf", ("a16",), 3), ("callf", ("a16",), 3),
          ("br", ("r8",), 2), ("bz", ("r8",), 2), ("bnz", ("r8",), 2), ("brf", ("r16",), 3), ("callr", ("r16",), 3)]
FORMS += [(m, ("d9", "b3", "r8"), 3) for m in ("bp", "bpc", "bn")]
FORMS += [(m, ("d9", "b3"), 2) for m in ("clr1", "set1", "not1")]
FORMS += [("dbnz", ("d9", "r8"), 3), ("dbnz", ("ri", "r8"), 2)]
FORMS += [(m, k, 3) for m in ("be", "bne") for k in (("imm", "r8"), ("d9", "r8"), ("ri", "imm", "r8"))]
MNEMONICS = sorted({f[0] for f in FORMS})

NAMES = ["foo", "bar2", "x", "y_1", "_z", "loop", "a.b", "q$", "Main", "tmp", "rest", "ifx", "e1", "f00", "end", "macro"]
LOCALS = [".a", ".loop", ".x", ".l2", "._p"]


class G:
    def __init__(self, rnd):
        self.r = rnd

    def pick(self, *xs):
        return self.r.choice(xs[0] if len(xs) == 1 else xs)

    def flip(self, p):
        return self.r.random() < p

    # -- text ---------------------------------------------------------------
    def num(self, v, plain=0.4):
        """Some spelling of the number v >= 0."""
        if self.flip(plain):
            return str(v)
        base, pre = self.pick([(10, [""]), (16, ["$", "0x", "0X"]), (8, ["0o", "0O"]), (2, ["%", "0b", "0B"])])
        d = {10: "%d", 16: self.pick("%x", "%X"), 8: "%o", 2: "b"}[base]
        s = format(v, "b") if d == "b" else d % v
        if self.flip(.2):
            s = "0" * self.r.randrange(3) + s
        if len(s) > 1 and self.flip(.3):
            if self.flip(.5):
                k = self.r.randrange(1, len(s))
                s = s[:k] + "'" + s[k:]
            else:
                p = self.pick(.3, 1)
                s = s[0] + "".join("'" * self.flip(p) + c for c in s[1:])
        return self.pick(pre) + s

    def case(self, n):
        k = self.r.random()
        return n if k < .6 else n.upper() if k < .8 else "".join(c.upper() if self.flip(.5) else c for c in n)

    def sp(self):
        return self.pick(" ", " ", " ", "  ", "\t", " \t ")

    def osp(self):
        return self.pick("", "", " ", "  ", "\t")

    def comment(self):
        return self.pick("", "", "", "", " ; note", ";", "\t; \"x\" é 漢 ; more", " ;* x")

    def string(self, maxlen=8, uni=True):
        s = ""
        for _ in range(self.r.randrange(maxlen + 1)):
            k = self.r.random()
            if k < .6:
                s += self.pick("abcXYZ 019_;*%#@'/.,")
            elif k < .8:
                s += "\\" + self.pick("rntb0\\\"'xq;")
            elif uni:
                s += self.pick("é", "漢", "😀", "ß", "e\u0301", "\t", "´")
        return '"' + s + '"'

    # -- expressions ----------------------------------------------------------
    def atom(self, names=(), big=.25):
        k = self.r.random()
        if names and k < .35:
            return self.case(self.pick(list(names)))
        if k < 1 - big:
            return self.num(self.r.randrange(0, 300))
        return self.num(self.pick([0, 1, 2, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483646,
                                   1073741824, 46341, 16777216, self.r.randrange(2**31), self.r.randrange(70000)]))

    def expr(self, depth, names=(), big=.25):
        k = self.r.random()
        if depth == 0 or k < .2:
            return self.atom(names, big)
        if k < .65:
            o = self.pick("+-*/&|^")
            a, b = self.expr(depth - 1, names, big), self.expr(depth - 1, names, big)
            s1 = self.pick(" ", " ", "")
            return a + (self.pick(" ", "") if s1 else "") + o + self.osp() + b
        if k < .85:
            return self.pick("-><") + self.osp() + self.expr(depth - 1, names, big)
        return "(" + self.osp() + self.expr(depth - 1, names, big) + self.osp() + ")"

    # -- instructions ---------------------------------------------------------
    def operand(self, kind, here, size, names=()):
        """An operand of the kind that fits, mostly."""
        nxt = here + size
        r = self.r
        if kind == "imm":
            return "#" + self.osp() + (self.num(r.randrange(256)) if self.flip(.7) else "<" + self.atom(names))
        if kind == "d9":
            return self.num(r.randrange(512))
        if kind == "b3":
            return self.num(r.randrange(8))
        if kind == "ri":
            return self.pick("@R", "@r") + str(r.randrange(4))
        if kind == "r8":
            return self.num(min(65535, max(0, nxt + r.randrange(-128, 128))))
        if kind == "r16" or kind == "a16":
            return self.num(r.randrange(65536))
        if kind == "a12":
            return self.num((nxt & 0xF000) % 65536 + r.randrange(4096))

    def instr(self, here=0, names=(), form=None):
        m, ks, size = form or self.pick(FORMS)
        ops = [self.operand(k, here, size, names) for k in ks]
        sep = self.pick(", ", ",", " , ", ",\t")
        return (self.case(m) + (self.sp() + sep.join(ops) if ops else "")), size

    def data(self, names=(), depth=1, strings=True):
        k = self.r.random()
        n = self.r.randrange(1, 5)
        if k < .5:
            return self.pick(".byte", ".byte", ".BYTE") + self.sp() + ", ".join(
                self.string() if strings and self.flip(.25) else "<(" + self.expr(depth, names) + ")"
                if self.flip(.4) else self.num(self.r.randrange(256)) for _ in range(n))
        if k < .8:
            return self.pick(".word", ".Word") + self.sp() + ",".join(
                self.num(self.r.randrange(65536)) if self.flip(.5) else "(" + self.expr(depth, names) + ")&$ffff"
                for _ in range(n))
        t = self.string(6)
        return self.pick(".text", ".string") + self.sp() + self.num(self.r.randrange(8, 30)) + self.sp() + t


# ---------------------------------------------------------------------------
# C01: every form, every value of every operand, at many addresses.
def field_values(kind, every):
    """Field values of a kind (displacements relative to the next instruction)."""
    if kind == "imm":
        return range(256) if every else [0, 1, 85, 127, 128, 170, 255]
    if kind == "d9":
        return range(512) if every else [0, 1, 85, 170, 255, 256, 257, 341, 510, 511]
    if kind == "b3":
        return range(8)
    if kind == "ri":
        return range(4)
    if kind == "r8":
        return range(-128, 128) if every else [-128, -127, -2, -1, 0, 1, 64, 126, 127]
    if kind == "a12":
        return range(0, 4096, 1 if every == "all" else 13) if every else \
            [0, 1, 255, 256, 512, 1023, 1024, 1365, 2047, 2048, 2730, 3071, 4094, 4095]
    if kind == "a16":
        return range(0, 65536, 7 if every == "all" else 251) if every else \
            [0, 1, 255, 256, 0x5555, 0x7fff, 0x8000, 0xaaaa, 0xff00, 0xffff]
    return range(-32769, 32767, 7 if every == "all" else 251) if every else \
        [-32769, -32768, -257, -256, -255, -2, -1, 0, 1, 254, 255, 256, 32765, 32766]


def spell(g, kind, v, nxt):
    """Spells the operand whose field value is v; None if there is none here."""
    if kind == "imm":
        return "#" + g.num(v)
    if kind == "ri":
        return "@" + g.pick("R", "r") + str(v)
    if kind in ("d9", "b3", "a16"):
        return g.num(v)
    if kind == "a12":
        v = (nxt & 0xF000) + v
    else:
        v = nxt + v
    return g.num(v) if 0 <= v <= 65535 else None


EDGES = [0, 1, 0x7e, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0xffb, 0xffc, 0xffd, 0xffe, 0xfff, 0x1000, 0x1ffd, 0x1ffe, 0x7ffd, 0x7ffe, 0x7fff,
         0x8000, 0xeffd, 0xeffe, 0xefff, 0xfeff, 0xff7f, 0xfff0, 0xfffb, 0xfffc, 0xfffd]


def encodings(rnd, tier):
    g = G(rnd)
    every = "all" if tier == "thorough" else True
    todo = []
    for m, ks, size in FORMS:
        if not ks:
            todo += [(m, ks, size, ())] * 4
        for pos, kind in enumerate(ks):
            for v in field_values(kind, every):
                todo.append((m, ks, size, tuple(v if p == pos else g.pick(list(field_values(k, False)))
                                                for p, k in enumerate(ks))))
        some = [list(field_values(k, False)) for k in ks]
        combos = list(itertools.product(*some))
        if tier == "thorough" and ks in (("d9", "b3"), ("imm", "d9")):
            combos = list(itertools.product(*[field_values(k, True) for k in ks]))
            if ks[0] == "imm":
                combos = rnd.sample(combos, 12000)
        elif len(combos) > (100 if tier == "quick" else 1500):
            combos = rnd.sample(combos, 100 if tier == "quick" else 1500)
        todo += [(m, ks, size, c) for c in combos]
    rnd.shuffle(todo)
    texts, text, used = [], "", set()
    edges = itertools.cycle(EDGES)
    for k, (m, ks, size, vs) in enumerate(todo):
        for attempt in range(6):
            here = next(edges) if attempt == 0 and k % 3 == 0 else rnd.randrange(65536 - size + 1)
            if any(q in used for q in range(here, here + size)):
                continue
            ops = [spell(g, kd, v, here + size) for kd, v in zip(ks, vs)]
            if None in ops or ("a12" in ks and here + size > 65535):
                continue
            used.update(range(here, here + size))
            text += ".org %s\n %s %s\n" % (g.num(here), g.case(m), ",".join(ops))
            break
        if k % 40 == 39:
            texts.append(text)
            text, used = "", set()
    texts.append(text)
    # straight-line code: every size counts for what follows
    for _ in range(60 if tier == "quick" else 400):
        text, here, names = "", rnd.choice([0, 0, 5, 0xff0, 0x1230]), []
        text = ".org %d\n" % here
        forms = rnd.sample(FORMS, 25)
        for k, f in enumerate(forms):
            n = "l%d" % k
            names.append(n)
            ins, size = g.instr(here, names, f)
            text += "%s: %s\n" % (n, ins)
            here += size
        text += "".join(".word %s\n" % n for n in names)
        texts.append(text)
    return [Case({"main.asm": t}, mode="bytes") for t in texts]


# ---------------------------------------------------------------------------
# C02: operands at and beyond the edge of their field; wrong operand lists.
OUTSIDE = {"imm": [-2147483648, -256, -129, -128, -1, 0, 255, 256, 257, 511, 65535, 65536, 2147483647],
           "d9": [-2147483648, -512, -1, 0, 511, 512, 513, 1023, 65536, 65536 + 5, 2147483647],
           "b3": [-8, -1, 0, 7, 8, 9, 15, 16, 256, 2147483647],
           "a16": [-2147483648, -65536, -1, 0, 65535, 65536, 65537, 131071, 2147483647]}


def operands(rnd, tier):
    g = G(rnd)
    cases = []

    def add(text):
        cases.append(Case({"main.asm": text}, mode="loc"))

    def lit(v):
        if v == -2147483648:
            return "-2147483647-1"
        return ("-" + g.num(-v)) if v < 0 else g.num(v)

    for m, ks, size in FORMS:
        for pos, kind in enumerate(ks):
            if kind == "ri":
                continue
            places = [0, 5, 0x80, 0x1000, 0x7ffd, 0x8000, 0xff70, 0xfffc]
            if kind in ("r8", "r16", "a12"):
                places += [0xff8, 0xffd, 0xffe, 0xfff, 0x1ffc, 0x1ffe, 0x7fff, 0xeffd, 0xeffe, 0xfffa]
            few = 3 if kind not in ("r8", "r16", "a12") else 5 if kind == "r8" else 18
            for here in rnd.sample(places, min(len(places), few if tier == "quick" else 18)):
                nxt = here + size
                if kind == "r8":
                    ts = [nxt + d for d in (-130, -129, -128, 127, 128, 129, 255, 256)] + [-1, 0, 65535, 65536, -2147483648, 2147483647]
                elif kind == "r16":
                    ts = [nxt + d for d in (-32770, -32769, -32768, 32766, 32767, 32768)] + [-1, 0, 65535, 65536, 65537, -65536, 2147483647]
                elif kind == "a12":
                    b = nxt & 0xF000
                    ts = [b - 1, b, b + 4095, b + 4096, b + 4097, b + 65536, b - 65536, b + 0x8000, -1, 65535, 65536, 2147483647]
                else:
                    ts = OUTSIDE[kind]
                if tier == "quick":
                    ts = rnd.sample(ts, min(len(ts), 7))
                for t in ts:
                    ops = []
                    for p, k in enumerate(ks):
                        o = lit(t) if p == pos else g.operand(k, here, size)
                        if p == pos and kind == "imm":
                            o = "#" + o
                        if p == pos and g.flip(.3) and t >= 0 and kind != "imm":
                            o = "q + 0"
                        ops.append(o)
                    add("q = %s\n.org %d\n %s%s %s%s\n nop\n" % (lit(max(t, 0)), here, g.pick("", "lab: "), m, g.sp().join([""]) +
                        g.pick(", ", ",").join(ops), g.comment()))
    # kinds and counts
    shapes = [s for n in range(5 if tier == "thorough" else 4) for s in itertools.product(("imm", "ex", "ri"), repeat=n)]
    for m in MNEMONICS:
        for s in shapes:
            if len(s) > 1 and tier == "quick" and not g.flip(.35):
                continue
            ops = [{"imm": "#1", "ex": "2", "ri": "@R1"}[k] for k in s]
            add(" nop\n %s %s\n" % (m, ", ".join(ops)))
    # data
    for v in [-2147483648, -65536, -32769, -32768, -257, -256, -129, -128, -1, 0, 255, 256, 257, 32767, 32768, 65535, 65536, 2147483647]:
        for d in (".byte", ".word"):
            for n in range(3):
                ops = ["1"] * n + [lit(v)] + ["2"] * (2 - n)
                add(" nop\n %s %s\n" % (d, ", ".join(ops)))
    for _ in range(150 if tier == "quick" else 1500):
        add(faulty_program(g))
    return cases


def faulty_program(g):
    """A few lines of instructions, one of which may have an operand too many,
    too few, or out of place."""
    text, here = "", 0
    for k in range(g.r.randrange(1, 6)):
        ins, size = g.instr(here, ["zz"])
        here += size
        if g.flip(.4):
            parts = ins.split(None, 1)
            ops = [o.strip() for o in parts[1].split(",")] if len(parts) > 1 else []
            k = g.r.randrange(6)
            if k == 0:
                ops.append(g.pick("#1", "3", "@R0", "zz"))
            elif k == 1 and ops:
                ops.pop(g.r.randrange(len(ops)))
            elif k == 2 and len(ops) > 1:
                ops.reverse()
            elif k == 3 and ops:
                ops[g.r.randrange(len(ops))] = g.pick("#300", "-1", "600", "@R3", "#-1", "70000", "@R0 + 1", "(@R0)", "##1", "\"s\"")
            elif k == 4:
                parts[0] = g.pick(MNEMONICS)
            ins = parts[0] + " " + ", ".join(ops)
        text += g.pick(" ", "\t", "  ") + ins + g.comment() + "\n"
    return text + "zz = 9\n"


# ---------------------------------------------------------------------------
# C04: layout.
def layout(rnd, tier):
    g = G(rnd)
    cases = []
    for _ in range(500 if tier == "quick" else 5000):
        lines, labels, size = [], [], g.pick(4, 8, 16, 30)
        top = g.pick(30, 100, 300, 600, 3000, 65530)
        for k in range(size):
            w = g.r.random()
            if w < .2:
                lines.append(".org %s" % g.num(g.r.randrange(top)))
            elif w < .35:
                m = g.pick(0, 1, 2, 3, 4, 5, 7, 8, 16, 32, 100, 128, 256, 512)
                a = g.pick(0, 0, 0, 1, 2, 3, 7, 16, g.r.randrange(300))
                lines.append(".cnop %s,%s%s" % (g.num(a), g.osp(), g.num(m)))
            elif w < .55:
                n = "n%d" % k
                labels.append(n)
                lines.append(n + ":" + (" " + g.instr(0)[0] if g.flip(.4) else ""))
            elif w < .75:
                lines.append(g.data(labels[:3]))
            elif w < .85:
                lines.append(g.instr(0, form=g.pick([f for f in FORMS if not set(f[1]) & {"r8", "r16", "a12"}]))[0])
            elif w < .92:
                lines.append(g.pick(".text", ".string") + " %d %s" % (g.r.randrange(0, 60), g.string(4)))
            else:
                lines.append('.include bytes "data%d.bin"' % g.r.randrange(3))
        lines += [".org %d" % (top + 100)] if g.flip(.5) else []
        lines += [".word " + n for n in labels]
        if g.flip(.1):
            lines.insert(g.r.randrange(len(lines)), g.pick(
                ".org 65536", ".org 65535", ".org 70000", ".org 2147483647", ".org 2147483646", ".cnop 2147483647, 0", ".cnop 0, 2147483647",
                ".cnop 1, 2147483647", ".text 2147483647 \"\"", ".cnop x, 4", ".cnop 1, 2+2", ".cnop -1, 4", ".cnop 4", ".org x", ".org",
                ".string 2147483647 \"a\"", ".org 1+2", ".cnop 0, -4", ".cnop 65536, 0"))
        t = "".join((" " if l[0] == "." and g.flip(.5) else "") + l + g.comment() + "\n" for l in lines)
        files = {"main.asm": t}
        for k in range(3):
            files["data%d.bin" % k] = bytes(g.r.randrange(256) | (128 if j == 0 else 0) for j in range(g.pick(0, 1, 5, 40)))
        cases.append(Case(files, mode="loc"))
    return cases


# ---------------------------------------------------------------------------
# C05: names and scopes.
def names(rnd, tier):
    g = G(rnd)
    cases = []
    for _ in range(700 if tier == "quick" else 7000):
        pool = g.r.sample(NAMES + ["add", "ld", "zed"], g.pick(2, 3, 5))
        lpool = g.r.sample(LOCALS, 2)
        lines = []
        # declare most names once, in random order, with uses in between
        decl = [("g", n) for n in pool if g.flip(.6)] + [("c", n) for n in pool if g.flip(.25)]
        if g.flip(.85):
            seen, keep = set(), []
            for d in decl:
                if d[1] not in seen:
                    keep.append(d)
                    seen.add(d[1])
            decl = keep
        decl += [("l", g.pick(lpool)) for _ in range(g.r.randrange(4))]
        g.r.shuffle(decl)
        known = [n for _, n in decl if n[0] != "."] or ["foo"]
        scope = set()
        careful = g.flip(.75)
        for kind, n in decl:
            if kind == "g":
                lines.append(g.case(n) + ":" + g.pick("", "", " nop", " ld 3"))
                scope = set()
            elif kind == "l":
                if careful and n in scope:
                    continue
                scope.add(n)
                lines.append(g.case(n) + g.pick(":", "", ": nop"))
            else:
                consts = [m for k, m in decl if k == "c"]
                ok = [m for k, m in decl if k == "g"] + consts[:consts.index(n)]
                e = g.expr(1, ok if ok and g.flip(.8) else ["17"], big=.1)
                lines.append("%s%s%s %s" % (g.case(n), g.sp(), g.pick("=", "equ", "EQU"), e))
            for _ in range(g.r.randrange(3)):
                use = g.case(g.pick(known if careful or g.flip(.8) else NAMES))
                loc = g.case(g.pick(sorted(scope) if careful and scope else lpool))
                w = g.r.random()
                if w < .4:
                    lines.append(" .word (%s) & $ffff" % use)
                elif w < .6 and (scope or not careful):
                    lines.append(g.pick(" .word %s", " jmpf %s", " mov #<%s, 3", " .byte 1, <%s") % loc)
                elif w < .8:
                    lines.append(g.pick(" callf (%s)&$fff", " .byte >%s, <%s".replace("%s, <%s", "%s"), " add #<%s") % use)
                else:
                    lines.append(g.pick(" nop", ".org %d" % g.r.randrange(200), " .byte 1,2"))
        if g.flip(.08):
            lines.insert(g.r.randrange(len(lines) + 1), g.pick(".x equ 5", ".x = 3", "1x:", "foo", "foo bar", ".q", "x: y:", ": nop", "foo: .byte 1"))
        text = "".join(l + g.comment() + "\n" for l in lines)
        cases.append(Case({"main.asm": text}, mode="loc"))
    return cases


# ---------------------------------------------------------------------------
# C06: expressions.
BIG = ["0", "1", "2", "3", "7", "255", "256", "32768", "65535", "65536", "2147483647", "(-2147483647-1)", "-1", "-2", "-7", "46341", "-46341", "x", "y"]


def whole(e):
    """Statements that show all 32 bits of e."""
    return " .word (%s) & $ffff, (((%s) / $8000) / 2) & $ffff\n .byte <(%s), >(%s)\n" % (e, e, e, e)


def expressions(rnd, tier):
    g = G(rnd)
    head = "x = $12345678\ny equ 0-5\nz: nop\n"
    exprs = []
    ops = "+-*/&|^"
    ints = [b for b in BIG]
    # all operators over pairs of edge values
    for o in ops:
        for a in ints:
            for b in ints:
                exprs.append("%s %s %s" % (a, o, b))
    # all pairs of operators, all prefix placements
    for o1 in ops:
        for o2 in ops:
            for p in ("", "-", ">", "<"):
                for k in range(3):
                    v = [g.pick("7", "200", "3", "1000", "x", "y", "65535", "12345") for _ in range(3)]
                    v[k] = p + v[k]
                    exprs.append("%s %s %s %s %s" % (v[0], o1, v[1], o2, v[2]))
            exprs.append("100 %s (37 %s 5)" % (o1, o2))
            exprs.append("(1000 %s 37) %s 5" % (o1, o2))
    if tier == "thorough":
        for o in itertools.product(ops, repeat=3):
            v = [g.pick("7", "200", "3", "1000", "x", "y", "65535", "-9") for _ in range(4)]
            exprs.append("%s %s %s %s %s %s %s" % (v[0], o[0], v[1], o[1], v[2], o[2], v[3]))
    for p in itertools.product(("-", ">", "<"), repeat=2):
        for b in ints:
            exprs.append(p[0] + p[1] + b)
    rnd.shuffle(exprs)
    safe, risky = [], []
    for e in exprs:
        (risky if "/" in e else safe).append(e)
    texts = []
    for part, per in ((safe, 12), (risky, 3)):
        for k in range(0, len(part), per):
            texts.append(head + "".join(whole(e) for e in part[k:k + per]))
    cases = [Case({"main.asm": t}, mode="loc") for t in texts]
    for _ in range(300 if tier == "quick" else 4000):
        body = "".join(g.pick(" .byte <(%s)\n", " .word (%s)&$ffff\n") % g.expr(g.r.randrange(1, 5), ["x", "y", "z"]) for _ in range(4))
        cases.append(Case({"main.asm": head + body}, mode="loc"))
    # ill-formed expressions
    toks = ["1", "x", "(", ")", "+", "-", "*", "/", "&", ">", "<", "|", "^", "#", ",", "nosuch", "\"s\"", "@R1", "%p", "l%", "::", ":", "="]
    for _ in range(250 if tier == "quick" else 3000):
        s = " ".join(g.pick(toks) for _ in range(g.r.randrange(1, 6)))
        cases.append(Case({"main.asm": head + g.pick(" .byte ", " .word ", " add #", "w = ", " ld ", " .cnop 1, ", " mov #1, ") + s + "\n nop\n"}, mode="loc"))
    return cases


# ---------------------------------------------------------------------------
# C07: tokens.
def tokens(rnd, tier):
    g = G(rnd)
    cases = []

    def add(t):
        cases.append(Case({"main.asm": t}, mode="loc"))

    # numbers around the limits, in every base and with separators
    vals = [0, 1, 7, 8, 9, 10, 15, 16, 255, 256, 4095, 65535, 65536, 2**30, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**33 + 5, 2**63, 2**64 + 3, 10**30]
    fmts = ["%d", "$%x", "$%X", "0x%x", "0X%X", "0o%o", "0O%o"]
    for v in vals:
        sp = [f % v for f in fmts] + ["%" + format(v, "b"), "0b" + format(v, "b"), "0B" + format(v, "b")]
        for s in sp:
            out = [s, s[:2] + "0" + s[2:] if len(s) > 2 else s]
            if len(s) > 4:
                k = rnd.randrange(3, len(s))
                out.append(s[:k] + "'" + s[k:])
                d = 2 if s[1] in "xXoObB" else 1
                out.append(s[:d] + "'".join(s[d:]))
                out.append(s[:d + 1] + "".join("'" * rnd.randrange(3) + c for c in s[d + 1:]) + "'" * rnd.randrange(2))
            for q in out:
                add("n = %s\n .word n & $ffff, n / 65536\n" % q)
    # number-like things
    odd = ["0x", "0xg", "0b2", "0b", "0o8", "0o", "$", "$g", "%2", "%", "1'", "1''2", "'1", "1'2'3", "0x'1", "1e", "12ab", "0b12", "0o78", "%1012",
           "$ffz", "0_1", "1_0", "0xF'F", "%1'0", "$1'", "00", "007", "0x0x1", "08", "0b0'1'", "1.5", "1.", "$_1", "%_1"]
    for o in odd:
        for ctx in (" .byte %s\n", "n = %s\n", " .byte 1,%s,2\n", " add #%s ; c\n"):
            add(ctx % o)
    # strings
    for _ in range(120 if tier == "quick" else 1500):
        ss = [g.string(10) for _ in range(3)]
        add(" .byte %s, 1, %s\n .string 60 %s\n" % tuple(ss))
    for s in ['"', '"abc', '"a\\', '"a\\"', '"a\nb"', '"a\\\nb"', '"\\x41"', "\"'\"", '"""', '"a" "b"', '"a\r\nb"', '"\\\r\n"', '";"', '"*"', '"\t"', '""', '"\\\\"', '"é\n漢"']:
        add(" .byte %s\n nop\n" % s)
        add(" nop\n .string 9 %s\n.word 7\n" % s)
    # characters that start no token, anywhere
    for ch in list("!?`~[]{}\\'@.$%;*\"") + ["é", "漢", "😀", "\u00a0", "\u2003", "\u0000", "\u0007", "\u200b", "\ufeff", "\r", "\x0b", "\x0c", "@R4", "@R", "@r0", "@R9", "@x", "::"]:
        for ctx in ("%s\n", " nop %s\n", "\n\n  %s nop\n", " .byte 1, %s, 2\n", " add #%s3\n", "é%s\n", ";é\n\t%s\n", " .byte \"é漢\", %s\n", " nop\r\n %s\r\n", "lab: %s", " ld 1%s\n"):
            add(ctx % ch)
    # separators
    for _ in range(200 if tier == "quick" else 3000):
        toks = []
        for _ in range(g.r.randrange(1, 7)):
            k = g.r.randrange(5)
            toks.append([["foo", ":"], [".byte"] + g.expr(1).replace("(", "( ").replace(")", " )").split(), ["ld", g.num(g.r.randrange(512))],
                         ["foo", g.pick("=", "equ"), "3"], ["mov", "#", "5", ",", "@R1"]][k])
        nl = g.pick("\n", "\n", "\r\n", "\n\n", "\n \n", "\r\n\r\n", "\n; comment é \" ' %\n", "\n* star comment\n", "\n*\n", ";x\n", " ;x\r\n", "\n *2\n" if g.flip(.1) else "\n")
        t = ""
        for k, line in enumerate(toks):
            line = ["foo%d" % k if x == "foo" else x for x in line]
            t += g.pick("", " ", "\t", "\u3000", "\x0b", "\x0c") + g.pick(" ", "  ", "\t", " \t", "\u00a0", "\u2002").join(line) + nl
        add(t if g.flip(.8) else t.rstrip())
    # random character soup
    alphabet = "ab01$%.:_#@Rr()+-*/&|^><=,\"\\'; \t\n\r" + "éxo9fF\u0301"
    for _ in range(400 if tier == "quick" else 6000):
        add("".join(g.pick(alphabet) for _ in range(g.r.randrange(1, 14))) + g.pick("", "\n"))
    # names
    for n in NAMES + ["A", "_", "a1$", "a.b.c", "x_$.y", "ABC.d", ".x", "nop2", "add.", "addx", "equ2", "br_", "lD.x"]:
        for w in (n, n.upper(), n.capitalize()):
            add("%s = 5\n .byte %s, %s\n" % (n, w, w.swapcase()))
            add(" nop\n%s:\n .byte 1\n .word %s\n" % (n, w))
    return cases


# ---------------------------------------------------------------------------
# C08: macros.
def macro_program(g, fault=None):
    """Text of a program with macros; usually a valid one."""
    r = g.r
    n = r.randrange(1, 5)
    sigs = []
    for k in range(n):
        name = g.pick("m%d" % k, "put", "twice", "w.rap", "_go") if k else "m0"
        arity = r.randrange(0, 4) if g.flip(.85) else r.randrange(4, 9)
        if sigs and g.flip(.15):
            # the same name with another number of parameters
            name, arity = sigs[-1][0], max(0, sigs[-1][1] + g.pick(-1, 1))
        if (name, arity) not in sigs:
            sigs.append((name, arity))
    kinds = {s: [g.pick("ex", "ex", "imm", "ri") for _ in range(s[1])] for s in sigs}
    globs = ["start", "here", "val"]

    def ex(names=(), pars=(), labs=()):
        at = ["%" + p for p in pars] + [l + "%" for l in labs] + list(names) + [str(r.randrange(100))]
        k = r.random()
        a = g.pick(at)
        if k < .55:
            return a
        if k < .8:
            return g.pick("(%s + %s)", "%s * %s", "%s-%s", "%s | (%s & 15)") % (a, g.pick(at))
        return g.pick("<", ">", "-") + a

    defs = []
    for idx, s in enumerate(sigs):
        pars = ["p%d" % k if g.flip(.8) else g.pick("a.b%d", "Q%d") % k for k in range(s[1])]
        exs = [p for p, k in zip(pars, kinds[s]) if k == "ex"]
        labs = r.sample(["lp", "done", ".q", "skip"], r.randrange(3))
        body = []
        todo = list(labs)
        r.shuffle(todo)
        for _ in range(r.randrange(0, 5)):
            pre = ""
            if todo and g.flip(.5):
                l = todo.pop()
                pre = l + "%" + (":" if l[0] != "." or g.flip(.6) else "")
                if pre[-1] != ":":
                    body.append(pre)
                    pre = ""
            k = r.random()
            lower = sigs[idx + 1:]
            if k < .35 and lower:
                t = g.pick(lower)
                args = []
                for kd in kinds[t]:
                    same = [p for p, q in zip(pars, kinds[s]) if q == kd]
                    if same and g.flip(.6):
                        args.append("%" + g.pick(same))
                    elif kd == "ex":
                        args.append(ex(globs, exs, labs))
                    elif kd == "imm":
                        args.append("#<(" + ex(globs, exs, labs) + ")")
                    else:
                        args.append("@R%d" % r.randrange(4))
                ins = g.case(t[0]) + (" " + ", ".join(args) if args else "")
            else:
                f = g.pick([f for f in FORMS if not set(f[1]) & {"r8", "a12"}])
                ops = []
                for kd in f[1]:
                    want = {"imm": "imm", "ri": "ri"}.get(kd, "ex")
                    same = [p for p, q in zip(pars, kinds[s]) if q == want]
                    if same and g.flip(.7):
                        ops.append("%" + g.case(g.pick(same)))
                    elif kd == "imm":
                        ops.append("#" + ("<(%s)" % ex(globs, exs, labs)))
                    elif kd == "ri":
                        ops.append("@R%d" % r.randrange(4))
                    else:
                        ops.append("(%s) & %d" % (ex(globs, exs, labs), {"d9": 511, "b3": 7}.get(kd, 4095)))
                ins = g.case(f[0]) + (" " + ", ".join(ops) if ops else "")
            body.append((pre + " " if pre else g.pick(" ", "  ", "\t")) + ins + g.comment())
        for l in todo:
            body.append(l + "%:")
        head = g.pick("%macro", "%MACRO", "%Macro") + " " + g.case(s[0]) + (" " + ", ".join("%" + p for p in pars) if pars else "")
        defs.append([head] + body + [g.pick("%end", "%END", " %end")])
    main = ["start:"]
    for _ in range(r.randrange(2, 7)):
        if g.flip(.7):
            t = g.pick(sigs)
            args = []
            for kd in kinds[t]:
                e = g.expr(1, globs, big=.1)
                args.append({"ex": "(%s) & 255" % e if g.flip(.6) else g.num(r.randrange(256)), "imm": "#<(%s)" % e, "ri": "@R%d" % r.randrange(4)}[kd])
            main.append(g.pick("", "", "x%d: " % r.randrange(10**6)) + " " + g.case(t[0]) + (" " + ", ".join(args) if args else "") + g.comment())
        else:
            main.append(g.pick(" nop", " .byte 1,2", " ld 5", ".word here & 255", "%s:" % ("y%d" % r.randrange(10**6)), ".loc%d:" % r.randrange(10**6)))
    main += ["here:", "val = 7"]
    if fault:
        d = g.pick(defs)
        mn = g.pick(sigs)
        k = fault
        if k == 1:
            main.insert(1, " nosuch 1")
        elif k == 2:
            main.insert(1, " %s %s" % (mn[0], ", ".join(["1"] * (mn[1] + 3))))
        elif k == 3:
            d.insert(-1, " ld nolab%")
        elif k == 4:
            d.insert(-1, " ld %nopar")
        elif k == 5:
            d[1:1] = ["dup%:", " nop", "dup%:"]
        elif k == 6:
            d.insert(-1, g.pick(" .byte 1", " .org 5", "x = 3", " .include \"a\"", "%macro zz", " nop nop", "3", "lab", ".l nop", "a: b: nop", " ld 1,", "#1", " nop %end"))
        elif k == 7:
            d[0] = g.pick("%macro", "%macro 5", "%macro add %a", "%macro zz %a, %a", "%macro zz 1", "%macro zz #1", "%macro zz %a %b", "%macro zz %a,", "%macro zz @R1", "%macro .l")
        elif k == 8:
            defs.append(list(d))
        elif k == 9:  # recursion, direct or through others
            c = g.pick(sigs)
            defs[sigs.index(c)].insert(-1, "  %s %s" % (sigs[0][0], ", ".join("1" for _ in range(sigs[0][1]))))
        elif k == 10:
            main.insert(2, g.pick(" ld %p", " ld l%", "l%:", "%end", " .byte %a", " .word a% + 1", " ld #%p"))
        elif k == 11:
            d[-1] = g.pick("%end 1", "%end x", "%end %end")
        elif k == 12:
            d.insert(-1, " ld #5") if g.flip(.5) else d.insert(-1, " mov 1, 2")
        elif k == 13:
            sub = [i for i, l in enumerate(main) if l.strip() and "," in l]
            if sub:
                i = g.pick(sub)
                main[i] = main[i].replace(",", g.pick(", #1,", ", @R1,", " "), 1)
        elif k == 14:
            d.insert(-1, " add #300")
        elif k == 15:
            d.insert(-1, g.pick(" ld 1/0", " ld undefined_name", " st 512", " bp 1,8,0", " br 60000"))
        elif k == 16:
            d.insert(-1, "lbl: nop")
    blocks = defs if g.flip(.5) else defs[::-1]
    if g.flip(.5):
        r.shuffle(blocks)
    lines = []
    where = sorted(r.randrange(len(main) + 1) for _ in blocks) if g.flip(.4) else [g.pick(0, len(main))] * len(blocks)
    for pos in range(len(main) + 1):
        for w, b in zip(where, blocks):
            if w == pos:
                lines += b
        if pos < len(main):
            lines.append(main[pos])
    return "\n".join(lines) + "\n"


def macros(rnd, tier):
    g = G(rnd)
    cases = []
    for k in range(500 if tier == "quick" else 6000):
        cases.append(Case({"main.asm": macro_program(g)}, mode="loc"))
    for k in range(420 if tier == "quick" else 5000):
        cases.append(Case({"main.asm": macro_program(g, fault=1 + k % 16)}, mode="loc"))
    cases += [Case({"main.asm": t}, mode="loc") for t in MACRO_CORNERS]
    return cases


WORD = re.compile(r"[a-zA-Z_.][a-zA-Z$0-9_.]*")


def taken_names(rnd, tier):
    """Programs that themselves declare the very names that the program made
    for the unique labels of their macros, wherever those are declared."""
    g = G(rnd)
    progs = [macro_program(g) for _ in range(180 if tier == "quick" else 2000)]
    progs += [t for t in MACRO_CORNERS if "%:" in t]
    firsts = [Case({"main.asm": t}, cmd="expand") for t in progs]
    cases = []
    with Scratch() as scratch:
        observe_all(firsts, scratch)
    for t, c in zip(progs, firsts):
        if not c.obs or c.obs["kind"] != "ok":
            continue
        old = set(WORD.findall(t.lower()))
        made = sorted(set(WORD.findall(c.stdout.decode("utf-8").lower())) - old)
        made = [m for m in made if re.search(r"\d", m) and any(m.startswith(o) for o in old)]
        if not made:
            continue
        local = [m + ":" for m in made if m[0] == "."]
        body, inside = [], False
        for line in t.split("\n"):
            inside = inside or line.lower().startswith("%macro")
            if not inside and re.match(r"[a-z_]\w*:", line, re.I):
                body += local
            body.append(line)
            inside = inside and not line.strip().lower().startswith("%end")
        own = [g.pick("%s:", "%s: nop", "%s = 5") % g.case(m) for m in made if m[0] != "."]
        text = "\n".join(own + body if g.flip(.2) else body + own)
        cases.append(Case({"main.asm": text + "\n"}, mode="bytes"))
    return cases


MACRO_CORNERS = [
    # an argument that mentions names equal to the callee's own
    "%macro in %p\nl%: jmpf %p\n%end\n%macro out %p\nl%: in l%\n in %p\n%end\n out 7\n out 8\n",
    "%macro in %a\n ld %a\n%end\n%macro out %a, %b\n in %b\n in %a\n%end\n out 1, 2\n",
    "%macro sw %a, %b\n mov %a, %b\n%end\n%macro ws %a, %b\n sw %b, %a\n%end\n ws 3, #4\n",
    "%macro m %x\n ld %x*2\n%end\n m 1+2\n m (1+2)\n m -3\n",
    "%macro m %x\n ld -%x\n ld <%x\n ld >%x\n%end\n m 0-5\n m 3|4\n",
    "%macro m\n nop\n%end\n%macro m %a\n ld %a\n%end\n%macro m %a, %b\n mov %a, %b\n%end\n m\n m 5\n m #1, 2\n m @R1\n",
    "%macro m\na%: jmpf a%\n%end\n m\n m\n m\n",
    "%macro m\n.a%: jmpf .a%\n%end\nx: m\n m\ny: m\n",
    "%macro m\n.a: jmpf .a\n%end\nx: m\ny: m\n",
    "%macro m\n.a: jmpf .a\n%end\nx: m\n m\n",
    "%macro m\ng: jmpf g\n%end\n m\n",
    "%macro m\ng: jmpf g\n%end\n m\n m\n",
    "%macro r\n r\n%end\n r\n", "%macro r\n s\n%end\n%macro s\n r\n%end\n s\n", "%macro r %a\n r\n%end\n%macro r\n nop\n%end\n r 1\n",
    "%macro r\n r\n%end\n nop\n",
    "%macro m %a\n ld %a\n%end\n m #5\n", "%macro m %a\n ld %a+1\n%end\n m #5\n", "%macro m %a\n ld #%a\n%end\n m 5\n",
    "%macro m %a\n add %a\n%end\n m #5\n m 5\n m @R2\n",
    "%macro m %a\n add #%a\n%end\n m #5\n", "%macro m %a\n add #%a\n%end\n m @R1\n",
    "%macro m %a\n nosuch %a\n%end\n m 1\n", "%macro m %a\n add %a, %a\n%end\n m 1\n",
    "%macro m %a\n%end\n m 1\n m %a\n", "%macro m %a\n n %a+1\n%end\n%macro n %a\n o %a*2\n%end\n%macro o %a\n ld %a\n add #%a\n%end\n m 3\n m x\nx = 2\n",
    "%macro m %a\n n %a\n%end\n%macro n %b\n ld %b\n%end\n m q\n",
    "%macro m\n ld 1/0\n%end\n%macro n\n m\n%end\n n\n", "%macro m %a\n ld %a\n%end\n%macro n %a\n m %a/0\n%end\n n 5\n",
    "%macro m %a, %A\n nop\n%end\n", "%macro M %A\n ld %a\n%end\n m 4\n", "%macro m\n L%: br l%\n%end\n m\n",
    "%macro m\n nop\n", "%end\n", "%macro\n%end\n", " m\n%macro m\n nop\n%end", "%macro m %a\n bp %a, 1, q%\nq%: nop\n%end\n m 5\n m 6\n",
    "%macro m\nx%: y%: nop\n%end\n m\n", "%macro m\nx%:\n\n ; c\ny%: nop\n jmpf x%\n%end\n m\n",
    "%macro m %n\n%n: nop\n%end\n m 5\n", "m: nop\n m\n%macro m\n ret\n%end\n", "m = 4\n ld m\n m\n%macro m\n ret\n%end\n",
]


# ---------------------------------------------------------------------------
# C17: data directives.
def data_items(rnd, tier):
    g = G(rnd)
    cases = []
    for _ in range(500 if tier == "quick" else 6000):
        lines = []
        for _ in range(g.r.randrange(1, 6)):
            k = g.r.random()
            if k < .35:
                items = [g.string(9) if g.flip(.4) else (g.pick("", "-") + g.num(g.r.randrange(g.pick(128, 128, 128, 256)))) if g.flip(.8)
                         else "c%s" % g.pick("1", "2") for _ in range(g.pick(1, 2, 3, 6, 20))]
                lines.append(".byte " + (g.osp() + "," + g.osp()).join(items))
            elif k < .6:
                items = [g.pick("", "-") + g.num(g.r.randrange(g.pick(32768, 200))) if g.flip(.5) else g.num(g.r.randrange(65536)) if g.flip(.7)
                         else "lab + 2" for _ in range(g.pick(1, 2, 3, 8))]
                lines.append(".word " + (g.osp() + "," + g.osp()).join(items))
            else:
                s = g.string(8)
                room = g.pick(g.r.randrange(40), 8, 30, 40, 40)
                lines.append("%s %s %s" % (g.pick(".text", ".string", ".STRING", ".Text"), g.num(room), s))
        if g.flip(.15):
            lines.insert(g.r.randrange(len(lines) + 1), g.pick(
                ".byte", ".word", ".byte 256", ".byte -129", ".word 65536", ".word -32769", ".word \"ab\"", ".text 3 \"abcd\"", ".string 3 \"abcd\"",
                ".text 1 \"é\"", ".string 2 \"é\"", ".text 0 \"\"", ".string 0 \"\"", ".text \"a\"", ".text 3", ".string 3 4", ".text -1 \"\"", ".text 1+1 \"a\"",
                ".byte ,", ".byte 1,", ".byte 1 2", ".byte #1", ".byte @R0", ".word 1,,2", ".byte \"a\"+1", ".byte -\"a\"", ".text 2 \"漢\"", ".string 3 \"漢\"",
                ".text 4 \"a\" 5", ".byte c1/0", ".byte nosuch", ".byte c2, c3", ".byte 127+1, 128, 255, -128", ".word 65535, -32768, 32768"))
        t = "c1 = 9\nc2 = -3\n" + "".join(g.pick("", " ", "l%d: ") .replace("%d", str(k)) .replace("l%s: " % k, " ") + l + g.comment() + "\n" for k, l in enumerate(lines)) + "lab:\nc3 = 300\n"
        cases.append(Case({"main.asm": t}, mode="loc"))
    for d, lo, hi in ((".byte", -130, 258), (".word", None, None)):
        vals = range(lo, hi) if lo else [-32770, -32769, -32768, -32767, -257, -256, -255, -1, 0, 1, 255, 256, 257, 32767, 32768, 65534, 65535, 65536]
        good = [v for v in vals if (-128 <= v <= 255 if lo else -32768 <= v <= 65535)]
        cases.append(Case({"main.asm": "\n".join("%s %d" % (d, v) for v in good) + "\n"}, mode="loc"))
        cases += [Case({"main.asm": "nop\n %s 1, %d, 2\n" % (d, v)}, mode="loc") for v in vals if v not in good]
    for n in list(range(0, 8)) + [255, 256, 300]:
        for s in ("", "a", "abc", "é", "漢a", "\\n\\0", "1234567"):
            cases.append(Case({"main.asm": ".byte 9\n.text %d \"%s\"\n.byte 7\n" % (n, s)}, mode="loc"))
            cases.append(Case({"main.asm": ".byte 9\n.string %d \"%s\"\n.byte 7\n" % (n, s)}, mode="loc"))
    return cases


# ---------------------------------------------------------------------------
# C10: including files.
CPP = ["#define WIDTH 10\n", "#define A (1+2)*3\n#define B A|64\n", "// line comment é\n#define X 0x20 // tail\n/* block\n * comment 漢 */\n#define Y /* in */ 7\n",
       "#define Q 5\r\n#define R Q-1\r\n", "\n\n  #define Z 9\n", "#define P %101 /* * / ** */\n", "#define Last 3", "/**/#define S 1\n", "// only a comment", ""]
BAD_CPP = ["#define\n", "#define X\n", "#define 5 3\n", "#define X 1 +\n", "#define X )\n", "#include \"x.h\"\n", "#define X ;\n", "int x;\n", "#define X 1 2\n", "#define add 5\n", "#if 1\n", "#define X ?\n",
           "#define .x 4\n", "nop\n", "x = 3\n", "#define X 1\n#define X 2\n", "/* never closed\n#define X 4\n", "#define X a b\n", "# define X 2\n", "#DEFINE X 2\n"]


def include_program(g, fault=None):
    """Files of a program spread over several directories."""
    r = g.r
    dirs = ["", "sub/", "sub/deep/", "other dir/", "sub2/"]
    root = "proj/"
    count = [0]
    files = {}
    binaries = []
    for k in range(r.randrange(3)):
        p = g.pick(dirs) + "blob%d.%s" % (k, g.pick("bin", "dat", "asm"))
        files[root + p] = bytes(r.randrange(256) | (128 if j == 0 else 0) for j in range(r.randrange(1, 20))) if g.flip(.7) else g.pick(b"", b"plain text\n", b"caf\xc3\xa9", b"a\r\nb")
        binaries.append(p)
    headers = []
    for k in range(r.randrange(3)):
        p = g.pick(dirs) + "head%d.h" % k
        body = g.pick(CPP)
        files[root + p] = body.encode()
        headers.append(p)

    def rel(frm, to):
        """A spelling of path `to` in a file in directory `frm`."""
        import os.path
        k = r.random()
        x = os.path.relpath(to, frm or ".")
        if k < .5:
            return x
        if k < .65:
            return "./" + x
        if k < .75:
            return x.replace("/", "//")
        if k < .85:
            return "@ROOT@/" + root + to
        if k < .93 and frm:
            return "../" * len(frm.strip("/").split("/")) + to
        return to if g.flip(.1) else x

    used_h = set()

    def source(path, depth, chain):
        d = path[:path.rfind("/") + 1]
        lines = []
        for _ in range(r.randrange(1, 6)):
            k = r.random()
            count[0] += 1
            c = count[0]
            if k < .3 and depth:
                child = g.pick(dirs) + g.pick("inc%d.%s" % (c, g.pick("asm", "s", "inc")), "part.inc")
                if root + child in files or child == path or child in chain:
                    child = g.pick(dirs) + "inc%d.inc" % c
                source(child, depth - 1, chain + [path])
                lines.append(g.pick(".include ", ".INCLUDE ", " .include asm ", ".include  ") + '"%s"' % rel(d, child) + g.comment())
                if g.flip(.1):
                    lines.append(lines[-1]) if g.flip(.3) else None
            elif k < .4 and binaries:
                lines.append('.include bytes "%s"' % rel(d, g.pick(binaries)) + g.comment())
            elif k < .5 and headers:
                h = g.pick(headers)
                if h not in used_h:
                    used_h.add(h)
                    lines.append('.include cpp "%s"' % rel(d, h) + g.comment())
            elif k < .7:
                lines.append(g.data())
            elif k < .85:
                lines.append(" " + g.instr(0, form=g.pick([f for f in FORMS if not set(f[1]) & {"r8", "a12"}]))[0])
            else:
                lines.append("g%d:" % c + g.pick("", " nop"))
        t = g.pick("\n", "\n", "\n", "\r\n").join(lines) + g.pick("\n", "", "\n\n", " ; end")
        files[root + path] = t.encode()

    main = g.pick(dirs) + "main.asm"
    source(main, 3, [])
    if used_h:
        files[root + main] += ("\n .word %s\n" % g.pick([g.case(w[1]) for h in sorted(used_h) for w in (l.split("define ") for l in files[root + h].decode().split("\n"))
                                                      if len(w) > 1 for w in [[0, w[1].split()[0]]]] or ["1"])).encode()
    srcs = [f for f in files if f.endswith((".asm", ".s", ".inc")) and f[len(root):] not in binaries]
    if fault:
        f = g.pick(srcs)
        d = f[len(root):f.rfind("/") + 1]
        t = files[f].decode()
        add = {
            1: '.include "missing.asm"\n', 2: '.include "%s"\n' % f.split("/")[-1], 3: '.include "%s"\n' % rel(d, main),
            4: '.include "x.asm" nop\n', 5: '.include bytes "nothere.bin"\n', 6: '.include cpp "no.h"\n', 7: '.include\n', 8: '.include asm\n', 9: '.include bytes 5\n',
            10: '.include weird "x"\n', 11: '.include "badheader.h"\n', 12: '.include cpp "badheader.h"\n', 13: '.include cpp "head.h" 5\n', 14: '.include bytes "%s" 7\n' % f.split("/")[-1],
            15: ' nop ?\n', 16: ' nosuchinstr 1\n', 17: '.include ""\n', 18: '.include "."\n', 19: '.include bytes ".."\n', 20: '.include "dir"\n', 21: '.include "x" "y"\n', 22: ' .word undefined1\n',
            23: '.include "latin1.asm"\n', 24: 'lab: .include "x.asm"\n', 25: '.include cpp "latin1.asm"\n', 26: '.include bytes "dir"\n', 27: '.include asm "leaf.asm" ; fine\n',
            28: '.include asm "leaf.asm", 5\n', 29: '.include "leaf.asm"\n.include "leaf.asm"\n'}[fault]
        files[root + d + "badheader.h"] = g.pick(BAD_CPP).encode()
        files[root + d + "head.h"] = b"#define HH 3\n"
        files[root + d + "leaf.asm"] = b" nop\n .byte 7"
        files[root + d + "latin1.asm"] = b" nop ; caf\xe9\n"
        if fault == 4 or fault == 24:
            files[root + d + "x.asm"] = b" nop\n"
        files[root + d + "dir/keep"] = b""
        ls = t.split("\n")
        k = r.randrange(len(ls) + 1)
        files[f] = ("\n".join(ls[:k]) + ("\n" if k else "") + add + "\n".join(ls[k:])).encode()
    cwd = g.pick("proj", "proj", "", "proj/sub", "elsewhere", root + main[:main.rfind("/") + 1] or ".")
    sp = os.path.relpath(root + main, cwd or ".")
    if g.flip(.2):
        sp = "./" + sp
    if g.flip(.15):
        sp = "@ROOT@/" + root + main
    return Case(files, main=root + main, cwd=cwd.rstrip("/"), spell=sp, mode="loc", dirs=["proj/sub/deep", "proj/other dir", "proj/sub2", "elsewhere"])


ODD_NAMES = ["\u00e9", "\u6f22\u5b57", "\U0001f600", "a\nb", "a\n  nop ; b", "\n", "a\tb", "a\rb", 'q"x', "a\\b", "a;b", "a'b", " lead", "trail ", "*", "%x", "-o", "a\n\n .byte 1 ",
             ".asm", "..a", "a.", "a\x08", "a\x01b", "NOP", "a,b", "simple", "{}", "e\u0301", "\u00a0", "x" * 200]


def quoted(name):
    """A string literal that denotes name."""
    return '"' + "".join({"\n": "\\n", "\r": "\\r", "\b": "\\b", '"': '\\"', "\\": "\\\\"}.get(x, x) for x in name) + '"'


def odd_names(g):
    """Included files and directories of all sorts of names."""
    cases = []
    for n in ODD_NAMES:
        d, f = (n + "/", "f") if g.flip(.4) else ("", n) if g.flip(.6) else (n + "/", n)
        kind = g.pick("asm", "", "bytes", "bytes", "cpp")
        body = {"asm": b" nop\n .byte 7\n", "": b" .byte 1, 2 ; end", "bytes": g.pick(b"", b"ab\x00", b"\xff"), "cpp": b"#define K 5\n"}[kind]
        if g.flip(.25):
            body = {"bytes": body, "cpp": b"#define\n"}.get(kind, b' .include bytes "b"\n')
        files = {d + f: body, "main.asm": ".include %s %s\n .byte 9\n" % (kind, quoted(g.pick("", "./") + d + f)), d + "b": b"zz"}
        cases.append(Case(files, mode="loc"))
    return cases


def includes(rnd, tier):
    g = G(rnd)
    cases = [include_program(g) for _ in range(350 if tier == "quick" else 4000)]
    cases += [include_program(g, 1 + k % 29) for k in range(435 if tier == "quick" else 4000)]
    cases += odd_names(g)
    for h in CPP + BAD_CPP:
        cases.append(Case({"main.asm": '.include cpp "a.h"\n .byte x, 1\nx = 5\n', "a.h": h}, mode="loc"))
        cases.append(Case({"main.asm": ' .byte 1\n.include cpp "a.h"\n .byte X\n', "a.h": h}, mode="loc"))
    return cases


# ---------------------------------------------------------------------------
# C09: expanding.
def expansions(rnd, tier):
    g = G(rnd)
    n = 1 if tier == "quick" else 8
    base = []
    for k in range(170 * n):
        base.append({"main.asm": macro_program(g)})
    for k in range(80 * n):
        base.append({"main.asm": macro_program(g, fault=1 + k % 16)})
    def take(fn, k):
        cs = fn(rnd, "quick")
        return rnd.sample(cs, min(k * n, len(cs)))
    for fn, k in ((layout, 90), (names, 90), (expressions, 110), (tokens, 130), (data_items, 110), (operands, 60)):
        base += [c.files for c in take(fn, k)]
    cases = []
    for f in base:
        cases.append(Case(f, cmd="expand", mode="loc"))
    for c in take(includes, 110):
        c.cmd = "expand"
        cases.append(c)
    import pics
    shown = [c for c in pics.pictures(rnd, "quick") if c.cmd == "asm"]
    for c in odd_names(g) + pics.odd_names(g) + rnd.sample(shown, min(len(shown), 25 * n)):
        c.cmd = "expand"
        cases.append(c)
    for _ in range(60 * n):
        t = "".join(" %s\n" % g.instr(0, ["k1"])[0] for _ in range(12)) + "k1 = 3\n"
        cases.append(Case({"main.asm": t}, cmd="expand", mode="loc"))
        t = "a = 5\nb equ -2\n" + "".join(g.pick(" .word (%s)&$7fff\n", " .byte <(%s)\n", "q%d = %%s\n" % k) % g.expr(4, ["a", "b"], big=.1) for k in range(8))
        cases.append(Case({"main.asm": t}, cmd="expand", mode="loc"))
    return cases


# ---------------------------------------------------------------------------
# C14: where errors are shown.
def mangle(g, text):
    """Puts a (faulty) program into unusual surroundings."""
    ls = text.split("\n")
    k = g.r.randrange(len(ls))
    odd = ["\t; é漢 comment", "* star", "", "\t\t", "q_%d:  ; 😀" % g.r.randrange(10**6), " .byte \"é漢\", \"\t\" ; x", " \t nop\t\t; tab"]
    ls[k:k] = [g.pick(odd) for _ in range(g.r.randrange(3))]
    out = []
    for l in ls:
        if g.flip(.15) and l.strip() and l[0] in " \t":
            l = g.pick("\t", "   \t", "\u00a0", "\u3000") + l
        if g.flip(.1) and l.startswith(" ") and "%" not in l and ":" not in l:
            l = "z%d: " % g.r.randrange(10**7) + l
        if g.flip(.1):
            l = l + g.pick("\t; tail é", "   ", " ;")
        if g.flip(.08) and '"' not in l and ".byte" in l and "," in l:
            l = l.replace(",", ", \"é\t漢e\u0301\",", 1)
        out.append(l)
    nl = g.pick("\n", "\n", "\r\n")
    return nl.join(out)


def varied(rnd, cases, most):
    """Picks failing programs, with every kind of message among them."""
    kinds = {}
    with Scratch() as s:
        for c in observe_all(cases, s):
            if c.obs["kind"] in ("ok", "no output"):
                continue
            text = [l for l in c.stderr.decode(errors="replace").split("\n")[1:] if l.strip()][:1]
            kinds.setdefault(re.sub(r"[\d'\"`(].*|: .*|((?<=instruction)|(?<=name)|(?<=Macro)) .*", "", "".join(text))[:60], []).append(c)
    out = []
    for k in sorted(kinds):
        rnd.shuffle(kinds[k])
    while len(out) < most and any(kinds.values()):
        for k in sorted(kinds):
            out += kinds[k][-1:]
            del kinds[k][-1:]
    return [Case(c.files, main=c.main, cwd=c.cwd, dirs=c.dirs) for c in out[:most]]


def elsewhere(g, c):
    """Moves a case's files to some directory, runs it from some directory and
    spells the program's path in some way: how paths are shown depends on all
    three."""
    names = ["w", "wx", "w/x", "w/w", "wx/w", "W", "w.s", "w w", "é漢"]
    d, cwd = g.pick(*names), g.pick("", *names)
    c.files = {d + "/" + p: b for p, b in c.files.items()}
    c.main = d + "/" + c.main
    c.dirs = [d + "/" + x for x in c.dirs] + names
    c.cwd = cwd
    rel = os.path.relpath(c.main, cwd or ".")
    c.spell = g.pick("@ROOT@/" + c.main, "@ROOT@/" + c.main, rel, "./" + rel, "@ROOT@/w/../" + c.main)


def diagnostics(rnd, tier):
    g = G(rnd)
    n = 1 if tier == "quick" else 10
    pool = []
    for fn in (operands, names, expressions, tokens, data_items, layout):
        pool += fn(rnd, "quick")
    bases = [c.files for c in varied(rnd, pool, 1000 if tier == "quick" else 3000)]
    cases = []
    for f in bases:
        t = f["main.asm"].decode()
        f = dict(f)
        if g.flip(.35):
            # in an included file
            d = g.pick("", "lib/", "a b/")
            f[d + "part.asm"] = mangle(g, t).encode()
            f["main.asm"] = g.pick('.include "%spart.asm"\n', ' nop\n\t.include asm "%spart.asm" ; é\n nop\n', ' nop\n.include "./%spart.asm"') % d
        else:
            f["main.asm"] = mangle(g, t)
        cases.append(Case(f, mode="full"))
    for k in range(320 * n):
        cases.append(Case({"main.asm": mangle(g, macro_program(g, fault=1 + k % 16))}, mode="full"))
    for t in MACRO_CORNERS:
        cases.append(Case({"main.asm": t}, mode="full"))
        cases.append(Case({"main.asm": '.include "m.inc"\n', "m.inc": mangle(g, t)}, mode="full"))
    for k in range(200 * n):
        c = include_program(g, 1 + k % 29)
        c.mode = "full"
        cases.append(c)
    import pics
    cases += varied(rnd, [c for c in pics.pictures(rnd, "quick") if c.cmd == "asm"], 60 * n)
    for c in cases:
        c.mode = "full"
        if not c.cwd and g.flip(.15):
            elsewhere(g, c)
    return cases
