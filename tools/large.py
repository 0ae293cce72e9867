"""Programs in which one dimension is large: more lines, columns, names,
calls, items, files than a byte counts."""
from wb import Case
from gen import G


def text(*parts):
    return {"main.asm": "".join(parts)}


def sizes(g, most=330):
    """Sizes around 255, mostly just above."""
    return g.pick(254, 255, 256, 257, 258, 300, g.r.randrange(257, most))


# C04
def large_layouts(rnd, tier):
    g = G(rnd)
    out = []
    for _ in range(1 if tier == "quick" else 6):
        n = sizes(g)
        # many statements before a label, of every kind
        out.append(Case(text(*[g.pick(" nop\n", " .byte 1\n", " ld 5\n", " .word 3\n", "; c\n", "\n") for _ in range(n)], "end:\n .word end\n")))
        # many labels, each a use of the one far before it
        out.append(Case(text(*["l%d:\n .byte <l%d, %d\n" % (k, max(0, k - 256), k % 256) for k in range(n)])))
        # many jumps back and forth
        out.append(Case(text(*[" .org %d\n .byte %d\n" % (g.r.randrange(600), k % 256) for k in range(n)])))
        out.append(Case(text(*[" .cnop %d, %d\n .byte %d\n" % (g.r.randrange(3), g.r.randrange(1, 9), k % 256) for k in range(n)])))
        # far positions
        for a in (255, 256, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535):
            out.append(Case(text(" .org %d\nl:\n .byte 1, 2, 3\nm:\n .word l & $ffff, m & $ffff\n" % a, " jmpf l\n" if a < 65535 else "")))
            out.append(Case(text(" .cnop 0, %d\nl:\n .byte 1\n .word l & $ffff\n .cnop %d, 256\n .byte 2\n" % (a, a % 1000))))
        out.append(Case(text(" .org 65535\n", *[" .byte 1\n" for _ in range(n)], " .word x / 256\nx:\n .org 3\n .byte 9\n")))
        out.append(Case(text(" .org 65535\n .text 65535 \"a\"\nx:\n .byte x / 65536\n .org 65535\n .string 3 \"bcd\"\n")))
    return out


# C05
def large_names(rnd, tier):
    g = G(rnd)
    out = []
    for _ in range(2 if tier == "quick" else 8):
        n = sizes(g)
        # many constants, each from the one before
        out.append(Case(text("c0 = 1\n", *["c%d %s C%d + 1\n" % (k, g.pick("=", "equ"), k - 1) for k in range(1, n)], " .word c%d, c%d\n" % (n - 1, n // 2)), mode="loc"))
        # many globals with locals of the same name
        out.append(Case(text(*["g%d:\n.l:\n .byte <.l, <G%d\n" % (k, n // 2 - 1 - k) for k in range(n // 2)]), mode="loc"))
        # many locals of one global
        t = "g: nop\n" + "".join(".l%d:\n .byte <.L%d\n" % (k, n - 1 - k) for k in range(n))
        out.append(Case(text(t), mode="loc"))
        out.append(Case(text(t, g.pick("h: nop\n .word .l3\n", ".l7: nop\n", " .word .l%d\n" % n, "g: nop\n")), mode="loc"))
        # names that differ only far behind, and names that do not
        a = "".join(g.pick("abc.$_1") for _ in range(n - 1))
        a = "x" + a
        for b in (a[:-1] + "z", a + "a", a.upper(), a[:-1]):
            out.append(Case(text("%s = 1\n%s:\n .byte %s\n .byte <%s\n" % (a, b, a, b)), mode="loc"))
    return out


# C06
def large_expressions(rnd, tier):
    g = G(rnd)
    out = []
    for _ in range(2 if tier == "quick" else 8):
        n = sizes(g)
        for ops in ("+", "-", "*", "+-", "&|^", "+-*&|^", "+-*/&|^"):
            e = str(g.r.randrange(1000))
            for _ in range(n):
                o = g.pick(list(ops))
                e += " %s %s" % (o, g.pick("1", "3", "7", "255", "1000") if o in "*/" else g.r.randrange(70000))
            out.append(Case(text(" .word (%s) & $ffff\n" % e if g.flip(.5) else " .word $7fff & (%s)\n" % e), mode="loc"))
        d = g.r.randrange(20, 41)
        for pre in ("", "-", ">", "<"):
            out.append(Case(text(" .word %s\n" % ("(" + (pre + "(") * d + "5" + ")" * d + ")")), mode="loc"))
            out.append(Case(text(" .word %s5\n" % (g.pick(pre, pre + " ") * d)), mode="loc"))
        out.append(Case(text(" .word %s\n" % ("(" * d + "5" + "".join(" %s %d)" % (g.pick(list("+-*&|^")), k) for k in range(d)) + " & 4095")), mode="loc"))
        out.append(Case(text(" .word 4095 & %s\n" % ("".join("(%d %s " % (k, g.pick(list("+-*&|^"))) for k in range(d)) + "5" + ")" * d)), mode="loc"))
        # the fault behind many operands
        e = " + ".join(["1"] * n)
        for bad in ("nosuch", "1 / 0", ")", "*"):
            out.append(Case(text(" .word %s + %s\n" % (e, bad)), mode="loc"))
    return out


# C07
def large_tokens(rnd, tier):
    g = G(rnd)
    out = []
    for _ in range(2 if tier == "quick" else 8):
        n = sizes(g)
        z = "0" * n
        for t in (z + "7", "$" + z + "ff", "0x" + z + "ff", "%" + z + "101", "0b" + z + "101", "0o" + z + "17", "1" + z, "$1" + z, "'".join("0" * (n // 2)) + "'9"):
            out.append(Case(text(" .word %s\n" % t), mode="loc"))
        s = "".join(g.pick("a", "é", "漢", "\\n", "\\\"", ";", "'", " ") for _ in range(n))
        out.append(Case(text(" .byte \"%s\", 1 ; %s\n .byte 2\n" % (s, s)), mode="loc"))
        out.append(Case(text(";" + "x" * n + "\n" + "*" * n + "\n" + "\n" * n + " " * n + ".byte" + " " * n + "1 ?\n"), mode="loc"))
        out.append(Case(text(" " * n + "?\n"), mode="loc"))
        out.append(Case(text("\n" * n + "?\n"), mode="loc"))
        out.append(Case(text("; é\r\n" * n + " .byte 1, nosuch\r\n"), mode="loc"))
        out.append(Case(text(" .byte " + "é" * n + "\n"), mode="loc"))
        out.append(Case(text(" .byte \"" + "é" * n + "\" ?\n"), mode="loc"))
    return out


# C08
def large_macros(rnd, tier):
    g = G(rnd)
    out = []
    for _ in range(1 if tier == "quick" else 5):
        n = sizes(g)
        out.append(Case(text("%macro m %x\nl%: add #%x\n br l%\n%end\n", *[" m %d\n" % (k % 256) for k in range(n)])))
        out.append(Case(text("%macro m %x\n", *[" add #<(%%x + %d)\n" % k for k in range(n)], "l%: br l%\n%end\n m 1\n m 2\n")))
        d = g.r.randrange(20, 29)
        t = "".join("%%macro m%d %%x\nl%%: add #%%x\n%s bz l%%\n%%end\n" % (k, " m%d %%x + 1\n" % (k + 1) if k < d else "") for k in g.r.sample(range(d + 1), d + 1))
        out.append(Case(text(t, " m0 5\n m%d 1\n m%d 2\n" % (d, d // 2))))
        out.append(Case(text(t.replace("m%d %%x + 1" % d, "m3 %x"), " m0 5\n")))
        out.append(Case(text(t, " m0 300\n")))
        # long chains of calls
        e = g.r.randrange(257, 320)
        t = "".join("%%macro c%d %%x\n c%d %%x\n%%end\n" % (k, k + 1) for k in g.r.sample(range(e), e))
        out.append(Case(text(t, "%%macro c%d %%x\nl%%: add #%%x\n bz l%%\n%%end\n c%d 5\n c0 7\n" % (e, e - 70))))
        out.append(Case(text(t, "%%macro c%d %%x\n c%d %%x\n%%end\n c0 7\n" % (e, e // 2))))
        # many definitions
        t = "".join("%%macro q%d\n add #%d\n%%end\n" % (k, k % 256) for k in range(n))
        out.append(Case(text(t, " q0\n q%d\n q%d\n" % (n - 1, n // 2))))
        out.append(Case(text(t, "%%macro q%d\n nop\n%%end\n" % g.r.randrange(n))))
        # many parameters and labels
        p = g.r.randrange(17, 40)
        out.append(Case(text("%macro w ", ", ".join("%%p%d" % k for k in range(p)), "\n", *[" add #%%p%d\nl%d%%: bz l%d%%\n" % (k, k, k) for k in g.r.sample(range(p), p)],
                             "%end\n w ", ", ".join(str(k + 7) for k in range(p)), "\n w ", ", ".join("k+%d" % k for k in range(p)), "\nk = 3\n")))
        out.append(Case(text("%macro w ", ", ".join("%%p%d" % k for k in range(p)), ", %p0\n%end\n")))
    return out


# C10
def large_includes(rnd, tier):
    g = G(rnd)
    out = []
    for _ in range(1 if tier == "quick" else 5):
        d = g.r.randrange(30, 45)
        fs = {"%sf%d" % ("d/" * (k % 2), k): ".byte %d\n.include \"%s\"\n.byte %d\n" % (k, ("../f%d" if k % 2 else "d/f%d") % (k + 1), 255 - k) for k in range(d)}
        for last in (".byte 200\n", ".include \"nosuch\"\n", " .byte nosuch\n", ".include \"%s\"\n" % ("../f0" if d % 2 else "f0"), "%macro m\n nop\n%end\n m\n"):
            out.append(Case(dict(fs, **{"%sf%d" % ("d/" * (d % 2), d): last, "main.asm": ".include \"f0\"\n.byte 77"})))
        n = sizes(g, 270)
        fs = {"g%d" % k: ".byte %d\n" % (k % 256) for k in range(n)}
        out.append(Case(dict(fs, **{"main.asm": "".join(".include \"g%d\"\n" % k for k in g.r.sample(range(n), n)) + " .byte nosuch\n" * g.r.randrange(2)})))
        out.append(Case({"main.asm": ".include \"i\"\n" * n, "i": ".byte 1\n"}))
        out.append(Case({"main.asm": " .byte 1\n.include bytes \"b\"\nl:\n .word l\n", "b": bytes((k * 7 + k // 256) % 256 for k in range(g.pick(256, 257, 700, 5000)))}))
        out.append(Case({"main.asm": ".include bytes \"b\"\n.byte 7\n", "b": bytes((k * 7 + k // 256) % 256 for k in range(g.pick(65537, 65540, 70000)))}))
        out.append(Case({"main.asm": " .byte 1\n.include cpp \"h\"\n .word D%d\n" % (n - 1), "h": "#define D0 1\n" + "".join("#define D%d (D%d+1) // c\n" % (k, k - 1) for k in range(1, n))}))
        out.append(Case({"main.asm": ".include \"i\"\n .word a, b\n", "i": "\n" * n + "a = 5\n" + " " * n + "b = a + nosuch\n"}))
    return out


# C14
def large_diagnostics(rnd, tier):
    g = G(rnd)
    out = []
    bad = [" .byte nosuch\n", " .byte 1, 256 + 3, 4\n", " ld #7\n", " .org 70000\n", "?\n", " m 3\n", " add #300\n", " br $7000\n", ".x\n", " .include \"nosuch\"\n"]
    for b in bad * (1 if tier == "quick" else 4):
        n = sizes(g)
        line, end = g.pick("\n", "\r\n", " nop\n", "\t.byte 1 ; é\n", "; c\n"), g.pick("", " nop\n")
        out.append(Case(text(line * n, b, end), mode="full"))
        out.append(Case(text(g.pick(" ", "\t") * n, b.rstrip(), "\n", end), mode="full"))
        out.append(Case(text(g.pick(" ", "\t") * g.r.randrange(90), b.rstrip(), "; é漢\t" * (n // 4), "\n", end), mode="full"))
        out.append(Case(text("%macro m %x\n", " nop\n" * n, " add #256 * %x\n%end\n", "\n" * g.pick(0, n), " m 1\n"), mode="full"))
        d = g.r.randrange(12, 30)
        out.append(Case(text(*["%%macro m%d\n m%d\n%%end\n" % (k, k + 1) for k in range(d)], "%%macro m%d\n%s%%end\n" % (d, g.pick(" add #300\n", " ld #1\n", " nosuch\n", " m0\n", " jmpf nosuch\n")), " m0\n"), mode="full"))
    d = 270
    out.append(Case({"main.asm": "".join(".include \"i%d\"\n" % k for k in range(d)) + " .byte nosuch\n", **{"i%d" % k: "c%d = %d\n" % (k, k) for k in range(d)}}, mode="full"))
    out.append(Case({"main.asm": "".join(".include \"i%d\"\n" % k for k in range(d)), **{"i%d" % k: "c%d = %d\n" % (k, k) if k < d - 2 else " .byte c3, nosuch\n" for k in range(d)}}, mode="full"))
    return out


# C17
def large_data(rnd, tier):
    g = G(rnd)
    out = []
    for _ in range(2 if tier == "quick" else 8):
        n = sizes(g)
        items = [g.pick("\"ab\"", "7", "-1", "255", "1+2", "\"é\"") for _ in range(n)]
        out.append(Case(text(" .byte %s\nl:\n .word l\n" % ", ".join(items)), mode="loc"))
        items[g.r.randrange(n)] = g.pick("256", "-129", "nosuch")
        out.append(Case(text(" .byte %s\n" % ",".join(items)), mode="loc"))
        items = [g.pick("7", "-1", "65535", "1+2", "-32768") for _ in range(n)]
        out.append(Case(text(" .word %s\nl:\n .word l\n" % ", ".join(items)), mode="loc"))
        items[g.r.randrange(n)] = g.pick("65536", "-32769", "nosuch")
        out.append(Case(text(" .word %s\n" % ",".join(items)), mode="loc"))
        s = "".join(g.pick("a", "é", "\\n", " ") for _ in range(n))
        size = len(s.replace("\\n", "n").encode())
        for kd in ("text", "string"):
            for k in (size - 1, size, size + 1, size + 256, 255, 256, 511, 1000):
                out.append(Case(text(" .%s %d \"%s\"\nl:\n .word l\n" % (kd, k, s)), mode="loc"))
            out.append(Case(text(" .%s %d \"\"\nl:\n .word l\n" % (kd, g.pick(4096, 9000))), mode="loc"))
    return out


# C09
def large_expansions(rnd, tier):
    out = []
    for fn in (large_layouts, large_names, large_expressions, large_tokens, large_macros, large_includes, large_data):
        cs = fn(rnd, "quick")
        for c in rnd.sample(cs, min(len(cs), 6)):
            c.cmd = "expand"
            out.append(c)
    return out
