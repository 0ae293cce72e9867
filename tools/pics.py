"""Pictures and their files, written from scratch."""
import json, random, struct, zlib
from wb import Case
from gen import G


def _chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xffffffff)


def empty_apng():
    """An animated picture that says it has no frames."""
    raw = zlib.compress((b"\0" + bytes((9, 8, 0, 255)) * 32) * 32)
    return (b"\x89PNG\r\n\x1a\n" + _chunk(b"IHDR", struct.pack(">IIBBBBB", 32, 32, 8, 6, 0, 0, 0)) + _chunk(b"acTL", struct.pack(">II", 0, 0))
            + _chunk(b"IDAT", raw) + _chunk(b"IEND", b""))


EMPTY_GIF = b"GIF89a" + struct.pack("<HHBBB", 72, 56, 0x80, 0, 0) + b"\xff\xff\xff\0\0\0" + b"\x21\xfe\x03abc\0\x3b"


class Picture:
    """Frames of RGBA pixels, and the file format they are stored in.  In an
    animation every frame is shown for a time, a fraction of a second; the time
    in a GIF is a number of hundredths, and a PNG means those by a zero below."""
    def __init__(self, frames, fmt="png"):
        self.frames, self.fmt = frames, fmt
        r = random.Random("%r%r" % (fmt, frames[0][0]))
        self.delays = [(r.choice([0, 1, 2, 7, 10, 50, 255, 256, 1000, 65535, r.randrange(65536)]), 100) for _ in frames]
        if fmt != "gif":
            self.delays = [(n, r.choice([0, 1, 2, 3, 7, 10, 24, 30, 60, 100, 1000, 1001, 65535, d])) for n, d in self.delays]
        self.w, self.h = len(frames[0][0]), len(frames[0])

    def colours(self):
        seen = {}
        for f in self.frames:
            for r in f:
                for p in r:
                    seen.setdefault(p, len(seen))
        return seen

    def spec(self):
        ix = self.colours()
        return {"t": "img", "b": list(self.data()),
                "d": {"pal": [list(p) for p in ix], "frames": [[[ix[p] + 1 for p in r] for r in f] for f in self.frames],
                      "delays": [[1000 * n, d or 100] for n, d in self.delays]
                      if self.fmt == "gif" or self.fmt == "png" and len(self.frames) > 1 else [[0, 0]] * len(self.frames)}}

    def data(self):
        return getattr(self, "_" + self.fmt.replace("-", "_"))()

    def _raw(self, f, pick=lambda p: bytes(p)):
        return zlib.compress(b"".join(b"\0" + b"".join(pick(p) for p in r) for r in f), 6)

    def _ihdr(self, kind, depth=8):
        return b"\x89PNG\r\n\x1a\n" + _chunk(b"IHDR", struct.pack(">IIBBBBB", self.w, self.h, depth, kind, 0, 0, 0))

    def _png(self):
        if len(self.frames) > 1:
            return self._apng()
        return self._ihdr(6) + _chunk(b"IDAT", self._raw(self.frames[0])) + _chunk(b"IEND", b"")

    def _rgb(self):
        return self._ihdr(2) + _chunk(b"IDAT", self._raw(self.frames[0], lambda p: bytes(p[:3]))) + _chunk(b"IEND", b"")

    def _gray(self):
        return self._ihdr(0) + _chunk(b"IDAT", self._raw(self.frames[0], lambda p: bytes(p[:1]))) + _chunk(b"IEND", b"")

    def _graya(self):
        return self._ihdr(4) + _chunk(b"IDAT", self._raw(self.frames[0], lambda p: bytes((p[0], p[3])))) + _chunk(b"IEND", b"")

    def _indexed(self):
        ix = self.colours()
        return (self._ihdr(3) + _chunk(b"PLTE", b"".join(bytes(p[:3]) for p in ix)) + _chunk(b"tRNS", bytes(p[3] for p in ix))
                + _chunk(b"IDAT", self._raw(self.frames[0], lambda p: bytes([ix[p]]))) + _chunk(b"IEND", b""))

    def _apng(self):
        out, seq = self._ihdr(6) + _chunk(b"acTL", struct.pack(">II", len(self.frames), 0)), 0
        for k, f in enumerate(self.frames):
            out += _chunk(b"fcTL", struct.pack(">IIIIIHHBB", seq, self.w, self.h, 0, 0, *self.delays[k], 0, 0))
            seq += 1
            if k == 0:
                out += _chunk(b"IDAT", self._raw(f))
            else:
                out += _chunk(b"fdAT", struct.pack(">I", seq) + self._raw(f))
                seq += 1
        return out + _chunk(b"IEND", b"")

    def _gif(self):
        """Opaque frames; the code table is cleared often enough never to grow."""
        ix = self.colours()
        bits = 2
        while 1 << bits < len(ix):
            bits += 1
        pal = b"".join(bytes(p[:3]) for p in ix)
        out = b"GIF89a" + struct.pack("<HHBBB", self.w, self.h, 0xF0 | (bits - 1), 0, 0) + pal.ljust(3 << bits, b"\0")
        for k, f in enumerate(self.frames):
            out += b"\x21\xf9\x04\x04" + struct.pack("<H", self.delays[k][0]) + b"\0\0" + b"\x2c" + struct.pack("<HHHHB", 0, 0, self.w, self.h, 0)
            clear, size, acc, n, codes = 1 << bits, bits + 1, 0, 0, bytearray()
            stream, k = [], 0
            for r in f:
                for p in r:
                    if k % ((1 << bits) - 2) == 0:
                        stream.append(clear)
                    stream.append(ix[p])
                    k += 1
            stream.append(clear + 1)
            for c in stream:
                acc |= c << n
                n += size
                while n >= 8:
                    codes.append(acc & 255)
                    acc >>= 8
                    n -= 8
            if n:
                codes.append(acc & 255)
            out += bytes([bits]) + b"".join(bytes([len(codes[q:q + 255])]) + bytes(codes[q:q + 255]) for q in range(0, len(codes), 255)) + b"\0"
        return out + b"\x3b"

    def _bmp(self):
        pad = b"\0" * (-3 * self.w % 4)
        px = b"".join(b"".join(bytes((p[2], p[1], p[0])) for p in r) + pad for r in reversed(self.frames[0]))
        return b"BM" + struct.pack("<IHHI", 54 + len(px), 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, self.w, self.h, 1, 24, 0, len(px), 2835, 2835, 0, 0) + px


    def _ppm(self):
        return b"P6 %d %d\n255\n" % (self.w, self.h) + b"".join(bytes(p[:3]) for r in self.frames[0] for p in r)

    def _pgm(self):
        return b"P5\n%d %d 255\n" % (self.w, self.h) + b"".join(bytes(p[:1]) for r in self.frames[0] for p in r)

    def _upper(self):
        return self._ihdr(6) + _chunk(b"IDAT", self._raw(self.frames[0])) + _chunk(b"IEND", b"")


def tie(p):
    return 30 * p[0] + 59 * p[1] + 11 * p[2] == 12750


def colour(g, opaque=False, gray=False):
    while True:
        a = 255 if opaque else g.pick(0, 1, 8, 9, 25, 26, 126, 127, 128, 129, 200, 255, 255, 255, g.r.randrange(256))
        k = g.r.random()
        if gray:
            v = g.r.randrange(256)
            p = (v, v, v, a)
        elif k < .3:
            v = g.pick(0, 8, 9, 25, 26, 42, 43, 126, 127, 128, 254, 255)
            p = (v, v, v, a)
        elif k < .5:
            # close to the threshold between dark and light
            r, gg = g.r.randrange(256), g.r.randrange(256)
            b = (12750 - 30 * r - 59 * gg) // 11 + g.pick(0, 1)
            p = (r, gg, b, a) if 0 <= b <= 255 else (127, 127, 128, a)
        else:
            p = (g.r.randrange(256), g.r.randrange(256), g.r.randrange(256), a)
        if not tie(p):
            return p


def words(p):
    return tuple((2 * c + 17) // 34 for c in p)


def palette(g, n, opaque=False, gray=False):
    """n colours whose 4-bit forms differ, if there can be that many."""
    out, seen = [], set()
    for _ in range(n * 60):
        if len(out) == n:
            break
        p = colour(g, opaque, gray)
        if words(p) not in seen:
            seen.add(words(p))
            out.append(p)
    return out


GRAY = ("gray", "graya", "pgm")


def picture(g, w, h, n, frames=1, fmt="png"):
    pal = palette(g, n, opaque=fmt in ("rgb", "gif", "bmp", "gray", "ppm", "pgm"), gray=fmt in GRAY)
    if fmt not in ("gif", "indexed") and g.flip(.3):
        # more colours that become the same when scaled
        pal += [tuple(max(0, min(255, c + g.pick(-1, 0, 1))) for c in p) for p in pal]
        pal = [p for k, p in enumerate(pal) if k < n or (words(p) in {words(q) for q in pal[:n]} and not tie(p))]
        if fmt in ("rgb", "bmp", "gray", "ppm", "pgm"):
            pal = [p[:3] + (255,) for p in pal]
        if fmt in GRAY:
            pal = [p for p in pal if p[0] == p[1] == p[2]]
    fs, first = [], list(pal)
    g.r.shuffle(first)
    # frames of different colours: every colour is in some frame
    apart = frames > 1 and g.flip(.6)
    for f in range(frames):
        pal = [p for k, p in enumerate(first) if not apart or k % frames == f or g.flip(.1)] or first[:1]
        px = [g.pick(pal) for _ in range(w * h)]
        for k, p in zip(g.r.sample(range(w * h), min(len(pal), w * h)), pal):
            px[k] = p
        fs.append([px[y * w:(y + 1) * w] for y in range(h)])
    return Picture(fs, fmt)


EXT = {"png": "png", "rgb": "png", "gray": "png", "graya": "png", "indexed": "png", "gif": "gif", "bmp": "bmp", "ppm": "ppm", "pgm": "pgm", "upper": "PNG"}
STILL = ["png", "rgb", "gray", "graya", "indexed", "gif", "bmp", "ppm", "pgm", "upper"]


def pictures(rnd, tier):
    g = G(rnd)
    q = tier == "quick"
    cases = []

    def name(fmt, base="p"):
        return base + "." + EXT[fmt]

    def icon(n=None, size=(32, 32), frames=None, eye=None, props=None, fmt=None):
        fmt = fmt or g.pick(STILL)
        frames = frames or (g.pick(1, 1, 2, 3) if fmt in ("png", "gif") else 1)
        n = n or g.pick(1, 2, 5, 15, 16, 16)
        if fmt in GRAY:
            n = min(n, 16)
        files = {name(fmt): picture(g, size[0], size[1], n, frames, fmt)}
        opts = []
        if props is None:
            if g.flip(.5):
                opts.append("speed = %s" % g.pick("0", "10", "$1234", "65535", "3*5", "1 + 1"))
            if eye:
                opts.append('eyecatch = "%s"' % name(eye.fmt, "e"))
                files[name(eye.fmt, "e")] = eye
            if len(opts) > 1 and g.flip(.5):
                opts.reverse()
        else:
            opts = props
        line = '.include %s "%s"%s\n' % (g.pick("icon", "icon", "ICON"), name(fmt), "".join(", " + o if g.flip(1) else o for o in opts))
        line = line.replace('",', '"', 1) if opts else line
        files["main.asm"] = g.pick("", " nop\n", ".byte 1,2,3\n") + line + g.pick("", "end: .word end\n".replace(": ", ":\n "))
        cases.append(Case(files, mode="loc"))

    def eye(n, size=(72, 56), fmt=None):
        fmt = fmt or ("png" if n > 200 else g.pick("png", "rgb", "gif", "indexed", "bmp") if n <= 200 else "png")
        return picture(g, size[0], size[1], n, g.pick(1, 2) if fmt == "png" and g.flip(.2) else 1, fmt)

    for _ in range(16 if q else 150):
        icon()
    for n in (17, 18, 20, 40):
        icon(n=n, fmt=g.pick("png", "rgb", "gif"))
    for sz in ((31, 32), (32, 31), (33, 32), (32, 33), (1, 1), (16, 64), (64, 16)):
        icon(size=sz, n=3)
    icon(size=(30, 32), n=17)
    for n in [1, 2, 15, 16, 17, 18, 100, 255, 256, 257, 400, 1500] + ([] if q else [g.r.randrange(1, 1200) for _ in range(60)]):
        icon(eye=eye(n), n=g.pick(2, 16))
    for n in (16, 17, 20, 30):
        icon(n=n, frames=g.pick(2, 3), fmt=g.pick("png", "gif"))
    for n, k, fmt in ((2, 2, "png"), (2, 2, "gif"), (3, 2, "png"), (5, 3, "png"), (16, 3, "gif"), (17, 2, "gif"), (17, 3, "png"), (30, 2, "png"), (40, 2, "gif"), (300, 2, "png"), (250, 2, "gif")):
        icon(eye=picture(g, 72, 56, n, k, fmt), n=3)
    for sz in ((72, 55), (71, 56), (56, 72), (32, 32)):
        icon(eye=eye(4, sz), n=3)
    for p in (["speed = -1"], ["speed = 65536"], ["speed = \"x\""], ["speed"], ["speed ="], ["eyecatch = 5"], ["eyecatch = \"missing.png\""], ["speed = 1", "speed = 2"],
              ["speed = nosuch"], ["speed = 1/0"], ["other = 5"], ["speed = 1 2"], ["speed 5"], ["5 = speed"], ["speed = 5", "eyecatch = \"main.asm\""], ["SPEED = 7"], ["speed=2147483647"],
              ["speed = 100-101"], ["speed = 65535+1"], ["speed = (2+3)*4"], ["speed = %p"], ["speed = #3"], ["eyecatch = nosuch"], ["speed = 5,"]):
        icon(n=2, props=p)

    def sprite(w, h, n=None, frames=None, fmt=None, props=None, typ=None):
        fmt = fmt or g.pick(STILL)
        frames = frames or (g.pick(1, 1, 2, 3) if fmt in ("png", "gif") else 1)
        files = {name(fmt): picture(g, w, h, n or g.pick(2, 3, 8, 30 if fmt not in GRAY else 8), frames, fmt)}
        if props is None:
            props = []
            if g.flip(.7):
                props.append("type = " + g.pick('"masked"', '"simple"'))
            if g.flip(.5):
                props.append("header = " + g.pick('"yes"', '"no"'))
            g.r.shuffle(props)
        line = '.include sprite "%s" %s\n' % (name(fmt), ", ".join(props))
        files["main.asm"] = g.pick("", " nop\n") + line + g.pick("", " .byte $aa\n")
        cases.append(Case(files, mode="loc"))

    for _ in range(50 if q else 600):
        sprite(g.pick(1, 2, 7, 8, 9, 15, 16, 17, 32, 48), g.pick(1, 2, 3, 8, 16, 20))
    for w, h in ((254, 1), (255, 2), (256, 1), (257, 2), (1, 255), (2, 256), (3, 300)):
        for props in (['header = "yes"'], ['header = "no"'], []):
            sprite(w, h, n=2, props=props, frames=1)
    for p in (['type = "other"'], ["type = 5"], ['header = "maybe"'], ["header = 1"], ['type = masked'], ['type'], ['type = "masked" header = "no"'], ['TYPE = "masked"'], ['type = "MASKED"'],
              ['type = "masked"', 'type = "simple"'], ['speed = 5'], ['type = "simple"', 'header = "no"'], ['header = "no"', 'header = "yes"']):
        sprite(9, 3, props=p)
    # pictures beside files that are included
    for _ in range(14 if q else 150):
        f1, f2 = g.pick(STILL), g.pick("png", "bmp", "indexed")
        a, b = picture(g, 32, 32, 3, 1, f1), picture(g, 72, 56, g.pick(3, 17), 1, f2)
        main, inc = g.pick(("main.asm", "d/i.asm"), ("d/main.asm", "i.asm"), ("d/main.asm", "e/i.asm"), ("main.asm", "i.asm"))
        here = inc.rpartition("/")[0]
        pa, pb = g.pick("", "d/", "e/", "d/f/"), g.pick("", "d/", "e/")
        def to(place, n):
            up = "../" if here else ""
            return g.pick("@ROOT@/" + place + n, (up + place if place != here + "/" or g.flip(.3) else g.pick("", "./")) + n)
        na, nb = name(f1), name(f2, g.pick("e", "p"))
        if pa + na == pb + nb:
            nb = "x" + nb
        kind = g.pick("icon", "icon", "sprite")
        line = '.include %s "%s"' % (kind, to(pa, na)) + (g.pick("", ' eyecatch = "%s"' % to(pb, nb), ' speed = 3, eyecatch = "%s"' % to(pb, nb)) if kind == "icon" else "")
        up = "../" if "/" in main else ""
        files = {main: '.byte 1\n.include "%s"\n .byte 2\n' % (up + inc), inc: line + g.pick("\n", "")}
        files[pa + na] = a
        if g.flip(.9):
            files[pb + nb] = b
        cwd = g.pick("", "d", "e")
        cases.append(Case(files, mode="loc", main=main, cwd=cwd, spell="@ROOT@/" + main, dirs=["d/f", "e"]))
    cases += odd_names(g)
    # files that are no pictures
    junk = {"none.png": None, "text.png": b"not a picture", "empty.gif": b"", "trunc.png": picture(g, 8, 8, 3).data()[:60], "trunc.gif": picture(g, 8, 8, 3, fmt="gif").data()[:30], "x.bmp": b"BM123",
            "gif.png": picture(g, 8, 8, 3, fmt="gif").data(), "png.gif": picture(g, 8, 8, 3).data(), "noext": b"zzz", "dir.png": None, "GIF89a.gif": b"GIF89a" + b"\1\0\1\0\0\0\0;",
            "empty1.gif": EMPTY_GIF, "empty2.png": empty_apng()}
    for f, d in junk.items():
        for kind in ("icon", "sprite"):
            files = {"main.asm": ' nop\n.include %s "%s"\n' % (kind, f)}
            if d is not None:
                files[f] = Junk(d)
            cases.append(Case(files, mode="loc", dirs=["dir.png"]))
    for f in ("none.png", "text.png", "empty1.gif", "empty2.png"):
        files = {"main.asm": ' nop\n.include icon "p.png" eyecatch="%s"\n' % f, "p.png": picture(g, 32, 32, 3)}
        if junk[f] is not None:
            files[f] = Junk(junk[f])
        cases.append(Case(files, mode="loc"))
    return cases


def odd_names(g):
    """Pictures of all sorts of names."""
    import gen
    cases = []
    for n in gen.ODD_NAMES:
        d, f = (n + "/", "f.png") if g.flip(.5) else ("", n + ".png")
        d += g.pick("", "", "s/")
        if g.flip(.7):
            line = '.include sprite %s %s' % (gen.quoted(d + f), g.pick("", 'type="masked"', 'header="no"'))
            files = {d + f: picture(g, 9, 2, 2)}
        else:
            line = '.include icon %s eyecatch=%s' % (gen.quoted(d + f), gen.quoted(d + "e" + f))
            files = {d + f: picture(g, 32, 32, 3), d + "e" + f: picture(g, 72, 56, 3)}
        files["main.asm"] = " nop\n" + line + "\n .byte 9\n"
        cases.append(Case(files, mode="loc"))
    return cases


class Junk:
    """A file that holds no picture."""
    def __init__(self, d):
        self.d = d

    def data(self):
        return self.d

    def spec(self):
        return {"t": "bin", "b": list(self.d)}


class PicCase(Case):
    """The icon and image commands, which print a picture as assembly text."""
    def __init__(self, files, kind, main, speed=None, eye="", out=False):
        super().__init__(files, cmd="pic", mode="bytes", main=main)
        self.kind, self.speed, self.eye, self.out = kind, speed, eye, out

    def observe(self):
        from wb import run_cli, observation
        import os
        cwd = self.cwd_path()
        if self.kind == "icon":
            args = ["icon", self.main] + (["--speed", str(self.speed)] if self.speed is not None else []) + (["-e", self.eye] if self.eye else [])
        else:
            args = ["image", self.main] + (["-f", self.kind] if self.kind else []) + (["-o", "out.txt"] if self.out else [])
        rc, so, se = run_cli(args, cwd)
        if self.out:
            p = os.path.join(cwd, "out.txt")
            so = open(p, "rb").read() if os.path.exists(p) else b""
        self.rc, self.stderr, self.text = rc, se, so.decode("utf-8", errors="replace")
        self.obs = observation(rc, so if so else None, so, se)
        self.json = []
        if self.obs["kind"] == "ok":
            self.obs = {"kind": "ok"}
            if self.kind in ("json", "json-pretty"):
                self.json, self.text = self.picture_of(self.text), ""
        return self.obs

    def picture_of(self, text):
        """The frames of a printed JSON picture; [] if it is not one."""
        try:
            return [{"delay": [int(x) for x in f["delay"]], "rows": [[[int(p[c]) for c in ("red", "green", "blue", "alpha")] for p in r] for r in f["rows"]]}
                    for f in json.loads(text)["frames"]]
        except (ValueError, KeyError, TypeError):
            return []

    def record(self, ident):
        from wb import comps
        pics = []
        for p, d in self.files.items():
            if isinstance(d, Picture):
                pics.append({"n": p, "d": d.spec()["d"]})
        ok = self.obs["kind"] == "ok"
        return {"id": ident, "cmd": "pic", "mode": "bytes", "main": [108], "cwd": comps(self.cwd_path()),
                "files": [{"c": comps(self.cwd_path()) + ["l"], "t": "src", "d": [ord(x) for x in self.text] if ok else []}],
                "dirs": [], "obs": self.obs, "pics": pics, "json": self.json,
                "pic": {"kind": self.kind, "main": self.main, "eye": self.eye, "speed": 10 if self.speed is None else self.speed}}

    def replay(self):
        d = super().replay()
        d.update(kind=self.kind, speed=self.speed, eye=self.eye, printed=self.text)
        return d


def picture_commands(rnd, tier):
    g = G(rnd)
    q = tier == "quick"
    cases = []
    for _ in range(8 if q else 60):
        fmt = g.pick("png", "rgb", "gif", "indexed", "bmp")
        m = "p." + EXT[fmt]
        files = {m: picture(g, 32, 32, g.pick(1, 5, 16), g.pick(1, 2) if fmt in ("png", "gif") else 1, fmt)}
        eye = ""
        if g.flip(.5):
            files["e.png"] = picture(g, 72, 56, g.pick(3, 16, 17, 256, 257))
            eye = "e.png"
        cases.append(PicCase(files, "icon", m, g.pick(None, None, 0, 7, 65535), eye))
    import gen
    for n in gen.ODD_NAMES:
        if n[0] == "-" or q and g.flip(.5):
            continue
        if g.flip(.6):
            cases.append(PicCase({n + ".png": picture(g, 32, 32, 3), "e" + n + ".png": picture(g, 72, 56, 3)}, "icon", n + ".png", None, "e" + n + ".png"))
        else:
            cases.append(PicCase({n + ".png": picture(g, 5, 3, 2)}, g.pick("1bit-asm", "1bit-asm-masked", "json"), n + ".png"))
    p = picture(g, 32, 32, 3)
    cases.append(PicCase({"p.png": picture(g, 32, 32, 17)}, "icon", "p.png"))
    cases.append(PicCase({"p.png": picture(g, 32, 30, 3)}, "icon", "p.png"))
    cases.append(PicCase({"p.png": p, "e.png": picture(g, 70, 56, 3)}, "icon", "p.png", None, "e.png"))
    cases.append(PicCase({"p.png": p}, "icon", "p.png", None, "none.png"))
    cases.append(PicCase({"p.png": p}, "icon", "none.png"))
    cases.append(PicCase({"p.png": Junk(b"junk")}, "icon", "p.png"))
    cases.append(PicCase({"p.png": p}, "icon", "p.png", 65536))
    cases.append(PicCase({"p.png": p}, "icon", "p.png", -1))
    for k in range(30 if q else 300):
        fmt = g.pick(STILL)
        m = "p." + EXT[fmt]
        files = {m: picture(g, g.pick(1, 3, 8, 9, 17, 255), g.pick(1, 2, 9), g.pick(2, 6), g.pick(1, 3) if fmt in ("png", "gif") else 1, fmt)}
        cases.append(PicCase(files, g.pick("1bit-asm", "1bit-asm-masked", "json", "json-pretty", "", "other"), m, out=g.flip(.5)))
    for kind in ("1bit-asm", "1bit-asm-masked", "json", "json-pretty"):
        for d in (b"junk", EMPTY_GIF, empty_apng()):
            m = "p.gif" if d == EMPTY_GIF else "p.png"
            cases.append(PicCase({m: Junk(d)}, kind, m))
        cases.append(PicCase({"p.png": p}, kind, "none.png"))
    for d in (EMPTY_GIF, empty_apng()):
        m = "e.gif" if d == EMPTY_GIF else "e.png"
        cases.append(PicCase({"p.png": p, m: Junk(d)}, "icon", "p.png", None, m))
    return cases
