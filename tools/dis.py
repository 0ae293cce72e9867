"""Images for the disassembler (C03, C11, C12)."""
import json, os, random, re
import wb
from wb import observation, runs_of, run_cli

ENTRY = [0, 3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b, 0x130]
BIOS = ENTRY + [0x100, 0x108, 0x110, 0x120, 0x130, 0x140, 0x1f0]
CONST = re.compile(r"^(?:    \| )?(?:\s*[a-z0-9_]+ EQU \$[0-9A-F]+|\s*;;.*|\s*)$")


class DisCase:
    def __init__(self, image, typ=None, columns=False, arrived=False, mode="reach", back=True):
        self.image, self.typ, self.columns, self.arrived = bytes(image), typ, columns, arrived
        self.mode, self.back = mode, back
        self.obs = None

    def write(self, root):
        self.root = root
        with open(os.path.join(root, "in.bin"), "wb") as h:
            h.write(self.image)

    def args(self):
        a = ["disassemble", "in.bin", "-o", "out.asm"]
        if self.typ:
            a += ["-t", self.typ]
        return a + (["-p"] if self.columns else []) + (["-a"] if self.arrived else [])

    def observe(self):
        rc, so, se = run_cli(self.args(), self.root)
        f = os.path.join(self.root, "out.asm")
        got = open(f, "rb").read() if os.path.exists(f) else None
        self.obs = observation(rc, got, so, se)
        self.stderr, self.text = se, None
        if self.obs["kind"] == "ok":
            self.text = got.decode("utf-8", errors="replace")
            back = {"kind": "none"}
            if self.back and not self.columns:
                b = os.path.join(self.root, "back.bin")
                rc, so, se = run_cli(["assemble", "out.asm", "-o", b], self.root)
                got = open(b, "rb").read() if os.path.exists(b) else None
                back = observation(rc, got, so, se)
                self.stderr = se
            self.obs = {"kind": "ok", "back": back}
        return self.obs

    @classmethod
    def shared(cls, cases, work):
        """Splits the constant tails off the listings."""
        tails = []
        for c in cases:
            c.tail = (0, c.text)
            if c.text is None:
                continue
            lines = c.text.split("\n")
            k = len(lines)
            while k > 0 and CONST.match(lines[k - 1]):
                k -= 1
            t = "\n".join(lines[k:])
            if t not in tails and len(tails) < 4:
                tails.append(t)
            if t in tails and t:
                c.tail = (1 + tails.index(t), "\n".join(lines[:k]))
        f = os.path.join(work, "tails.json")
        with open(f, "w") as h:
            for t in tails or [""]:
                h.write(json.dumps([ord(x) for x in "\n".join(
                    l[6:] if l.startswith("    | ") else l for l in t.split("\n"))]) + "\n")
        return {"TAILS": f}

    def record(self, ident):
        obs = dict(self.obs)
        if obs["kind"] == "ok":
            obs["tail"] = self.tail[0]
            obs["text"] = [ord(x) for x in self.tail[1]]
            obs["lines"] = [[ord(x) for x in line] for line in self.tail[1].split("\n")]
        return {"id": ident, "mode": self.mode, "len": len(self.image), "runs": runs_of(self.image),
                "entry": BIOS if self.typ == "bios" else ENTRY, "arrived": self.arrived,
                "columns": self.columns, "obs": obs}

    def replay(self):
        return {"command": self.args(), "image": self.image.hex() if len(self.image) < 3000 else
                {"length": len(self.image), "nonzero": [[a, bytes(b).hex()] for a, b in runs_of(self.image)]}}


# ---------------------------------------------------------------------------
SIZE = {}


def size_of(b):
    """Length of the instruction that starts with byte b."""
    if not SIZE:
        for x in range(256):
            h, l = x >> 4, x & 15
            if l == 0:
                n = {0: 1, 1: 3, 2: 3, 3: 1, 4: 1, 5: 1, 6: 2, 7: 2, 8: 2, 9: 2}.get(h, 1)
            elif l == 1:
                n = {0: 2, 1: 3, 2: 3, 3: 3, 4: 3, 5: 1, 12: 1}.get(h, 2)
                if h in (6, 7):
                    n = 2
            elif l in (2, 3):
                n = {2: 3, 3: 3, 4: 3, 5: 3}.get(h, 2)
            elif l in (4, 5, 6, 7):
                n = {2: 2, 3: 3, 4: 3, 5: 2}.get(h, 1)
            else:
                n = {4: 3, 5: 3, 6: 3, 7: 3, 8: 3, 9: 3}.get(h, 2)
            SIZE[x] = n
    return SIZE[b]


REL8_2 = [0x01, 0x80, 0x90, 0x54, 0x57]
REL8_3 = [0x31, 0x32, 0x33, 0x34, 0x36, 0x41, 0x42, 0x43, 0x45, 0x52, 0x53,
          0x48, 0x5a, 0x68, 0x7f, 0x88, 0x9c]
ENDS = [0xa0, 0xa0, 0xb0]


def branch(rnd, pos, to):
    """Some instruction at pos that leads to `to`, or None."""
    k = rnd.randrange(8)
    if k < 2:
        nxt = pos + 2
        if -128 <= to - nxt <= 127:
            return bytes([rnd.choice(REL8_2), (to - nxt) & 255])
    elif k < 4:
        nxt = pos + 3
        if -128 <= to - nxt <= 127:
            return bytes([rnd.choice(REL8_3), rnd.randrange(256), (to - nxt) & 255])
    elif k == 4:
        nxt = pos + 2
        if 0 <= to < 65536 and to >> 12 == nxt >> 12:
            return bytes([rnd.choice([0x28, 0x08]) | (to >> 7) & 0x10 | (to >> 8) & 7, to & 255])
    elif k == 5:
        if 0 <= to < 65536:
            return bytes([rnd.choice([0x20, 0x21]), to >> 8, to & 255])
    else:
        d = to - (pos + 2)
        if -32768 <= d <= 32767:
            return bytes([rnd.choice([0x10, 0x11]), d & 255, (d >> 8) & 255])
    return None


def plain(rnd):
    """Some instruction that just goes on."""
    while True:
        b = rnd.randrange(256)
        if b in (0x01, 0x11, 0x21, 0xa0, 0xb0) or b & 0xe8 == 0x28 or b in (0x10, 0x20) or b & 0xe8 == 8:
            continue
        n = size_of(b)
        if n == 3 and b not in (0x22, 0x23) or b in REL8_2 or b & 0xfc == 0x54:
            continue
        k = [b] + [rnd.choice([0, 1, 5, 0x0d, 0x55, 0x80, 0xff, rnd.randrange(256)]) for _ in range(n - 1)]
        return bytes(k)


def image(rnd, length=None, wild=.06):
    """An image with a little code at the entry points, some of it overlapping,
    and data, zero runs and loose ends between."""
    n = length or rnd.choice([1, 2, 3, 4, 6, 9, 12, 16, 20, 30, 50, 80, 120, 200, 310, 350, 420])
    m = bytearray(n)
    # data of all sorts
    p = 0
    while p < n:
        k = rnd.choice([1, 2, 3, 15, 16, 17, 30, 48])
        c = rnd.random()
        for q in range(p, min(n, p + k)):
            if c < .35:
                m[q] = 0
            elif c < .55:
                m[q] = rnd.randrange(32, 127)
            elif c < .8:
                m[q] = rnd.randrange(256)
            else:
                m[q] = rnd.choice([0xa0, 0xa0, 0xb0, 0, 1, 0xff])
        p += k
    spots = [e for e in ENTRY + BIOS if e < n]
    for _ in range(rnd.randrange(1, 8)):
        spots.append(rnd.randrange(n))

    def put(at, b):
        m[at:at + len(b)] = b[:max(0, n - at)]
        return at + len(b)
    for s in spots:
        at = s
        if rnd.random() < .12:
            continue
        for _ in range(rnd.choice([0, 0, 1, 1, 2, 3, 6])):
            r = rnd.random()
            if r < .45:
                at = put(at, plain(rnd))
            elif r < .5:
                at = put(at, bytes([0xb8, 0x0d]))            # not1 ext, 0
                to = rnd.choice(spots + [rnd.randrange(65536)])
                at = put(at, bytes([0x21, to >> 8, to & 255]))
            else:
                t = rnd.random()
                to = (rnd.choice(spots) if t < .6 else rnd.choice(spots) + rnd.choice([1, 2]) if t < .75
                      else at + rnd.randrange(-4, 6) if t < .85
                      else rnd.choice([n, n, n + 1, n - 1, 65535, 65536, -1, -2, 0]) if t < .95 else rnd.randrange(65536))
                b = branch(rnd, at, to)
                if b:
                    at = put(at, b)
        if rnd.random() > wild:
            at = put(at, bytes([rnd.choice(ENDS)]))
    if rnd.random() > .15:
        # a clean end, so that fewer images run out of code
        m[n - 1] = 0xa0
        if n > 2 and rnd.random() < .8:
            m[n - 2] = m[n - 3] = 0xa0
    return bytes(m)


def any_big_image(rnd):
    """A large, mostly empty image with far jumps to its edges."""
    n = rnd.choice([4096, 4097, 8192, 32768, 65535, 65536, 65536])
    m = bytearray(n)
    for e in BIOS:
        m[e] = 0xa0
    spots = [p for p in (0x200, 0x1ffd, 0xffe, 0x7ffe, 0x7fff, 0x8000, 0xfff0, n - 9, n - 4, n - 1) if p < n - 1]
    for s in spots:
        at = s
        for _ in range(rnd.randrange(4)):
            b = plain(rnd) if rnd.random() < .3 else branch(rnd, at, rnd.choice(
                spots + [n, n - 1, 0x1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, -1, -3]))
            if b and at + len(b) < n:
                m[at:at + len(b)] = b
                at += len(b)
        if at < n:
            m[at] = 0xa0
    s = rnd.choice(spots)
    m[0:3] = bytes([0x20, s >> 8, s & 255])
    for e in (3, 0xb, 0x13, 0x1b):
        s = rnd.choice(spots)
        m[e:e + 3] = bytes([0x21, s >> 8, s & 255])
    for _ in range(rnd.randrange(4)):
        p = rnd.randrange(0x200, n - 40)
        k = rnd.randrange(1, 40)
        m[p:p + k] = rnd.randbytes(k)
    m[n - 1] = rnd.choice([0xa0, 0xa0, 0, 0x21])
    return bytes(m)


def code_size(m, limit):
    """How many instructions are reachable, up to a limit (to keep cases small)."""
    seen, todo = set(), list(BIOS)
    while todo and len(seen) < limit:
        p = todo.pop()
        if p in seen or not 0 <= p < len(m):
            continue
        seen.add(p)
        b, n = m[p], size_of(m[p])
        x = m[p:p + n] + bytes(3)
        nxt = p + n
        if b & 0xe8 in (0x08, 0x28) and b < 0x40:
            todo.append((nxt & 0xf000) | (b & 0x10) << 7 | (b & 7) << 8 | x[1])
        elif b in (0x20, 0x21):
            todo.append(x[1] << 8 | x[2])
        elif b in (0x10, 0x11):
            todo.append((nxt - 1 + (x[1] | x[2] << 8)) & 0xffff)
        elif n > 1:
            todo.append(nxt + (x[n - 1] ^ 0x80) - 0x80)
        if not (b in (0x01, 0x11, 0x21, 0xa0, 0xb0) or b & 0xe8 == 0x28 and b < 0x40):
            todo.append(nxt)
    return len(seen)


def big_image(rnd):
    while True:
        m = any_big_image(rnd)
        if code_size(m, 700) < 700:
            return m


def lead(m, pos, nxt):
    """Where the instruction at pos leads, or None."""
    b, n = m[pos], nxt - pos
    if b & 0xe8 in (0x08, 0x28) and b < 0x40:
        return (nxt & 0xf000) | (b & 0x10) << 7 | (b & 7) << 8 | m[pos + 1]
    if b in (0x20, 0x21):
        return m[pos + 1] << 8 | m[pos + 2]
    if b in (0x10, 0x11):
        return (nxt - 1 + (m[pos + 1] | m[pos + 2] << 8)) & 0xffff
    if b in REL8_2 or b & 0xfc == 0x54 or n == 3:
        return nxt + (m[nxt - 1] ^ 0x80) - 0x80
    return None


def edge_image(rnd):
    """Instructions of all sorts that end around a page edge."""
    edges = sorted(rnd.sample([0x400, 0x800, 0x1000, 0x1000, 0x1800, 0x2000, 0x3000, 0x7000, 0x8000, 0x9000, 0xf000], 4))
    m = bytearray(edges[-1] + rnd.choice([4, 20, 0xff0]))
    for e in BIOS:
        m[e] = 0xa0
    m[0:3] = b"\x21\x02\x00"
    used, calls = set(), []
    for e in set(edges):
        b = rnd.choice([0x08, 0x18, 0x28, 0x38, 0x0f, 0x1a, 0x2d, 0x3f] * 2 + [0x10, 0x11, 0x01, 0x31, 0x42, 0x53, 0x68, 0x80, 0x22, 0x02])
        n = size_of(b)
        nxt = e + rnd.choice([-1, 0, 0, 0, 1, 1, 2])
        pos = nxt - n
        if set(range(pos - 1, nxt + 2)) & used:
            continue
        m[pos:nxt] = bytes([b] + [rnd.choice([0, 1, 0x7f, 0x80, 0xfe, 0xff, rnd.randrange(256)]) for _ in range(n - 1)])
        m[nxt] = m[nxt] or 0xa0
        t = lead(m, pos, nxt)
        if t is not None and 0 <= t < len(m) and m[t] == 0:
            m[t] = 0xa0
        used |= set(range(pos, nxt + 1)) | {t}
        calls.append(pos)
    at = 0x200
    for c in calls:
        m[at:at + 3] = bytes([0x20, c >> 8, c & 255])
        at += 3
    m[at] = 0xa0
    return bytes(m) if code_size(m, 700) < 700 else edge_image(rnd)


TYPES = [None, "game", "bios", "raw", "file"]


def straight(rnd, instrs):
    """The given instructions one after the other from 0x150 on, and a way there."""
    m = bytearray(0x150)
    for e in ENTRY:
        m[e] = 0xa0
    m[0:3] = bytes([0x21, 0x01, 0x50])
    for b in instrs:
        m += b
    return bytes(m + bytes([0xa0] * 3))


def decodings(rnd, tier):
    """C03: every first byte with operand bytes of all sorts; branches lead
    anywhere, also into the middle of other instructions."""
    vals = [0, 1, 2, 4, 8, 0x0d, 0x10, 0x20, 0x40, 0x55, 0x7f, 0x80, 0x81, 0xaa, 0xfe, 0xff]
    todo = []
    for b in range(256):
        n = size_of(b)
        if n == 1:
            ops = [()] * 2
        elif n == 2:
            ops = [(x,) for x in (range(256) if tier == "thorough" else vals)]
        else:
            ops = [(x, y) for x in vals for y in vals]
            ops = rnd.sample(ops, 100 if tier == "thorough" else 12) + [(rnd.randrange(256), rnd.randrange(256)) for _ in range(4)]
            ops += [(1, rnd.randrange(256))]    # the bits of the program status word
        todo += [(b,) + o for o in ops]
    # every address
    todo += [(b, x) for b in (0x02, 0x03) for x in range(256)]
    rnd.shuffle(todo)
    # Jumps would cut the code short: every instruction that ends a path is an entry of its own.
    cases, ends = [], []
    rest = []
    for t in todo:
        (ends if t[0] in (0x01, 0x11, 0x21, 0xa0, 0xb0) or t[0] & 0xe8 == 0x28 else rest).append(bytes(t))
    for k in range(0, len(rest), 20):
        cases.append(DisCase(straight(rnd, rest[k:k + 20]), mode="decode", back=False))
    for k in range(0, len(ends), 10):
        # bz skips over each of them
        seq = []
        for e in ends[k:k + 10]:
            seq += [bytes([0x80, len(e)]), e]
        cases.append(DisCase(straight(rnd, seq), mode="decode", back=False))
    for _ in range(60 if tier == "quick" else 500):
        cases.append(DisCase(image(rnd), typ=rnd.choice(TYPES), mode="decode", back=False))
    for _ in range(36 if tier == "quick" else 300):
        cases.append(DisCase(edge_image(rnd), mode="decode", back=False))
    return cases


def meeting_image(rnd):
    """Many branches that meet again."""
    m, n = bytearray(), rnd.choice([70, 200, 330])
    while len(m) < n:
        m += rnd.choice([b"\x80\x00", b"\x80\x01\x00", b"\x90\x02\x80\x00", b"\x41\x05\x00", b"\x68\x05\x01\x00",
                         b"\x80\x02\x01\x00", b"\x31\x01\xfd", b"\x90\x00", b"\x53\x05\x00"])
    return bytes(m) + b"\xa0" * 130


def switch_image(rnd, at):
    """The switch to flash memory before a far jump, or something like it, at
    a position, with code where the jump leads."""
    m = bytearray(b"\xa0" * 0x150)
    if rnd.random() < .5:
        m[0x10d - 1:] = b"\xb8\x0d\xa0" + bytes([0] * 70)
    to = rnd.choice([0x60, 0x61, 0x120, at + 5, at + 6, 0x1fff])
    first = rnd.choice([b"\xb8\x0d"] * 6 + [b"\xb9\x0d", b"\xb8\x0c", b"\xa8\x0d", b"\x98\x0d", b"\xf8\x0d", b"\xd8\x0d", b"\xb8\x8d",
                        b"\xbc\x0d", b"\xd9\x0d", b"\x21\xb8\x0d", b"\x23\xb8\x0d", b"\xb8\x0d\x00", b"\xb8\x0d\x00\x00", b"\x60\xb8\x60\x0d", b""])
    jump = rnd.choice([b"\x21"] * 5 + [b"\x20"]) + bytes([to >> 8, to & 255])
    if rnd.random() < .1:
        jump = rnd.choice([bytes([0x28 | (to >> 7) & 0x10 | (to >> 8) & 7, to & 255]), b"\x01\x10", b"\x11\x10\x00"])
    b = first + jump + bytes([0xa0])
    m[at:at + len(b)] = b
    if 2 < to < 0x150 and to not in range(at, at + len(b)):
        m[to:to + 3] = b"\x81\x05\xa0"                 # add #5
    typ = rnd.choice(TYPES)
    if at > 2 and rnd.random() < .8:
        m[0:2] = bytes([0x28 | (at >> 7) & 0x10 | (at >> 8) & 7, at & 255])
    return bytes(m), typ


def tracings(rnd, tier):
    """C12."""
    cases = []
    for at in list(range(0, 12)) * (1 if tier == "quick" else 20) + [rnd.randrange(0x13c) for _ in range(30 if tier == "quick" else 400)]:
        m, t = switch_image(rnd, at)
        cases.append(DisCase(m, typ=t, columns=rnd.random() < .2, arrived=rnd.random() < .5, mode="reach", back=False))
    for _ in range(12 if tier == "quick" else 80):
        cases.append(DisCase(meeting_image(rnd), typ=rnd.choice(TYPES), arrived=rnd.random() < .5, mode="reach", back=False))
    for _ in range(420 if tier == "quick" else 3000):
        cases.append(DisCase(image(rnd), typ=rnd.choice(TYPES), columns=rnd.random() < .4,
                             arrived=rnd.random() < .5, mode="reach", back=False))
    for _ in range(6 if tier == "quick" else 60):
        cases.append(DisCase(big_image(rnd), typ=rnd.choice(TYPES), columns=rnd.random() < .4,
                             arrived=rnd.random() < .5, mode="reach", back=False))
    for _ in range(12 if tier == "quick" else 120):
        cases.append(DisCase(edge_image(rnd), mode="reach", arrived=rnd.random() < .5, back=False))
    return cases


def round_trips(rnd, tier):
    """C11."""
    cases = []
    for _ in range(400 if tier == "quick" else 3000):
        cases.append(DisCase(image(rnd), typ=rnd.choice(TYPES), columns=rnd.random() < .2,
                             arrived=rnd.random() < .3, mode="round"))
    for _ in range(12 if tier == "quick" else 120):
        cases.append(DisCase(big_image(rnd), typ=rnd.choice(TYPES), columns=rnd.random() < .2,
                             arrived=rnd.random() < .5, mode="round"))
    for _ in range(12 if tier == "quick" else 120):
        cases.append(DisCase(edge_image(rnd), mode="round"))
    for n in range(1, 40):
        cases.append(DisCase(rnd.randbytes(n), mode="round"))
        cases.append(DisCase(bytes(rnd.choice([0, 0xa0, 0x01, 0x21, 0xff, 0xb8, 0x0d]) for _ in range(n)), mode="round"))
    cases.append(DisCase(b"", mode="round"))
    return cases
