"""Histories of commands on a file system (C13, C18)."""
import json, os, random, re
import wb
from wb import run_cli, tlc, ToolError
import vmi, pics, gen, dis

FORMATS_JSON = ["json", "json-pretty"]
UNIQUE = re.compile(rb"_[0-9a-f]{32}(?![0-9a-f])")


def plain(cmd, text):
    """What a command printed, without what is not meant to be repeatable: the
    random part of generated labels, and comments, which hold paths."""
    if cmd == "expand":
        seen = {}
        text = UNIQUE.sub(lambda m: b"_%032x" % seen.setdefault(m.group(0), len(seen)), text)
    if cmd in ("icon", "expand"):
        text = b"".join(l for l in text.splitlines(True) if not l.lstrip().startswith(b";"))
    return text


class Step:
    """One command.  to: "file", "stdout", "saved" or "full"; @ROOT@ in paths."""
    def __init__(self, cmd, inp="", out="", opts=(), pre=(), valid=True, cwd="", to="file", also=(), env=None,
                 data=None, path=None, raw=None, old=False, label=""):
        self.cmd, self.inp, self.out, self.opts, self.valid = cmd, inp, out, list(opts), valid
        self.cwd, self.to, self.also, self.env, self.pre = cwd, to, list(also), dict(env or {}), list(pre)
        self.data, self.path, self.raw, self.old, self.label = data, path, raw, old, label

    def args(self, root):
        if self.raw is not None:
            return [x.replace("@ROOT@", root) for x in self.raw]
        a = [self.cmd] + self.opts
        if self.out and self.to == "file":
            a += ["-o", self.out]
        a += ["--", self.inp] if self.inp.startswith("-") else [self.inp]
        return [x.replace("@ROOT@", root) for x in a]

    def replay(self):
        if self.cmd == "edit":
            return {"edit": self.path, "content": None if self.data is None else
                    self.data.decode("utf-8", errors="backslashreplace")[:2000]}
        return {"command": self.args("@ROOT@"), "cwd": self.cwd, "env": self.env, "to": self.to, "saved_as": self.out}


class Session:
    """files: {path below the root: bytes}; steps one after the other."""
    def __init__(self, files, steps, dirs=(), tag=None):
        self.files, self.steps, self.dirs, self.tag = files, steps, list(dirs), tag
        self.obs, self.stderr = None, b""

    def write(self, root):
        self.root = root
        for d in self.dirs + [".home", ".tmp"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for p, b in self.files.items():
            f = os.path.join(root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as h:
                h.write(b)

    def tree(self):
        files, dirs = {}, []
        for d, ds, fs in os.walk(self.root):
            dirs.append(d)
            if ".many" in ds:
                ds.remove(".many")           # not worth listing
            for f in fs:
                with open(os.path.join(d, f), "rb") as h:
                    files[os.path.join(d, f)] = h.read(1 << 24)
        return files, dirs

    def ident(self, data):
        if data not in self.ids:
            self.ids[data] = len(self.ids) + 1
        return self.ids[data]

    def comps(self, f):
        return [[ord(x) for x in c] for c in f.split("/") if c]

    def path(self, rel):
        return os.path.normpath(os.path.join(self.root, rel)) if rel else self.root

    def observe(self):
        self.ids = {}
        now, dirs = self.tree()
        up = self.root
        self.known_dirs = list(dirs)
        while up != "/":
            up = os.path.dirname(up)
            self.known_dirs.append(up)
        self.start = [[f, self.ident(b)] for f, b in sorted(now.items())]
        self.log, self.obs = [], {"kind": "ok", "steps": 0}
        for s in self.steps:
            if s.cmd == "edit":
                f = self.path(s.path)
                if s.data is None:
                    if os.path.exists(f):
                        os.unlink(f)
                        del now[f]
                    self.log.append({"cmd": "edit", "c": self.comps(f), "x": 0})
                else:
                    with open(f, "wb") as h:
                        h.write(s.data)
                    if s.old:
                        os.utime(f, (10**9, 10**9))
                    now[f] = s.data
                    self.log.append({"cmd": "edit", "c": self.comps(f), "x": self.ident(s.data)})
                continue
            cwd = self.path(s.cwd)
            env = {"HOME": self.path(".home"), "TMPDIR": self.path(".tmp"), "XDG_CACHE_HOME": self.path(".home"),
                   "LD_PRELOAD": vmi.SHIM, "FAKE_TIME": "1700000000"}
            env.update({k: v.replace("@ROOT@", self.root) for k, v in s.env.items()})
            rc, so, se = run_cli(s.args(self.root), cwd, env_extra=env, stdout="/dev/full" if s.to == "full" else None)
            so = plain(s.cmd, so)
            after, dirs2 = self.tree()
            changes = [[f, self.ident(after[f]) if f in after else 0]
                       for f in sorted(set(after) | set(now)) if after.get(f) != now.get(f)]
            changes += [[d, -1] for d in sorted(set(dirs2) ^ set(dirs))]
            if s.to == "saved" and rc == 0:
                f = os.path.join(cwd, s.out.replace("@ROOT@", self.root))
                f = os.path.normpath(f)
                with open(f, "wb") as h:
                    h.write(so)
                if now.get(f) != so:
                    changes.append([f, self.ident(so)])
                after[f] = so
            now, dirs = after, dirs2
            code = -1 if rc == "timeout" else rc if 0 <= rc < 256 else 256
            panic = b"panicked at" in se or b"overflowed its stack" in se
            self.log.append({
                "cmd": s.cmd, "opts": " ".join(s.opts), "valid": s.valid, "cwd": self.comps(cwd),
                "input": [ord(x) for x in s.inp.replace("@ROOT@", self.root)],
                "out": [ord(x) for x in s.out.replace("@ROOT@", self.root)], "to": s.to,
                "also": [self.comps(self.path(a)) for a in s.also],
                "obs": {"rc": code, "panic": panic, "said": bool(se.strip()),
                        "stdout": self.ident(so) if so and s.to != "full" else 0,
                        "changes": [{"c": self.comps(f), "x": x} for f, x in changes]}})
            self.obs["steps"] += 1
            self.stderr = se
            if rc != 0:
                self.obs["kind"] = "fail"
            if code not in (0, 1) or panic:
                # Judged as it is; going on makes no sense.
                self.obs["kind"] = "hang" if code == -1 else "crash"
                break
        return self.obs

    def record(self, ident):
        texts = []
        for b in self.ids:
            try:
                b.decode("utf-8")
                texts.append(True)
            except UnicodeDecodeError:
                texts.append(False)
        cols = sorted({l["opts"] for l in self.log if l["cmd"] == "disassemble" and re.search(r"(^| )(-p|--positions)", l["opts"])})
        js = sorted({l["opts"] for l in self.log if "json" in l.get("opts", "")})
        return {"id": ident, "files": [{"c": self.comps(f), "x": x} for f, x in self.start],
                "dirs": [self.comps(d) for d in self.known_dirs],
                "len": [len(b) for b in self.ids], "text": texts, "steps": self.log, "columns": cols, "json": js}

    def replay(self):
        return {"files": {p: b.decode("utf-8") if gen_is_text(b) else {"hex": b[:4000].hex()} for p, b in self.files.items()},
                "dirs": self.dirs, "steps": [s.replay() for s in self.steps[:len(self.log)]]
                if self.obs else [s.replay() for s in self.steps], "tag": self.tag,
                "last_error": self.stderr.decode(errors="replace")[-600:]}


def gen_is_text(b):
    try:
        b.decode("utf-8")
        return len(b) < 4000
    except UnicodeDecodeError:
        return False


# ---------------------------------------------------------------------------
# C18: walks through the transitions that TLC finds in Plans.
EDGE = re.compile(r'^"EDGE (.*)"$', re.M)


def plans():
    r = tlc("Plans", "Plans.cfg")
    if r.broken:
        raise ToolError("Plans breaks its own invariant %s" % r.broken)
    graph = {}
    for m in EDGE.finditer(r.out):
        s, n, slot, t = json.loads(json.loads('"%s"' % m.group(1)))
        graph.setdefault(json.dumps(s), []).append((n, slot, json.dumps(t)))
    for k in graph:
        graph[k] = sorted(set(graph[k]))
    return graph, r


ENTRIES = "".join(" .org %d\n reti\n" % e for e in dis.ENTRY)
INC = {
    "v1": 'limit = 7\n%macro twice %a, %b\n mov %a, %b\n.l%\n dbnz %b, .l%\nq%:\n mov %a, 1\n br q%\n%end\n',
    "v2": 'extra = 3\nlimit = 12 + extra\n%macro twice %a, %b\n.l%:\n nop\n mov %a, %b\n add %a\n dbnz %b, .l%\n%end\n',
    "bad": 'limit = 1\n%macro twice %a, %b\n mov %a, %b\n br nowhere\n%end\n',
}
MAIN = (ENTRIES + ' .org $200\n.include cpp "defs.h"\n'
        "start: twice #limit, 5\n twice #WIDTH, 6\n.x: callf start\n call .x\n br .x\n jmpf helper\n"
        "helper: mov #<table, 3\n mov #>table, 4\n twice #1, 9\n ret\ntable:\n .byte limit, WIDTH, -1, \"text\", 0\n"
        '.include bytes "sub/blob.bin"\n .word start, helper, table, $1234\n'
        '.include sprite "sub/pic.png"\n').encode()
# The include has to come first: macros and constants of the program.
MAIN = b'.include "sub/defs.inc"\n' + MAIN
DEFS_H = b"/* sizes */\n#define WIDTH (3 + 2) // five\n#define HEIGHT 4\n"


def project(r, version):
    g = gen.G(r)
    return {"main.asm": MAIN, "sub/defs.inc": INC[version].encode(), "defs.h": DEFS_H,
            "sub/blob.bin": bytes((i * 37 + i // 7) & 255 for i in range(300)),
            "sub/pic.png": pics.picture(g, 8, 3, 3).data()}


def other(r):
    """A larger program with many labels, constants and branches."""
    ls = [ENTRIES, " .org 0\n jmpf big0\n .org $300\n"]
    for k in range(120):
        ls.append("big%d:\n mov #%d, %d\n.loop:\n dbnz %d, .loop\n bne #%d, big%d\n jmpf big%d\n" % (
            k, k, k, k % 4 + 2, k, max(0, k - 5), (k * 7 + 1) % 120))
        ls.append("c%d = %s + %d\n" % (k, "c%d" % (k - 1) if k else "0", k))
    ls.append("big120: ret\n .byte " + ", ".join("<c%d" % k for k in range(120)) + "\n .org $2000\n .text 40 \"end\"\n")
    return "".join(ls).encode()


ENVS = [{}, {}, {"PWD": "/"}, {"PWD": "@ROOT@/proj/sub"}, {"LANG": "C", "LC_ALL": "C"}, {"TZ": "EST5EDT"}, {"COLUMNS": "20"},
        {"RUST_BACKTRACE": "1"}, {"NO_COLOR": "1"}, {"CLICOLOR_FORCE": "1", "TERM": "xterm-256color"}, {"HOME": "/"},
        {"OLDPWD": "@ROOT@/proj"}]


def spelled(r, cwd, target):
    """Some spelling of the path target (below the root) as seen from cwd."""
    k = r.random()
    if k < .3:
        return "@ROOT@/" + target
    p = os.path.relpath(target, cwd or ".")
    if k < .5:
        return "./" + p
    if k < .6:
        d, f = os.path.split(p)
        return (d + "/" if d else "") + "./" + f
    if k < .7:
        # through a directory and back
        return os.path.relpath("proj/sub/../../" + target, cwd or ".") if False else \
            os.path.join(os.path.relpath("proj/sub", cwd or "."), "../..", target)
    if k < .75:
        return "@ROOT@//" + target
    return p


CWDS = ["", "proj", "proj/sub", "work", "far/proj copy", "far"]


# Files that the vmi command is run on without an output name.
SAVES = ["work/save.vmi", "work/game.VMS", "work/one.two.bin", "work/plain", "far/in.vms", "far/two.vms.vms", "work/.vms", "work/x.vms.bak"]


def walk_steps(r, path, start_src):
    """The commands for a walk through the plans."""
    steps = []
    slots = {"a": "work/a.out", "b": "far/b.out"}
    for n, slot, t in path:
        cwd = r.choice(CWDS)
        env = r.choice(ENVS)
        if n == "source":
            for d in ("proj", "far/proj copy"):
                steps.append(Step("edit", path=d + "/sub/defs.inc", data=INC[slot].encode(), old=r.random() < .5))
            continue
        x, y = slots[slot], slots["b" if slot == "a" else "a"]
        pr = r.choice(["proj", "far/proj copy"])
        also = [pr + "/" + f for f in ("defs.h", "sub/blob.bin", "sub/defs.inc", "sub/pic.png")]
        sp = lambda p: spelled(r, cwd, p)
        kw = {"cwd": cwd, "env": env}
        if n == "asm":
            steps.append(Step("assemble", sp(pr + "/main.asm"), sp(x), also=also, **kw))
        elif n == "asmother":
            steps.append(Step("assemble", sp("work/q.asm"), sp(x), **kw))
        elif n == "asmbad":
            steps.append(Step("assemble", sp(r.choice(["work/bad1.asm", "work/bad2.asm", "work/bad3.asm"])), sp(x), **kw))
        elif n == "asmgone":
            steps.append(Step(r.choice(["assemble", "disassemble", "vmi"]), sp("work/gone.asm"), sp(x), **kw))
        elif n == "expand":
            steps.append(Step("expand", sp(pr + "/main.asm"), sp(x), to="saved", also=also, **kw))
        elif n == "icon":
            steps.append(Step("icon", sp("work/icon.png"), sp(x), to="saved", opts=r.choice([[], ["-s", "10"]]), **kw))
        elif n == "sprite":
            steps.append(Step("image", sp(pr + "/sub/pic.png"), sp(x), opts=r.choice([[], ["-f", "1bit-asm-masked"]]), **kw))
        elif n == "iconbad":
            steps.append(Step("icon", sp(r.choice(["work/small.png", "work/q.asm"])), sp(x), to="saved", **kw))
        elif n == "disbad":
            steps.append(Step("disassemble", sp("work/q.asm"), sp(x), opts=["-t", "vms"], valid=False, **kw))
        elif n == "edit":
            k = r.choice([0, 10, 500, 20000])
            steps.append(Step("edit", path=x, data=r.choice([b"junk\n", b"\xff\x00junk", b" nop\n"]) * k, old=r.random() < .5))
        elif n == "remove":
            steps.append(Step("edit", path=x, data=None))
        elif n == "asmtext":
            steps.append(Step("assemble", sp(y), sp(x), **kw))
        elif n == "dis":
            steps.append(Step("disassemble", sp(y), sp(x), opts=r.choice([[], ["-t", "game"], ["-a"], ["-t", "bios", "-a"]]), **kw))
        elif n == "vmi":
            steps.append(Step("vmi", sp(y), sp(x), opts=r.choice([[], ["-g"], ["-c", "me"]]), cwd=cwd,
                              env={k: v for k, v in env.items() if k != "TZ"}))
        else:
            raise ToolError("plan " + n)
        if r.random() < .12 and steps[-1].cmd != "edit":
            steps.append(steps[-1])            # and once more
        if n in ("asm", "asmother") and r.random() < .15:
            # in place: the input is the output
            steps.append(Step("disassemble", sp(x), sp(x), opts=r.choice([[], ["-t", "game"]]), **kw))
            steps.append(Step("assemble", sp(x), sp(x), **kw))
        if r.random() < .06:
            # without the name of an output
            steps.append(Step("vmi", sp(r.choice(SAVES)), cwd=cwd, env={k: v for k, v in env.items() if k != "TZ"}))
    return steps


def histories(rnd, tier):
    vmi.build_shim()
    graph, r = plans()
    start = json.dumps([["none"], ["none"], "v1"])
    left = {(s, e) for s in graph for e in graph[s]}
    total, length = len(left), 45
    limit = 90 if tier == "quick" else 10**9
    g = gen.G(rnd)
    files = {}
    for p in ("proj/", "far/proj copy/"):
        files.update({p + f: b for f, b in project(random.Random(5), "v1").items()})
    # The same names in other directories, which nobody asks for.
    wrong = project(random.Random(6), "v2")
    for p in ("", "work/", "far/", "proj/sub/"):
        files[p + "sub/defs.inc"] = INC["v2"].replace("12", "44").encode()
        files[p + "defs.h"] = DEFS_H.replace(b"3 + 2", b"9 + 2")
        files[p + "sub/blob.bin"] = bytes(7 for _ in range(300))
        files[p + "sub/pic.png"] = wrong["sub/pic.png"]
    files["work/q.asm"] = other(rnd)
    for k, f in enumerate(SAVES):
        files[f] = bytes([65 + k]) * (300 + k)
    files["work/bad1.asm"] = b" .byte 1\n mov #300, 5\n"
    files["work/bad2.asm"] = b" .byte nowhere\n"
    files["work/bad3.asm"] = b'.include "q2.asm"\n'
    files["work/icon.png"] = pics.picture(g, 32, 32, 5, 2).data()
    files["work/small.png"] = pics.picture(g, 30, 32, 3).data()
    cases = []
    while left and len(cases) < limit:
        at, path = start, []
        while len(path) < length:
            fresh = [e for e in graph[at] if (at, e) in left]
            if fresh:
                e = rnd.choice(fresh)
            else:
                # The shortest way to something new.
                seen, todo, found = {at: None}, [at], None
                for s in todo:
                    if any((s, e) in left for e in graph[s]):
                        found = s
                        break
                    for e in graph[s]:
                        if e[2] not in seen:
                            seen[e[2]] = (s, e)
                            todo.append(e[2])
                if found is None:
                    break
                way = []
                while seen[found]:
                    found, e = seen[found][0], seen[found][1]
                    way.append((found, e))
                s, e = way[-1]
            left.discard((at, e))
            path.append(e)
            at = e[2]
        cases.append(Session(files, walk_steps(rnd, path, "v1"), dirs=["work", "far"]))
    histories.note = "%d of %d transitions of Plans taken" % (total - len(left), total)
    return cases


# ---------------------------------------------------------------------------
# C13: anything at all.
ODD = ["\"", "'", "%", "$", "#", "@", "@R", "(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "..", "*", "/", "+", "-", "<", ">", "&", "|",
       "^", "=", "\\", "\\x", "!", "~", "?", "\0", "\t", "\r", "\n", "\r\n", "\u00e9", "\u6f22", "\U0001f600", "e\u0301", "\u200d", "\ufeff",
       "\u2028", "\x7f", "%macro ", "%end", ".include ", ".byte ", ".org ", ".cnop ", ".word ", ".text ", ".string ", " equ ", "0x", "0b2",
       "$FFFF", "-1", "256", "acc", "b", "C", "nop", "@R0", "#1", "a%", "%a", "x:", ".l:", "\"\\", "''", "0o9", "1'", "%2", "cpp \"", "icon",
       "sprite", "asm", "bytes", "speed=\"1\"", "eyecatch=\"e.png\"", "type=\"masked\"", "no_header=\"x\"", "/*", "*/", "//", "#define X"]


def tame(text):
    """Keeps positions and lengths small enough for the machine."""
    out = []
    for l in text.split("\n"):
        n = sum(c in "0123456789abcdefABCDEF" for c in l.split(";")[0])
        if re.search(r"\.(org|cnop|text|string)", l, re.I) and (n > 12 or "*" in l or re.search(r"[0-9a-fA-F']{7,}", l)):
            continue
        out.append(l)
    return "\n".join(out)


def hurt(r, text):
    """A few random edits of a text."""
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        k = r.randrange(len(text) + 1)
        e = r.randrange(6)
        if e == 0:
            text = text[:k] + text[k + r.choice([1, 1, 2, 5, 30]):]
        elif e == 1:
            text = text[:k] + r.choice(ODD) + text[k:]
        elif e == 2:
            text = text[:k] + r.choice(ODD) + text[k + 1:]
        elif e == 3:
            j = r.randrange(len(text) + 1)
            text = text[:k] + text[j:j + r.randrange(1, 25)] + text[k:]
        elif e == 4:
            text = text[:k]
        else:
            ls = text.split("\n")
            a, b = r.randrange(len(ls)), r.randrange(len(ls))
            ls[a], ls[b] = ls[b], ls[a]
            text = "\n".join(ls)
    return tame(text)


def hurt_bytes(r, data):
    m = bytearray(data)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        if not m:
            break
        k = r.randrange(len(m))
        e = r.randrange(5)
        if e == 0:
            m[k] ^= 1 << r.randrange(8)
        elif e == 1:
            m[k] = r.choice([0, 1, 0x7f, 0x80, 0xff])
        elif e == 2:
            del m[k:]
        elif e == 3:
            del m[k:k + r.randrange(1, 9)]
        else:
            m[k:k] = r.randbytes(r.randrange(1, 9))
    return bytes(m)


class Soup:
    def __init__(self, rnd):
        self.r, self.g = rnd, gen.G(rnd)
        self.programs = []
        for fn, k in ((gen.layout, 60), (gen.names, 60), (gen.expressions, 60), (gen.tokens, 120), (gen.data_items, 60),
                      (gen.operands, 60), (gen.includes, 150)):
            cs = fn(rnd, "quick")
            rnd.shuffle(cs)
            self.programs += [(c.files, c.main) for c in cs[:k]]
        self.pictures = [pics.picture(self.g, w, h, n, f, fmt).data() for w, h, n, f, fmt in (
            (32, 32, 3, 1, "png"), (32, 32, 16, 2, "gif"), (32, 32, 5, 3, "png"), (8, 8, 2, 1, "bmp"), (72, 56, 20, 1, "png"),
            (1, 1, 1, 1, "gif"), (9, 2, 3, 1, "indexed"), (32, 32, 4, 1, "rgb"), (5, 5, 3, 1, "gray"), (4, 4, 2, 1, "graya"))]
        self.pictures.append(b"GIF89a\x01\x00\x01\x00\x80\x00\x00\x00\x00\x00\xff\xff\xff;")
        self.pictures.append(b"")

    def program(self):
        """(files, main)"""
        r = self.r
        k = r.random()
        if k < .55:
            files, main = r.choice(self.programs)
            files = dict(files)
        elif k < .75:
            files, main = {"main.asm": gen.macro_program(self.g, fault=r.choice([None] + list(range(1, 17))))}, "main.asm"
        else:
            ls = ["".join(r.choice(ODD + [" ", " ", "\n"]) for _ in range(r.randrange(1, 60)))]
            files, main = {"main.asm": tame("".join(ls))}, "main.asm"
        files = {p: (d.encode() if isinstance(d, str) else d if isinstance(d, bytes) else d.data()) for p, d in files.items()}
        files = {p: d for p, d in files.items() if b"@ROOT@" not in d}
        if main not in files:
            files[main] = b" nop\n"
        for p in list(files):
            if r.random() < (.6 if p == main else .25):
                try:
                    files[p] = hurt(r, files[p].decode("utf-8")).encode("utf-8", "replace")
                except UnicodeDecodeError:
                    pass
                if r.random() < .04:
                    files[p] = hurt_bytes(r, files[p])
                if r.random() < .05:
                    ls = files[p].split(b"\n")
                    files[p] = b"\n".join(ls * r.choice([2, 30]))
        return files, main

    def binary(self):
        r = self.r
        k = r.randrange(10)
        if k < 3:
            return dis.image(r)
        if k == 3:
            return r.randbytes(r.choice([0, 1, 2, 47, 48, 559, 560, 3000, 70000]))
        if k == 4:
            return bytes([r.choice([0x80, 0x90, 0x01, 0x31]), r.choice([0, 0, 1, 2, 0xfe])]) * r.choice([30, 100, 5000, 40000])
        if k == 5:
            # branches that meet again
            m = bytearray()
            while len(m) < 900:
                m += r.choice([b"\x80\x00", b"\x80\x01\x00", b"\x90\x02\x80\x00", b"\x41\x05\x00", b"\x68\x05\x01\x00", b"\x08\x00"])
            return bytes(m) + b"\xa0" * 200
        if k == 6:
            return bytes(r.choice([0, 0xa0, 0x80, 0x01, 0x21, 0x20, 0xff, 0xb8, 0x0d]) for _ in range(r.choice([5, 60, 600])))
        if k == 7:
            return dis.big_image(r)
        if k == 8:
            return hurt_bytes(r, dis.image(r))
        return bytes(r.choice([65535, 65536, 65537, 131072])) if r.random() < .5 else b"\xa0" * r.choice([300, 65536, 65540])

    def picture(self):
        p = self.r.choice(self.pictures)
        return hurt_bytes(self.r, p) if self.r.random() < .6 else p

    def output(self, always=True):
        """Where to write to."""
        return self.r.choice(["o.out"] * 6 + ["@ROOT@/o.out", "old.out", "old.out", "outs/o.out", "outs/../o2.out"]
                             + (["outs", "none/o.out", "old.out/o.out", "outs/", "@ROOT@", "/dev/full"] if always and self.r.random() < .5 else []))

    def case(self):
        r = self.r
        cmd = r.choice(["assemble"] * 5 + ["expand"] * 3 + ["disassemble"] * 4 + ["icon"] * 2 + ["image"] * 3 + ["vmi"] * 2)
        files, dirs, also, steps, valid, opts = {"old.out": b"previous\n" * 40}, ["outs", "elsewhere"], [], [], True, []
        cwd = r.choice(["", "", "elsewhere"])
        to = "file"
        if cmd in ("assemble", "expand"):
            fs, main = self.program()
            fs = {"p/" + p: d for p, d in fs.items()}
            files.update(fs)
            dirs += ["p/sub/deep", "p/other dir", "p/proj/sub/deep"]
            inp, also = "p/" + main, sorted(fs)
        elif cmd in ("icon", "image"):
            files["p.png"] = self.picture()
            files["e.png"] = self.picture()
            inp = "p.png"
        else:
            inp = r.choice(["in.vms"] * 6 + ["a.vms", "in", ".vms", "x.vmi", "x.VMS", "a.b.vms", "a.vms.vms", "vms", "a.vms.bak", "a.b",  "seven77\u00e9.vms", "twelve bytes\u6f22.vms", "elevenbytes\u00e9", "\U0001f600.vms"])
            files[inp] = self.binary()
        k = r.random()
        if k < .04:
            inp = "outs"
        elif k < .07:
            inp = "missing.bin"
        elif k < .08:
            inp = "old.out/x"
        if cmd in ("expand", "icon"):
            to = "full" if r.random() < .08 else "stdout"
        elif cmd == "image":
            to = r.choice(["file", "file", "stdout"]) if r.random() > .05 else "full"
        if cmd == "icon":
            if r.random() < .4:
                s = r.choice(["0", "1", "65535", "65536", "-1", "x", "", "1.5", "99999999999999999999", " 1", "+3"])
                opts += ["--speed=" + s] if s else ["--speed", ""]
                valid = valid and s in ("0", "1", "65535", "+3")
            if r.random() < .5:
                opts += ["-e", os.path.join("..", "e.png") if cwd else r.choice(["e.png", "missing.png", "outs"])]
                also += ["e.png"]
                if "e.png" not in opts[-1]:
                    valid = False
        elif cmd == "image":
            if r.random() < .8:
                opts += ["-f", r.choice(["json", "json-pretty", "1bit-asm", "1bit-asm-masked", "nosuch", ""])]
        elif cmd == "disassemble":
            if r.random() < .6:
                t = r.choice(["game", "bios", "raw", "file", "vms", "", "GAME"])
                opts += ["-t", t]
                valid = valid and t in ("game", "bios", "raw", "file")
            opts += r.choice([[], ["-p"], ["-a"], ["-p", "-a"]])
        elif cmd == "vmi":
            opts += r.choice([[], ["-g"]]) + r.choice([[], [], ["-c", "x" * r.choice([0, 1, 31, 32, 33, 40])],
                                                  ["-c", "x" * r.choice([0, 8, 29, 30, 31, 32]) + r.choice(["\u00e9", "\u6f22", "\U0001f600"])]])
        out = self.output(cmd in ("vmi", "image", "disassemble")) if to == "file" else ""
        if cmd == "vmi" and r.random() < .3:
            out = ""
        if cwd:
            inp = "../" + inp
            out = out if not out or out.startswith(("@", "/")) else "../" + out
        s = Step(cmd, inp, out, opts=opts, valid=valid, cwd=cwd, to=to, also=also, env=r.choice(ENVS))
        steps = [s]
        if r.random() < .3:
            # expand or assemble the same, or the same once more
            if cmd in ("assemble", "expand"):
                steps.append(Step("expand" if cmd == "assemble" else "assemble", inp, "" if cmd == "assemble" else "o9.out",
                                  to="stdout" if cmd == "assemble" else "file", cwd=cwd, also=also))
                if cmd == "assemble":
                    steps[-1].to = "saved"
                    steps[-1].out = "../e.out" if cwd else "e.out"
                    steps.append(Step("assemble", "e.out", "f.out"))
            else:
                steps.append(s)
        if cmd == "disassemble" and "-p" not in opts and len(files.get(inp, b"")) <= 65536 and r.random() < .5 and out == "o.out" and not cwd:
            steps.append(Step("assemble", "o.out", "f.out"))
        return Session(files, steps, dirs)


USAGE = [[], ["nosuch"], ["assemble"], ["assemble", "old.out"], ["assemble", "-o", "x.out"], ["disassemble", "old.out"], ["expand"], ["icon"],
         ["image"], ["vmi"], ["assemble", "old.out", "-o"], ["assemble", "old.out", "-o", "x.out", "--nosuch"],
         ["assemble", "old.out", "extra", "-o", "x.out"], ["expand", "old.out", "-o", "x.out"], ["disassemble", "old.out", "-o", "x.out", "-t"],
         ["vmi", "-c"], ["-x"], ["icon", "old.out", "-s"], ["assemble", "old.out", "-o", "x.out", "-o", "y.out"],
         # arguments that are not UTF-8
         ["assemble", "old\udcff.out", "-o", "x.out"], ["assemble", "old.out", "-o", "x\udce9.out"], ["\udcff"], ["expand", "\udcc3"],
         ["vmi", "old.out", "-c", "\udc80"], ["disassemble", "old.out", "-t", "\udcff", "-o", "x.out"], ["icon", "-e", "\udcff", "old.out"],
         ["image", "old.out", "-f", "json\udcff"], ["assemble", "old.out", "--\udcff", "-o", "x.out"]]


NOWHERE = ["/dev/full", "outs", "outs/", "none/o.out", "old.out/o.out", "@ROOT@"]


def hopeless(r):
    """Every command on good input with every output that cannot be written."""
    cases = []
    g = gen.G(r)
    some = [pics.picture(g, w, h, n, f, fmt).data() for w, h, n, f, fmt in ((32, 32, 9, 1, "png"), (32, 32, 4, 3, "gif"))]
    prog = ENTRIES + r.choice(["", " .org 200\n .byte 1\n", " .org 65535\n .byte 1\n"])
    for image in (b"\xa0", b"\xa0" * 1000, bytes(r.randrange(256) for _ in range(40)) + b"\xa0" * 3, b"\xa0" * 65536):
        for o in NOWHERE:
            for opts in ([], ["-p"], ["-p", "-a"]):
                cases.append(Session({"in.bin": image, "old.out": b"x\n"}, [Step("disassemble", "in.bin", o, opts=opts)], ["outs"]))
    for o in NOWHERE:
        cases.append(Session({"main.asm": prog.encode(), "old.out": b"x\n"}, [Step("assemble", "main.asm", o)], ["outs"]))
        cases.append(Session({"in.vms": bytes(2000), "old.out": b"x\n"}, [Step("vmi", "in.vms", o)], ["outs"]))
        for p in some:
            for f in ("json", "json-pretty", "1bit-asm", "1bit-asm-masked"):
                cases.append(Session({"p.png": p, "old.out": b"x\n"}, [Step("image", "p.png", o, opts=["-f", f])], ["outs"]))
    for p in some:
        cases.append(Session({"p.png": p}, [Step("icon", "p.png", to="full")]))
        for f in ("json", "json-pretty", "1bit-asm", "1bit-asm-masked"):
            cases.append(Session({"p.png": p}, [Step("image", "p.png", opts=["-f", f], to="full")]))
    for t in (prog, prog + " .byte 1\n" * 3000):
        cases.append(Session({"main.asm": t.encode()}, [Step("expand", "main.asm", to="full")]))
    return cases


def robustness(rnd, tier):
    vmi.build_shim()
    s = Soup(rnd)
    cases = [s.case() for _ in range(1100 if tier == "quick" else 9000)]
    cases += hopeless(rnd)
    for u in USAGE:
        cases.append(Session({"old.out": b" nop\n"}, [Step("usage", "old.out", raw=u, valid=False, to="stdout")]))
    for n in (50, 200, 400):
        for t in nests(n).values():
            cases.append(t)
    return cases


def nests(n):
    """Deeply nested inputs, by name."""
    asm = lambda t: Session({"main.asm": t.encode()}, [Step("assemble", "main.asm", "o.out")])
    out = {
        "parentheses": asm(" .byte " + "(" * n + "1" + ")" * n + "\n"),
        "prefixes": asm(" .byte " + "-" * n + "1\n"),
        "operators": asm(" .byte " + "+".join(["0"] * n) + "\n"),
        "macros": asm("".join("%%macro m%d\n m%d\n%%end\n" % (k, k + 1) for k in range(n)) + "%%macro m%d\n nop\n%%end\n m0\n" % n),
        "includes": Session({"main.asm": b' .include ".many/f0.asm"\n',
                             **{".many/f%d.asm" % k: (' .include "f%d.asm"\n' % (k + 1) if k < n else " nop\n").encode()
                                for k in range(n + 1)}},
                            [Step("assemble", "main.asm", "o.out")])}
    for name, c in out.items():
        c.tag = "%s nested %d deep" % (name, n)
    return out


def deep_nests(rnd, tier):
    """Inputs so deeply nested that the program is known to run out of stack."""
    vmi.build_shim()
    out = nests(20000)
    out["parentheses"], out["prefixes"], out["operators"] = (nests(100000)[k] for k in ("parentheses", "prefixes", "operators"))
    return list(out.values())
