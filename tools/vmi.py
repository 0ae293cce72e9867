"""Cases for the vmi command (C16)."""
import os, random, subprocess
import wb
from wb import BUILD, is_crash, run_cli

SHIM = os.path.join(BUILD, "faketime.so")


def build_shim():
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "faketime.c")
    os.makedirs(BUILD, exist_ok=True)
    tmp = "%s.%d" % (SHIM, os.getpid())
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise wb.ToolError("the clock stand-in does not build:\n" + p.stdout.decode(errors="replace"))
    os.replace(tmp, SHIM)


def points(s):
    return [ord(x) for x in s]


def zone(off):
    """The TZ setting for local time `off` minutes ahead of UTC."""
    if off == 0:
        return "UTC0"
    a = abs(off)
    return "LOC%s%d:%02d" % ("-" if off > 0 else "+", a // 60, a % 60)


class VmiCase:
    """files: {path below the root: bytes}; input, out and cwd as given, where
    @ROOT@ stands for the root."""
    def __init__(self, files, inp, out=None, copyright=None, game=False, time=0, off=0, cwd="", dirs=()):
        self.files, self.inp, self.out, self.copyright = files, inp, out, copyright
        self.game, self.time, self.off, self.cwd, self.dirs = game, time, off, cwd, list(dirs)
        self.obs, self.stderr = None, b""

    def write(self, root):
        self.root = root
        self.inp = self.inp.replace("@ROOT@", root)
        self.out = self.out.replace("@ROOT@", root) if self.out else None
        for d in self.dirs + [self.cwd]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for p, b in self.files.items():
            f = os.path.join(root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as h:
                h.write(b)

    def args(self):
        a = ["vmi"]
        if self.game:
            a += ["-g"]
        if self.copyright is not None:
            a += ["-c", self.copyright]
        if self.out is not None:
            a += ["-o", self.out]
        return a + ["--", self.inp]

    def tree(self):
        files, dirs = {}, []
        for d, ds, fs in os.walk(self.root):
            dirs.append(d)
            for f in fs:
                with open(os.path.join(d, f), "rb") as h:
                    files[os.path.join(d, f)] = h.read()
        return files, dirs

    def observe(self):
        self.before, dirs = self.tree()
        up = self.root
        while up != "/":
            up = os.path.dirname(up)
            dirs.append(up)
        self.known_dirs = dirs
        cwd = os.path.join(self.root, self.cwd) if self.cwd else self.root
        rc, so, se = run_cli(self.args(), cwd, env_extra={
            "LD_PRELOAD": SHIM, "FAKE_TIME": str(self.time), "TZ": zone(self.off)})
        self.stderr = se
        after, _ = self.tree()
        changes = []
        for f in sorted(set(after) | set(self.before)):
            if after.get(f) != self.before.get(f):
                b = after.get(f)
                changes.append([f, list(b) if b is not None else [-1]])
        if rc == "timeout":
            kind = "hang"
        elif is_crash(rc, se):
            kind = "crash"
        elif rc == 0:
            kind = "ok"
        else:
            kind = "fail" if se.strip() else "no message"
        self.obs = {"kind": kind, "changes": changes}
        return self.obs

    def comps(self, f):
        return [points(c) for c in f.split("/") if c]

    def record(self, ident):
        return {"id": ident, "input": points(self.inp), "out": points(self.out or ""),
                "copyright": points(self.copyright or ""), "game": self.game,
                "clock": {"day": self.time // 86400, "sec": self.time % 86400}, "off": self.off,
                "cwd": self.comps(os.path.join(self.root, self.cwd)),
                "dirs": [self.comps(d) for d in self.known_dirs],
                "files": [{"c": self.comps(f), "len": len(b), "head": list(b[:0x230])}
                          for f, b in self.before.items()],
                "obs": {"kind": self.obs["kind"],
                        "changes": [{"c": self.comps(f), "b": b}
                                    for f, b in self.obs["changes"]]}}

    def replay(self):
        return {"command": self.args(), "cwd": self.cwd, "time": self.time, "minutes_ahead": self.off,
                "files": {p: b.hex() if len(b) < 1500 else {"len": len(b), "head": b[:0x230].hex()}
                          for p, b in self.files.items()}, "dirs": self.dirs}


NAMES = ["a.vms", "A.VMS", "game.vms", "longname.vms", "eightch.vms", "ninechars.vms", "exactly12.vms", "x.vms.vms",
         ".vms", "vms", "a.b", "noext", "resource", "RESOURCE", "averylongfilename.vms", "\u00e9t\u00e9.vms",
         "\u65e5\u672c\u8a9e\u30c6\u30b9\u30c8.vms", "a b.vms", "SEGA.vms", "x.vmsy", "tail.vms ", "two.dots.vms", "axvms",
         "~~~~~~~~", "seven77", "12345678.vms", "1234567\u00e9.vms", "a.vmi", "-dash.vms"]
DIRS = ["", "d/", "d.vms/", "d/e.vms/", "./", "d/../", "@ROOT@/", "@ROOT@/d/", "d//", "", "", "d/"] + ["gone/../"]
NOTES = [None, "", "c", "Copyright 2026", "x" * 31, "y" * 32, "z" * 33, "w" * 50, "\u00a9 somebody",
         "a" * 31 + "\u00e9", "b" * 30 + "\u65e5", "  pad  "]
TIMES = [0, 1, 86399, 86400, 951782400, 951868799, 951868800, 1077926400, 1078012800, 946684799, 946684800,
         1709164800, 1735689599, 1735689600, 4102444799, 4102444800, 2147483647, 2147483648, 1583020800, 1614556800]
OFFS = [0, 0, 0, 60, -60, 330, -570, 345, 720, -720, 840, -1, 1, 59, -1439]
SIZES = [0, 1, 16, 47, 48, 49, 100, 128, 255, 256, 257, 512, 527, 528, 559, 560, 561, 640, 1024, 65535, 65536, 65537,
         70000, 131072]


def random_case(rnd):
    name, d = rnd.choice(NAMES), rnd.choice(DIRS)
    inp = d + name
    game = rnd.random() < .45
    data = rnd.randbytes(rnd.choice(SIZES if rnd.random() < .3 else [s for s in SIZES if s >= (560 if game else 48)]))
    if rnd.random() < .3:
        data = bytes(x & 0x5f for x in data)
    if rnd.random() < .02:
        data = bytes(0x1000001)
    real = os.path.normpath(inp.replace("@ROOT@/", ""))
    files = {real: data, "d/other.bin": b"other"}
    dirs = ["d", "d.vms", "d/e.vms", "outdir"]
    r = rnd.random()
    if r < .04:
        del files[real]
    elif r < .07:
        del files[real]
        dirs.append(real)
    elif r < .09:
        inp += "/"
    out = None
    if rnd.random() < .5:
        out = rnd.choice(["o.vmi", "outdir/o.vmi", "d/../o", "@ROOT@/outdir/o.bin", "d/other.bin", "outdir", "no/such/o.vmi",
                          "d/other.bin/o.vmi", "o.vmi/", "./o.vmi", "\u00e9.vmi", "o.vms"])
        if rnd.random() < .3:
            files["o.vmi"] = rnd.randbytes(rnd.choice([0, 50, 108, 109, 300]))
    elif rnd.random() < .3:
        f = (real[:-4] if real.endswith(".vms") else real) + ".vmi"
        if rnd.random() < .85:
            files[f] = rnd.randbytes(rnd.choice([0, 50, 107, 108, 109, 300]))
        else:
            dirs.append(f)
    time = rnd.choice(TIMES) + rnd.choice([0, 0, 0, 1, 59, 60, 3599, 3600, 43200, 86399]) if rnd.random() < .6 \
        else rnd.randrange(0, 4200000000)
    off = rnd.choice(OFFS)
    if time + 60 * off < 0:
        time += 86400
    return VmiCase(files, inp, out, rnd.choice(NOTES), game, time, off, "", dirs)


def in_subdir(rnd):
    """Paths as seen from another working directory."""
    c = random_case(rnd)
    if not c.inp.startswith("@ROOT@") and not c.inp.startswith("-"):
        c.inp = "../" + c.inp
    if c.out and not c.out.startswith("@ROOT@"):
        c.out = "../" + c.out
    c.cwd = "d"
    return c


def vmi_files(rnd, tier):
    build_shim()
    n = 500 if tier == "quick" else 4000
    return [in_subdir(rnd) if rnd.random() < .2 else random_case(rnd) for _ in range(n)]
