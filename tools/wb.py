"""Core of the conformance driver: builds the real program, runs it on cases,
records what it did, and has TLC judge the records against the specification."""
import concurrent.futures, fcntl, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WB_REPO", "/repo")
BUILD = os.environ.get("WB_BUILD", os.path.join(VERIF, ".build"))
BIN = os.path.join(BUILD, "target", "debug", "waterbear")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
RUN_TIMEOUT = 20
MAX_TEXT = 1 << 26
WORKERS = 8


class ToolError(Exception):
    pass


def limits():
    """Keeps a program gone wrong from filling the disk."""
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 29, 1 << 29))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def build():
    """Builds the real program from the working tree, outside of it."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_OPT_LEVEL="1",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "waterbear"],
                           cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(BIN):
            raise ToolError("build failed:\n" + p.stdout.decode(errors="replace")[-4000:])


class Scratch:
    """A scratch directory that is removed again."""
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="wbv")
        self.root = os.path.realpath(self.root)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        assert self.root.startswith(os.path.realpath(tempfile.gettempdir()) + "/wbv")
        shutil.rmtree(self.root, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.root, str(name))
        os.makedirs(d, exist_ok=True)
        return d


def run_cli(args, cwd, timeout=RUN_TIMEOUT, env_extra=None, stdout=None):
    """Runs the real program; returns (rc or 'timeout', stdout, stderr)."""
    env = {"PATH": "/usr/bin:/bin", "PWD": cwd, "TERM": "dumb", "LANG": "C.UTF-8",
           "HOME": "/nonexistent", "TZ": "UTC"}
    env.update(env_extra or {})
    with (open(stdout, "r+b", buffering=0) if stdout else tempfile.TemporaryFile()) as so, tempfile.TemporaryFile() as se:
        try:
            rc = subprocess.run([BIN] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                                stdout=so, stderr=se, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        se.seek(0)
        if stdout:
            return rc, b"", se.read(MAX_TEXT)
        so.seek(0)
        return rc, so.read(MAX_TEXT), se.read(MAX_TEXT)


LOC = re.compile(r"^((?:  \| )?)([^\s:][^:]*):(\d+):(\d+)(?:-(\d+))?$")


def number(s):
    """A number as far as TLC can represent it."""
    return min(int(s), 2000000000)


def parse_blocks(stderr):
    """The location blocks of a diagnostic, in order."""
    text = stderr.decode("utf-8", errors="replace")
    lines = text.split("\n")
    out, k = [], 0
    while k < len(lines):
        m = LOC.match(lines[k])
        if m and k + 2 < len(lines):
            ind = m.group(1) + "  "
            q, u = lines[k + 1], lines[k + 2]
            if q.startswith(ind) and u.startswith(ind):
                c = number(m.group(4))
                out.append({"nested": m.group(1) != "", "path": printable(m.group(2)), "l": number(m.group(3)),
                            "c": c, "ec": number(m.group(5)) if m.group(5) else c,
                            "quote": [ord(x) for x in q[len(ind):]],
                            "mark": [ord(x) for x in u[len(ind):]]})
                k += 3
                continue
        k += 1
    return out


def runs_of(data):
    """[[position, bytes]] of the non-zero stretches of a binary."""
    out = []
    for m in re.finditer(rb"[^\x00]+(?:\x00{1,8}[^\x00]+)*", data):
        out.append([m.start(), list(m.group(0))])
    return out


def is_crash(rc, stderr):
    return rc not in (0, 1) or b"panicked at" in stderr


def printable(text):
    """As StrOf in Util.tla renders it."""
    return "".join(x if " " <= x <= "~" else "<%d>" % ord(x) for x in text)


def comps(path):
    return [printable(c) for c in path.split("/") if c]


class Case:
    """Files, a main file and a working directory for one assembly.

    files: {relative path: bytes | Picture}; main and cwd are relative to the
    root of the scratch directory of the case; spell is how the main file is
    given on the command line (relative to cwd)."""
    def __init__(self, files, main="main.asm", cwd="", spell=None, cmd="asm", mode="loc",
                 dirs=(), tag=None):
        self.files = {p: (d.encode() if isinstance(d, str) else d) for p, d in files.items()}
        self.main, self.cwd, self.cmd, self.mode = main, cwd, cmd, mode
        self.spell = spell if spell is not None else os.path.relpath(main, cwd or ".")
        self.dirs, self.tag = list(dirs), tag
        self.obs = None
        self.root = None

    def write(self, root):
        self.root = root
        self.spell = self.spell.replace("@ROOT@", root)
        for d in self.dirs + [self.cwd]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for p, d in self.files.items():
            f = os.path.join(root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            data = d if isinstance(d, (bytes, bytearray)) else d.data()
            data = data.replace(b"@ROOT@", root.encode()) if b"@ROOT@" in data else data
            with open(f, "wb") as h:
                h.write(data)

    def cwd_path(self):
        return os.path.join(self.root, self.cwd) if self.cwd else self.root

    def observe(self):
        """Runs the real program on this case and records what it did."""
        cwd = self.cwd_path()
        if self.cmd == "asm":
            outp = os.path.join(self.root, "out.bin")
            rc, so, se = run_cli(["assemble", self.spell, "-o", outp], cwd)
            got = open(outp, "rb").read() if os.path.exists(outp) else None
            if os.path.exists(outp):
                os.unlink(outp)
        else:
            rc, so, se = run_cli(["expand", self.spell], cwd)
            got = so if rc == 0 else (None if not so else so)
        self.stdout, self.stderr, self.rc, self.got = so, se, rc, got
        self.obs = observation(rc, got, so, se)
        if self.cmd == "expand" and self.obs["kind"] == "ok":
            listing = os.path.join(self.root, ".listing")
            with open(listing, "wb") as h:
                h.write(so)
            self.obs = {"kind": "ok", "text": [ord(x) for x in so.decode("utf-8", errors="replace")],
                        "first": self.assembled(self.spell, cwd), "back": self.assembled(listing, cwd)}
            os.unlink(listing)
        return self.obs

    def assembled(self, path, cwd):
        outp = os.path.join(self.root, ".out")
        rc, so, se = run_cli(["assemble", path, "-o", outp], cwd)
        got = open(outp, "rb").read() if os.path.exists(outp) else None
        if got is not None:
            os.unlink(outp)
        return observation(rc, got, so, se)

    def record(self, ident):
        fs = []
        for p, d in self.files.items():
            c = comps(os.path.join(self.root, p))
            if isinstance(d, (bytes, bytearray)):
                d = bytes(d).replace(b"@ROOT@", self.root.encode())
                try:
                    fs.append({"c": c, "t": "src", "d": [ord(x) for x in d.decode("utf-8")]})
                except UnicodeDecodeError:
                    fs.append({"c": c, "t": "bin", "b": list(d)})
            else:
                fs.append(dict({"c": c}, **d.spec()))
        return {"id": ident, "cmd": self.cmd, "mode": self.mode,
                "main": [ord(x) for x in self.spell], "cwd": comps(self.cwd_path()),
                "files": fs, "dirs": [comps(os.path.join(self.root, d)) for d in self.dirs],
                "obs": self.obs}

    def replay(self):
        """A self-contained description of the case."""
        fs = {}
        for p, d in self.files.items():
            b = d if isinstance(d, (bytes, bytearray)) else d.data()
            try:
                fs[p] = b.decode("utf-8")
            except UnicodeDecodeError:
                fs[p] = {"hex": bytes(b).hex()}
        return {"command": self.cmd, "files": fs, "main": self.main, "cwd": self.cwd,
                "spelled": self.spell, "dirs": self.dirs, "tag": self.tag}


def observation(rc, got, so, se):
    if rc == "timeout":
        return {"kind": "hang"}
    if is_crash(rc, se):
        return {"kind": "crash"}
    if rc == 0:
        if got is None:
            return {"kind": "no output"}
        return {"kind": "ok", "len": len(got), "runs": runs_of(got)}
    if not se.strip():
        return {"kind": "no message"}
    if got is not None:
        return {"kind": "output despite error"}
    return {"kind": "fail", "blocks": parse_blocks(se)}


def pmap(f, xs):
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        return list(ex.map(f, xs))


def observe_all(cases, scratch):
    """Observes the cases and returns those observed: all of them, unless the
    program hangs so often that the others are left out."""
    hangs = []

    def one(kc):
        k, c = kc
        if len(hangs) >= 2 * WORKERS:
            return False
        c.write(scratch.dir("c%d" % k))
        if c.observe()["kind"] == "hang":
            hangs.append(c)
        return True
    done = pmap(one, list(enumerate(cases)))
    return [c for c, d in zip(cases, done) if d]


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class TlcResult:
    def __init__(self):
        self.states = self.transitions = self.initial = 0
        self.mismatch = None      # id of a case that does not conform
        self.expected = None
        self.listed = []          # all such cases, where TLC is to go on
        self.broken = None        # an internal invariant of the specification
        self.out = ""


OUTPUT_LIMIT = 64 << 20      # of what TLC prints


def tlc(module, cfg, env=None, workers=WORKERS, timeout=800, extra=(), heap="10g"):
    """Runs TLC on /verif/spec in a private directory."""
    work = tempfile.mkdtemp(prefix="wbtlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), work)
        e = dict(os.environ, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Djava.io.tmpdir=" + work, "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", os.path.join(work, "states"),
               "-config", cfg, *extra, module + ".tla"]
        p = subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        late = threading.Event()

        def stop():
            late.set()
            p.kill()
        clock = threading.Timer(timeout, stop)
        clock.daemon = True
        clock.start()
        out, size = [], 0
        try:
            for line in p.stdout:
                if size < OUTPUT_LIMIT:
                    out.append(line)
                    size += len(line)
                else:
                    p.kill()
            p.wait()
        finally:
            clock.cancel()
            p.kill()
        if late.is_set():
            raise ToolError("TLC ran out of time on %s" % module)
        return parse_tlc(b"".join(out).decode(errors="replace"))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parse_tlc(out):
    r = TlcResult()
    r.out = out
    m = None
    for m in STATS.finditer(out):
        pass
    if m:
        r.transitions, r.states = int(m.group(1)), int(m.group(2))
    m = re.search(r"Finished computing initial states: (\d+) (?:distinct )?states? generated", out) or \
        re.search(r"Finished computing initial states: (\d+)", out)
    if m:
        r.initial = int(m.group(1))
    if "Model checking completed. No error has been found." in out:
        r.listed = sorted({int(x) for x in re.findall(r'^"?MISMATCH (\d+)"?\s*$', out, re.M)})
        return r
    m = re.search(r'MISMATCH (\S+?)"?\s*$', out, re.M)
    if m:
        r.mismatch = m.group(1)
        m2 = re.search(r'^"?EXPECTED (.*)$', out, re.M)
        r.expected = m2.group(1) if m2 else None
        return r
    m = re.search(r"Invariant (\S+) is violated", out)
    if m:
        r.broken = m.group(1)
        return r
    k = out.find("Error:")
    raise EvalError("TLC failed:\n" + (out[k:k + 3000] if k >= 0 else out[-3000:]), out)


def sany(module):
    """Parses a module of the specification."""
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", module], cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or b"*** Errors" in p.stdout:
        raise ToolError("%s:\n%s" % (module, p.stdout.decode(errors="replace")))


def judge(cases, module, cfg, timeout, change=lambda r: r):
    work = tempfile.mkdtemp(prefix="wbc")
    try:
        f = os.path.join(work, "cases.json")
        env = {"CASES": f}
        if hasattr(type(cases[0]), "shared"):
            env.update(type(cases[0]).shared(cases, work))
        with open(f, "w") as h:
            for k, c in enumerate(cases):
                h.write(json.dumps(change(c.record(k))) + "\n")
        return tlc(module, cfg, env=env, timeout=timeout)
    finally:
        shutil.rmtree(work, ignore_errors=True)


class EvalError(ToolError):
    """TLC could not evaluate the specification on a case."""


def crashed(record):
    """The record of a case with the observation replaced by one that is never allowed."""
    obs = {"kind": "crash"}
    if "changes" in record["obs"]:
        obs["changes"] = []
    return dict(record, obs=obs)


def validate(cases, module="Check", cfg="Check.cfg", timeout=800):
    """Has TLC judge observed cases.  Returns (TlcResult, the case at fault or None).

    Should TLC be unable to evaluate a case because of what was observed, while
    it can evaluate the same case with another observation, then the program did
    something that the specification has no words for: it is at fault."""
    try:
        r = judge(cases, module, cfg, timeout)
    except EvalError as e:
        for k in sorted({int(x) for x in re.findall(r"\bid \|-> (\d+)", str(e.args[1]))}):
            if k >= len(cases) or "obs" not in cases[k].record(0):
                continue
            one = [cases[k]]
            try:
                judge(one, module, cfg, timeout)
            except EvalError:
                r = judge(one, module, cfg, timeout, crashed)
                if r.mismatch is not None:
                    return r, cases[k]
        raise
    bad = cases[int(r.mismatch)] if r.mismatch is not None else None
    return r, bad
