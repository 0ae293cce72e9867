#!/usr/bin/env python3
"""mutate.py [--count N] [--seed S] [--files a.rs,b.rs] --out FILE

Measures the generators, not the specification: makes small changes to a copy of
/repo's sources at random, runs every quick check's inputs through the changed
program, and lists the properties whose observations differ from those of the
unchanged program.  A change that no property's inputs expose, and that passes
the tests, is worth looking at: either it does not change what the program does,
or the generators have a gap."""
import argparse, copy, concurrent.futures, hashlib, json, multiprocessing, os, random, re, resource, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, wb

ROOT = "/tmp/wbmut"
FILES = ["src/%s.rs" % f for f in ("asm ast cheader disasm env expression files img input instruction lexer lib "
                                   "location parser").split()] + ["waterbear-instruction-derive/src/lib.rs"]
SWAPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "),
         (" < ", " > "), (" > ", " < "), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" % ", " / "),
         (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), (" += ", " -= "), (" -= ", " += "),
         (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & "), (".min(", ".max("), ("if !", "if "),
         ("continue;", "break;"), ("break;", "continue;"), (" 0..", " 1.."), ("..=", ".."),
         (".is_empty()", ".is_empty() == false"), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"),
         (".push(", ".len(); let _ = ("), (".to_lowercase()", ".to_string()"), (".to_uppercase()", ".to_string()"),
         (".insert(0, ", ".push("), (".start()", ".end()"), (".end()", ".start()"), (".rev()", ""), (".skip(1)", ""),
         ("left", "right"), ("width", "height"), ("height", "width"), ("Little", "Big"),
         (".trim()", ""), ("r, g, b", "b, g, r")]


def mutants(path, text):
    """All small changes to a source file: (line number, new line)."""
    lines = text.split("\n")
    end = next((k for k, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    out = []
    for k, l in enumerate(lines[:end]):
        s = l.strip()
        if not s or "writeln(" in s or "write(" in s or s.startswith((".newline", "//", "use ", "#[", "pub struct", "pub enum", "mod ", "extern ", "impl", "pub mod")):
            continue
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), l):
                out.append((k, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r"(?<![\w.#\"'])(0x[0-9a-fA-F]+|\d+)(?![\w.\"'])", l):
            n = int(m.group(1), 16 if "x" in m.group(1) else 10)
            for d in (n + 1, n - 1):
                if d >= 0:
                    out.append((k, l[:m.start()] + str(d) + l[m.end():]))
        for m in re.finditer(r"'(\\?[^'\\])'", l):
            out.append((k, l[:m.start()] + "'q'" + l[m.end():]))
        for m in re.finditer(r'"([^"\\]+)"', l):
            if "{" not in m.group(1):
                out.append((k, l[:m.start()] + '"q' + m.group(1)[1:] + '"' + l[m.end():]))
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "break", "continue", "}")) \
                and s.count("(") == s.count(")"):
            out.append((k, l[:len(l) - len(l.lstrip())] + "{}"))
        if re.match(r"(\} else )?if [^{]*\{$", s) and " let " not in s:
            c = re.match(r"(.*\bif )(.*)( \{)$", l)
            if c:
                out.append((k, c.group(1) + "false && (" + c.group(2) + ")" + c.group(3)))
                out.append((k, c.group(1) + "true || (" + c.group(2) + ")" + c.group(3)))
        if re.match(r".*=> .*,$", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            out.append((k, ""))
    return [(path, k, lines[k], n) for k, n in out if n != lines[k]]


UUID = re.compile(r"[0-9a-f]{8}[-_]?[0-9a-f]{4}[-_]?[0-9a-f]{4}[-_]?[0-9a-f]{4}[-_]?[0-9a-f]{12}")


def project(c, root):
    """What the judgement of a case depends on."""
    o = c.obs
    if hasattr(c, "log"):
        drop = len(wb.comps(root))
        names = {v: re.sub(rb"'?" + re.escape(root.encode()), b"@R@", k) for k, v in c.ids.items()}
        o = [c.obs] + [[l["cmd"], [l["obs"][k] for k in ("rc", "panic", "said")], names.get(l["obs"]["stdout"]),
                        [(x["c"][drop:], names.get(x["x"], x["x"])) for x in l["obs"]["changes"]]]
                       for l in c.log if "obs" in l]
        return hashlib.sha1(repr(o).encode()).hexdigest()
    if getattr(c, "text", None):
        return hashlib.sha1(("%r" % o + c.text).encode()).hexdigest()
    if isinstance(o, dict) and "text" in o:
        o = dict(o, text="".join(map(chr, o["text"])))
    if isinstance(o, dict) and o.get("kind") == "fail" and "blocks" in o:
        mode = getattr(c, "mode", "bytes")
        if mode == "bytes":
            o = {"kind": "fail"}
        elif mode == "loc":
            o = {"kind": "fail", "at": [(b["path"], b["l"], b["c"], b["ec"]) for b in o["blocks"][:1]]}
    return UUID.sub("@U@", json.dumps(o, sort_keys=True).replace(root, "@R@"))


def corpus(seed):
    out = []
    for prop, stages in sorted(vf.table().items()):
        for st in stages:
            if isinstance(st, vf.Conform):
                rnd = random.Random("%d/%s/%s/%d" % (seed, prop, st.name, 0))
                cases = st.gen(rnd, "quick")
                for c in cases:
                    if st.mode:
                        c.mode = st.mode
                out.append((prop + "/" + st.name, cases))
    return out


CORPUS = []


def sweep(args):
    """Observes all cases with one program; returns {stage: [projection]}."""
    binary, root, base, threads = args
    wb.BIN, wb.WORKERS = binary, threads
    res = {}
    for name, cases in CORPUS:
        d = os.path.join(root, name.replace("/", "_"))
        shutil.rmtree(d, ignore_errors=True)
        hangs, diffs = [], []
        order = list(enumerate(cases))
        if base:
            random.Random(5).shuffle(order)

        def one(kc):
            k, c = kc
            if len(hangs) > 1 or len(diffs) > 1:
                return k, None
            r = os.path.join(d, "c%d" % k)
            os.makedirs(r)
            c = copy.copy(c)
            try:
                c.write(r)
                c.observe()
                if isinstance(c.obs, dict) and c.obs.get("kind") == "hang":
                    hangs.append(1)
                p = project(c, r)
            except Exception as e:
                p = "exception %r" % e
            shutil.rmtree(r, ignore_errors=True)
            if base and base[name][k] is not None and p != base[name][k]:
                diffs.append(k)
            return k, p
        with concurrent.futures.ThreadPoolExecutor(threads) as ex:
            got = [p for _, p in sorted(ex.map(one, order), key=lambda x: x[0])]
        shutil.rmtree(d, ignore_errors=True)
        res[name] = len(diffs) if base else got
    return res


def worker(k, jobs, results, base):
    wb.limits()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    copy, root = "%s/repo%d" % (ROOT, k), "%s/run%d" % (ROOT, k)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="0",
               CARGO_INCREMENTAL="0", CARGO_TARGET_DIR="%s/target%d" % (ROOT, k))
    while True:
        m = jobs.get()
        if m is None:
            return
        path, line, old, new = m
        f = os.path.join(copy, path)
        text = open(f).read()
        ls = text.split("\n")
        assert ls[line] == old
        ls[line] = new
        r = {"file": path, "line": line + 1, "old": old.strip(), "new": new.strip()}
        try:
            open(f, "w").write("\n".join(ls))
            p = subprocess.run(["cargo", "build", "--offline", "--locked", "-j", "1", "--bin", "waterbear"], cwd=copy, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                r["result"] = "does not build"
            else:
                diff = sweep((env["CARGO_TARGET_DIR"] + "/debug/waterbear", root, base, 2))
                r["props"] = {n: v for n, v in diff.items() if v}
                p = subprocess.run(["timeout", "300", "cargo", "test", "--offline", "-j", "1"], cwd=copy, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                r["tests"] = p.returncode == 0
                r["result"] = "seen" if r["props"] else "not seen"
        except Exception as e:
            r["result"] = "error %r" % e
        finally:
            open(f, "w").write(text)
        results.put(r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    wb.limits()
    wb.build()
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    rnd = random.Random(a.seed)
    todo = []
    for f in a.files.split(","):
        todo += mutants(f, open(os.path.join(wb.REPO, f)).read())
    print(len(todo), "possible changes")
    todo = rnd.sample(todo, min(a.count, len(todo)))
    CORPUS.extend(corpus(1))
    print(sum(len(c) for _, c in CORPUS), "cases", flush=True)
    base = sweep((wb.BIN, ROOT + "/base", None, 8))
    again = sweep((wb.BIN, ROOT + "/again", None, 8))
    for n in base:
        base[n] = [x if x == y else None for x, y in zip(base[n], again[n])]
        if None in base[n]:
            print(n, base[n].count(None), "of", len(base[n]), "vary by themselves")
    jobs, results = multiprocessing.Queue(), multiprocessing.Queue()
    for m in todo:
        jobs.put(m)
    ps = []
    for k in range(a.workers):
        subprocess.run(["cp", "-a", wb.REPO, "%s/repo%d" % (ROOT, k)], check=True)
        shutil.rmtree("%s/repo%d/target" % (ROOT, k), ignore_errors=True)
        shutil.copytree(os.path.join(wb.BUILD, "target"), "%s/target%d" % (ROOT, k), symlinks=True)
        jobs.put(None)
        ps.append(multiprocessing.Process(target=worker, args=(k, jobs, results, base)))
        ps[-1].start()
    with open(a.out, "a") as h:
        for _ in todo:
            h.write(json.dumps(results.get()) + "\n")
            h.flush()
    for p in ps:
        p.join()
    shutil.rmtree(ROOT, ignore_errors=True)


main()
