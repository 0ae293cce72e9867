#!/usr/bin/env python3
"""vf.py check <property> [--tier quick|thorough]   decide one property
   vf.py setup                                      build and check the tools"""
import argparse, json, os, random, shutil, sys, time, traceback
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import small, wb
from wb import VERIF, ToolError

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Outcome:
    """What a check has covered so far."""
    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.kinds, self.stages, self.samples = Counter(), [], []
        self.exhaustive, self.scopes = {}, {}
        self.known = []              # known findings that were seen
        self.violation = None        # description of a case that breaks the property

    def add(self, name, r, traces, kinds, samples, wall):
        self.states += r.states
        self.transitions += r.transitions
        self.traces += traces
        self.kinds.update(kinds)
        self.stages.append({"stage": name, "runs_of_the_program": traces, "states": r.states,
                            "outcomes": dict(sorted(Counter(kinds).items())), "wall_s": round(wall, 1)})
        self.samples += samples


def clip(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + " ..."


def shorten(x):
    if isinstance(x, dict):
        return {k: shorten(v) for k, v in x.items()}
    if isinstance(x, list):
        return [shorten(v) for v in x[:40]] + (["..."] if len(x) > 40 else [])
    return clip(x) if isinstance(x, str) else x


def describe(case):
    d = shorten(case.replay())
    d["observed"] = clip(case.obs)
    return d


class Conform:
    """Runs generated cases and has TLC compare them with the specification."""
    def __init__(self, gen, mode=None, module="Check", cfg="Check.cfg"):
        self.gen, self.mode, self.module, self.cfg = gen, mode, module, cfg
        self.name = gen.__name__
        self.once = gen.__module__ in ("small", "large")

    def run(self, rnd, tier, out):
        t0 = time.time()
        small.SCOPE.update({"taken": 0, "of": 0})
        cases = self.gen(rnd, tier)
        scope = dict(small.SCOPE)
        if scope["of"] and scope["taken"] == scope["of"] > out.scopes.get(self.name, 0):
            out.scopes[self.name] = scope["of"]
        if self.mode:
            for c in cases:
                c.mode = self.mode
        big = 2500
        for a in range(0, len(cases), big):
            part = cases[a:a + big]
            with wb.Scratch() as s:
                part = wb.observe_all(part, s)
                r, bad = wb.validate(part, module=self.module, cfg=self.cfg)
                kinds = [c.obs["kind"] for c in part]
                pick = rnd.sample(range(len(part)), min(2, len(part))) if a == 0 else []
                out.add(self.name, r, len(part), kinds, [describe(part[k]) for k in pick], time.time() - t0)
                if bad:
                    out.violation = {"stage": self.name, "module": self.module, "case": bad.replay(), "expected": r.expected,
                                     "observed": bad.obs, "stderr": bad.stderr.decode(errors="replace")[:4000],
                                     "record": bad.record(0)}
                    return
                if r.broken:
                    raise ToolError("the specification breaks its own invariant %s:\n%s" % (r.broken, r.out[-3000:]))
            t0 = time.time()
        if getattr(self.gen, "note", None):
            out.stages[-1]["note"] = self.gen.note


class Findings:
    """Runs the inputs of known findings.  Those that fail as listed are
    reported as known; anything else that fails is a violation."""
    def __init__(self, prop, gen, module, cfg):
        self.prop, self.gen, self.module, self.cfg, self.name, self.done = prop, gen, module, cfg, gen.__name__, False
        self.once = True

    def run(self, rnd, tier, out):
        if self.done:
            return
        self.done = True
        t0 = time.time()
        cases = self.gen(rnd, tier)
        listed = known(self.prop)
        with wb.Scratch() as s:
            cases = wb.observe_all(cases, s)
            r, bad = wb.validate(cases, module=self.module, cfg=self.cfg)
            if r.broken:
                raise ToolError("the specification breaks its own invariant %s:\n%s" % (r.broken, r.out[-3000:]))
            out.add(self.name, r, len(cases), [c.obs["kind"] for c in cases], [], time.time() - t0)
            for k in r.listed:
                hit = [l for l in listed if cases[k].tag in l and cases[k].obs["kind"] == "crash"]
                if hit:
                    out.known += hit
                elif out.violation is None:
                    out.violation = {"stage": self.name, "module": self.module, "case": {"tag": cases[k].tag}, "expected": None,
                                     "observed": cases[k].obs, "stderr": cases[k].stderr.decode(errors="replace")[:4000]}


class Explore:
    """Checks a part of the specification by itself, completely."""
    def __init__(self, module, what):
        self.module, self.what, self.name, self.done = module, what, module, False
        self.once = True

    def run(self, rnd, tier, out):
        if self.done:
            return
        t0 = time.time()
        r = wb.tlc(self.module, self.module + ".cfg")
        if r.broken:
            raise ToolError("the specification breaks its own invariant %s:\n%s" % (r.broken, r.out[-3000:]))
        out.add(self.name, r, 0, [], [], time.time() - t0)
        out.exhaustive[self.module] = "%s: %d states" % (self.what, r.states)
        self.done = True


def table():
    import dis, gen, large, pics, session, vmi
    C = Conform
    return {
        "C01": [C(gen.encodings, "bytes")],
        "C02": [C(gen.operands, "loc")],
        "C03": [Explore("Codes", "every instruction, with every first and second byte"),
                C(dis.decodings, module="Disasm", cfg="Disasm.cfg")],
        "C04": [C(gen.layout, "bytes"),
                C(small.layouts, "bytes"), C(large.large_layouts, "bytes")],
        "C05": [C(gen.names, "loc"),
                C(small.scopes, "loc"), C(small.brought, "loc"), C(small.fates, "loc"), C(large.large_names, "loc")],
        "C06": [C(gen.expressions, "loc"),
                C(small.chains, "loc"), C(small.fates, "loc"), C(small.token_sequences, "loc"), C(large.large_expressions, "loc")],
        "C07": [C(gen.tokens, "loc"),
                C(small.character_sequences, "loc"), C(small.comments, "loc"), C(large.large_tokens, "loc")],
        "C08": [C(gen.macros, "bytes"), C(gen.taken_names, "bytes"),
                C(small.call_graphs, "bytes"), C(small.arguments, "bytes"), C(small.overloads, "bytes"), C(large.large_macros, "bytes")],
        "C09": [C(gen.expansions, "bytes"),
                C(small.printed, "bytes"), C(large.large_expansions, "bytes")],
        "C10": [C(gen.includes, "bytes"),
                C(small.include_graphs, "bytes"), C(small.include_places, "bytes"), C(small.headers, "loc"), C(large.large_includes, "bytes")],
        "C11": [C(dis.round_trips, module="Disasm", cfg="Disasm.cfg")],
        "C12": [C(dis.tracings, module="Disasm", cfg="Disasm.cfg")],
        "C13": [C(session.robustness, module="Session", cfg="Session.cfg"),
                Findings("C13", session.deep_nests, "Session", "SessionAll.cfg")],
        "C14": [C(gen.diagnostics, "full"), C(large.large_diagnostics, "full")],
        "C15": [C(pics.pictures, "bytes"), C(pics.picture_commands, "bytes")],
        "C16": [Explore("Calendar", "every day from 1970 on for 50000 days"),
                C(vmi.vmi_files, module="Vmi", cfg="Vmi.cfg")],
        "C17": [C(gen.data_items, "loc"),
                C(small.small_data, "loc"), C(large.large_data, "loc")],
        "C18": [C(session.histories, module="Session", cfg="Session.cfg")],
    }


# How often the quick tier draws new random cases; stages that run through a
# small scope, or take one dimension to its limits, run once.
ROUNDS = {"C01": 4, "C02": 4, "C03": 2, "C04": 4, "C05": 4, "C06": 3, "C07": 4, "C08": 2, "C11": 2, "C13": 4, "C15": 2,
          "C16": 5, "C17": 4, "C18": 2}


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):])
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "600"))
    wb.limits()
    wb.build()
    out = Outcome()
    stages = table()[prop]
    rounds = 0
    while out.violation is None:
        for st in stages:
            if rounds and tier == "quick" and st.once:
                continue
            rnd = random.Random("%d/%s/%s/%d" % (seed, prop, st.name, rounds))
            st.run(rnd, tier if rounds == 0 else "quick", out)
            if out.violation:
                break
        rounds += 1
        spent = time.time() - t0
        if tier == "quick":
            done = rounds >= ROUNDS.get(prop, 1) or spent > 180
        else:
            done = spent * (rounds + 1) / rounds > budget
        if done:
            break
    for line in out.known:
        print("KNOWN-FINDING: " + line)
    rnd = random.Random(seed)
    cov = {"states": out.states, "transitions": out.transitions,
           "traces_validated_against_impl": out.traces,
           "samples": out.samples[:6], "rounds": rounds,
           "outcomes_of_the_program": dict(sorted(out.kinds.items())), "stages": out.stages}
    if out.scopes:
        cov["small_scopes_run_completely"] = out.scopes
    if out.exhaustive:
        cov["enumerated_completely"] = out.exhaustive
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["TLC evaluates the specification correctly",
                          "the behaviour of the program depends only on what a case contains"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if out.violation else 0}
    evidence = os.environ.get("WB_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evidence, exist_ok=True)
    with open(os.path.join(evidence, prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    if out.violation:
        d = os.path.join(VERIF, ".work", prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "replay.json")
        with open(path, "w") as h:
            json.dump(dict(out.violation, property=prop, seed=seed, tier=tier), h, indent=1)
        print("stage    %s\ncase     %s\nexpected %s\nobserved %s" % (
            out.violation["stage"], clip(out.violation["case"], 3000),
            clip(out.violation["expected"] or "", 1500), clip(out.violation["observed"], 1500)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d runs of the program judged, %d states, %.1f s" % (prop, out.traces, out.states, time.time() - t0))
    return 0


def setup():
    wb.build()
    for m in sorted(os.listdir(wb.SPEC)):
        if m.endswith(".tla"):
            wb.sany(m)
    print("setup done")
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    sub.add_parser("setup")
    a = ap.parse_args()
    try:
        return check(a.property, a.tier) if a.cmd == "check" else setup()
    except ToolError as e:
        print("TOOL-ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
