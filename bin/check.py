#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property; see DESIGN.md."""
import json, os, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
import plan


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.deep = tier == "thorough"
        self.dir = os.path.join(BUILD, "run-%s-%s" % (prop, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.stages = [], []
        self.t0 = time.time()
        self.assumptions = []
        self.binary, self.wrapping = build_driver()

    def path(self, name):
        return os.path.join(self.dir, name)

    def stage(self, name, t0, **kw):
        d = dict(stage=name, seconds=round(time.time() - t0, 2), **kw)
        self.stages.append(d)
        log("  %-28s %6.1fs  %s" % (name, d["seconds"], " ".join("%s=%s" % kv for kv in sorted(kw.items()))))

    # --- a model of the specification alone -----------------------------------------------------
    def model(self, module, cfg, timeout=800, opts=()):
        t0 = time.time()
        st, gen, dist, out = tlc(module, os.path.join(SPEC, "models", cfg + ".cfg"), self.dir, timeout=timeout, opts=opts,
                                 env={"VP_TIER": self.tier})
        if st != "ok":
            raise ToolError("the specification violates its own properties (%s %s):\n%s" % (module, cfg, out[-6000:]))
        if dist < 2:
            raise ToolError("the model %s %s explored nothing" % (module, cfg))
        self.states += dist
        self.transitions += gen
        self.stage("model " + cfg, t0, states=dist, transitions=gen)

    # --- cases generated from the specification, replayed against the library ---------------------
    def generate(self, module="GenStruct", part=None, command="replay", limit=20, lazy=False, sweep=False):
        t0 = time.time()
        part = part or self.prop
        name = part + ("-sizes" if sweep else "-large" if lazy else "")
        cases = self.path("cases-%s.ndjson" % name)
        env = {"VP_PROP": part, "VP_TIER": self.tier, "VP_OUT": cases}
        if lazy:
            env["VP_LAZY"] = "1"
            if sweep:
                env["VP_SWEEP"] = "1"
            env["VP_OUT"] = os.path.join(self.path("each"), "c")
            shutil.rmtree(self.path("each"), ignore_errors=True)
            os.makedirs(self.path("each"))
        st, gen, dist, out = tlc(module, os.path.join(SPEC, "models", module + ".cfg"), self.dir, timeout=800, env=env)
        if st != "ok":
            raise ToolError("generation violates the specification:\n" + out[-6000:])
        if lazy:             # one file per case: in order, in one file
            files = sorted(os.listdir(self.path("each")), key=lambda f: int(f.split(".")[1]))
            if 2 * len(files) != dist:
                raise ToolError("%d cases of %d states were written" % (len(files), dist))
            with open(cases, "w") as f:
                for x in files:
                    f.write(open(os.path.join(self.path("each"), x)).read().rstrip("\n") + "\n")
            shutil.rmtree(self.path("each"))
        self.states += dist
        self.transitions += gen
        self.stage("generate " + name, t0, states=dist, transitions=gen)
        t0 = time.time()
        both = (self.binary, self.wrapping)
        with ThreadPoolExecutor(2) as pool:
            runs = [(b, pool.submit(driver, b, [command, cases], self.dir, limit)) for b in both]
        for binary, job in runs:
            code, out = job.result()
            done = re_replayed(out)
            if code == 1:
                bad = [json.loads(l[len("MISMATCH "):]) for l in out.splitlines() if l.startswith("MISMATCH ")]
                raise Violation("outcome differs from the specification", {"mismatches": bad, "total": done[2], "driver": binary})
        # a canary: the same file with one required outcome falsified must be noticed
        if done[0] == 0:
            raise ToolError("nothing was replayed")
        self.traces += done[0]
        self.samples += [l for l in sample_lines(cases, 2)]
        self.canary(cases, command, limit)
        self.stage("replay " + name, t0, cases=done[0], unspecified=done[1])

    def canary(self, cases, command, limit):
        lines = [l for l in open(cases) if '"k":"val"' in l or '"k":"mat"' in l or '"k":"self"' in l or '"k":"text"' in l or '"k":"pts"' in l][:1]
        if not lines:
            return
        j = json.loads(lines[0])
        j["x"] = {"k": "rej"}
        p = self.path("canary.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(j, separators=(",", ":")) + "\n")
        code, out = driver(self.binary, [command, p], self.dir, limit=limit)
        if code != 1:
            raise ToolError("the replay does not notice a falsified outcome")

    # --- traces recorded from the library, checked against the specification -----------------------
    def trace(self, module, args, name=None, binary=None, timeout=800, limit=20, env=None, heap="12g", expect_states=None, corrupt=None):
        name = name or module
        t0 = time.time()
        tr = self.path(name + ".ndjson")
        code, out = driver(binary or self.binary, args + [tr], self.dir, limit=limit)
        if code != 0:
            raise Violation("the driver observed a violation", {"output": out[-4000:]})
        recs = read_ndjson(tr)
        n = len(recs)
        if n == 0:
            raise ToolError("empty trace")
        self.stage("record " + name, t0, records=n)
        t0 = time.time()
        e = {"VP_TRACE": tr, "VP_TIER": self.tier, "VP_PROP": self.prop}
        e.update(env or {})
        cfg = os.path.join(SPEC, "models", module + ".cfg")
        st, gen, dist, out = tlc(module, cfg, self.dir, env=e, timeout=timeout, heap=heap)
        if st != "ok":
            raise Violation("a recorded execution is not a behaviour of the specification", {"trace": bad_records(tr, out), "tlc": tail_error(out)})
        want = expect_states(recs) if expect_states else 2 * n
        if dist != want:
            raise ToolError("%s visited %d states, not %d: some records were not consumed" % (module, dist, want))
        self.states += dist
        self.transitions += gen
        self.traces += n
        self.samples += [l for l in sample_lines(tr, 1)]
        self.stage("validate " + name, t0, states=dist, transitions=gen)
        if corrupt:          # the binding: a falsified record must be rejected
            t0 = time.time()
            bad = self.path(name + "-canary.ndjson")
            with open(bad, "w") as f:
                f.write(json.dumps(corrupt(recs)) + "\n")
            st, _, _, out = tlc(module, cfg, self.dir, env=dict(e, VP_TRACE=bad), timeout=timeout)
            if st == "ok":
                raise ToolError("%s accepts a falsified record" % module)
            self.stage("canary " + name, t0)

    def finish(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": [s[:1500] for s in self.samples] or ["none"], "stages": self.stages},
              "assumptions": plan.ASSUMPTIONS.get(self.prop, []) + plan.COMMON_ASSUMPTIONS,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def re_replayed(out):
    m = re.findall(r"REPLAYED (\d+) open (\d+) mismatches (\d+)", out)
    if not m:
        raise ToolError("the driver gave no summary:\n" + out[-2000:])
    return tuple(int(x) for x in m[-1])


def sample_lines(path, k):
    with open(path) as f:
        ls = f.read().splitlines()
    return [ls[(i + 1) * len(ls) // (k + 1)] for i in range(k)] if ls else []


def tail_error(out):
    i = out.find("Error:")
    return out[i:i + 6000] if i >= 0 else out[-3000:]


def bad_records(tr, out):
    """The records TLC complains about: the value of variable i (or lane position) in its last state."""
    m = re.findall(r"/\\ i = (\d+)", out)
    lines = open(tr).read().splitlines()
    if m:
        k = int(m[-1])
        if 1 <= k <= len(lines):
            return [lines[k - 1]]
    return []


def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                r.append(l[len("finding: "):].strip())
    return r


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    log("%s %s" % (prop, tier))
    run = None
    try:
        run = Run(prop, tier)
        plan.PLAN[prop](run)
        run.finish()
        for k in known_findings(prop):
            log("KNOWN-FINDING: " + k)
        log("%s holds on everything explored: states=%d transitions=%d traces=%d (%.1fs)" % (prop, run.states, run.transitions, run.traces, time.time() - run.t0))
        return 0
    except Violation as v:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        p = os.path.join(BUILD, "replay", "%s-%s.json" % (prop, tier))
        with open(p, "w") as f:
            json.dump({"property": prop, "what": v.what, "record": v.record, "seed": run.seed if run else 0}, f, indent=1)
        if run:
            run.finish(1)
        log(v.what)
        log(json.dumps(v.record)[:3000])
        log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    except ToolError as e:
        log("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
