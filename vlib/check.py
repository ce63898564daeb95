"""Common parts of the checks: evidence, violations, failing-input search on the real code."""
import json, os, subprocess, sys, time, hashlib, re
import concurrent.futures as cf
from . import build

VERIF = build.VERIF
GUARD = "SLINKY_VERIF_NO_LEARN_FROM_MIN_MAX"
JOBS = min(8, os.cpu_count() or 4)
NFIF = "no-failing-input-found"


def known_findings(prop):
    """known_findings.txt: `finding: property=<ids> id=<name> kind=<kind> case=<case>` lines."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) what=\"([^\"]*)\" case=(.*)$", line.strip())
            if m and prop in m.group(1).split(","):
                out.append({"id": m.group(2), "what": m.group(3), "case": m.group(4)})
    return out


class Check:
    def __init__(self, prop, level="proof"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.obligations = []      # dicts: name, function, result, backend, seconds
        self.functions = {}        # function -> note
        self.bounded = []          # dicts describing bounded parts
        self.undecided = []        # what could not be decided, and why
        self.assumptions = []
        self.trusted = []
        self.notes = {}
        self.violations = []
        self.dir = os.path.join(VERIF, "replays", prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    def obligation(self, name, result, backend, seconds, function=None, vacuous=None):
        o = {"name": name, "result": result, "backend": backend, "seconds": round(seconds, 3)}
        if function:
            o["function"] = function
        if vacuous is not None:
            o["vacuous"] = vacuous
        self.obligations.append(o)

    def violation(self, name, text, found=True):
        """Writes a replay file and prints the VIOLATION line."""
        if sum(1 for v in self.violations if v["failing_input"] == bool(found)) >= 8:
            self.log("violated (not reported separately):", name)
            return
        os.makedirs(self.dir, exist_ok=True)
        h = hashlib.sha256((name + text).encode()).hexdigest()[:10]
        path = os.path.join(self.dir, "%s.txt" % h)
        with open(path, "w") as f:
            f.write("property: %s\nviolated: %s\n%s\n" % (self.prop, name, text))
        self.violations.append({"name": name, "replay": path, "failing_input": bool(found)})
        self.log("violated:", name)
        for l in text.split("\n")[:12]:
            self.log("   ", l[:300])
        print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if found else " " + NFIF), flush=True)

    def finish(self):
        by = {}
        fns = {}
        for o in self.obligations:
            if o["result"] == "discharged":
                by[o["backend"]] = by.get(o["backend"], 0) + 1
            if o.get("function"):
                d = fns.setdefault(o["function"], {"obligations": 0, "discharged": 0})
                d["obligations"] += 1
                d["discharged"] += o["result"] == "discharged"
        dis = sum(1 for o in self.obligations if o["result"] == "discharged")
        cov = {
            "obligations": len(self.obligations),
            "discharged": dis,
            "checker_cmd": "python3-vt checks/run.py %s" % self.prop,
            "trusted_base": self.trusted,
            "discharged_by_back_end": by,
            "solver_seconds": round(sum(o["seconds"] for o in self.obligations), 2),
            "functions_under_contract": {k: dict(v, **({"note": self.functions[k]} if self.functions.get(k) else {}))
                                         for k, v in sorted(fns.items())},
            "undischarged": [o for o in self.obligations if o["result"] != "discharged"][:40],
            "bounded_not_proved": self.bounded,
            "undecided": self.undecided,
        }
        cov.update(self.notes)
        level = self.level
        if self.obligations and dis < len(self.obligations):
            cov["note"] = "some obligations were not discharged on this tree: see undischarged"
        ev = sum(b.get("evaluations", 0) for b in self.bounded)
        if ev:
            cov["evaluations"] = ev
            cov["distinct_nontrivial"] = sum(b.get("distinct_nontrivial", 0) for b in self.bounded)
            cov["rule"] = "bounded part only: see bounded_not_proved"
            cov["samples"] = [s for b in self.bounded for s in b.get("samples", [])][:6]
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1, default=str)
        self.log("%d obligations, %d discharged, %d violations, undecided: %d" %
                 (len(self.obligations), dis, len(self.violations), len(self.undecided)))
        for u in self.undecided:
            self.log("undecided:", str(u)[:400])
        sys.exit(1 if self.violations else 0)


# --- the expression driver -------------------------------------------------------------------------------------------
class ExprTool:
    """exprtool linked with the library built with the hook guard (searching) and without (deciding)."""
    def __init__(self, check):
        self.check = check
        self.hooked = self.plain = None

    def build(self):
        src = os.path.join(VERIF, "drivers", "exprtool.cc")
        with cf.ThreadPoolExecutor(2) as ex:
            libs = build.lib_pair(GUARD)
            f = [ex.submit(build.program, src, "exprtool" + n, build.RUN_FLAGS, [l]) for n, l in zip(("", "h"), libs)]
            self.plain, self.hooked = [x.result() for x in f]

    def replay(self, case, exe=None, timeout=120):
        """Returns (failed, text)."""
        d = os.path.join(build.outdir(), "cases")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, hashlib.sha256(case.encode()).hexdigest()[:12])
        open(p, "w").write(case + "\n")
        try:
            r = subprocess.run([exe or self.plain, "replay", p], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            return True, "no result after %d seconds (the code under test does not terminate)" % timeout
        return r.returncode in (1, 4, 5), r.stdout[-4000:]

    def search(self, jobs, timeout=600):
        """jobs: lists of arguments after `run`. Runs them in parallel; returns (list of (job, case, text)), stats."""
        def one(a):
            try:
                r = subprocess.run([self.hooked, "run"] + [str(x) for x in a], text=True, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
                return a, r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                return a, None, ""
        fails, st = [], {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "timeouts": 0}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for a, rc, out in ex.map(one, jobs):
                if rc is None:
                    st["timeouts"] += 1
                    continue
                m = re.search(r"^STATS cases (\d+) effective (\d+) distinct (\d+)", out, re.M)
                if m:
                    st["evaluations"] += int(m.group(1))
                    st["distinct_nontrivial"] += int(m.group(3))
                st["samples"] += re.findall(r"^SAMPLE (.*)$", out, re.M)[:1]
                if rc != 0:
                    m = re.search(r"^(?:FAIL|CRASH) case: (.*)$", out, re.M)
                    fails.append((a, m.group(1) if m else None, out[-3000:]))
        st["samples"] = st["samples"][:3]
        return fails, st

    def bounded(self, what, jobs, cap=3):
        """A bounded stand-in: searches, confirms every failure on the library as it ships, reports violations."""
        c = self.check
        fails, st = self.search(jobs)
        st["what"] = what
        seen = set()
        for a, case, text in fails:
            if case is None:
                c.undecided.append("driver failed: %s: %s" % (a, text[-300:]))
                continue
            if case in seen or len(seen) >= cap:
                continue
            seen.add(case)
            bad, out = self.replay(case)
            if bad:
                c.violation("contract of %s on the real code" % what,
                            "case: %s\nreplay: write the case to a file F and run: %s replay F\n%s" %
                            (case, os.path.relpath(self.plain, VERIF), out))
            else:
                c.undecided.append("fails only with the hooks on: " + case)
        c.bounded.append(st)
        return bool(seen)

    def known(self):
        """Replays the listed findings on the library as it ships."""
        c = self.check
        for k in known_findings(c.prop):
            bad, out = self.replay(k["case"])
            if bad:
                print("KNOWN-FINDING: property=%s %s: %s" % (c.prop, k["id"], k["what"]), flush=True)
                c.notes.setdefault("known_findings", []).append(k)
            else:
                c.notes.setdefault("known_findings_no_longer_failing", []).append(k["id"])


class RtTool(ExprTool):
    """The runtime driver, linked with the library built with the address sanitizer."""
    def replay(self, case, exe=None, timeout=120):
        # Cases with threads do not fail every time.
        for i in range(30):
            bad, out = super().replay(case, exe, timeout)
            if bad:
                break
        return bad, out

    def build(self):
        flags = build.RUN_FLAGS + ("-g1", "-fsanitize=address", "-fno-omit-frame-pointer")
        d = os.path.join(VERIF, "drivers", "rt")
        srcs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc")]
        with cf.ThreadPoolExecutor(2) as ex:
            l = ex.submit(build.lib, flags, "asanw")
            o = ex.submit(build.driver_objs, srcs, flags, "rt")
            lib, objs = l.result(), o.result()
        self.plain = self.hooked = build.program(objs, "rt", flags, [lib])
