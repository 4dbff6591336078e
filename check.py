#!/usr/bin/env python3
"""Decides one property of LGAR-C against the TLA+ specification in spec/.

    check.py P01 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

1. builds /repo's working tree (library, standalone program) and the recorder in a scratch directory;
2. TLC generates behaviours of the environment (spec/Scenario.tla, simulation; spec/LasamMC.tla, exhaustive, where its own
   invariants are checked on the way);
3. the recorder replays them into the real code and records one event per call;
4. TLC checks that the recorded behaviour is one the specification allows (spec/LasamTrace.tla), for the clauses of the
   property;
5. a rejected scenario is recorded and checked once more on its own before it is reported.

Exit status: 0 held on everything explored, 1 violation (and a VIOLATION line), 2 the check itself could not run.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LGAR_REPO", "/repo")
sys.path.insert(0, HERE + "/tools")
import concretise  # noqa: E402
import plans  # noqa: E402

TLA = "/opt/veriftools/tla"
NPROC = 8


class ToolError(Exception):
    pass


def sh(cmd, log, timeout=600, env=None, cwd=None):
    with open(log, "w") as f:
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
            return r.returncode
        except subprocess.TimeoutExpired:
            return -1


def tail(path, n=30):
    try:
        return "\n".join(open(path, errors="replace").read().splitlines()[-n:])
    except OSError:
        return ""


class Check:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.d = pid, tier, seed, scratch
        self.plan = plans.plan(pid, tier)
        self.stats = dict(scenarios=0, updates=0, lines=0, cov={}, states=0, transitions=0, sim_states=0, trace_states=0)

    # ---------------------------------------------------------------- build
    def build(self):
        b = self.d + "/b"
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if self.plan.get("sanitize") else []
        flags = ["-DCMAKE_%s_FLAGS=%s" % (x, " ".join(san)) for x in ("C", "CXX")] if san else []
        if sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DNGEN=ON" if self.plan["framework"] else "-DSTANDALONE=ON"] + flags, self.d + "/cmake.log", env=env) != 0:
            raise ToolError("cmake failed\n" + tail(self.d + "/cmake.log"))
        if sh(["ninja", "-C", b], self.d + "/ninja.log", env=env) != 0:
            raise ToolError("build of /repo failed\n" + tail(self.d + "/ninja.log"))
        driver = "units" if self.plan["units"] else "recorder"
        if sh(["g++", "-O1", "-std=c++14", "-w", "-I" + REPO + "/include", HERE + "/harness/%s.cxx" % driver, "-o", self.d + "/rec",
               "-L" + b, "-llasambmi", "-Wl,-rpath," + b] + (["-DFRAMEWORK"] if self.plan["framework"] else []) + san, self.d + "/rec.log") != 0:
            raise ToolError("build of the recorder failed\n" + tail(self.d + "/rec.log"))
        self.rec, self.exe = self.d + "/rec", b + "/lasam_standalone"

    def classes(self):
        self.cls = self.d + "/cls"
        os.makedirs(self.cls)
        src = [HERE + "/java/" + f for f in sorted(os.listdir(HERE + "/java")) if f.endswith(".java")]
        if sh(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", self.cls] + src, self.d + "/javac.log") != 0:
            raise ToolError("javac failed\n" + tail(self.d + "/javac.log"))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, env, log, extra=(), mem="3g", timeout=800):
        md = tempfile.mkdtemp(prefix="md", dir=self.d)
        cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + mem, "-Djava.io.tmpdir=" + md,
               "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar:" + self.cls, "tlc2.TLC", "-nowarning", "-metadir", md,
               *extra, "-config", module + ".cfg", module]
        rc = sh(cmd, log, timeout=timeout, env=dict(os.environ, **env, **({"FRAMEWORK": "1"} if self.plan["framework"] else {})), cwd=HERE + "/spec")
        shutil.rmtree(md, ignore_errors=True)
        return rc

    def count(self, log, key):
        for m in re.findall(r"(?:([\d,]+) states generated,|The number of states generated: ([\d,]+))", open(log, errors="replace").read())[-1:]:
            self.stats[key] += int((m[0] or m[1]).replace(",", ""))

    def generate(self, fam, cls, num, nupd, seed, out):
        rc = self.tlc("SoilProbe" if fam == "soil" else "Scenario", dict(FAMILY=fam, CLS=cls, NUPD=str(nupd), OUT=out), out + ".log",
                      ["-simulate", "num=%d" % num, "-depth", "1000000", "-seed", str(seed), "-workers", "1"])
        if not os.path.exists(out) or rc != 0:
            raise ToolError("scenario generation failed (%s)\n%s" % (fam, tail(out + ".log")))
        self.count(out + ".log", "sim_states")
        g = [json.loads(x) for x in open(out)]
        if len(g) != num:
            raise ToolError("scenario generation incomplete (%s): %d of %d\n%s" % (fam, len(g), num, tail(out + ".log")))
        return g

    def explore(self, cfgno, depth, out):
        """Exhaustive exploration of the specification (LasamMC, FrontList or Interleave): its invariants are checked, its behaviours are returned."""
        rc = self.tlc({"list": "FrontList", "iso": "Interleave"}.get(cfgno, "LasamMC"), dict(CFGNO=str(cfgno), DEPTH=str(depth), OUT=out), out + ".log", ["-workers", "1"])
        txt = open(out + ".log", errors="replace").read()
        if rc != 0 or "Model checking completed. No error" not in txt:
            raise ToolError("the specification does not satisfy its own properties\n" + tail(out + ".log", 60))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        return [json.loads(x) for x in open(out)], int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))

    def validate(self, groups, d):
        """Records the groups' scenarios with the real code and checks the trace. Returns (result, trace path)."""
        os.makedirs(d, exist_ok=True)
        s = concretise.units_script(groups) if self.plan["units"] else concretise.script(groups, d, self.exe)
        open(d + "/script", "w").write("\n".join(s) + "\n")
        rc = sh([self.rec, d + "/script", d + "/trace", d, "40" if self.plan.get("sanitize") else "20"], d + "/rec.log", timeout=800,
                env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1"))
        if rc != 0:
            raise ToolError("recorder failed (%d)\n%s" % (rc, tail(d + "/rec.log")))
        json.dump(self.plan["clauses"], open(d + "/props", "w"))
        if os.path.exists(d + "/res"):
            os.unlink(d + "/res")
        rc = self.tlc("UnitsTrace" if self.plan["units"] else "LasamTrace", dict(TRACE=d + "/trace", PROPS=d + "/props", OUT=d + "/res"), d + "/tlc.log",
                      ["-noGenerateSpecTE"])
        if rc == 0 and os.path.exists(d + "/res"):
            self.count(d + "/tlc.log", "trace_states")
            return json.load(open(d + "/res"))
        # The specification's formulas are not defined for what was recorded (a profile without fronts, say): then the
        # recorded behaviour is not one of the specification's. The group that does it is found by halving.
        if not re.search(r"evaluating|TLC threw|attempted|StackOverflow", open(d + "/tlc.log", errors="replace").read(), re.I):
            raise ToolError("trace validation failed\n" + tail(d + "/tlc.log", 60))
        if len(groups) == 1:
            return dict(bad=[dict(scen=groups[0][0] + ".0", line=0, p=self.pid, c="behaviour outside the specification's state space")],
                        cov={}, lines=0)
        half = len(groups) // 2
        a, b = self.validate(groups[:half], d + "/a"), self.validate(groups[half:], d + "/b")
        return dict(bad=a["bad"] + b["bad"], lines=a["lines"] + b["lines"],
                    cov={k: a["cov"].get(k, 0) + b["cov"].get(k, 0) for k in set(a["cov"]) | set(b["cov"])})

    # ------------------------------------------------------------------- run
    def produce(self, job):
        """One piece of a family, or one configuration's exploration: a list of (group id, scenarios)."""
        if job[0] == "family":
            _, j, piece, fam, cls, num, nupd = job
            seed = ((self.seed * 7919 + piece) * 104729 + j * 1299709) % (2 ** 31)
            g = self.generate(fam, cls, num, nupd, seed, "%s/g%d_%d" % (self.d, j, piece))
            return [("%s%s%d_%d_%d" % (fam, cls, j, piece, q), x) for q, x in enumerate(g)], 0, 0
        _, cfgno, depth = job
        g, st, tr = self.explore(cfgno, depth, "%s/mc%s" % (self.d, cfgno))
        return [("mc%s_%d" % (cfgno, q), x) for q, x in enumerate(g)], st, tr

    def run(self):
        bad, samples, groups = [], [], []
        jobs = [("explore", c, n) for c, n in sorted(self.plan["explore"], key=lambda x: -x[1])]
        for j, (fam, cls, num, nupd) in enumerate(self.plan["families"]):
            pieces = max(1, min(NPROC, num * nupd // 1500))
            jobs += [("family", j, q, fam, cls, num // pieces + (1 if q < num % pieces else 0), nupd) for q in range(pieces)]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            jb, jc = ex.submit(self.build), ex.submit(self.classes)
            jb.result()
            jc.result()
            for g, st, tr in ex.map(self.produce, jobs):
                groups += g
                self.stats["states"] += st
                self.stats["transitions"] += tr
                if g and len(samples) < 4:
                    samples.append(dict(id=g[0][0], config=g[0][1]["scens"][0].get("ins", [{}])[0], calls=g[0][1]["scens"][0]["ops"][:6]))
            groups += corpus(self.pid)
            n = NPROC * max(1, len(groups) // 4000)
            byid = dict(groups)
            for res in ex.map(lambda q: self.chunk(groups[q::n], q), range(n)):
                self.stats["scenarios"] += res["cov"].get("scenario", 0)
                self.stats["updates"] += res["cov"].get("update", 0)
                self.stats["lines"] += res["lines"]
                for k, v in res["cov"].items():
                    self.stats["cov"][k] = self.stats["cov"].get(k, 0) + v
                for sc in res["bad"]:
                    gid = sc["scen"].rsplit(".", 1)[0]
                    bad.append((gid, sc, byid.get(gid)))
        return bad, samples

    def chunk(self, groups, q):
        if not groups:
            return dict(bad=[], cov={}, lines=0)
        d = "%s/v%d" % (self.d, q)
        res = self.validate(groups, d)
        shutil.rmtree(d, ignore_errors=True)
        return res

    def confirm(self, bad):
        """Re-records each rejected group alone; keeps the rejections that come again."""
        known = {k for p in self.plan["clauses"] for k, _ in known_findings(p)}
        fresh = {gid for gid, b, g in bad if b["c"] not in known and gid + ": " + b["c"] not in known}
        todo = {gid: g for gid, b, g in sorted(bad, key=lambda x: x[0] not in fresh) if g is not None}
        todo = list(todo.items())[:NPROC]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda q: self.validate([todo[q]], self.d + "/c%d" % q), range(len(todo))))
        return [(gid, g, r["bad"]) for (gid, g), r in zip(todo, res) if r["bad"]]


def corpus(pid):
    """Histories kept because they once showed something (corpus/*.json), replayed on every run."""
    out = []
    for f in sorted(os.listdir(HERE + "/corpus")):
        c = json.load(open(HERE + "/corpus/" + f))
        if pid in c["properties"]:
            out.append(("corpus_" + f[:-5], c["scenario"]))
    return out


def known_findings(pid):
    path = HERE + "/known-findings.txt"
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                key, _, text = ln[len("known: property=%s " % pid):].partition(" | ")
                out.append((key, text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="lgar_check_")
    try:
        ck = Check(pid, a.tier, a.seed, scratch)
        if a.replay:
            ck.build()
            ck.classes()
            r = json.load(open(a.replay))
            res = ck.validate([(r["group"], r["scenario"])], scratch + "/replay")
            for b in res["bad"]:
                print("  rejected: %s (scenario %s, event %d)" % (b["c"], b["scen"], b["line"]))
            print("replay: %d rejection(s)" % len(res["bad"]))
            return 1 if res["bad"] else 0
        bad, samples = ck.run()
        viol = ck.confirm(bad) if bad else []
        known = [x for p in ck.plan["clauses"] for x in known_findings(p)]
        new = []
        for gid, g, rej in viol:
            rest = []
            for b in rej:
                hit = [t for k, t in known if k in (b["c"], gid + ": " + b["c"])]
                if hit:
                    print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
                else:
                    rest.append(b)
            if rest:
                new.append((gid, g, rest))
        rdir = HERE + "/evidence/replays"
        os.makedirs(rdir, exist_ok=True)
        lines = []
        for gid, g, rej in new:
            body = json.dumps(dict(property=pid, group=gid, scenario=g, rejected=rej, seed=a.seed, tier=a.tier), indent=1)
            path = "%s/%s-%s.json" % (rdir, pid, hashlib.sha1(body.encode()).hexdigest()[:10])
            open(path, "w").write(body)
            lines.append((path, rej))
        s = ck.stats
        ev = dict(property=pid, tier=a.tier, seed=a.seed, level="model_checking",
                  coverage=dict(states=s["states"] + s["sim_states"], transitions=s["transitions"] + s["sim_states"] + s["trace_states"],
                                exhaustive_states=s["states"], simulated_states=s["sim_states"], trace_checking_states=s["trace_states"],
                                traces_validated_against_impl=s["scenarios"],
                                evaluations=s["updates"], distinct_nontrivial=s["lines"],
                                rule="every event of every recorded trace is checked against the clauses of the property; event kinds and "
                                     "model situations reached are counted in 'reached'",
                                reached=s["cov"], families=[dict(family=f, soils=c, scenarios=n, updates_each=u) for f, c, n, u in ck.plan["families"]],
                                explored=[dict(configuration=c, depth=dd) for c, dd in ck.plan["explore"]],
                                samples=samples[:4]),
                  assumptions=plans.ASSUMPTIONS + plans.EXTRA.get(pid, []),
                  wall_s=round(time.time() - t0, 1), violations=len(new),
                  unconfirmed=len({x[0] for x in bad}) - len(viol) if len({x[0] for x in bad}) <= NPROC else 0)
        json.dump(ev, open("%s/evidence/%s.json" % (HERE, pid), "w"), indent=1)
        print("%s %s: %d scenarios, %d Updates, %d events validated; %d specification states; %.0f s"
              % (pid, a.tier, s["scenarios"], s["updates"], s["lines"], s["states"] + s["sim_states"], time.time() - t0))
        for path, rej in lines:
            for c in sorted({b["c"] for b in rej}):
                print("  rejected: " + c)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if lines else 0
    except ToolError as x:
        print("CHECK ERROR (%s): %s" % (pid, x), file=sys.stderr)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
