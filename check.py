#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> <quick|thorough>.

1. Builds the verifier (engine/) and runs it on the current source of /repo (and, for the properties
   of the generated code, on the code that the generator built from /repo writes). Every obligation
   generated from the contracts of the property has to be discharged.
2. Runs the concrete harness of the property against the real code. It replays the property on
   inputs: it looks for an input that witnesses a failed obligation, and it is the bounded stand-in
   for the functions that the verifier can't reach.

Exit 0: holds. Exit 1 and a VIOLATION line: broken. Nothing else.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MODULE = "github.com/openshift-online/ocm-api-metamodel"

ENV = dict(os.environ)
ENV.update(
    HOME="/root",
    PATH="/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off", CGO_ENABLED="0", GONOSUMDB="*", GOFLAGS_EXTRA="",
)

sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402


def run(cmd, cwd=None, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        def dec(x):
            return x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return 124, dec(e.stdout), dec(e.stderr) + "\ntimed out"


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.cfg = PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.evidence = os.path.join(ROOT, "evidence")
        os.makedirs(self.evidence, exist_ok=True)
        self.notes = []
        self.reports = []
        self.cmds = []
        self.harness = []
        self.timings = {}

    def left(self):
        return 800 - (time.time() - self.start) if self.tier == "quick" else 3000 - (time.time() - self.start)

    # ---- building ----

    def build_engine(self):
        t = time.time()
        out = os.path.join(self.scratch, "gov")
        env = dict(ENV, GOFLAGS="-mod=mod")
        eng = os.path.join(self.scratch, "engine")
        shutil.copytree(os.path.join(ROOT, "engine"), eng)
        rc, so, se = run(["go", "build", "-o", out, "."], cwd=eng, env=env, timeout=300)
        self.timings["build verifier"] = round(time.time() - t, 1)
        if rc != 0:
            self.notes.append("the verifier doesn't build: " + se[-2000:])
            return None
        return out

    def build_harness(self, pkg):
        out = os.path.join(self.scratch, "harness-" + pkg.replace("/", "-"))
        src = os.path.join(self.scratch, "harness-src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(ROOT, "harness"), src)
            # the harness is compiled against the source in /repo, with the versions of the
            # dependencies that it asks for:
            gosum = os.path.join(REPO, "go.sum")
            if os.path.exists(gosum):
                shutil.copy(gosum, os.path.join(src, "go.sum"))
        rc, so, se = run(["go", "build", "-mod=mod", "-o", out, "./" + pkg], cwd=src, timeout=300)
        if rc != 0:
            return None, se
        return out, ""

    # ---- verifier ----

    def verify(self, gov, limit):
        for i, ver in enumerate(self.cfg.get("verify", [{}])):
            t = time.time()
            d, module = REPO, MODULE
            patterns = ver.get("patterns", "./pkg/...,./cmd/...")
            specs = ver.get("specs", ["contracts/*.spec"])
            if "generate" in ver:
                from generated import prepare
                res = prepare(self, ver)
                if res is None:
                    continue
                d, module, patterns, specs = res
            out = os.path.join(self.scratch, "report%d.json" % i)
            cmd = [gov, "-dir", d, "-module", module, "-patterns", patterns, "-prop", self.prop,
                   "-timeout", "20" if self.tier == "quick" else "60", "-out", out]
            for s in specs:
                cmd += ["-spec", s if s.startswith("/") else os.path.join(ROOT, s)]
            rc, so, se = run(cmd, timeout=max(60, min(limit, self.left())), cwd=self.scratch)
            self.cmds.append("gov " + " ".join(c for c in cmd[1:] if c != "-out" and c != out))
            self.timings["verifier run %d" % (i + 1)] = round(time.time() - t, 1)
            if rc == 124 or not os.path.exists(out):
                self.notes.append("verifier run %d gave no answer: rc=%s %s" % (i + 1, rc, se[-1500:]))
                continue
            with open(out) as f:
                data = json.load(f)
            if data.get("error"):
                self.notes.append("verifier: " + str(data["error"])[:2000])
            if data.get("dropped"):
                self.notes.append("clauses of other properties that don't hold, not used as facts: " + ", ".join(map(str, data["dropped"]))[:1500])
            for r in data.get("reports") or []:
                r["run"] = cmd
                self.reports.append(r)

    def confirm(self):
        """Verifies again, with more time, the functions with failed obligations: a loaded machine
        can't be told from an obligation that doesn't hold otherwise."""
        bad = {}
        for r, o in self.failed():
            bad.setdefault(json.dumps(r["run"]), set()).add(r["func"])
        for text, names in bad.items():
            if len(names) > 12 or self.left() < 240:
                continue
            t = time.time()
            cmd = json.loads(text)
            out = os.path.join(self.scratch, "confirm.json")
            if os.path.exists(out):
                os.remove(out)
            again = list(cmd)
            again[again.index("-out") + 1] = out
            again[again.index("-timeout") + 1] = "60"
            again += ["-func", "^(" + "|".join(re.sub(r"([][\\.*+?(){}^$|])", r"\\\1", n) for n in sorted(names)) + ")$"]
            run(again, timeout=min(300, self.left() - 150), cwd=self.scratch)
            self.timings["verifier again: %s" % ", ".join(sorted(names))[:200]] = round(time.time() - t, 1)
            if not os.path.exists(out):
                continue
            with open(out) as f:
                data = json.load(f)
            if data.get("error"):
                continue
            new = {r["func"]: r for r in data.get("reports") or []}
            for i, r in enumerate(self.reports):
                if r["run"] == cmd and r["func"] in names and r["func"] in new:
                    self.reports[i] = dict(new[r["func"]], run=cmd)

    def failed(self):
        out = []
        for r in self.reports:
            if r["status"] != "failed":
                continue
            if self.prop not in (r.get("props") or []) and r.get("kind") not in ("lemma",):
                continue
            for o in r.get("obligations") or []:
                if o.get("Result") not in ("unsat", "proved", "ok"):
                    out.append((r, o))
            if not any(o.get("Result") not in ("unsat", "proved", "ok") for o in r.get("obligations") or []):
                out.append((r, None))
        return out

    # ---- harness ----

    def run_harness(self, tier, seed):
        failures = []
        for item in self.cfg.get("harness", []):
            t = time.time()
            if isinstance(item, str):
                item = {"pkg": item}
            pkg = item["pkg"]
            if item.get("generate"):
                from generated import build_generated_harness
                binary, err, gfail = build_generated_harness(self, item)
                failures += gfail
            else:
                binary, err = self.build_harness(pkg)
            if binary is None:
                if err:
                    self.notes.append("harness %s doesn't build, skipped: %s" % (pkg, err[-1500:]))
                continue
            out = os.path.join(self.scratch, "harness.json")
            if os.path.exists(out):
                os.remove(out)
            work = os.path.join(self.scratch, "work")
            os.makedirs(work, exist_ok=True)
            cmd = [binary, "-tier", tier, "-seed", str(seed), "-out", out, "-scratch", work]
            rc, so, se = run(cmd, cwd=work, timeout=max(60, min(item.get("timeout", 400), self.left())))
            self.timings["harness %s (%s)" % (pkg, tier)] = round(time.time() - t, 1)
            if not os.path.exists(out):
                if rc == 124:
                    self.notes.append("harness %s gave no answer in time" % pkg)
                    continue
                # The process was ended by the code under test: a stack overflow, an exit or a
                # concurrent map access can't be recovered.
                tail = (so + se)
                first = tail[:1500]
                failures.append({"clause": "doesn't crash", "input": "harness %s -tier %s -seed %s" % (pkg, tier, seed),
                                 "detail": "rc=%s\n%s" % (rc, first)})
                continue
            with open(out) as f:
                data = json.load(f)
            data["pkg"] = pkg
            data["tier"] = tier
            data["seed"] = seed
            self.harness.append(data)
            for x in data.get("failures") or []:
                x["pkg"] = pkg
                x["seed"] = seed
                x["tier"] = tier
                failures.append(x)
        return failures

    # ---- known findings ----

    def known(self, failures):
        """Splits the failures in those listed in the known findings file and the others."""
        listed = []
        path = os.path.join(ROOT, "known-findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) clause=\"([^\"]*)\" input=\"([^\"]*)\" (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    listed.append((m.group(2), m.group(3), m.group(4)))
        new = []
        seen = set()
        for f in failures:
            hit = None
            for clause, text, what in listed:
                if f["clause"] == clause and (text in f["input"] or text in f["detail"]):
                    hit = what
            if hit:
                if hit not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, hit))
                    seen.add(hit)
            else:
                new.append(f)
        return new

    # ---- outcome ----

    def main(self):
        try:
            failures = self.known(self.run_harness(self.tier, self.seed))
            gov = self.build_engine() if self.cfg.get("verify", True) else None
            if gov:
                # With a failing input there is no need to wait for all the obligations.
                self.verify(gov, 120 if failures and self.tier == "quick" else 500)
            failed = self.failed()
            if failed and not failures:
                self.confirm()
                failed = self.failed()
            if failed and not failures and self.left() > 120:
                # A failed obligation without a witness: look harder.
                failures = self.known(self.run_harness("search", self.seed + 1000))
            return self.finish(failed, failures)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self, failed, failures):
        replay = os.path.join(self.evidence, "%s-replay.txt" % self.prop)
        if os.path.exists(replay):
            os.remove(replay)
        violation = bool(failed or failures)
        if violation:
            self.write_replay(replay, failed, failures)
        self.write_evidence(failed, failures)
        for n in self.notes:
            print("note: " + n.split("\n")[0][:300])
        obs, done = self.counts()
        print("%s: %d obligations, %d discharged, %d concrete evaluations, %.1f s" % (
            self.prop, obs, done, sum(d["evaluations"] for d in self.harness), time.time() - self.start))
        if failures:
            f = failures[0]
            print("failing input: [%s] %s: %s" % (f["clause"], f["input"][:400], f["detail"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        if failed:
            r, o = failed[0]
            print("failed obligation: %s: %s" % (r["func"], "%s %s" % (o["Kind"], o["Detail"]) if o else r.get("reason")))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.prop, replay))
            return 1
        return 0

    def counts(self):
        obs = done = 0
        for r in self.reports:
            for o in r.get("obligations") or []:
                obs += 1
                if o.get("Result") in ("unsat", "proved", "ok"):
                    done += 1
        return obs, done

    def write_replay(self, path, failed, failures):
        with open(path, "w") as f:
            f.write("property %s: %s\n" % (self.prop, self.cfg.get("title", "")))
            f.write("reproduce with: VERIF_SEED=%d python3 %s/check.py %s %s\n\n" % (self.seed, ROOT, self.prop, self.tier))
            for x in failures:
                f.write("FAILING INPUT (replayed on the real code)\n clause: %s\n input: %s\n detail: %s\n harness: %s -tier %s -seed %s\n\n" % (
                    x["clause"], x["input"], x["detail"], x.get("pkg"), x.get("tier"), x.get("seed")))
            for r, o in failed:
                f.write("FAILED OBLIGATION of %s\n" % r["func"])
                if o is None:
                    f.write(" %s\n" % r.get("reason"))
                else:
                    for k in ("Kind", "Clause", "Detail", "Pos", "Result", "Solver", "Secs"):
                        f.write(" %s: %s\n" % (k.lower(), o.get(k)))
                    f.write(" goal: %s\n" % str(o.get("Goal"))[:20000])
                f.write("\n")

    def write_evidence(self, failed, failures):
        obs, done = self.counts()
        status = {}
        assumptions = set()
        trusted = set()
        secs = 0.0
        solvers = {}
        functions = []
        for r in self.reports:
            status[r["status"]] = status.get(r["status"], 0) + 1
            if r["status"] == "proved":
                functions.append(r["func"])
            secs += sum(o.get("Secs") or 0 for o in r.get("obligations") or [])
            for o in r.get("obligations") or []:
                s = o.get("Solver") or "simplifier"
                solvers[s] = solvers.get(s, 0) + 1
            if r["status"] in ("assumed", "trusted"):
                trusted.add("%s: %s" % (r["status"], r["func"]))
            if r["status"] == "elsewhere":
                assumptions.add("contract used here, %s: %s" % (r.get("reason"), r["func"]))
            if r["status"] in ("unsupported", "missing", "partial"):
                assumptions.add("not under proof, covered only by the concrete harness: %s (%s)" % (r["func"], (r.get("reason") or "")[:200]))
            notes = r.get("notes") or {}
            for k in notes.get("extern") or []:
                trusted.add("effects of external function assumed: %s" % k)
            for k in notes.get("unknown-call") or []:
                assumptions.add("unknown call treated as changing everything: %s" % k)
            for k in notes.get("only-implementation") or []:
                assumptions.add("the values of the interface are of its only implementation in the module: %s" % k)
            for k in notes.get("assumed precondition") or []:
                assumptions.add("precondition not proved at the call in %s: %s" % (r["func"], k))
            for k in r.get("axioms") or []:
                trusted.add("axiom: %s" % k)
        trusted.update([
            "the verification condition generator in /verif/engine (Go SSA to SMT)",
            "golang.org/x/tools/go/ssa, z3-new, cvc5",
        ])
        assumptions.update(self.cfg.get("assumptions", []))
        assumptions.update([
            "signed integers are mathematical; unsigned integers are bit vectors",
            "partial correctness: termination isn't verified",
            "memory is sequential: no concurrent changes",
        ])
        level = self.cfg.get("level", "proof")
        ev = {
            "property": self.prop,
            "tier": self.tier if self.tier in ("quick", "thorough") else "thorough",
            "seed": self.seed,
            "level": level,
            "coverage": {
                "obligations": obs,
                "discharged": done,
                "checker_cmd": "; ".join(self.cmds),
                "trusted_base": sorted(trusted),
                "functions_under_contract": sorted(functions),
                "status": status,
                "back_ends": solvers,
                "solver_seconds": round(secs, 2),
                "loops": sum(r.get("loops") or 0 for r in self.reports),
                "evaluations": sum(d["evaluations"] for d in self.harness),
                "distinct_nontrivial": sum(d["distinct"] for d in self.harness),
                "rule": self.cfg.get("rule", "inputs are enumerated or drawn with the seed; a case is non-trivial when it checks a clause of the property on an input not seen before"),
                "samples": [s for d in self.harness for s in (d.get("samples") or [])][:12] or ["none"],
                "bounds": [b for d in self.harness for b in (d.get("bounds") or [])],
                "clauses": {k: v for d in self.harness for k, v in d["clauses"].items()},
                "explanation": self.cfg.get("explanation", "contract-based deductive verification of the real functions; concrete harness for witnesses and for functions out of reach"),
                "timings": self.timings,
            },
            "assumptions": sorted(assumptions) + self.notes,
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(failed) + len(failures),
        }
        with open(os.path.join(self.evidence, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)


if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check.py <%s> <quick|thorough>" % "|".join(PROPS))
        sys.exit(2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(sys.argv[1], tier).main())
