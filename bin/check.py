#!/usr/bin/env python3
"""Decides one property: generated histories of API calls are run on the real engine and the
recorded log is validated by TLC against the specification (spec/Engine.tla).

usage: check.py PROPERTY        environment: VERIF_SEED, VERIF_TIER
       check.py --replay FILE   runs a history again and shows what the specification refuses
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
TLA = "/opt/veriftools/tla"
sys.path.insert(0, os.path.join(HERE, "bin"))
import gen       # noqa: E402
import plan      # noqa: E402

WORKERS = 8


class Broken(Exception):
    """the check itself failed: no verdict"""


def sh(cmd, env=None, cwd=None, timeout=None):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


class Run:
    def __init__(self, prop, work):
        self.prop = prop
        self.work = work
        self.race = plan.PLAN[prop].get("race", False) if prop in plan.PLAN else False
        self.n = 0
        self.states = self.generated = self.inits = 0
        self.ops = {}
        self.outcomes = {}
        self.traces = 0
        self.models = {}

    # ---------------------------------------------------------------- build
    def build(self):
        d = os.path.join(self.work, "build")
        os.makedirs(d)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), d)
        src = os.path.join(HERE, "harness")
        over = {os.path.join(REPO, "verifx", f): os.path.join(src, f) for f in os.listdir(src) if f.endswith(".go")}
        with open(os.path.join(d, "overlay.json"), "w") as f:
            json.dump({"Replace": over}, f)
        self.bin = os.path.join(d, "driver")
        cmd = "set -e; . /opt/vp/env.sh; cd %s; go build %s -overlay %s/overlay.json -modfile %s/go.mod -o %s ./verifx" % (
            REPO, "-race" if self.race else "", d, d, self.bin)
        r = sh(["bash", "-c", cmd])
        if r.returncode != 0:
            raise Broken("driver does not build:\n" + r.stdout)

    # ---------------------------------------------------------------- driver
    def drive(self, histories):
        """runs the histories in a fresh process; returns the logs, in order"""
        logs, rest = [], list(histories)
        while rest:
            self.n += 1
            d = tempfile.mkdtemp(dir=self.work)
            fin, fout = os.path.join(d, "in"), os.path.join(d, "out")
            with open(fin, "w") as f:
                for h in rest:
                    f.write(json.dumps(h) + "\n")
            scratch = os.path.join(d, "scratch")
            os.makedirs(scratch)
            env = dict(os.environ, GORACE="halt_on_error=0 exitcode=0 log_path=" + os.path.join(d, "race"), HOME=scratch, TMPDIR=scratch)
            env.pop("GOTRACEBACK", None)
            r = sh([self.bin, "-in", fin, "-out", fout, "-scratch", scratch], env=env, cwd=scratch, timeout=800)
            got = []
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
            shutil.rmtree(d)
            logs += got
            if r.returncode == 0:
                if len(got) != len(rest):
                    raise Broken("driver left out histories")
                return logs
            # a crash that cannot be recovered (stack overflow, concurrent map access)
            if "fatal error:" not in r.stdout or "out of memory" in r.stdout:
                raise Broken("driver ended with %d:\n%s" % (r.returncode, r.stdout[-2000:]))
            h = rest[len(got)]
            why = re.search(r"fatal error: (.*)", r.stdout).group(1)
            ev = [dict(h["ev"][-1], obs={"panic": "fatal error: " + why})]
            logs.append({"id": h["id"], "ev": ev})
            rest = rest[len(got) + 1:]
        return logs

    def drive_all(self, histories):
        k = max(1, min(WORKERS if not self.race else 4, len(histories) // 4))
        parts = [histories[j::k] for j in range(k)]
        with concurrent.futures.ThreadPoolExecutor(k) as ex:
            done = list(ex.map(self.drive, parts))
        logs = [None] * len(histories)
        for j in range(k):
            logs[j::k] = done[j]
        return logs

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, config, env, timeout=850):
        d = tempfile.mkdtemp(dir=self.work)
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(WORKERS), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", config, module]
        r = sh(cmd, env=dict(os.environ, **env), cwd=os.path.join(HERE, "spec"), timeout=timeout)
        shutil.rmtree(d)
        return r

    def small(self, model, scope):
        """checks a small scope model and returns the histories TLC enumerated"""
        t0 = time.time()
        r = self.tlc("MC_%s.tla" % model, "MC.cfg", {"SCOPE": scope}, 600)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
        if r.returncode != 0 or not m or "Model checking completed. No error" not in r.stdout:
            raise Broken("model %s:\n%s" % (model, "\n".join(x[:500] for x in r.stdout.splitlines() if "@@H" not in x)[-3000:]))
        hs = []
        for line in r.stdout.splitlines():
            if line.startswith('"@@H '):
                hs.append(json.loads(json.loads(line)[4:]))
        if not hs:
            raise Broken("model %s gives no history" % model)
        hs.sort(key=lambda h: json.dumps(h))
        self.states += int(m.group(2))
        self.generated += int(m.group(1))
        self.models[model] = {"scope": scope, "states": int(m.group(2)), "histories": len(hs), "seconds": round(time.time() - t0, 1)}
        return hs

    def validate(self, logs, count=True):
        """TLC takes one specification step per recorded call; returns {history: (event, fields)}"""
        f = os.path.join(self.work, "log%d" % self.n)
        self.n += 1
        with open(f, "w") as out:
            for h in logs:
                out.write(json.dumps(h) + "\n")
        r = self.tlc("Trace.tla", "Trace.cfg", {"TRACE": f, "PROPERTY": self.prop})
        os.remove(f)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
        if r.returncode != 0 or not m or "Model checking completed. No error" not in r.stdout:
            raise Broken("TLC failed:\n" + r.stdout[-3000:])
        bad = {}
        for x in re.finditer(r'@@MISMATCH (\d+) (\d+) ([^"\n]*)', r.stdout):
            bad[int(x.group(1)) - 1] = (int(x.group(2)) - 1, x.group(3).split(","))
        want = sum((bad[j][0] + 2) if j in bad else len(h["ev"]) + 1 for j, h in enumerate(logs))
        if int(m.group(2)) != want:
            raise Broken("TLC did not consume the whole log: %s states, %d expected" % (m.group(2), want))
        if count:
            self.generated += int(m.group(1))
            self.states += int(m.group(2))
            self.inits += len(logs)
            self.traces += len(logs) - len(bad)
            for h in logs:
                for e in h["ev"]:
                    self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
                    for k in ("f", "dec", "ok", "eq"):
                        if k in e["obs"]:
                            w = "%s.%s=%s" % (e["op"], k, json.dumps(e["obs"][k]))
                            self.outcomes[w] = self.outcomes.get(w, 0) + 1
        return bad

    def confirm(self, h):
        """runs one history again in fresh processes; the log and the mismatch if the code still does it"""
        for _ in range(20 if self.race else 5):
            logs = self.drive([h])
            bad = self.validate(logs, False)
            if bad:
                return logs[0], bad[0]
        return None, None

    # ---------------------------------------------------------------- rounds
    def round(self, histories):
        logs = self.drive_all(histories)
        bad = self.validate(logs)
        tried = 0
        for j in sorted(bad):
            tried += 1
            log, where = self.confirm(histories[j])
            if log is not None:
                return log, where
            if tried == 5:
                break
        if bad:
            raise Broken("mismatch that did not come back: %s %s" % (json.dumps(histories[min(bad)])[:2000], bad[min(bad)]))
        return None, None


def sample(log):
    return {"id": log["id"], "calls": [json.dumps(e)[:400] for e in log["ev"][:6]]}


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "0") or "0")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    p = plan.PLAN[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    run = Run(prop, work)
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    found = None
    rounds = p.get("rounds", 10) if tier == "thorough" else 1
    done = 0
    try:
        run.build()
        samples = []
        scope = "large" if tier == "thorough" else "small"
        hs = []
        for model in p.get("models", []):
            hs += run.small(model, scope)
        for k in range(0, len(hs), 6000):
            found, where = run.round(hs[k:k + 6000])
            if found:
                break
        longest = 0
        for k in range(rounds):
            t1 = time.time()
            if found or k > 0 and t1 - t0 + 1.5 * longest > 700:
                break
            hs = gen.histories(prop, "%d/%d" % (seed, k), p["n"], tier == "thorough")
            done += 1
            if not samples:
                samples = [sample(h) for h in hs[:2]]
            found, where = run.round(hs)
            longest = max(longest, time.time() - t1)
            if found:
                break
    finally:
        shutil.rmtree(work)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.generated - run.inits, "traces_validated_against_impl": run.traces,
                       "models": run.models, "rounds": done, "calls": run.ops, "outcomes": run.outcomes, "samples": samples},
          "assumptions": ["The specification in spec/ is the meaning of the documentation; inputs outside its domain are not generated (DESIGN.md)."],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if found else 0}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for line in plan.known(prop):
        print("KNOWN-FINDING: " + line)
    if found:
        path = os.path.join(EVIDENCE, "replay", "%s-%d.json" % (prop, seed))
        with open(path, "w") as f:
            json.dump(dict(found, property=prop, event=where[0], fields=where[1]), f)
        e = found["ev"][where[0]]
        print("call %d of %s: %s" % (where[0] + 1, found["id"], json.dumps(e)[:1500]))
        print("refused by the specification: " + ", ".join(where[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d histories, %d states, %.0f s" % (prop, run.traces, run.states, time.time() - t0))
    return 0


def replay(path):
    h = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    run = Run(h["property"], work)
    try:
        run.build()
        log, where = run.confirm({"id": h["id"], "ev": [{k: v for k, v in e.items() if k != "obs"} for e in h["ev"]]})
    finally:
        shutil.rmtree(work)
    if log is None:
        print("the specification accepts this history")
        return 0
    print(json.dumps(log["ev"][where[0]]), where)
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("check failed: %s" % e, file=sys.stderr)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("check failed: %s" % e, file=sys.stderr)
        sys.exit(2)
