#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE]: decide one property.

Builds the harness against /repo's working tree, runs the property's
generator and oracle in several processes with seeds derived from VERIF_SEED,
shrinks and re-runs what fails, and writes evidence/ID.json.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from budgets import BUDGET, ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "HOME": "/root",
    "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOTOOLCHAIN": "local", "GOSUMDB": "off", "GOPROXY": "off", "GOWORK": "off", "GOFLAGS": "-mod=mod",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
})
for k in list(ENV):
    if k.startswith("VERIF_"):
        del ENV[k]


def say(*a):
    print(*a, flush=True)


def build(tmp, race, yields=False, relax=False):
    """Compile the harness (and /repo with it) into tmp; never writes to /repo or the harness folder."""
    src = os.path.join(ROOT, "harness")
    mod = os.path.join(tmp, "go.mod")
    shutil.copy(os.path.join(src, "go.mod"), mod)
    shutil.copy(os.path.join(src, "go.sum"), os.path.join(tmp, "go.sum"))
    out = os.path.join(tmp, "h.test")
    if relax:
        # the table module with locks that do not stop virtual time
        subprocess.run([sys.executable, os.path.join(ROOT, "tools", "relax.py"), tmp, mod], env=ENV, check=True)
    cmd = ["go", "test", "-c", "-modfile", mod, "-o", out]
    if race:
        cmd.append("-race")
    if yields:
        # a copy of /repo's sources with a scheduling hook before every statement
        ov = os.path.join(tmp, "overlay")
        os.makedirs(ov, exist_ok=True)
        r = subprocess.run(["go", "run", ".", "/repo", ov], cwd=os.path.join(ROOT, "tools", "yieldgen"), env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            say("the sources of /repo cannot be instrumented:")
            say((r.stdout + r.stderr)[-4000:])
            sys.exit(2)
        cmd += ["-tags", "yield", "-overlay", os.path.join(ov, "overlay.json")]
    r = subprocess.run(cmd + ["."], cwd=src, env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        say("the harness does not build against /repo:")
        say((r.stdout + r.stderr)[-4000:])
        sys.exit(2)
    return out


class Child:
    def __init__(self, binary, tmp, pid, tag, seed, checks, cap, replay=None, real=False, extra=None):
        self.d = os.path.join(tmp, tag)
        os.makedirs(self.d, exist_ok=True)
        self.out, self.fail, self.cur, self.log = (os.path.join(self.d, x) for x in ("out.json", "fail.json", "cur.json", "log"))
        for f in (self.out, self.fail):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(ENV)
        env.update({"VERIF_PROP": pid, "VERIF_OUT": self.out, "VERIF_FAIL": self.fail, "VERIF_CUR": self.cur, "VERIF_CAP_S": str(cap)})
        env.update(extra or {})
        if not real:
            env["GOMAXPROCS"] = "1"
            env["GODEBUG"] = "asyncpreemptoff=1"
        if replay:
            env["VERIF_REPLAY"] = replay
        cmd = [binary, "-test.run", "^TestProp$", "-test.timeout", "0", "-rapid.checks", str(checks), "-rapid.seed", str(seed),
               "-rapid.nofailfile", "-rapid.shrinktime", "25s"]
        self.f = open(self.log, "w")
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=self.d, env=env, stdout=self.f, stderr=subprocess.STDOUT)

    def wait(self, limit):
        try:
            self.p.wait(max(1, limit - (time.time() - self.t0)))
            self.timeout = False
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            self.timeout = True
        self.f.close()
        return self

    def crash(self):
        """The message of a crash of the process, if it crashed."""
        if self.p.returncode in (0, 1) and (self.failfile() or self.p.returncode == 0):
            return None
        txt = open(self.log, errors="replace").read()
        m = re.search(r"^(panic: .*|fatal error: .*|WATCHDOG: .*|--- FAIL.*|.*deadlock.*)$", txt, re.M)
        return (m.group(1) if m else "the process died (%s)" % self.p.returncode)[:400]

    def failfile(self):
        if os.path.exists(self.fail):
            try:
                return json.load(open(self.fail))
            except ValueError:
                return None
        return None

    def stats(self):
        if os.path.exists(self.out):
            return json.load(open(self.out))
        return None


def tail(path, n=60):
    try:
        return open(path, errors="replace").read().split("\n")[-n:]
    except OSError:
        return []


def reproduces(binary, tmp, pid, plan, real, extra, n=3, need=2, limit=200):
    """Re-run one plan n times; the failure counts only if it comes back."""
    f = os.path.join(tmp, "try.json")
    json.dump({"Plan": plan}, open(f, "w"))
    hits, msg = 0, None
    for i in range(n):
        c = Child(binary, tmp, pid, "replay%d" % i, 1, 1, 600, replay=f, real=real, extra=extra).wait(limit)
        ff = c.failfile()
        m = ff["Msg"] if ff else (c.crash() if not c.timeout else "the replay does not end within %d s" % limit)
        if m:
            hits, msg = hits + 1, m
        if hits >= need:
            return msg
        if hits + (n - 1 - i) < need:
            return None
    return None


def ddmin(binary, tmp, pid, plan, real, extra, budget):
    """Shrink the lists of a plan whose process crashes."""
    end = time.time() + budget

    def bad(p):
        f = os.path.join(tmp, "dd.json")
        json.dump({"Plan": p}, open(f, "w"))
        c = Child(binary, tmp, pid, "dd", 1, 1, 600, replay=f, real=real, extra=extra).wait(60)
        return c.timeout or bool(c.failfile()) or bool(c.crash())

    for key in ("Ops", "Hands", "Faults", "Joins"):
        size = max(1, len(plan.get(key) or []) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(plan.get(key) or []) and time.time() < end:
                cand = dict(plan)
                cand[key] = plan[key][:i] + plan[key][i + size:]
                if (cand[key] or key in ("Faults", "Ops")) and bad(cand):
                    plan = cand
                else:
                    i += size
            size //= 2
    return plan


def save_replay(pid, plan, msg, trace):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    json.dump({"Prop": pid, "Msg": msg, "Plan": plan, "Trace": trace or []}, open(path, "w"), indent=1)
    return path


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(path):
        for k in json.load(open(path))["findings"]:
            if k.get("property") == pid and k.get("kind") == "known":
                out.append(k)
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    b = BUDGET[pid]
    real = b.get("real", False)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        binary = build(tmp, b.get("race", False), b.get("yields", False), b.get("relax", False))
        if "--replay" in sys.argv:
            f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
            c = Child(binary, tmp, pid, "replay", 1, 1, 600, replay=f, real=real).wait(600)
            sys.stdout.write(open(c.log, errors="replace").read())
            if c.failfile() or c.crash():
                say("VIOLATION property=%s replay=%s" % (pid, f))
                return 1
            return 0
        return decide(pid, tier, seed, b, real, t0, tmp, binary)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tier, seed, b, real, t0, tmp, binary):
    shards = b.get("shards", 8)
    checks = b[tier]
    cap = b.get("cap", {}).get(tier, 150 if tier == "quick" else 3000)
    limit = cap + 240
    rounds = b.get("rounds", {}).get(tier, 1)
    cap //= rounds
    kids = []
    for n in range(rounds):
        now = []
        for i in range(n * shards, (n + 1) * shards):
            s = (seed * 1000003 + int(pid[1:]) * 7919 + i * 104729 + 1) & 0x7FFFFFFFFFFF
            now.append(Child(binary, tmp, pid, "s%d" % i, s, checks, cap, real=real, extra={"VERIF_SHARD": str(i), "VERIF_TIER": tier}))
        for k in now:
            k.wait(limit)
        kids += now
        if any(k.timeout or k.p.returncode != 0 for k in now):
            break
    violations, notes = [], []
    merged = {"Cases": 0, "NonTriv": 0, "Classes": {}, "Samples": [], "Rule": "", "Capped": False}
    hashes = set()
    pending = []
    for i, k in enumerate(kids):
        st = k.stats()
        if st:
            merged["Cases"] += st["Cases"]
            merged["NonTriv"] += st["NonTriv"]
            merged["Rule"] = st["Rule"]
            merged["Capped"] |= st.get("Capped", False)
            hashes.update(st.get("Hashes") or [])
            for c, v in (st["Classes"] or {}).items():
                merged["Classes"][c] = merged["Classes"].get(c, 0) + v
            merged["Samples"] += (st["Samples"] or [])[:2]
        ff = k.failfile()
        if ff:
            pending.append((ff["Msg"], ff["Plan"], ff.get("Trace"), False))
        elif k.timeout or k.crash():
            try:
                plan = json.load(open(k.cur))
            except (OSError, ValueError):
                plan = None
            msg = "the check did not finish in time" if k.timeout else k.crash()
            if plan is None:
                say("shard %d: %s" % (i, msg))
                say("\n".join(tail(k.log)))
                return 2
            pending.append((msg, plan, tail(k.log, 80), True))
    for msg, plan, trace, crashed in pending[:4]:
        got = reproduces(binary, tmp, pid, plan, real, None, n=b.get("retries", 3), need=b.get("need", 2))
        if not got:
            notes.append("not reproduced: " + msg)
            say("NOTE: a failure did not come back on replay and is not reported: " + msg.split("\n")[0])
            continue
        if crashed:
            plan = ddmin(binary, tmp, pid, plan, real, None, 40)
        violations.append({"message": got, "replay": save_replay(pid, plan, got, trace)})
        break
    known = known_findings(pid)
    known_out = []
    if known:
        # each listed finding has its own deterministic scenario
        for kf in known:
            c = Child(binary, tmp, pid, "kf-" + kf["scenario"], 1, 1, 600, real=real, extra={"VERIF_KNOWN": kf["scenario"]}).wait(120)
            ff = c.failfile()
            if ff or c.crash():
                say("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
                known_out.append({"scenario": kf["scenario"], "still": True, "message": ff["Msg"] if ff else c.crash()})
            else:
                notes.append("known finding %s did not show" % kf["scenario"])
                known_out.append({"scenario": kf["scenario"], "still": False})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": merged["Cases"],
            "distinct_nontrivial": len(hashes),
            "rule": "cases are random plans (configuration, operations, timings, hand outcomes, faults) drawn by rapid generators and run against the real engine; non-trivial: " + merged["Rule"],
            "nontrivial_evaluations": merged["NonTriv"],
            "classes": merged["Classes"],
            "samples": merged["Samples"][:12],
            "shards": len(kids), "cases_per_shard": checks, "time_cap_hit": merged["Capped"],
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": ASSUMPTIONS.get(pid, ASSUMPTIONS["*"]),
        "violations": violations,
    }
    if known_out:
        ev["coverage"]["known_findings"] = known_out
    if notes:
        ev["coverage"]["notes"] = notes
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    if violations:
        for v in violations:
            say(v["message"])
            say("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if merged["Cases"] == 0:
        say("no case was evaluated")
        return 2
    say("%s held on %d cases (%d distinct non-trivial), %.0f s" % (pid, merged["Cases"], len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
