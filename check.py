#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]   decide one property
check.py --replay FILE                              record and judge one history again

A check (1) model checks the specification modules of the property with TLC,
(2) drives the code of /repo's working tree through recorded histories -
random ones, enumerated ones and behaviours generated by TLC from the
specification - and (3) has TLC judge every recorded history against the
specification.  Exit 0: nothing of this property failed; 1: VIOLATION line."""
import argparse
import functools
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import plan  # noqa: E402
import broken  # noqa: E402

SPEC = os.path.join(HERE, "spec")
OUT = os.path.join(HERE, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CORES = max(2, min(8, os.cpu_count() or 4))


class Machinery(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0", LANG="C.UTF-8")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        raise Machinery("timed out after %ss: %s\n%s" % (timeout, " ".join(cmd), (e.stdout or b"")[-2000:].decode("utf8", "replace")))
    return p.returncode, p.stdout.decode("utf8", "replace")


def tlc(module, cfg, work, workers=1, heap="1500m", timeout=800, args=(), **vars_):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *args, module + ".tla"]
    try:
        rc, out = run(cmd, timeout, cwd=SPEC, env=env(**vars_))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def verdicts(out):
    for line in out.splitlines():
        if line.startswith('"@@'):
            yield json.loads(json.loads(line)[2:])


def verdicts_text(out):
    for line in out.splitlines():
        if line.startswith('"@@'):
            yield json.loads(line)[2:]


def record(suite, tier, seed, shard, nshards, work, extra=()):
    path = os.path.join(work, "%s-%d.ndjson" % (suite, shard))
    rc, out = run([PY, os.path.join(HERE, "harness", "record.py"), suite, tier, str(seed), str(shard), str(nshards), path, *extra], 820, env=env(VERIF_WORK=work), cwd=work)
    if rc != 0:
        raise Machinery("recording %s failed:\n%s" % (suite, out[-3000:]))
    info = json.loads(out.strip().splitlines()[-1])
    return path, info


def judge(path, module, work, info):
    """[(history index, event number, property, what)] and the numbers TLC reports"""
    if info["histories"] == 0:
        return [], (0, 0)
    rc, out = tlc(module, module + ".cfg", work, TRACE=path)
    seen = {}
    for v in verdicts(out):
        seen[v["h"]] = v
    if rc != 0 or len(seen) != info["histories"]:
        raise Machinery("judging %s: TLC ended with %d, %d verdicts for %d histories\n%s" % (path, rc, len(seen), info["histories"], out[-3000:]))
    bad = [(h, b[0], b[1], b[2]) for h, v in sorted(seen.items()) for b in v["bad"]]
    return bad, counts(out)


def proof(name, spec, work):
    """an inductive invariant, or (with "breaks") an inductive invariant of a broken specification, which must fail"""
    d = tempfile.mkdtemp(prefix="proof", dir=work)
    for m in [spec["module"]] + spec["uses"]:
        with open(os.path.join(SPEC, m + ".tla")) as f:
            text = f.read()
        for where, old, new in spec.get("breaks", []):
            if where == m:
                if old not in text:
                    raise Machinery("nothing to break in %s: %s" % (m, old))
                text = text.replace(old, new)
        with open(os.path.join(d, m + ".tla"), "w") as f:
            f.write(text)
    try:
        for init, inv, length in spec["proof"]:
            e = env(JVM_ARGS="-Xmx3g -Djava.io.tmpdir=" + d, TMPDIR=d)
            rc, out = run(["apalache-mc", "check", "--cinit=ConstInit", "--init=" + init, "--inv=" + inv, "--length=%d" % length, "--out-dir=" + os.path.join(d, "out"), spec["module"] + ".tla"], 1500, cwd=d, env=e)
            if spec.get("expect") == "violated":
                if "The outcome is: Error" not in out:
                    raise Machinery("the broken specification %s is proved\n%s" % (name, out[-4000:]))
            elif rc != 0 or "The outcome is: NoError" not in out:
                raise Machinery("the specification %s is not proved (%s => %s, %d steps)\n%s" % (name, init, inv, length, out[-4000:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(model=name, config="%d obligations" % len(spec["proof"]), transitions=0, states=0)


def model(name, tier, work, seed=1):
    """model check one module; returns its numbers.  A model with "emit" leaves its transitions in work/<name>.graph"""
    spec = plan.MODELS[name]
    if "proof" in spec:
        return proof(name, spec, work)
    cfg = spec.get("cfg", {}).get(tier) or spec.get("cfg", {}).get("quick") or name + ".cfg"
    args, workers = (), spec.get("workers", 4)
    if "law" in spec:
        with open(os.path.join(SPEC, cfg)) as f:
            text = broken.config(f.read(), spec["law"], *spec["replaced"])
        cfg = os.path.join(work, name + ".cfg")
        with open(cfg, "w") as f:
            f.write(text)
    if "walks" in spec:
        args, workers = ("-simulate", "num=%d" % spec["walks"][tier], "-depth", str(spec["depth"]), "-seed", str(seed)), 1
    rc, out = tlc(spec.get("module", name), cfg, work, workers=workers, heap=spec.get("heap", "3g"), args=args)
    if spec.get("expect") == "violated":
        if not re.search(r"%s (is|was|were) violated" % re.escape(spec.get("law", "")), out):
            raise Machinery("the broken specification %s (%s) satisfies its properties\n%s" % (name, cfg, out[-4000:]))
    elif rc != 0 or "Error:" in out or ("walks" not in spec and "No error has been found" not in out):
        raise Machinery("the specification %s (%s) does not satisfy its properties\n%s" % (name, cfg, out[-4000:]))
    if spec.get("emit"):
        with open(os.path.join(work, name + ".graph"), "w") as f:
            for v in verdicts_text(out):
                f.write(v + "\n")
        out = out[:2000] + out[-4000:]
    g, d = counts(out)
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    if m:
        g = d = int(m.group(1).replace(",", ""))
    return dict(model=name, config=os.path.basename(cfg), transitions=g, states=d)


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    return json.load(open(path)).get("findings", [])


@functools.lru_cache(maxsize=4)
def line_of(path, n):
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i == n:
                return json.loads(l)


def one_shard(suite, tier, seed, shard, nshards, work):
    path, info = record(suite, tier, seed, shard, nshards, work)
    module = plan.SUITES[suite]["judge"]
    bad, c = judge(path, module, work, info)
    return dict(suite=suite, shard=shard, nshards=nshards, path=path, info=info, bad=bad, counts=c)


def fingerprint(hist, n, what):
    """names a failing input: the event without what depends on the run"""
    e = {k: v for k, v in hist["ev"][n - 1].items() if k not in ("snap", "snaps", "ssa", "fs", "fr")}
    return hashlib.sha256(json.dumps([what, e], sort_keys=True).encode()).hexdigest()[:16]


def check(pid, tier, seed):
    t0 = time.time()
    p = plan.CHECKS[pid]
    os.makedirs(OUT, exist_ok=True)
    work = tempfile.mkdtemp(prefix="knx-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        jobs = []
        with ThreadPoolExecutor(CORES) as pool:
            graphs = {plan.SUITES[s]["graph"] for s in p["suites"] if "graph" in plan.SUITES[s]}
            names = sorted(graphs | {m for m in p.get("models", []) if tier in plan.MODELS[m].get("tiers", [tier])}, key=lambda m: (m not in graphs, m))
            models = {m: pool.submit(model, m, tier, work, seed) for m in names}
            for s in sorted(p["suites"], key=lambda s: "graph" in plan.SUITES[s]):
                if "graph" in plan.SUITES[s]:
                    models[plan.SUITES[s]["graph"]].result()
                n = plan.SUITES[s].get("shards", {}).get(tier, 4 if tier == "quick" else 16)
                for i in range(n):
                    jobs.append(pool.submit(one_shard, s, tier, seed, i, n, work))
            mres = [m.result() for m in models.values()]
            res = [j.result() for j in jobs]
        findings = [f for f in known_findings() if f["property"] == pid]
        violations, known, total = [], {}, 0
        for r in res:
            for h, n, prop, what in r["bad"]:
                if prop not in (pid, "*"):
                    continue
                total += 1
                if len(violations) >= 5:
                    continue
                hist = line_of(r["path"], h)
                fp = fingerprint(hist, n, what)
                f = [f for f in findings if f.get("fingerprint") == fp or f.get("site") == what]
                if f:
                    known[f[0]["what"]] = f[0]
                    continue
                path = os.path.join(OUT, "%s-%s-%s.json" % (pid, hist["name"], fp))
                json.dump(dict(property=pid, what=what, suite=r["suite"], tier=tier, seed=seed, shard=r["shard"], nshards=r["nshards"],
                               history=h, name=hist["name"], event=n, failing=hist["ev"][n - 1],
                               history_until=hist["ev"][:n], fingerprint=fp), open(path, "w"), indent=1)
                violations.append((what, path, hist["name"], n))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for what, path, name, n in violations:
            print("%s, event %d: %s" % (name, n, what))
        if violations:
            print("VIOLATION property=%s replay=%s" % (pid, violations[0][1]))
        hist = sum(r["info"]["histories"] for r in res)
        events = sum(r["info"]["events"] for r in res)
        samples = []
        for r in res:
            if r["shard"] == 0 and r["info"]["histories"]:
                hx = line_of(r["path"], 1)
                samples.append(dict(suite=r["suite"], history=hx["name"], events=len(hx["ev"]), last=shorten(hx["ev"][-1])))
        by_suite = {}
        for r in res:
            b = by_suite.setdefault(r["suite"], dict(histories=0, events=0))
            b["histories"] += r["info"]["histories"]
            b["events"] += r["info"]["events"]
        ev = dict(
            property=pid, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=sum(m["states"] for m in mres) + sum(r["counts"][1] for r in res),
                transitions=sum(m["transitions"] for m in mres) + sum(r["counts"][0] for r in res),
                traces_validated_against_impl=hist,
                recorded_events=events,
                models=mres, suites=by_suite, samples=samples[:6],
                exhaustive=False,
            ),
            assumptions=plan.assumptions(pid),
            wall_s=round(time.time() - t0, 2), violations=total if violations else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %d histories, %d events, %d model states, %.1fs: %s" % (
            pid, tier, hist, events, sum(m["states"] for m in mres), time.time() - t0, "VIOLATED" if violations else "holds"))
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def shorten(x):
    s = json.dumps(x)
    return x if len(s) < 1500 else s[:1500] + "..."


def replay(path):
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="knx-replay-")
    try:
        if "graph" in plan.SUITES[r["suite"]]:
            model(plan.SUITES[r["suite"]]["graph"], r["tier"], work, r["seed"])
        res = one_shard(r["suite"], r["tier"], r["seed"], r["shard"], r["nshards"], work)
        again = [b for b in res["bad"] if b[0] == r["history"] and b[2] in (r["property"], "*")]
        for h, n, prop, what in again:
            print("history %s event %d: %s %s" % (r["name"], n, prop, what))
        if again:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    """nothing to build: look that the tools are there"""
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for cmd in (["java", "-version"], [PY, "--version"]):
        rc, out = run(cmd, 60)
        if rc != 0:
            raise Machinery(out)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            return setup()
        if a.replay:
            return replay(a.replay)
        return check(a.id, a.tier, a.seed)
    except Machinery as e:
        print("MACHINERY FAILURE: %s" % e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
