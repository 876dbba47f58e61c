#!/usr/bin/env python3
"""mutants.py [--files GLOB] [--out FILE] [--jobs N]   development aid, read by no check

Makes every small syntactic change (a comparison, an operator, a constant, a
condition, a deleted statement) of the library's Python files, one at a time in
scratch copies, keeps those which pass the repository's stable tests, records
the suites with each and lets TLC judge the recordings which differ from the
unchanged ones.  What is left either changes nothing observable or shows a gap."""
import argparse
import ast
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "harness"))
import check  # noqa: E402
import plan  # noqa: E402

SCRATCH = os.environ.get("MUT_DIR", "/tmp/mut")
REPO = os.environ.get("MUT_REPO", "/repo")
PY = check.PY
OPS = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "*", ast.Mod: "*", ast.Div: "*", ast.Pow: "*"}


def sites(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def at(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = at(n)
        return b[s:e].decode()

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    out = []

    def put(n, new, what):
        s, e = at(n)
        out.append((s, e, new, what, n.lineno))

    ann = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                for x in ast.walk(a):
                    ann.add(x)
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "__main__" in text(n.test):
            ann.update(ast.walk(n))
        elif isinstance(n, ast.Expr) and "log" in text(n).split("(")[0]:
            ann.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
            put(n, "(%s) %s (%s)" % (text(n.left), OPS[type(n.ops[0])], text(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            put(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "operator")
        elif isinstance(n, ast.BoolOp):
            put(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values), "boolean")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "bool(%s)" % text(n.operand), "not")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, str(n.value + 1), "constant")
            if n.value > 1:
                put(n, str(n.value - 1), "constant")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), "constant")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "not (%s)" % text(n.test), "condition")
        elif isinstance(n, ast.IfExp):
            put(n.test, "not (%s)" % text(n.test), "condition")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and n not in docs and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            put(n, "pass", "deleted")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, "return None", "return")
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    put(x, "(%s) + 1" % text(x), "slice")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords:
            a, c = n.args
            s, _ = at(a)
            _, e = at(c)
            out.append((s, e, "%s, %s" % (text(c), text(a)), "arguments", n.lineno))
    return b, out


def mutants(files):
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        b, ss = sites(src)
        for s, e, new, what, line in ss:
            m = b[:s] + new.encode() + b[e:]
            try:
                if ast.dump(ast.parse(m)) == ast.dump(ast.parse(b)):
                    continue
            except SyntaxError:
                continue
            yield f, line, what, b[s:e].decode(), new, m


STABLE = json.load(open("/opt/vp/BASELINE.json"))


def tests_pass(d):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules", "--doctest-glob=*.rst", "knx_stack", "docs/source/intro.rst"],
                       cwd=d, capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    import re
    m = re.search(r"(\d+) failed", r.stdout)
    p = re.search(r"(\d+) passed", r.stdout)
    return bool(p) and int(p.group(1)) >= BASE["passed"]


BASE = {}


def rec(d, suite, shard, nsh, work, graphs, cover=False):
    e = check.env(VERIF_WORK=graphs, KNX_REPO=d)
    path = os.path.join(work, "%s-%d.ndjson" % (suite, shard))
    if cover:
        e["VERIF_COVER"] = path + ".cover"
    try:
        r = subprocess.run([PY, os.path.join(HERE, "harness", "record.py"), suite, "quick", "1", str(shard), str(nsh), path], cwd=work, env=e, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return path, None, "timeout"
    if r.returncode:
        return path, None, (r.stdout + r.stderr)[-500:]
    return path, json.loads(r.stdout.strip().splitlines()[-1]), hashlib.sha256(open(path, "rb").read()).hexdigest()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default="*")
    ap.add_argument("--out", default="/tmp/mut/result.ndjson")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--count", type=int, default=10 ** 6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cover", action="store_true", help="only the lines which no suite runs")
    a = ap.parse_args()
    os.makedirs(SCRATCH, exist_ok=True)
    files = []
    for root, _, names in os.walk(os.path.join(REPO, "knx_stack")):
        for n in names:
            f = os.path.relpath(os.path.join(root, n), REPO)
            if n.endswith(".py") and "/tests/" not in f and fnmatch.fnmatch(f, a.files):
                files.append(f)
    files.sort()
    suites = [s for s in plan.SUITES if plan.SUITES[s]["judge"] in ("KnxTrace", "ClientTrace", "ValueTrace")]
    graphs = os.path.join(SCRATCH, "graphs")
    os.makedirs(graphs, exist_ok=True)
    for s in suites:
        g = plan.SUITES[s].get("graph")
        if g and not os.path.exists(os.path.join(graphs, g + ".graph")):
            check.model(g, "quick", graphs, 1)
    NSH, SHARDS = 4, (0, 1)  # half of what a check records
    base = {}
    bw = os.path.join(SCRATCH, "base")
    shutil.rmtree(bw, True)
    os.makedirs(bw)
    import time
    cost, seen = {}, {}

    def brec(sj):
        s, j = sj
        t = time.time()
        r = rec(REPO, s, j, NSH, bw, graphs, True)
        cost[sj] = time.time() - t
        seen[sj] = {("knx_stack/" + f, n) for f, n in json.load(open(r[0] + ".cover"))}
        return sj, r
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for sj, r in ex.map(brec, [(s, j) for s in suites for j in SHARDS]):
            base[sj] = r
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules", "--doctest-glob=*.rst", "knx_stack", "docs/source/intro.rst"], cwd=REPO, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    import re
    BASE["passed"] = int(re.search(r"(\d+) passed", r.stdout).group(1))
    order = sorted(base, key=lambda sj: cost[sj])
    print("baseline passed=%d, recording costs %s" % (BASE["passed"], {"%s-%d" % k: round(v, 1) for k, v in sorted(cost.items(), key=lambda x: x[1])}), flush=True)
    lines = set().union(*seen.values())
    ms = list(mutants(files))
    never = sorted({(m[0], m[1]) for m in ms} - lines)
    for f, n in never:
        print("never runs: %s:%d %s" % (f, n, open(os.path.join(REPO, f)).read().split("\n")[n - 1].strip()), flush=True)
    if a.cover:
        return
    ms = [m for m in ms if (m[0], m[1]) in lines]
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.count]
    print("%d mutants of %d files" % (len(ms), len(files)), flush=True)
    free = list(range(a.jobs))
    lock = threading.Lock()
    outf = open(a.out, "w")
    nums = dict(tests=0, killed=0, silent=0, same=0)

    def one(m):
        f, line, what, old, new, code = m
        with lock:
            k = free.pop()
        d = os.path.join(SCRATCH, "w%d" % k)
        try:
            if not os.path.exists(d):
                shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            open(os.path.join(d, f), "wb").write(code)
            w = os.path.join(SCRATCH, "r%d" % k)
            shutil.rmtree(w, True)
            os.makedirs(w)
            res = dict(f=f, line=line, what=what, old=old[:80], new=new[:90])
            try:
                ok = tests_pass(d)
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                res["r"] = "tests"
            else:
                differ, tags = [], None
                for s, j in order:
                    # a line which runs while the library is imported changes what any suite sees
                    if (f, line) not in seen[(s, j)] or s == "large" or (s == "m_link" and not f.endswith("ldata.py")):
                        continue
                    path, info, sha = rec(d, s, j, NSH, w, graphs)
                    if info is None:
                        differ.append(s + ":failed " + sha[-200:])
                        tags = ["machinery"]
                        break
                    if sha == base[(s, j)][2]:
                        continue
                    differ.append(s)
                    try:
                        bad, _ = check.judge(path, plan.SUITES[s]["judge"], w, info)
                    except check.Machinery as e:
                        tags = ["machinery " + str(e)[-300:]]
                        break
                    # a tag counts if a check runs this suite for the tag's property
                    bad = [x for x in bad if x[2] == "*" or (x[2] in plan.CHECKS and s in plan.CHECKS[x[2]]["suites"])]
                    bad = [x for x in bad if "medium and status" not in x[3]]
                    if bad:
                        tags = sorted({x[2] for x in bad})
                        break
                res["r"] = "killed" if tags and not tags[0].startswith("mach") else "machinery" if tags else "silent" if differ else "same"
                res["differ"], res["tags"] = differ, tags
            with lock:
                nums[res["r"]] = nums.get(res["r"], 0) + 1
                outf.write(json.dumps(res) + "\n")
                outf.flush()
        finally:
            shutil.copyfile(os.path.join(REPO, f), os.path.join(d, f))
            with lock:
                free.append(k)
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for i, _ in enumerate(ex.map(one, ms)):
            if i % 50 == 0:
                print(i, nums, flush=True)
    print("done", nums, flush=True)


if __name__ == "__main__":
    main()
