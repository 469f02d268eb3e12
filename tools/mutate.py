"""Mutates the package in scratch copies and runs the checks: finds what they cannot see.

usage: mutate.py OUT.jsonl [-k SUBSTRING] [-n MAX] [-j WORKERS] [--seed S]
"""
import ast, json, os, random, shutil, subprocess, sys, time, argparse, copy
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
SCRATCH = "/tmp/mutants"

BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Add],
       ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            out.add(n.body[0].value)
    return out


def mutants(tree):
    """Yields (node position, description, function applied to the copied node list)."""
    nodes = list(ast.walk(tree))
    docs = docstrings(tree)
    parents = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    for i, n in enumerate(nodes):
        def m(desc, f, i=i, n=n):
            return i, desc, f, n
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), ()):
                yield m("%s->%s" % (type(n.op).__name__, o.__name__), lambda x, o=o: setattr(x, "op", o()))
            if isinstance(n.op, (ast.Sub, ast.Div)):
                yield m("swap operands", lambda x: (lambda l, r: (setattr(x, "left", r), setattr(x, "right", l)))(x.left, x.right))
        elif isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), ()):
                yield m("aug %s->%s" % (type(n.op).__name__, o.__name__), lambda x, o=o: setattr(x, "op", o()))
        elif isinstance(n, ast.Compare):
            for o in CMP.get(type(n.ops[0]), ()):
                yield m("%s->%s" % (type(n.ops[0]).__name__, o.__name__), lambda x, o=o: x.ops.__setitem__(0, o()))
        elif isinstance(n, ast.BoolOp):
            yield m("and<->or", lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.USub, ast.Not)):
                yield m("drop %s" % type(n.op).__name__, lambda x: setattr(x, "op", ast.UAdd()) if isinstance(x.op, ast.USub) else
                        setattr(x, "operand", ast.UnaryOp(ast.Not(), x.operand)))
        elif isinstance(n, ast.Constant) and n not in docs:
            v = n.value
            if isinstance(parents.get(n), (ast.JoinedStr, ast.FormattedValue)):
                continue
            if isinstance(v, bool):
                yield m("%r->%r" % (v, not v), lambda x: setattr(x, "value", not x.value))
            elif isinstance(v, int):
                yield m("%r->%r" % (v, v + 1), lambda x: setattr(x, "value", x.value + 1))
                if v:
                    yield m("%r->%r" % (v, v - 1), lambda x: setattr(x, "value", x.value - 1))
            elif isinstance(v, float):
                yield m("%r->%r" % (v, v * 1.1 + (v == 0)), lambda x: setattr(x, "value", x.value * 1.1 + (x.value == 0)))
            elif isinstance(v, str) and v:
                yield m("%r->%r" % (v, v + "x"), lambda x: setattr(x, "value", x.value + "x"))
            elif v is None and not isinstance(parents.get(n), ast.Return):
                pass
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield m("condition->True", lambda x: setattr(x, "test", ast.Constant(True)))
            yield m("condition->False", lambda x: setattr(x, "test", ast.Constant(False)))
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    yield m("drop keyword %s" % kw.arg, lambda x, k=k: x.keywords.pop(k))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                yield m("swap first arguments", lambda x: x.args.__setitem__(slice(0, 2), x.args[1::-1]))
            if len(n.args) >= 2:
                yield m("drop last argument", lambda x: x.args.pop())
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    yield m("drop slice %s" % f, lambda x, f=f: setattr(x, f, None))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise, ast.Continue, ast.Break)) and not (
                isinstance(n, ast.Expr) and n.value in docs):
            yield m("delete statement", "delete")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in (("u", "v"), ("v", "u"), ("lat", "lon"), ("lon", "lat"), ("phi", "lam"), ("phi", "lat"), ("lam", "lon"), ("dphi", "dlam"),
                         ("dlat", "dlon"), ("dlam", "dphi"), ("nlon", "nlat"), ("nlat", "nlon"), ("pv", "vorticity"), ("vorticity", "pv"),
                         ("phi2", "lam2"), ("lat2", "lon2"), ("lon2", "lat2"), ("phi2", "lat2"), ("sin", "cos"), ("cos", "sin"), ("fcor2", "phi2"),
                         ("amin", "amax"), ("amax", "amin"), ("real", "imag"), ("imag", "real"), ("pv_spectral", "vorticity_spectral"), ("sum", "mean"),
                         ("ceil", "floor"), ("floor", "ceil")):
                if n.attr == a:
                    yield m(".%s->.%s" % (a, b), lambda x, b=b: setattr(x, "attr", b))
                    break


def apply(src, i, f):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[i]
    if f == "delete":
        for p in nodes:
            for field in ("body", "orelse", "finalbody"):
                b = getattr(p, field, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    else:
        f(n)
    return ast.unparse(ast.fix_missing_locations(tree))


def qualname(tree, node):
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    names = []
    while node is not None:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            names.append(node.name)
        node = parents.get(node)
    return ".".join(reversed(names))


def checks_for(modname, qual, evidence):
    out = []
    for pid, ev in evidence.items():
        fs = ev["coverage"]["functions_analysed"]
        key = "barotropic.%s:%s" % (modname, qual)
        hit = qual in ("Grid.__init__", "State.__init__") or any(f.replace(".<locals>", "") == key for f in fs) if qual else True
        if hit:
            out.append((ev["wall_s"], pid))
    return [p for _, p in sorted(out)]


def run(job):
    k, path, mod, qual, line, desc, src, pids, tests = job
    d = os.path.join(SCRATCH, "m%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(REPO + "/src", d + "/src", symlinks=True)
    for x in ("tests", "setup.py", "pytest.ini", "setup.cfg", "pyproject.toml"):
        s = os.path.join(REPO, x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(d, x))
        elif os.path.exists(s):
            shutil.copy(s, d)
    with open(os.path.join(d, path), "w") as f:
        f.write(src)
    r = {"id": k, "file": path, "function": qual, "line": line, "mutation": desc, "checks": pids}
    env = dict(os.environ, BAROLINT_REPO=d, BAROLINT_EVIDENCE=d + "/ev")
    caught, undecided, t0 = None, [], time.time()
    for p in pids:
        try:
            o = subprocess.run("ulimit -v 14000000; exec %s -m barolint %s" % (PY, p), shell=True, cwd=HERE, env=env, capture_output=True, text=True, timeout=420)
        except subprocess.TimeoutExpired:
            undecided.append(p + ":timeout")
            continue
        if o.returncode == 1 and "VIOLATION property=" in o.stdout:
            caught = p
            r["by"] = [x for x in o.stdout.splitlines() if x.startswith("VIOLATED")][0][:200]
            break
        if o.returncode not in (0, 1):
            undecided.append("%s:rc%d" % (p, o.returncode))
        u = [x for x in o.stdout.splitlines() if x.startswith("UNDECIDED")]
        if u:
            undecided.append("%s:%d undecided %s" % (p, len(u), u[0][:100]))
    r["caught"], r["undecided"] = caught, undecided
    if caught is None:
        env = dict(os.environ, PYTHONPATH=d + "/src")
        try:
            o = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=300)
            r["tests"] = "killed" if o.returncode else "survived"
        except subprocess.TimeoutExpired:
            r["tests"] = "killed"
    r["wall"] = round(time.time() - t0, 1)
    shutil.rmtree(d, ignore_errors=True)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-k", default="")
    ap.add_argument("-x", default="@", help="leave out")
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--skip", default="", help="slow checks to leave out")
    a = ap.parse_args()
    evidence = {}
    for f in sorted(os.listdir(os.path.join(HERE, "evidence"))):
        evidence[f[:-5]] = json.load(open(os.path.join(HERE, "evidence", f)))
    for p in a.skip.split(","):
        evidence.pop(p, None)
    jobs = []
    base = "src/barotropic"
    for f in sorted(os.listdir(os.path.join(REPO, base))):
        if not f.endswith(".py"):
            continue
        path = os.path.join(base, f)
        src = open(os.path.join(REPO, path)).read()
        tree = ast.parse(src)
        for i, desc, fn, node in mutants(tree):
            qual = qualname(tree, node)
            try:
                new = apply(src, i, fn)
                compile(new, path, "exec")
            except (SyntaxError, ValueError):
                continue
            if a.k and a.k not in "%s:%s" % (path, qual) or any(y in "%s:%s" % (path, qual) for y in a.x.split(",")):
                continue
            line = getattr(node, "lineno", 0)
            pids = checks_for(f[:-3], qual, evidence) or ["C35"]
            jobs.append([len(jobs), path, f[:-3], qual, line, desc, new, pids, True])
    random.Random(a.seed).shuffle(jobs)
    if a.n:
        jobs = jobs[:a.n]
    print(len(jobs), "mutants", flush=True)
    stat = {}
    with open(a.out, "w") as out, ThreadPoolExecutor(a.j) as ex:
        for k, r in enumerate(ex.map(run, jobs)):
            out.write(json.dumps(r) + "\n")
            out.flush()
            s = "caught" if r["caught"] else r["tests"]
            stat[s] = stat.get(s, 0) + 1
            if k % 50 == 49:
                print(k + 1, stat, flush=True)
    print(stat)


main()
