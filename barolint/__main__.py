"""python -m barolint ID [--tier quick|thorough] [--seed N]"""

import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(30000)
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

from . import checks
from .check import Check, Obligation, VERIF
from .context import Missing


# Symbolic grids have at least 12 latitudes; the rules are also applied to grids of 45 and 36 degrees, where
# stencils and windows reach both poles.
SMALL = (4, 5)
WORKERS = max(1, min(5, os.cpu_count() or 1))
MEMORY = 9 << 30
ALSO_SMALL = {"C%02d" % i for i in range(1, 33)} - {"C09", "C10", "C11", "C23", "C25"}


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def work(ck, size, f):
    """Apply one group of rules."""
    ck.size = size
    out = {"missing": None}
    try:
        f(ck)
    except Missing as e:
        out["missing"] = str(e)
    except Exception as e:
        # an unfinished group of rules is undecided
        where = traceback.extract_tb(e.__traceback__)[-1]
        del e
        undecided(ck, "%s [%s]" % (f.__name__, size or "any size"), "analysis error at %s" % where)
    out.update(obl=ck.obl, functions=ck.functions, sites=ck.sites)
    return out


def undecided(ck, label, detail):
    o = Obligation(label, "rules of the group", "")
    o.status, o.detail = "undecided", detail
    ck.obl.append(o)


def run_all(ck, tasks):
    """Each group of rules is analysed in a process of its own: memory is returned when it ends, and a group that
    ends abnormally is undecided."""
    if os.environ.get("BAROLINT_SERIAL"):
        for size, f in tasks:
            one = Check(ck.pid, ck.tier, ck.seed)
            one.t0 = ck.t0
            yield work(one, size, f)
        return
    results, running, todo = {}, {}, list(enumerate(tasks))
    while todo or running:
        while todo and len(running) < WORKERS:
            i, (size, f) = todo.pop(0)
            out = tempfile.TemporaryFile()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                except (ValueError, OSError):
                    pass
                code = 1
                try:
                    pickle.dump(work(ck, size, f), out)
                    out.flush()
                    sys.stdout.flush()
                    code = 0
                finally:
                    os._exit(code)
            running[pid] = i, out
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() - ck.t0 > ck.budget + 60:
                for p in running:
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.02)
            continue
        i, out = running.pop(pid)
        try:
            out.seek(0)
            results[i] = pickle.load(out)
        except Exception:
            size, f = tasks[i]
            dead = Check(ck.pid, ck.tier, ck.seed)
            undecided(dead, "%s [%s]" % (f.__name__, size or "any size"), "the analysis ended abnormally")
            results[i] = {"missing": None, "obl": dead.obl, "functions": set(), "sites": 0}
        out.close()
    for i in sorted(results):
        yield results[i]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if pid not in checks.PROPS:
        print("unknown property %s" % pid, file=sys.stderr)
        return 2
    ck = Check(pid, tier, seed)
    only = os.environ.get("BAROLINT_SIZE")
    sizes = [int(only)] if only else (None,) + (SMALL if pid in ALSO_SMALL else ())
    tasks = [(size, f) for size in sizes for f in checks.PROPS[pid]]
    missing = None
    try:
        for o in run_all(ck, tasks):
            if o["missing"]:
                missing = o["missing"]
            ck.obl += o["obl"]
            ck.functions |= o["functions"]
            ck.sites += o["sites"]
    except Missing as e:
        missing = str(e)
    if missing:
        print("analysis broken: %s not found" % missing, file=sys.stderr)
        ck.finish(known(pid))
        return 2
    return ck.finish(known(pid))


if __name__ == "__main__":
    # the evaluator recurses with the program: signals need the main thread,
    # so the stack limit is raised instead of using a worker thread
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 30
    if os.environ.get("BAROLINT_STACK") != "1" and (soft != resource.RLIM_INFINITY and soft < want):
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
            os.environ["BAROLINT_STACK"] = "1"
            os.execv(sys.executable, [sys.executable, "-m", "barolint"] + sys.argv[1:])
        except (ValueError, OSError):
            pass
    sys.exit(main(sys.argv[1:]))
