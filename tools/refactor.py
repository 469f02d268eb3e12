"""Behaviour-preserving edits on which the checks have to stay quiet.

usage: refactor.py DEFS.py [-j N] [ids...]      (run from /verif with /opt/venv/bin/python)

DEFS.py calls refactor(id, checks, [(file, old, new), ...]).  Every edit is made in
a scratch copy of /repo, the repository's tests are run on it and then the checks.
"""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
defs = []


def refactor(id, checks, edits):
    defs.append((id, checks.split(), edits))


def one(d):
    id, checks, edits = d
    tmp = "/tmp/rf/" + id
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree("/repo", tmp, ignore=shutil.ignore_patterns(".git"))
    out = []
    try:
        for f, old, new in edits:
            p = os.path.join(tmp, "src/barotropic", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: edit of %s matches %d times: %r" % (id, f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"], cwd=tmp, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=tmp + "/src", MPLBACKEND="agg"))
        last = (t.stdout.strip().splitlines() or ["?"])[-1]
        for c in checks:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "barolint", c], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, BAROLINT_REPO=tmp, BAROLINT_EVIDENCE=tmp + "/ev"))
            m = re.search(r"(\d+) undecided, (\d+) violated", r.stdout)
            if not m or m.groups() != ("0", "0"):
                out.append("   %s exit %d %s" % (c, r.returncode, m.group() if m else r.stderr[-300:]))
                ls = r.stdout.splitlines()
                for k, l in enumerate(ls):
                    if re.match("UNDECIDED|VIOLATED", l):
                        out.append("      " + l[:150] + "  ##  " + ls[k + 2].strip()[:300])
                        if len(out) > 6:
                            break
        return "%s: tests: %s%s%s" % (id, last[:60], "" if out else "  quiet", "\n" + "\n".join(out) if out else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 4
    if "-j" in a:
        k = a.index("-j")
        j = int(a[k + 1])
        del a[k:k + 2]
    exec(compile(open(a[0]).read(), a[0], "exec"))
    ds = [d for d in defs if not a[1:] or d[0] in a[1:]]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ds):
            print(r, flush=True)
