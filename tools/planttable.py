"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    t.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
missed = set(open(root + "/tools/missed.txt").read().split())
rows = "\n".join("| %s | %s |" % (p, ", ".join(i + (" (missed)" if i in missed else "") for i in t[p])) for p in sorted(t))
n = sum(map(len, t.values()))
text = """<!-- planted -->
%d changes in `seeded/`, each confirmed (builds, passes the tests, its demonstration fails with it and passes without). All are caught by the quick
check of their own property%s.

| property | planted bugs |
|----|----|
%s
<!-- /planted -->""" % (n, " except %d marked as missed" % len(missed) if missed else "", rows)
p = root + "/DESIGN.md"
s = open(p).read()
open(p, "w").write(re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: text, s, flags=re.S))
