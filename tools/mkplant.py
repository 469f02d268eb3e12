"""mkplant.py DEFS.py: writes seeded/<id>/ from definitions: plant(id, property, file, old, new, needs, breaks, demo)."""
import difflib, json, os, subprocess, sys
V = "/verif/seeded"


def plant(id, property, edits, needs, breaks, demo):
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    for file, old, new in edits:
        path = "src/barotropic/" + file
        src = open("/repo/" + path, encoding="utf-8").read()
        if src.count(old) != 1:
            print("SKIP", id, file, src.count(old))
            os.rmdir(d) if not os.listdir(d) else None
            return
    files = {}
    for file, old, new in edits:
        path = "src/barotropic/" + file
        src = files.get(path) or open("/repo/" + path, encoding="utf-8").read()
        files[path] = src.replace(old, new)
    for path, new in files.items():
        old = open("/repo/" + path, encoding="utf-8").read()
        diff += "diff --git a/%s b/%s\n" % (path, path)
        for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + path, "b/" + path):
            diff += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(d + "/patch.diff", "w", encoding="utf-8").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w", encoding="utf-8").write(
        "import os, sys\nos.environ.setdefault('MPLBACKEND', 'Agg')\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"
        "sys.dont_write_bytecode = True\nimport numpy as np\nimport barotropic as bt\n" + demo.strip() + "\n")
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    only = set(sys.argv[2:])
    if not only or id in only:
        subprocess.run(["bash", "/verif/tools/plant.sh", id])


exec(open(sys.argv[1], encoding="utf-8").read())
