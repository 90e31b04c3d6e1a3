#!/usr/bin/env python3
"""mkseed.py SPEC.py: write seeded/<id>/ from a spec: ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source)."""
import pathlib, subprocess, sys, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
root = pathlib.Path("/verif/seeded") / ns["ID"]
repo = pathlib.Path("/repo")
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout
try:
    for f, old, new in ns["EDITS"]:
        p = repo / f
        s = p.read_text()
        assert s.count(old) == ns.get("COUNT", 1), (f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    blame_bad = []
    for f, old, new in ns["EDITS"]:
        d = subprocess.run(["git", "-C", "/repo", "diff", "-U0", f], capture_output=True, text=True).stdout
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0:
                blame_bad.append(f"{f}:{a} pure addition")
                continue
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "f762558..HEAD", "-L", f"{a},{a+n-1}", "HEAD", "--", f], capture_output=True, text=True).stdout
            for l in b.splitlines():
                if not l.startswith("^"):
                    blame_bad.append(f + ": " + l)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
root.mkdir(parents=True, exist_ok=True)
(root / "patch.diff").write_text(diff)
(root / "demo.py").write_text(ns["DEMO"])
shutil.copy("/verif/tools/demo/s3demo.py", root / "s3demo.py")
(root / "demo.sh").write_text('#!/bin/bash\n# run with cwd /repo after its build: 0 if the property holds\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
(root / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
print(root, "OK" if not blame_bad else "NOT ORIGINAL: " + "; ".join(blame_bad))
