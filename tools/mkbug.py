"""Helper for writing planted changes: mkbug(id, prop, edits, demo, needs, breaks)."""
import json, os, subprocess, tempfile

SEED = "/verif/seeded"


def mkbug(bid, prop, edits, demo, needs, breaks):
    d = f"{SEED}/{bid}"
    os.makedirs(d, exist_ok=True)
    diff = ""
    w = tempfile.mkdtemp()
    files = {}
    for f, old, new in edits:
        t = files.setdefault(f, open(f"/repo/{f}").read())
        assert t.count(old) == 1, (bid, f, t.count(old), old)
        files[f] = t.replace(old, new)
    for f, t in files.items():
        p = f"{w}/{os.path.basename(f)}"
        open(p, "w").write(t)
        r = subprocess.run(["diff", "-u", f"--label=a/{f}", f"--label=b/{f}", f"/repo/{f}", p], capture_output=True, text=True)
        assert r.returncode == 1
        diff += r.stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(demo.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo; exit 0 = behaviour correct
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && XDG_CACHE_HOME="$T/cache" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R" /opt/venv/bin/python "$H/demo.py"
''')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-rf", w])
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{d}/patch.diff"], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    print("made", bid)
