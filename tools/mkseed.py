"""Writes /verif/seeded/<id>/ from the specs in tools/seeds/*.py and tries the
demonstration on the unchanged and on the changed tree (in a scratch copy).
Usage: mkseed.py [id ...]"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {}
NS = {}


def bug(id, prop, edits, needs, breaks, demo):
    """edits: [(file below src/disc_solver, old text, new text)]"""
    SPECS[id] = (prop, edits, needs, breaks, demo)


NS["bug"] = bug
for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    exec(compile(open(f).read(), f, "exec"), NS)

want = sys.argv[1:] or sorted(SPECS)
for i in want:
    prop, edits, needs, breaks, demo = SPECS[i]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        w = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in edits:
            p = os.path.join(w, "src/disc_solver", f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], check=True,
                              capture_output=True, text=True).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\n'
            '# cwd: the repository. exit 0 when the property holds.\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'export MPLCONFIGDIR="$(mktemp -d)" MPLBACKEND=Agg\n'
            'trap \'rm -rf "$MPLCONFIGDIR"\' EXIT\n'
            'PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 '
            '/opt/venv/bin/python -B "$here/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs,
                   "what_it_breaks": breaks},
                  open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
        rc = [subprocess.run(["bash", d + "/demo.sh"], cwd=x,
                             capture_output=True, text=True)
              for x in ("/repo", w)]
        ok = rc[0].returncode == 0 and rc[1].returncode != 0
        chk = subprocess.run(
            ["/opt/venv/bin/python", "-B", V + "/run.py", prop],
            env=dict(os.environ, DV_REPO=w, DV_EVIDENCE=tmp), cwd=V,
            capture_output=True, text=True)
        print(i, "demo ok" if ok else "DEMO BAD", "| check",
              "caught" if chk.returncode == 1 and
              "VIOLATION property=%s" % prop in chk.stdout else
              "MISSED (%d)" % chk.returncode, flush=True)
        if not ok:
            print(rc[0].stdout[-500:], rc[0].stderr[-1500:])
            print(rc[1].stdout[-500:], rc[1].stderr[-500:])
    finally:
        shutil.rmtree(tmp)
