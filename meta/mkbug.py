"""mkbug.py SPEC.py: a spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo (python source).  Development aid."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    d = os.path.join("/verif/seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="/tmp/mk.")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"])
    try:
        for f, old, new in b["edits"]:
            p = t + "/w/" + f
            s = open(p).read()
            assert s.count(old) == b.get("count", 1), (b["id"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd is the repository\nR=$PWD; D=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d); cd "$T"\n'
        'PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-demo OMP_NUM_THREADS=1 REPO="$R" timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"; rc=$?\n'
        'cd /; rm -rf "$T"; exit $rc\n')
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(b["id"], len(diff))
