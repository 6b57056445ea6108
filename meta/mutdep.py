"""mutdep.py CHECK [FILE-REGEX]: drops every dependency of the engine's dependency network in turn and runs CHECK (development aid).
Works on copies in /tmp, with the copy of the code bind-mounted on /repo."""
import ast, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
check, pat = sys.argv[1], re.compile(sys.argv[2] if len(sys.argv) > 2 else ".*")
SRC, VER = os.environ.get("MUT_REPO", "/repo"), os.environ.get("MUT_VERIF", "/verif")
FILES = subprocess.check_output("cd %s; grep -rl --include=*.py 'dependencies=\\|add_dependency\\|dpipe(' ipi/engine" % SRC, shell=True, text=True).split()
W = 2


def cut(src, n):
    L = src.split("\n")
    off = lambda l, c: sum(len(x) + 1 for x in L[:l - 1]) + c
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def muts():
    for f in sorted(FILES):
        if not pat.search(f):
            continue
        src = open(os.path.join(SRC, f)).read()
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "dependencies" and isinstance(k.value, ast.List):
                        for i, e in enumerate(k.value.elts):
                            a, b = cut(src, k.value)
                            new = "[" + ", ".join(ast.get_source_segment(src, x) for j, x in enumerate(k.value.elts) if j != i) + "]"
                            yield f, e.lineno, ast.get_source_segment(src, e), src[:a] + new + src[b:]
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                t = ast.get_source_segment(src, n)
                if ".add_dependency(" in t or ".add_dependant(" in t or t.startswith("dpipe("):
                    a, b = cut(src, n)
                    yield f, n.lineno, t, src[:a] + "pass" + src[b:]


def run(job):
    k, (f, line, what, new) = job
    d = "/tmp/mutdep.%d.%d" % (os.getpid(), k)
    shutil.copytree(SRC, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "examples", "docs", "demos"))
    open(os.path.join(d, f), "w").write(new)
    v = d + "v"
    shutil.copytree(VER, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded"))
    r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo; cd %s; VERIF_FAST=1 VERIF_SEED=1 nice timeout -k 5 600 bash run.sh %s --tier quick" % (d, v, check)], capture_output=True, text=True)
    shutil.rmtree(d)
    shutil.rmtree(v)
    print("%s %s:%d %s" % ("SURVIVED" if r.returncode == 0 else "killed" if r.returncode == 1 else "rc%d" % r.returncode, f, line, " ".join(what.split())[:100]), flush=True)


with ThreadPoolExecutor(W) as ex:
    list(ex.map(run, enumerate(muts())))
