"""matrix.py [-a] [ID...]: which checks catch which planted bugs (only the check of the bug's own property, or all with -a)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    bug, checks = job
    d = tempfile.mkdtemp(prefix="mat-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb"))
        subprocess.run(["git", "apply", os.path.join(HERE, "seeded", bug, "patch.diff")], cwd=repo, check=True)
        env = dict(os.environ, GCONV_REPO=repo, VERIF_EVIDENCE_DIR=os.path.join(d, "ev"))
        res = {}
        for c in checks:
            r = subprocess.run([os.path.join(HERE, "run_check.py"), c, "--no-models"], env=env, capture_output=True, text=True)
            res[c] = r.returncode
        return bug, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(args):
    every = "-a" in args
    ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    checks = sorted("C" + f[1:3] for f in os.listdir(os.path.join(HERE, "drivers")) if f[0] == "c" and f.endswith(".py"))
    jobs = [(b, checks if every else [json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))["property"]]) for b in ids]
    with ThreadPoolExecutor(4) as ex:
        for bug, res in ex.map(one, jobs):
            print(bug, "caught by", [c for c, r in res.items() if r == 1], "missed by" if not every else "", [c for c, r in res.items() if r == 0] if not every else "", "BROKEN" if any(r not in (0, 1) for r in res.values()) else "", flush=True)


main(sys.argv[1:])
