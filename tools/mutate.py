#!/opt/venv/bin/python
"""mutate.py CHECKS FILE OLD NEW [FILE OLD NEW ...]: runs checks against a scratch copy of
/repo in which OLD (nth occurrence with OLD@@n) is replaced by NEW.  CHECKS: C09,C10 ..."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(checks, edits, quiet=False):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.ipynb"))
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = 1
            if "@@" in old:
                old, n = old.rsplit("@@", 1)
                n = int(n)
            parts = s.split(old)
            assert len(parts) > n, f"{f}: {old!r} occurs {len(parts) - 1} times"
            s = old.join(parts[:n]) + new + old.join(parts[n:])
            open(p, "w").write(s)
        env = dict(os.environ, GCONV_REPO=repo, VERIF_EVIDENCE_DIR=os.path.join(d, "ev"))
        res = {}
        for c in checks:
            r = subprocess.run([os.path.join(HERE, "run_check.py"), c], env=env, capture_output=True, text=True)
            res[c] = r.returncode
            if not quiet:
                print(c, "exit", r.returncode, "|", " / ".join(x.strip() for x in r.stdout.splitlines() if "rejected" in x or "exception in" in x)[:500])
                if r.returncode == 2:
                    print(r.stderr[-1500:])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    run(sys.argv[1].split(","), [(a[i], a[i + 1].encode().decode("unicode_escape"), a[i + 2].encode().decode("unicode_escape")) for i in range(0, len(a), 3)])
