"""Plants a bug: seed.py ID  (reads seeded/ID/edit.json: [[file, old, new, nth]...]), writes patch.diff and confirms it.

Confirms in a scratch copy of /repo that the patch applies, the stable tests pass, and demo.sh passes
without and fails with the patch.  edit.json is only the recipe of the patch."""
import json, os, subprocess, sys, shutil, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main(bug):
    d = os.path.join(HERE, "seeded", bug)
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        rc0, out0 = sh(f"bash {d}/demo.sh", repo)
        for file, old, new, *nth in json.load(open(os.path.join(d, "edit.json"))):
            p = os.path.join(repo, file)
            s = open(p).read()
            n = s.count(old)
            k = nth[0] if nth else None
            assert n == 1 or k is not None, f"{n} matches in {file}"
            parts = s.split(old)
            k = k or 1
            s = old.join(parts[:k]) + new + old.join(parts[k:])
            open(p, "w").write(s)
        blame = []
        rc, diff = 0, subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        # removed lines must be of the base commit
        f = None
        for ln in subprocess.run(["git", "diff", "-U0"], cwd=repo, capture_output=True, text=True).stdout.splitlines():
            if ln.startswith("--- a/"):
                f = ln[6:]
            if ln.startswith("@@"):
                a = ln.split()[1][1:].split(",")
                s, c = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if c:
                    b = subprocess.run(["git", "blame", "-s", "-L", f"{s},+{c}", "HEAD", "--", f], cwd=repo, capture_output=True, text=True).stdout
                    blame += [x[:60] for x in b.splitlines() if "2b2cacb" not in x[:10]]
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rc1, out1 = sh(f"bash {d}/demo.sh", repo)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ids = " ".join(x.split("::")[0].replace(".", "/") + ".py::" + x.split("::")[1] for x in stable)
        rct, outt = sh(f"PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q {ids} -p no:cacheprovider 2>&1 | tail -5", repo)
        if rc0 == 0 and rc1 != 0 and "failed" not in outt and "rror" not in outt and not blame:
            os.remove(os.path.join(d, "edit.json"))
        print(bug, "demo clean rc", rc0, "planted rc", rc1, "foreign lines", blame, "|", outt.strip().splitlines()[-1] if outt.strip() else "")
        if rc0 != 0:
            print(out0)
        print("   planted:", out1.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(tmp)


for b in sys.argv[1:]:
    main(b)
