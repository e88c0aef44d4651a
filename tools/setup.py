"""Nothing is compiled: parses every specification module once, so that a broken one is noticed here."""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
bad = 0
for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f], capture_output=True, text=True, cwd=os.path.join(HERE, "spec"))
    if r.returncode or "*** Errors" in r.stdout:
        print(r.stdout[-2000:], r.stderr[-500:])
        bad = 1
print("specification modules parse" if not bad else "BROKEN specification")
sys.exit(bad)
