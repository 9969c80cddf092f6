"""Nothing is compiled: check that the tools are there and the specification parses."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=os.path.dirname(f), capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout:
        print(p.stdout[-2000:])
        bad = 1
sys.exit(bad)
