"""setup_cmd: checks that the tools are there and that every specification parses (there is nothing to build)."""
import glob, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import JARS, PY, SPEC, REPO

with tempfile.TemporaryDirectory() as d:
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tla2sany.SANY"] +
                       sorted(os.path.basename(f) for f in glob.glob(SPEC + "/*.tla")), cwd=SPEC, capture_output=True, text=True)
    if r.returncode != 0 or "*** Errors" in r.stdout or "Fatal" in r.stdout:
        print(r.stdout[-3000:], r.stderr[-2000:])
        sys.exit(1)
    r = subprocess.run([PY, "-W", "ignore", "-B", "-c", "import gcodeutils.gcoder"], env=dict(os.environ, PYTHONPATH=REPO), cwd=d)
    sys.exit(r.returncode)
