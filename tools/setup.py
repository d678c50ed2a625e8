"""Nothing is compiled ahead of time: check that the tools the checks need are there and parse the specs."""
import glob
import os
import subprocess
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vlib  # noqa: E402

for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", vlib.CP, "tla2sany.SANY", os.path.basename(f)], cwd=vlib.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        sys.exit("cannot parse " + f)
p = subprocess.run([vlib.PY, "-c", "import PyQCodes"], env=vlib.repo_env(), cwd="/tmp")
sys.exit(p.returncode)
