"""Nothing is compiled: check that the toolchain the checks use is there."""
import os, subprocess, sys
for p in ("/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
subprocess.run(["java", "-version"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import pytket, networkx, numpy"], check=True)
