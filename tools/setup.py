"""Nothing to build: verifies that the interpreter and the stand-in process work."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
r = subprocess.run([py, "-I", "-u", "-B", os.path.join(here, "vlib", "fakeink.py"), "--shell"],
                   input="inkscape-version\n", capture_output=True, text=True, timeout=60)
assert "1.2.2" in r.stdout, r
print("ok")
