#!/usr/bin/env python3
"""Builds the simulator once into a scratch folder to see that the tools are there. The checks build on their own."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix="veigar-sim-setup-")
rc = subprocess.run([sys.executable, os.path.join(here, "check.py"), "--build", d]).returncode
shutil.rmtree(d, ignore_errors=True)
sys.exit(rc)
