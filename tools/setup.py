#!/usr/bin/env python3
"""setup_cmd: check that the tools are there and the specifications parse (checks build what they need themselves)."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "java", "python3"):
    subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
bad = 0
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                            "tla2sany.SANY", f], cwd=os.path.join(V, "spec"), capture_output=True, text=True)
        if r.returncode:
            print(f, r.stdout[-1500:])
            bad = 1
sys.exit(bad)
