#!/usr/bin/env python3
"""replay.py <violation file>: re-executes one recorded execution verbosely."""
import json, os, shutil, sys, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS
v = json.load(open(sys.argv[1]))
h, _, variant = v["part"].partition(":")
part = [p for p in CHECKS[v["property"]]["parts"] if p["harness"] == h and p.get("variant", "std") == (variant or "std")][0]
if part.get("kind", "cpp") == "cpp": cmd = [B.build_harness(h, variant or "std", part.get("flags", ()))]
else: cmd = [sys.executable, os.path.join(B.VERIF, "harness", h + ".py")]
cmd += ["--tier", v["tier"], "--scenario", v["scenario"], "--replay", v["choices"] or "."]
print(" ".join(cmd)); scr = tempfile.mkdtemp(prefix="gmc.")
try: rc = subprocess.run(cmd, cwd=scr).returncode
finally: shutil.rmtree(scr, ignore_errors=True)
sys.exit(rc)
