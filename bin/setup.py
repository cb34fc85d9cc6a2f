#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs.  This makes sure the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vt
vt.build_java()
for cmd in (["cargo", "--version"], ["node", "--version"], ["java", "-version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print("ready")
