#!/usr/bin/env python3
"""setup_cmd: verifies the toolchain the checks rely on (each check builds its own driver)."""
import os, shutil, subprocess, sys
for t in ("java", "g++", "gcc", "ninja"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".work"), exist_ok=True)
print("setup ok")
