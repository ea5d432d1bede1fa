#!/usr/bin/env python3
"""Checks that the tools are there; everything else is built by each check from /repo's working tree."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vlib
for c in (["java", "-version"], ["gcc", "--version"], ["bison", "--version"], ["flex", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for j in vlib.JARS.split(":"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
print("ok")
