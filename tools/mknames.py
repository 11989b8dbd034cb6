#!/usr/bin/env python3
"""Writes contracts/names.txt: the names of variables, functions and fields that the overlays use (R18)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
files = sorted({l.split()[2] for f in os.listdir(V + "/contracts") if f.endswith(".vc") for l in open(V + "/contracts/" + f) if l.startswith("//@ file ") and os.path.exists("/repo/" + l.split()[2])})
e = os.environ.get("EXTRACT", V + "/extract/target/debug/extract")
out = subprocess.run([e, "--names", "/repo"] + files, stdout=subprocess.PIPE, text=True, check=True).stdout
open(V + "/contracts/names.txt", "w").write(out)
