#!/usr/bin/env python3
"""Replays one recorded failure: replay.py FILE [--log]. Exit 1 if it fails as recorded, 0 if it passes."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as builder
import check
text = open(sys.argv[1], errors="replace").read()
prop = re.search(r"^property (\S+)", text, re.M).group(1)
variant = (re.search(r"^# variant (\S+)", text, re.M) or re.match("()", "")).group(1) or "asan"
want = re.search(r"^# steps (\d+) log (\S+)", text, re.M)
exe = builder.build(variant, prop)
r = subprocess.run([exe, "replay"] + sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=check.ENV)
sys.stdout.write(r.stdout)
got = re.search(r"^steps (\d+) log (\S+)", r.stdout, re.M)
if want and got:
    print("identical to the recorded execution" if want.group(2) == got.group(2) else "differs from the recorded execution")
sys.exit(r.returncode)
