#!/usr/bin/env python3
"""Builds everything the checks need (they rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, config

for p, c in config.PROPERTIES.items():
    for v, _ in c["variants"]:
        print(build.build(v, p, os.cpu_count() or 4), flush=True)
