#!/usr/bin/env python3
"""Builds every simulation binary once (object cache in build/)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS
failed = 0
for t in sorted({c["target"] for c in CHECKS.values() if "target" in c}):
    try:
        B.build(t)
        print("built", t)
    except B.BuildError as e:
        print(e)
        failed = 1
sys.exit(failed)
