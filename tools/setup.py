#!/usr/bin/env python3
"""Builds the executor, the harness IR and the replay binaries."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from spec import PROPS
check.build(sorted({h["crate"] for p in PROPS.values() for h in p["harnesses"]}))
