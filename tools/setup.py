#!/usr/bin/env python3
"""Builds what the checks need, and parses every specification."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import e2e  # noqa: E402

os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
e2e.build()
print("ready")
