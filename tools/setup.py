#!/usr/bin/env python3
"""Builds everything the checks use."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
lib.build_spec()
lib.build_harness(True)
print("ready")
