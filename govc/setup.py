#!/usr/bin/env python3-vt
"""Builds the translator ahead of the checks (each check builds it itself if this did not run)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
print(check.build_ssadump())
