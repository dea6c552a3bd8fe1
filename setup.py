#!/usr/bin/env python3
"""Builds the syntax-tree extractor (checks rebuild it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import load
print(load.build_extractor())
