#!/usr/bin/env python3
"""setup_cmd: builds the fact extractor and parses the tree once, so that the checks start from a warm cache"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vt import facts

d = facts.load()
print(len(d["tus"]), "translation units,", len(d["functions"]), "functions")
