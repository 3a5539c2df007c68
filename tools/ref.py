#!/usr/bin/env python3
"""Refresh sa/reference.json (digests of the functions of the current tree;
used only to rank suspects in a violation report, never to decide)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.check import digests, W, HERE
json.dump(digests(W.REPO), open(os.path.join(HERE, 'sa', 'reference.json'), 'w'), indent=0, sort_keys=True)
