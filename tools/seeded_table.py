#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import json, glob, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(f)); i = f.split("/")[-2]
    print(f"| {i} | {m['what_it_breaks']} | {m['needs']} |")
