#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    print(f"| {d.split('/')[1]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
