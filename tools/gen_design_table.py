#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
rows = []
for m in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../seeded/*/meta.json")):
    j = json.load(open(m)); rows.append((j["property"], os.path.basename(os.path.dirname(m)), j["what_it_breaks"], j["needs"]))
print("| property | planted bug | what breaks | what it needs |\n|---|---|---|---|")
for r in sorted(rows):
    print("| " + " | ".join(x.replace("|", "\\|").replace("\n", " ") for x in r) + " |")
