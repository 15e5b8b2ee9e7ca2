"""Print the table of planted bugs for DESIGN.md: property, changes, what each needs."""
import collections
import json
import os

base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
by = collections.defaultdict(list)
for i in sorted(os.listdir(base)):
    with open(f"{base}/{i}/meta.json") as fh:
        by[json.load(fh)["property"]].append(i)
for p in sorted(by):
    print(f"| {p} | {', '.join(by[p])} |")
