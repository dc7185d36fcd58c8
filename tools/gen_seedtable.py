"""prints the table of planted bugs for DESIGN.md"""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| id | property | needs | breaks |\n|---|---|---|---|')
rows = []
for i in os.listdir(d):
    m = json.load(open(f'{d}/{i}/meta.json'))
    rows.append((m['property'], i, m['needs'], m['what_it_breaks']))
for p, i, n, b in sorted(rows):
    print(f'| {i} | {p} | {n} | {b} |')
