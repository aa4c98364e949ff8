#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path
import sys

V = Path(__file__).resolve().parent.parent
src = Path(sys.argv[1]) if len(sys.argv) > 1 else V / 'seeded'
rows = []
for m in sorted(src.glob('*/meta.json')):
    x = json.loads(m.read_text())
    rows.append(f'| {m.parent.name} | {x["property"]} | {x["needs"]} | {x["what_it_breaks"]} |')
f = V / 'DESIGN.md'
ls = f.read_text().splitlines()
at = [i for i, q in enumerate(ls) if q.startswith('| ') and '-' in q.split('|')[1]
      and (src / q.split('|')[1].strip()).is_dir()]
ls[at[0]:at[-1] + 1] = rows
f.write_text('\n'.join(ls) + '\n')
