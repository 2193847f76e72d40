#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
MISSED = set((root / 'tools' / 'missed-at-first.txt').read_text().split())
rows = {}
for m in sorted((root / 'seeded').glob('*/meta.json')):
    d = json.loads(m.read_text())
    rows.setdefault(d['property'], []).append(m.parent.name + ('*' if m.parent.name in MISSED else ''))
n = sum(map(len, rows.values()))
out = [f'{n} bugs; every one is reported by the quick check of the property it is planted against (swept with',
       'tools/sweep.sh). A star marks those that some version of that check missed and that made it stronger.', '',
       '| property | planted bugs, all caught |', '|---|---|']
out += [f'| {p} | {", ".join(rows[p])} |' for p in sorted(rows)]
p = root / 'DESIGN.md'
s = p.read_text()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + '\n'.join(out) + '\n' + s[j:])
