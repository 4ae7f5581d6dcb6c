"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(H + '/seeded/*/meta.json'):
    d = json.load(open(m)); rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['what_it_breaks'], d['needs']))
rows.sort()
one = lambda s: ' '.join(s.split()).replace('|', '/')
t = ['## Planted bugs', '',
     f'{len(rows)} changes under `seeded/`, each confirmed in a scratch copy (builds, the stable tests pass, the demonstration passes without it and fails with it).',
     'All are caught (exit 1, VIOLATION) by the quick check of their property; the table is written by `lib/mkseedtable.py`.', '',
     '| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
t += [f'| {i} | {p} | {one(b)} | {one(n)} |' for p, i, b, n in rows]
f = H + '/DESIGN.md'; s = open(f).read()
a = s.find('## Planted bugs')
if a >= 0:
    b = s.find('\n## ', a + 5); s = s[:a] + (s[b + 1:] if b >= 0 else '')
k = s.index('## Limits')
s = s[:k] + '\n'.join(t) + '\n\n' + s[k:]
open(f, 'w').write(s)
