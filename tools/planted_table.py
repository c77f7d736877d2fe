"""Rewrites the table of planted bugs in DESIGN.md (between its two marks) from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED_AT_FIRST = {
    's19': 'evaluations few enough to matter, faults that last', 's22': 'schedule unit `point`, requests alike but for their values',
    's24': 'column labels of all kinds', 's27': 'data kinds `near`, `adjacent` and `huge` for out-of-process workers',
    's39': 'the caller overwrites answers and training data', 's47': 'imbalanced classes in larger data sets',
    's49': 'requests of up to 5000 rows around powers of two', 's52': 'requests without rows among the invalid ones'}
try:
    MISSED_AT_FIRST.update(json.load(open(os.path.join(HERE, 'tools', 'missed_at_first.json'))))
except FileNotFoundError:
    pass
rows = ['<!-- planted -->', '## Planted bugs', '',
        'Every one is caught by the check of its property with the quick tier, seed 1.  "Added" names what the machinery',
        'gained because it missed the bug at first.', '', '| bug | caught by | what it breaks | added |', '|---|---|---|---|']
for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    i, m = p.split(os.sep)[-2], json.load(open(p))
    rows.append('| {} | {} | {} | {} |'.format(i, m['property'], m['what_it_breaks'].replace('|', '/'), MISSED_AT_FIRST.get(i, '')))
rows.append('<!-- /planted -->')
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read().replace('PLANTED-TABLE', '<!-- planted --><!-- /planted -->')
s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: '\n'.join(rows), s, flags=re.S)
open(f, 'w').write(s)
