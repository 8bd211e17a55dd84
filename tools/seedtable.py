#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'C01-fold-int', 'C01-narrow-index', 'C05-move-stale', 'C14-addtorow-search', 'C16-invsqrt-float', 'C17-hadamard-range', 'C10-resize-forward', 'C02-tensor-extent', 'C34-degenerate-row', 'C34-largest-row', 'C03-default-members', 'C04-clear-dim', 'C03-insert-block', 'C05-copy-rows', 'C08-find-last', 'C02-slice-extent', 'C07-remainder', 'C21-print-slack'}
p = H + '/DESIGN.md'
s = open(p).read()
i = s.find('<!-- seeds -->')
rows = []
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    d = os.path.basename(os.path.dirname(f))
    what = m['what_it_breaks'].strip().rstrip('.').replace('|', '/')
    rows.append('| %s%s | %s | %s |' % (d, ' *' if d in MISSED else '', what, m['needs'].strip().rstrip('.').replace('|', '/')))
s = s[:i] + '<!-- seeds -->\n%d bugs. Each is reported by the quick check of the property in its name; * marks those the check missed when they were planted and reports since it was strengthened.\n\n| id | what it breaks | needs |\n|---|---|---|\n' % len(rows) + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
