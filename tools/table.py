#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = '/verif'
MISSED = {'c08-signal': 'missed until the queue was run with more sleepers', 'c13-selector-key': 'missed until selectors differed in case and spacing',
 'c29-sleep': 'missed until cancellations had a bound on retries', 'c29-status-500': 'missed until other statuses were tried',
 'c30-load-timeout': 'missed until storages failed with timeouts', 'c32-drain': 'missed until pages were larger than 64 kB',
 'c09-too-early': 'missed until any status was generated', 'c08-same-twice': 'missed until URLs were enqueued repeatedly'}
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append('| %s | %s | %s%s |' % (i, m['needs'].replace('|', '/'), m['property'], ' (%s)' % MISSED[i] if i in MISSED else ''))
s = open(V + '/DESIGN.md').read()
k = '<!-- table -->\n'
s = s[:s.index(k)] + k + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
