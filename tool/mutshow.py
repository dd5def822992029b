#!/usr/bin/env python3
"""mutshow.py OUT.jsonl: summary of a mutation campaign"""
import json, sys, collections
c = collections.Counter()
for l in open(sys.argv[1]):
    d = json.loads(l)
    c[d['verdict']] += 1
    if d['verdict'] in ('SURVIVED', 'noanswer'):
        print(d['verdict'][:4], d['file'][-34:], d['line'], '|', d['old'][:60] if d['new'] == ';' else '', d['new'][:100], [v[-150:] for v in d['res'].values() if isinstance(v, str)])
print(dict(c))
