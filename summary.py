#!/usr/bin/env python3
"""Print what the evidence files say."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
for path in sorted(glob.glob(here + '/evidence/*.json')):
    d = json.load(open(path))
    if sys.argv[1:] and d['property'] not in sys.argv[1:]:
        continue
    c = d['coverage']
    print(d['property'], d['tier'], 'wall', d['wall_s'], 'viol', d['violations'])
    for k, v in c['tests'].items():
        print('   %-22s %-8s %6d/%6d nt=%d wall=%s %s' % (k, v['mode'], v['evaluations'], v['planned'], v['distinct_nontrivial'], v['wall_s'], v['labels']))
