#!/usr/bin/env python3
# compare a test.sh result with the baseline: which stable tests do not pass?
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
bad = sorted(set(b['stable']) - set(o['passed']))
print(len(b['stable']), 'stable,', len(bad), 'not passing'); print('\n'.join(bad[:40]))
sys.exit(1 if bad else 0)
