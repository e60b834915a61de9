#!/usr/bin/env python3
"""suite.py OUT.json : which reliably passing tests of the repository's suite did not pass in this run."""
import json, sys
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
out = json.load(open(sys.argv[1]))
passed = set(out.get('passed', [])) if isinstance(out.get('passed'), list) else {k for k, v in out.items() if v in ('passed', 'pass', True)}
missing = sorted(base - passed)
print(len(base), 'stable,', len(missing), 'not passed')
for m in missing[:20]:
    print(m)
