#!/usr/bin/env python3
"""Runs the repository's tests and lists the stable ones that do not pass."""
import json, subprocess, sys
subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/stable.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = set(json.load(open('/tmp/stable.json'))['passed'])
bad = [x for x in b if x not in t]
print(len(b) - len(bad), 'of', len(b), 'stable tests pass'); print('\n'.join(bad))
sys.exit(bool(bad))
