#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads 'OLD\n====\nNEW\n' replacements separated by '%%%%\n' from stdin
(FILE given per replacement as first line '@path'), makes seeded/ID with patch.diff, demo.sh, h.rs."""
import sys, subprocess, os, shutil, json
sid, prop = sys.argv[1:3]
needs, breaks = sys.argv[3:5]
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain']).strip(), 'dirty'
try:
    for r in sys.stdin.read().split('%%%%\n'):
        head, r = r.split('\n', 1)
        f = '/repo/' + head.strip().lstrip('@')
        old, new = r.split('====\n')
        s = open(f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
finally:
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
shutil.copy('/verif/tools/h.rs', d)
shutil.copy('/verif/tools/demo.sh', d)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
