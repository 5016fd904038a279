#!/usr/bin/env python3
"""mkseed.py <spec.py>: write /verif/seeded/<id>/ from a spec defining id, property, needs, breaks, edits=[(file, old, new)], demo, flags, libs"""
import sys, os, subprocess, json, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = '/verif/seeded/' + spec['id']
os.makedirs(d, exist_ok=True)
t = '/tmp/mkseed-wt'
shutil.rmtree(t, ignore_errors=True)
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', t])
for f, old, new in spec['edits']:
    p = f'{t}/{f}'; s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t, 'diff']).decode())
shutil.rmtree(t)
if 'demo' in spec:
    open(d + '/demo.cpp', 'w').write(spec['demo'])
    shutil.copy('/verif/tools/demo_util.h', d + '/demo_util.h')
    open(d + '/demo.sh', 'w').write(open('/verif/tools/demo.sh.in').read().replace('@FLAGS@', spec.get('flags', '')).replace('@LIBS@', spec.get('libs', '')))
else:
    open(d + '/demo.sh', 'w').write(spec['demo_sh'])
    for n, c in spec.get('files', {}).items(): open(f'{d}/{n}', 'w').write(c)
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
print('wrote', d)
