#!/usr/bin/env python3
"""mkseed.py ID...: writes /verif/seeded/ID from tools/seeds/ID.py, which defines
prop, needs, breaks, edits=[(file, old, new)], main (Go source of main.go)."""
import sys, os, json, subprocess, shutil, tempfile
for id in sys.argv[1:]:
    ns = {}
    exec(open(f'/verif/tools/seeds/{id}.py').read(), ns)
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in ns['edits']:
        p = f'{w}/r/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(w)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/main.go', 'w').write(ns['main'].lstrip())
    for f in ('demo.sh', 'help.go'):
        shutil.copy('/verif/tools/demo/' + f, d + '/' + f)
    subprocess.call(['bash', '-c', '. /opt/vp/env.sh; gofmt -l ' + d])
