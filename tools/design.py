#!/usr/bin/env python3
# Writes DESIGN.md from tools/DESIGN.in.md, the properties, the harness
# directives, known-findings.txt and tools/seeds.txt (id, property, result).
import re, os, json, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(root + '/tools/props.py').read()
ns = {'__file__': root + '/tools/props.py'}
exec(src[:src.index('harness = os.path')], ns)
props = ns['props']
hs = {}
for f in sorted(glob.glob(root + '/harness/h/*.go')):
    for blk in re.finditer(r'((?://[^\n]*\n)+)func (\w+)\(', open(f).read()):
        c, name = blk.groups()
        m = re.search(r'//gosym:prop=(\w+)(.*)', c)
        if not m: continue
        doc = ' '.join(l[2:].strip() for l in c.split('\n') if l.startswith('// '))
        doc = re.sub(r'^' + name + r'\s*:?\s*', '', doc)
        bound = ' '.join(l[len('//gosym:bound '):] for l in c.split('\n') if l.startswith('//gosym:bound '))
        tier = (re.search(r"tier=(\w+)", m.group(2)) or ["", "both"])[1]
        hs.setdefault(m.group(1), []).append((name, tier, doc, bound, os.path.basename(f)))
out = []
for p in props:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('Tests do not settle it: ' + p['why'] + '.\n')
    out.append('Anchors: ' + ', '.join('`%s` (%s)' % (f, w) for w, f in p['mech']) + '.\n')
    if p['id'] in hs:
        out.append('Decided by:\n')
        for name, tier, doc, bound, f in hs[p['id']]:
            t = '' if tier == 'both' else ' (%s)' % tier
            out.append('* `%s`%s, %s: %s Bound: %s.' % (name, t, f, (doc.rstrip('.') + '.') if doc else '', bound))
        out.append('')
    else:
        out.append('No check yet.\n')
t = open(root + '/tools/DESIGN.in.md').read()
fixes = '\n'.join('* ' + l[len('fixed: '):].strip() for l in open(root + '/known-findings.txt') if l.startswith('fixed:'))
seeds = ''
if os.path.exists(root + '/tools/seeds.txt'):
    seeds = '| planted bug | result of the quick check |\n|---|---|\n' + ''.join('| %s | %s |\n' % tuple(l.rstrip('\n').split('\t')) for l in open(root + '/tools/seeds.txt'))
t = t.replace('@PROPS@', '\n'.join(out)).replace('@FIXES@', fixes).replace('@SEEDS@', seeds)
open(root + '/DESIGN.md', 'w').write(t)
