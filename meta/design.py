#!/usr/bin/env python3
import sys, os, json, importlib, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, 'meta')]
import props, notes
o = open(os.path.join(H, 'meta', 'method.md')).read().rstrip() + '\n\n## Properties\n'


def para(s):
    return textwrap.fill(' '.join(s.split()), 130) + '\n'


seeds = {}
for d in sorted(os.listdir(os.path.join(H, 'seeded'))) if os.path.isdir(os.path.join(H, 'seeded')) else []:
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((d, m))
na = []
for p in props.P:
    sp = os.path.join(H, 'specs', p['id'].lower() + '.py')
    if p['na'] or not os.path.exists(sp):
        na.append(p)
        continue
    m = importlib.import_module('specs.' + p['id'].lower())
    o += '\n### %s %s\n\n' % (p['id'], p['title'])
    o += para('**Quantified over** ' + p['quant'] + '.') + '\n'
    o += para('**Decided by** ' + notes.N.get(p['id'], ' '.join((m.__doc__ or '').split('\n')[1:]) or p['note'])) + '\n'
    units = [u[0] for u in m.UNITS]
    o += para('**Units under contract** (%d): %s. Sources: %s.' % (len(units), ', '.join(units), ', '.join(f.replace('src/icl_core/src/', '') for f in p['files']))) + '\n'
    o += para('**Assumptions:** ' + '; '.join(m.ASSUMPTIONS) + '.') + '\n'
    if getattr(m, 'BOUNDED', None):
        o += para('**Bounded (not counted as proved):** ' + '; '.join(m.BOUNDED) + '.') + '\n'
    n = getattr(m, 'NATIVE', None)
    if n:
        o += para('**Counterexamples** are replayed/searched by `%s` on the real code.' % n['src']) + '\n'
    s = seeds.get(p['id'], [])
    if s:
        o += para('**Planted bugs:** ' + '; '.join('`%s`' % d for d, _ in s) + '.')
o += '\n## Planted bugs and what catches them\n\nEvery planted bug below was confirmed (builds, stable tests pass, demo fails with it and passes without) and is caught by the check of its property with a plain `VIOLATION`, unless noted.\n\n| bug | caught by | needs |\n|---|---|---|\n'
for pid in sorted(seeds):
    for d, m in seeds[pid]:
        o += '| %s | %s%s | %s |\n' % (d, m['property'], notes.MISSED.get(d, '') if hasattr(notes, 'MISSED') else '', m['needs'])
o += '\n## Findings\n\n'
for l in open(os.path.join(H, 'known_findings.txt')):
    if l.startswith(('fixed:', 'known:')):
        o += '* ' + l
o += '\n' + open(os.path.join(H, 'meta', 'tail.md')).read() if os.path.exists(os.path.join(H, 'meta', 'tail.md')) else ''
o += '\n## Not applicable\n\n' + (''.join('* **%s %s** — %s\n' % (p['id'], p['title'], p['na'] or 'check not built yet') for p in na) or 'none\n')
open(os.path.join(H, 'DESIGN.md'), 'w').write(o)
