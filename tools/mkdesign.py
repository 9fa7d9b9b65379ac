#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (tools/design_notes.txt, and
the rule and assumptions registered by the check), tools/design_tail.md, and the table of planted
bugs (tools/seeds/results.json, written by 'mkseeds.py table')."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = root + '/tools/'
src = '\n'.join(open(f).read() for f in sorted(glob.glob(root + '/harness/props/*.go')))
reg = {}
for m in re.finditer(r'core\.Register\(&core\.Prop\{(.*?)\n\t\}\)', src, re.S):
    b = m.group(1)
    i = re.search(r'ID:\s*"(P\d+)"', b).group(1)
    r = {'rule': re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"', b).group(1).replace('\\"', '"'),
         'quick': re.search(r'Quick:\s*(\d+)', b).group(1), 'thoro': re.search(r'Thoro:\s*(\d+)', b).group(1),
         'must': re.findall(r'"((?:[^"\\]|\\.)*)"', re.search(r'Must:\s*\[\]string\{(.*?)\}', b, re.S).group(1)) if 'Must:' in b else [],
         'assume': re.findall(r'"((?:[^"\\]|\\.)*)"', re.search(r'Assume:\s*\[\]string\{(.*?)\}', b, re.S).group(1)) if 'Assume:' in b else []}
    reg[i] = r
notes = {}
for part in re.split(r'^## ', open(T + 'design_notes.txt').read(), flags=re.M)[1:]:
    i, t = part.split('\n', 1)
    notes[i.strip()] = t.strip()
out = [open(T + 'design_head.md').read().rstrip(), '\n\n## The properties, one by one\n']
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    r = reg[i]
    out.append('\n### %s %s\n\n%s\n\n' % (i, p['title'], notes[i]))
    out.append('*Cases*: %s\n\n' % r['rule'])
    out.append('*Bounds*: %s cases (quick), %s (thorough). ' % (r['quick'], r['thoro']))
    if r['assume']:
        out.append('Outside of the domain or assumed: ' + '; '.join(r['assume']) + '. ')
    if r['must']:
        out.append('A run in which one of these was never observed ends with exit code 2, not with success: ' + ', '.join(r['must']) + '. ')
    out.append('*Why beyond the tests*: ' + p['why_tests_cant'] + '.\n')
out.append('\n' + open(T + 'design_tail.md').read())
f = T + 'seeds/results.json'
if os.path.exists(f):
    res = json.load(open(f))
    out.append('\n## Planted bugs and the checks that catch them\n\nWhat the check of each property makes of them, in the quick tier with seed 1 (first failing case in parentheses). Those marked \'not caught\' are confirmed bugs that the checks miss.\n\n| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n')
    for i in sorted(res):
        try:
            m = json.load(open(root + '/seeded/%s/meta.json' % i))
        except OSError:
            continue
        out.append('| %s | %s | %s | %s |\n' % (i, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), res[i]))
open(root + '/DESIGN.md', 'w').write(''.join(out))
print(len(''.join(out)), sorted(set(notes) ^ set(reg)))
