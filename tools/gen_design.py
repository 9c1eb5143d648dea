#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, a section for every property (from properties.jsonl, claims.json, the rule the
check printed into its evidence file, the mutants and the planted bugs), design_tail.md."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claims = json.load(open(V + '/tools/claims.json'))
mut = {}
for f in sorted(glob.glob(V + '/tools/mutants/*.txt')):
    for l in open(f):
        m = re.match(r'@@ (\S+) (\S+)( quiet)?', l)
        if m:
            for p in m.group(2).split(','):
                mut.setdefault(p, ([], []))[1 if m.group(3) else 0].append(m.group(1))
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
fixed = {}
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
rules = json.load(open(V + '/tools/rules.json')) if os.path.exists(V + '/tools/rules.json') else {}
for f in glob.glob(V + '/evidence/C*.json'):
    d = json.load(open(f))
    pid = os.path.basename(f)[:-5]
    c = d['coverage']
    if c.get('explanation'):
        rules[pid] = {'rule': c['explanation'], 'states': c.get('abstract_states', 0)}
json.dump({k: rules[k] for k in sorted(rules) if k in claims['checks']}, open(V + '/tools/rules.json', 'w'), indent=1)
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## The properties, one by one', '']
for p in props:
    pid = p['id']
    out += ['### %s %s' % (pid, p['title']), '']
    if pid not in claims['checks']:
        out += ['Not applicable. ' + claims['not_applicable'][pid], '']
        continue
    c = claims['checks'][pid]
    r = rules.get(pid, {})
    n = c['note'].rstrip('. ')
    out.append('*Method.* %s.' % (c['technique'][0].upper() + c['technique'][1:].rstrip('.')))
    if r:
        out.append('*What is decided.* %s.' % (r['rule'][0].upper() + r['rule'][1:].rstrip('.')))
    b = n + '.'
    if r.get('states', 0) > 0:
        b += ' At present %d abstract states are gone through.' % r['states']
    out.append('*Bounds and limits.* ' + b)
    a, q = mut.get(pid, ([], []))
    l = []
    if a or q:
        l.append('%d breaking edits (tools/mutants) are reported%s' % (len(a), ', %d harmless ones are not' % len(q) if q else ''))
    if seeds.get(pid):
        l.append('planted bugs caught: ' + '; '.join('`%s` (%s)' % (i, w.rstrip('.')) for i, w in seeds[pid]))
    if l:
        out.append('*Tried on.* ' + '. '.join(x[0].upper() + x[1:] for x in l) + '.')
    if fixed.get(pid):
        out.append('*Found and repaired.* ' + '; '.join('%s (%s)' % (w, h) for h, w in fixed[pid]) + '.')
    out.append('')
out += [open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
