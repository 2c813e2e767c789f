#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os
import meta, props
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'bounded symbolic execution of the LLVM IR compiled from the tree, assertions and memory accesses decided by SMT (bit-blasting SAT + Z3)'
with open(V + '/properties.jsonl', 'w') as f:
    for i, q in sorted(meta.P.items()):
        f.write(json.dumps({'id': i, 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['quant']}, 'why_tests_cant': q['why'],
            'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']], 'hook_needed': None}}) + '\n')
checks = [{'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
    'technique': TECH, 'level': 'model_checking',
    'level_note': 'Path-exhaustive within the bounds: ' + q['bounds'] + '. Outside: ' + q['outside'] + '. Trusted: clang -O0 IR, the symbolic executor (validated per run by native replay of sampled paths and by Z3 cross-checks), the environment stand-ins.'}
    for i, q in sorted(meta.P.items()) if i in props.J]
na = [{'property': i, 'reason': r} for i, r in sorted(getattr(meta, 'NA', {}).items())]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the unmodified sources are compiled to LLVM IR; external functions are replaced at link level', 'source_commits': []}, 'checks': checks, 'not_applicable': na,
    'notes': 'Generated by gen.py from meta.py and props.py.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
for i in meta.P:
    for x in meta.P[i]['files']:
        assert os.path.exists('/repo/' + x), (i, x)

# ---- DESIGN.md
import how, glob, re
def ev(i):
    try: e = json.load(open(V + '/evidence/%s.json' % i)); c = e['coverage']; return '%d harnesses, about %s paths, %d s on 8 cores' % (c['harnesses_total'], ('%d' % c['states']) if c['states'] < 1000 else '%d,000' % round(c['states'] / 1000), max(1, round(e['wall_s'])))
    except Exception: return None
old = open(V + '/DESIGN.md').read() if os.path.exists(V + '/DESIGN.md') else ''
o = [open(V + '/doc/head.md').read(), '## 2. The properties and how each is decided\n']
for i, q in sorted(meta.P.items()):
    m = re.search(r'### %s .*?\n\*Cost\*: (.*?)\n' % i, old, re.S); cost = ev(i) or (m and m.group(1)) or '?'
    o.append('### %s %s\n\n%s\n\n*Quantified over*: %s.\n*How*: %s\n*Why tests cannot*: %s\n*Bounds*: %s.\n*Outside*: %s.%s\n*Cost*: %s\n' % (i, q['title'], q['statement'], q['quant'], how.H[i], q['why'], q['bounds'], q['outside'],
        '\n*Assumes*: ' + '; '.join(q['assume']) + '.' if q['assume'] else '', cost))
o.append('## 3. Where the checks live\n\n`properties.jsonl`, `MANIFEST.json` and this file are written by `gen.py` from `meta.py` (texts), `how.py`, `doc/` and `props.py` (harness jobs with their bounds). `harness/*.c` are the harnesses, `check.py` the driver, `engine/` the executor, `known_findings.txt` the findings.\n')
seeds = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); seeds.append('| %s | %s | %s | %s | %s |' % (d.split('/')[-2], m['property'], m['what_it_breaks'], m['needs'], m['property']))
nfix = sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt'))
t = open(V + '/doc/tail.md').read()
o.append(t.replace('{NFIX}', str(nfix)).replace('{NSEED}', str(len(seeds) - 2)).replace('{SEEDS}', '\n'.join(seeds)))
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
