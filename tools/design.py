#!/usr/bin/env python3
"""Writes DESIGN.md from design/template.md, design/notes.py, the properties, the
last quick evidence, the findings file and the planted bugs (design/seeds.json
records which check caught which)."""
import json, os, runpy
os.chdir('/verif')
notes = runpy.run_path('design/notes.py')['N']
props = [json.loads(l) for l in open('properties.jsonl')]
out = ['## Properties\n']
for p in props:
    i = p['id']
    o, why, lim = notes[i]
    out.append(f"### {i} — {p['title']}\n")
    e = None
    try: e = json.load(open(f'evidence/{i}.json'))
    except OSError: pass
    if e:
        out.append(f"* **Enumerated**: {e['coverage']['rule']}.")
    out.append(f'* **Oracle**: {o}.')
    if e:
        for a in e['assumptions'] or []: out.append(f'* **Assumes**: {a}.')
        out.append(f"* **Cost** (quick, 8 cores): about {max(1, round(e['wall_s']))} s; {e['coverage']['states']:,} states, {e['coverage']['transitions']:,} transitions, {e['coverage']['traces_validated_against_impl']:,} cases executed on the implementation.")
    out.append(f'* **Beyond tests**: {why}.')
    if lim: out.append(f'* **Limits**: {lim}.')
    out.append('')
P = '\n'.join(out)
F = []
for l in open('known-findings.jsonl'):
    d = json.loads(l)
    c = d['fixed'].split()[2] if d['fixed'] else ''
    F.append(f"* {d['property']}: {' '.join(d['fixed'].split()[3:]) if c else d['what']} ({'fixed in ' + c if c else 'recorded, not repaired'}; {d['what']}).")
S = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
try: caught = json.load(open('design/seeds.json'))
except OSError: caught = {}
for i in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{i}/meta.json'))
    S.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(i, [])) or 'missed'} |")
t = open('design/template.md').read()
t = t.replace('@@PROPS@@', P).replace('@@FINDINGS@@', '\n'.join(F)).replace('@@SEEDS@@', '\n'.join(S))
open('DESIGN.md', 'w').write(t)
