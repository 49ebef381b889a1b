#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
CMD = {}   # id -> quick command, when it is not run.sh ID
TECH = 'explicit-state model checking of the implementation: bounded exhaustive enumeration of {}, every case executed on the real code and compared with {}'
MODEL = 'an independent reference model'
T = {
 'C01': TECH.format('calls of the whole public API on hostile arguments', 'the totality invariant: no panic, no hang'),
 'C16': 'stateless model checking of the implementation: preemption-bounded exhaustive exploration of the schedules of concurrent public calls on the real code under a controlled scheduler (CHESS style, with a reduction for operations that do not conflict), each schedule of first calls in a fresh process, watched by the race detector and for deadlock, and compared with the calls made alone',
 'C17': TECH.format('call histories in fresh processes, orders and pairs of calls, with the arguments and results scribbled over', 'the answer of the call alone'),
 'C21': TECH.format('histories of swaps, restores and constructions over six metadata collections, and the plan automata of each', MODEL + ' of the collection in use'),
 'C22': TECH.format('upstream documents and trees with a bounded number of parts away from ordinary', 'an independent builder; the real program run twice end to end'),
 'C23': TECH.format('small tables, every truncation and damage of them, and every embedded table', 'an independent encoder and strict decoder'),
 'C02': TECH.format('written numbers (product-automaton transition cover x token slots)', MODEL),
 'C03': TECH.format('valid numbers of every plan automaton x formats x extensions', 'the round-trip invariant'),
 'C04': TECH.format('plan-automaton transitions x formats x custom rules', MODEL),
 'C05': TECH.format('plan-automaton transitions x regions', MODEL),
 'C06': TECH.format('plan-automaton transitions and lengths x types', MODEL),
 'C07': TECH.format('pairs of written and built numbers', MODEL + ' and symmetry'),
 'C08': TECH.format('token-sequence texts, budgets and iteration schedules', 'structural invariants of the matches'),
 'C09': TECH.format('token-sequence texts and groupings x leniencies', MODEL),
 'C10': TECH.format('keystroke sequences', 'the digit-preservation invariant after every key'),
 'C11': TECH.format('keystroke sequences with Clear and remembered positions', 'a reference state machine after every key'),
 'C12': TECH.format('short-plan automaton transitions x regions', MODEL),
 'C13': TECH.format('dialled strings x regions', MODEL),
 'C14': TECH.format('every entry of every carrier and geocoding table', 'an independent decoder and longest-prefix search'),
 'C15': TECH.format('every time-zone prefix and caller mutations', 'an independent decoder and longest-prefix search'),
 'C18': TECH.format('plan-automaton transitions x calling regions', MODEL),
 'C19': TECH.format('decorated texts x regions', MODEL),
 'C20': TECH.format('all Unicode code points and digit scripts', MODEL),
 'C25': TECH.format('field assignments of the five records and pairs of formats', 'an independent table of fields and wire codec'),
 'C26': TECH.format('argument lists of the built program', MODEL),
 'C24': TECH.format('plan-automaton transitions, calling codes and regions', MODEL),
}
exec(open('/verif/tools/manifest_extra.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        q = CMD.get(i, 'bash run.sh ' + i)
        checks.append({'property': i, 'quick_cmd': q, 'thorough_cmd': 'VERIF_TIER=thorough ' + q, 'technique': T[i],
                       'level': LEVEL.get(i, 'model_checking'), 'level_note': NOTE.get(i, 'Exhaustive within the stated bounds; nothing is sampled. The bounds and the trusted base are in DESIGN.md and in the evidence file.')})
    else:
        na.append({'property': i, 'reason': NA[i]})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
