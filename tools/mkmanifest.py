import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
TECH={
'C01':'deterministic simulation: seeded histories with allocation failures, state compared before/after each failed call',
'C02':'deterministic simulation: seeded histories with allocation failures, refinement against an integer model',
'C03':'deterministic simulation: seeded histories with allocation failures on a simulated heap (bounds, lifetime, growth)',
'C04':'deterministic simulation: seeded histories with allocation failures and invalid requests, outcome model',
'C05':'deterministic simulation: seeded thread schedules over shared values, solo-run equivalence, happens-before races',
'C06':'deterministic simulation: seeded thread schedules with allocation failures, solo-run equivalence, happens-before races',
'C07':'deterministic simulation: seeded crash/restart of a saving program with torn writes, replica equivalence',
'C08':'deterministic simulation: seeded storage damage and allocation failures, independent decoder',
'C09':'deterministic simulation: replicas of seeded histories in randomised environments, result equality',
'C10':'deterministic simulation: seeded order of the real initialisers and finalisers, equivalence with straight order',
'C11':'deterministic simulation: seeded schedules with stalled threads and failures, step bounds',
'C12':'deterministic simulation: seeded heap limits and small stacks, resource bounds',
'C13':'deterministic simulation: seeded Python programs on the real bindings with allocation failures, int model',
'C14':'deterministic simulation: seeded interleavings of Python threads/tasks on the real bindings, int model',
'C15':'deterministic simulation: seeded buffer exporters with failures on the real bindings, bytes model',
}
NOTE='Seeded search over a bounded family of programs, schedules and faults on the real code; not exhaustive. Evidence lists what was executed.'
have=set(os.environ.get('HAVE','C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15').split())
m={'version':1,'setup_cmd':'./check.py --setup','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in TECH and i in have:
        m['checks'].append({'property':i,'quick_cmd':'./check.py '+i,'thorough_cmd':'VERIF_TIER=thorough ./check.py '+i,'technique':TECH[i],'level':'exploration','level_note':NOTE})
    elif i in TECH:
        m['not_applicable'].append({'property':i,'reason':'not built yet'})
    else:
        m['not_applicable'].append({'property':i,'reason':'A pure function of its arguments: no schedule, clock, I/O, fault or second party takes part, so a simulator has nothing to control or inject; only input coverage would decide it. (The part that does depend on faults and histories is claimed as C02, C07, C08 and C13.)'})
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
