import json, os
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
META = json.load(open('/verif/tools/meta.json')) if os.path.exists('/verif/tools/meta.json') else {}
FAULTS = {'C08', 'C09'}
checks, na = [], []
for p in props:
    i = p['id']
    b, c = (os.path.exists(f'/verif/{d}/{i.lower()}.py') for d in ('bounded', 'contracts'))
    if not (b or c):
        na.append(dict(property=i, reason='work in progress: no check yet'))
        continue
    m = META.get(i, {})
    if c:
        tech = ('contract-based deductive verification of the lifted source (pyvc: path-wise weakest preconditions, z3/cvc5)'
                + (' with bounded run-time contract checks standing in for functions out of reach' if b else ''))
        lev, note = 'proof', 'functions, obligations and assumptions are listed in the evidence; bounded parts are labelled bounded'
    else:
        tech = ('contracts on the real functions, checked at run time over generated '
                + ('crash points and fault sequences' if i in FAULTS else 'inputs')
                + ' (bounded stand-in: see DESIGN.md)')
        lev = 'fault_enumeration' if i in FAULTS else 'exploration'
        note = 'bounded: nothing is counted as proved; bounds in DESIGN.md and in the evidence'
    checks.append(dict(property=i, quick_cmd=f'./run {i}', thorough_cmd=f'VERIF_TIER=thorough ./run {i}',
                       technique=m.get('technique', tech), level=m.get('level', lev), level_note=m.get('note', note)))
json.dump(dict(version=1, setup_cmd='./run setup', checks=checks, not_applicable=na, notes=''),
          open('/verif/MANIFEST.json', 'w'), indent=1)
