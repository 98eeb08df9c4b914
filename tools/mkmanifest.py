"""Write MANIFEST.json; claimed checks are those listed here."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B -m dst check '
TECH = 'deterministic simulation with fault injection: '
CLAIMED = {
 'C01': ('seeded scheduler over real caller threads (random, priority-based and '
         'location-stratified preemption at calls, lines or bytecodes), results '
         'compared with the same call alone in a fresh process',
         'Sampled schedules. Trusts that one bytecode instruction and compiled '
         'NumPy/SciPy calls are atomic (true under the interpreter lock for the '
         'former; compiled calls only touch arrays the call owns).'),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
old = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
reasons = {x['property']: x['reason'] for x in old['not_applicable']}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read()) if os.path.exists(
    os.path.join(HERE, 'tools', 'claims.py')) else None
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': PY + i,
                       'thorough_cmd': PY + i + ' --thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': TECH + t, 'level': 'exploration',
                       'level_note': note})
    else:
        na.append({'property': i, 'reason': reasons[i]})
doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -m dst setup',
       'hooks': {'guard': 'none', 'enable': 'No hook in /repo: all seams are '
                 'installed from outside (allocator, back-end functions, locks, '
                 'sys.monitoring).', 'source_commits': []},
       'checks': checks, 'not_applicable': na}
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
