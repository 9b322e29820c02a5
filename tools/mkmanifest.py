#!/usr/bin/env python3
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NOTE = ('Every call of the library recorded by the driver - results, and every live object after every call - is checked by TLC to be a step of the '
        'explicit TLA+ specification in spec/; the specification itself is model checked for this property on the bounded models listed in the evidence. '
        'Assurance: exhaustive for the bounded models and the enumerated families, sampled (seeded) beyond. Trusts TLC, the JDK primitives behind Prims.tla and the recording driver.')
extra = {
 'C22': ' Executions are concurrent, under the Go race detector; a race report with a library frame is an event no step of the specification allows. Schedules are sampled.',
 'C23': ' That prefixes are random is decided only statistically (all distinct, across processes too, every position varies).',
 'C17': ' The difficulty, a float, is checked to lie within the rounding error the code documents (relative bounds), in integer arithmetic.',
 'C25': ' Floating-point results are checked against integer-arithmetic bounds.',
}
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
 'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
             'technique': 'TLA+ specification model-checked with TLC; TLC trace validation of recorded executions of the real code',
             'level': 'model_checking', 'level_note': NOTE + extra.get(p['id'], '')} for p in props],
 'not_applicable': [],
 'notes': 'No hooks: everything observed is reachable through the exported API. See DESIGN.md.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
