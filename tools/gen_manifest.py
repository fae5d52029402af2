"""Writes MANIFEST.json from properties.jsonl and sim/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import registry  # noqa

TECH = {
    'mms': 'deterministic simulation of the historical database: seeded schedules of loads, reads, restarts with '
           'injected download, sqlite and crash faults, checked against a reference model of the tables',
    'xml': 'deterministic simulation of the case file cache: seeded histories with injected network, disk and crash '
           'faults and simulated clock, checked against the simulated server\'s truth',
    'prep': 'deterministic simulation of input preparation clients: seeded call orders, interleavings and faults, '
            'checked against fresh-process preparation of the same interval and an independent model of the rules',
    'market': 'deterministic simulation of market clients: seeded operation histories with injected solver faults, '
              'rejected inputs and interleaved clients, checked against an independent reference market model',
    'seq': 'deterministic simulation of a chain of dispatch intervals with crashes and restarts and solver faults',
    'rhs': 'deterministic simulation of right hand side calculators: seeded histories of updates, computations, '
           'interval changes on interleaved calculators against a reference evaluator',
}
NA = {
    'N03': 'needs the market operator\'s recorded case files and prices, which cannot be fetched here; and it is a '
           'statement about input data and not about schedules or faults',
}
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in registry.PROPS:
        checks.append({
            'property': pid, 'quick_cmd': './check %s quick' % pid, 'thorough_cmd': './check %s thorough' % pid,
            'technique': TECH[registry.WORLD_OF[pid]], 'level': 'exploration',
            'level_note': 'Seeded search over operation histories, schedules and fault sequences on the real code; a '
                          'clean batch is evidence, not proof. Trusts the simulator\'s seams and the reference model '
                          'described in DESIGN.md.'})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check under construction')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none needed', 'enable': 'no hooks in /repo: all seams are installed from outside before import',
               'source_commits': []}}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
