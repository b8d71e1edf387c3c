"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

PURE = 'pure function of one input: no schedule, fault, time, I/O or history for a simulation to vary'
NA = {
    'C13': PURE, 'C14': PURE, 'C16': PURE, 'C17': PURE,
    'C15': PURE + ' (what calibration does under failure, restart and concurrency is C04-C08)',
}
checks = []
pending = {}
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in NA:
        continue
    if not os.path.exists(os.path.join(ROOT, 'sim', 'props', pid.lower() + '.py')):
        pending[pid] = 'check not built yet'
        continue
    mod = importlib.import_module('sim.props.' + pid.lower())
    checks.append(dict(
        property=pid,
        quick_cmd='bash run.sh %s quick' % pid,
        thorough_cmd='bash run.sh %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='deterministic simulation: ' + mod.TECHNIQUE,
        level=mod.LEVEL,
        level_note=mod.LEVEL_NOTE,
    ))
manifest = dict(
    version=1,
    setup_cmd='bash setup.sh',
    checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted({**NA, **pending}.items())],
    notes='No hooks in /repo: all seams are put in place from outside (numpy bit generator, '
    'sys.monitoring, builtins.open and os). Replay a violation with: bash run.sh --replay FILE',
)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
