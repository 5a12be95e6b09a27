"""Writes MANIFEST.json from harness/meta.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'harness'))
sys.dont_write_bytecode = True
import meta
m = {'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the delegate interface, stdin/stdout and object identity give the monitors what they need.'}
for k, c in sorted(meta.CHECKS.items()):
    note = c['note'] + (' Exhaustive part: %s.' % c['exhaustive'] if c['exhaustive'] else '') + \
        ' Assumes: ' + '; '.join(c['assumptions']) + '.'
    m['checks'].append({'property': k, 'quick_cmd': './run.sh ' + k, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + k,
                        'evidence_file': 'evidence/%s.json' % k, 'technique': c['technique'], 'level': 'exploration',
                        'level_note': note})
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
