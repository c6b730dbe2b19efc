"""writes MANIFEST.json"""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
NA = {}
exec(open(os.path.join(here, 'na.py')).read()) if os.path.exists(os.path.join(here, 'na.py')) else None
LEVEL_NOTE = ('abstract interpretation of /repo\'s current source (bytecode compiled from it, never executed): each obligation covers every '
              'input of an abstract schema (unknown words, characters, numbers); shapes of inputs are bounded by the schema set, undecided obligations are counted and never alarm')
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    if os.path.exists(os.path.join(here, 'checks', pid.lower() + '.py')):
        src = open(os.path.join(here, 'checks', pid.lower() + '.py')).read()
        first = src.split('"""')[1].split('\n')[0].split(':', 1)[1].strip()
        checks.append({'property': pid, 'quick_cmd': './check.sh %s quick' % pid, 'thorough_cmd': './check.sh %s thorough' % pid,
                       'technique': 'static analysis by abstract interpretation: ' + first, 'level': 'other', 'level_note': LEVEL_NOTE})
    elif pid not in NA:
        NA[pid] = 'check not built yet'
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
