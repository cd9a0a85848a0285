"""Write MANIFEST.json from properties.jsonl and the checks there are."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Seeded search: no violation in the simulated runs counted in the evidence, which is not a proof. The code of flowtracks and '
        'its libraries runs unchanged; trusted are the simulated system (simfs.so), the reference model in the check, and that one '
        'simulated process runs at a time. A crash is the death of the process, not loss of power.')
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'props', i.lower() + '.py')
    if os.path.exists(f):
        m = re.search(r"^NOTE = '(.*)'$", open(f).read(), re.M)
        cmd = 'python3 sim/check.py %s --tier ' % i
        checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'deterministic simulation with fault injection: seeded search over simulated runs of the real code '
                                    'against a reference model',
                       'level': 'exploration', 'level_note': (m.group(1) + ' ' if m else '') + NOTE})
    else:
        na.append({'property': i, 'reason': 'Pure numerical functions of their arguments: no concurrency, time, I/O, randomness or '
                   'history for a simulation to control.' if i.startswith('N') else 'The check is not built yet.'})
json.dump({'version': 1, 'setup_cmd': 'bash sim/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are the system calls, the clock, the directory order and fresh memory, all outside the '
                    'code. All commits in /repo are repairs (known_findings.json, "fixed").'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
