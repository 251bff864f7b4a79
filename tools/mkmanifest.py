#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the property blocks in contracts/*.spec and tools/notes.json."""
import json, re, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
level, verify, stand = {}, {}, {}
for f in sorted(glob.glob('contracts/*.spec')):
    for m in re.finditer(r"property (C\d+) \{([^}]*)\}", open(f).read()):
        pid, body = m.group(1), m.group(2)
        x = re.search(r'\blevel (\w+);', body)
        if x: level[pid] = x.group(1)
        for v in re.finditer(r'\bverify ([^;]*);', body):
            verify.setdefault(pid, []).extend(s.strip() for s in v.group(1).split(','))
        for v in re.finditer(r'standin "([^"]*)"', body):
            stand.setdefault(pid, []).append(v.group(1))
notes = json.load(open('tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes['not_applicable']:
        na.append({'property': i, 'reason': notes['not_applicable'][i]})
        continue
    lv = level.get(i, 'proof')
    fs = verify.get(i, [])
    n = ''
    if lv == 'proof':
        n = 'Every obligation of the contracts on ' + ', '.join(fs) + ' (and on every function they call) is discharged from the current source, for all inputs. '
        n += 'Assumed: machine integers do not overflow, float64 is exact real arithmetic, loops terminate, and the contracts of library functions listed in the evidence. '
        if stand.get(i):
            n += 'Bounded, not proved (random runs of the real code): ' + '; '.join(stand[i]) + '. '
    else:
        n = 'Bounded check, not a proof: the executable reading of the contract is run on the real code for generated cases; it stands in for ' + '; '.join(stand.get(i, [])) + ', which the verifier does not reach. '
        if fs:
            n += 'Proved for all inputs, and re-proved on every run: the contracts on ' + ', '.join(fs) + ' and what they call. '
    n += notes['extra'].get(i, '')
    checks.append({'property': i, 'quick_cmd': f'VERIF_TIER=quick bin/govc check -prop {i}', 'thorough_cmd': f'VERIF_TIER=thorough bin/govc check -prop {i}',
                   'evidence_file': f'evidence/{i}.json',
                   'technique': ('contracts on the real code, verification conditions discharged by z3/cvc5 (govc)' if lv == 'proof' else
                                 'contracts on the real code: pieces proved by govc, whole by a bounded run of the executable contract' if fs else
                                 'bounded run of the executable contract on the real code (stand-in)'),
                   'level': lv, 'level_note': n.strip()})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na, 'notes': notes['notes']}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
