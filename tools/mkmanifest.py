#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in glob.glob(root + '/overlay/verifh/c*.go'):
    for m in re.finditer(r'^func (C\d\d)_\w+\(\)', open(f).read(), re.M):
        have.add(m.group(1))
notapp = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': f'bash engine/verif.sh check -prop {i} -tier quick',
            'thorough_cmd': f'bash engine/verif.sh check -prop {i} -tier thorough',
            'technique': 'symbolic execution of the Go SSA of /repo with SMT (z3, cvc5) deciding every branch and assertion',
            'level': 'model_checking',
            'level_note': 'Every value within the stated bounds (see evidence and DESIGN.md) is decided by the solver on the code of the current tree; counterexamples are replayed against the native build. Trusted: the engine\'s Go semantics and its models of the file system, formatting, hashing and ciphers, both cross-checked by native replay of sampled paths.',
        })
    else:
        na.append({'property': i, 'reason': notapp.get(i, 'no check has been built yet')})
m = {'version': 1, 'setup_cmd': 'bash engine/verif.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
