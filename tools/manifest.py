#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and the harnesses present
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in glob.glob(root + '/harness/*.go'):
    have |= set(m.group(1) for m in re.finditer(r'^func (C\d\d)_', open(f).read(), re.M))
NA = {
 'C26': 'A probability over Gaussian noise at production dimensions: an SMT verdict quantifies over all noise values and cannot weigh them; the deterministic part (correct whenever the noise stays below the bound) is decided by C04, C06, C14 and C19.',
 'C27': 'Computational indistinguishability and lattice-attack cost are statements about adversaries and probability, not assertions over executions of this code; the structural part (each mask word and noise value its own draw) is decided by C24.',
}
NOTE = json.load(open(root + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': './run.sh %s -tier thorough' % i,
          'technique': 'symbolic execution of the Go SSA with SMT (z3/cvc5), counterexamples replayed on the compiled code',
          'level': 'model_checking',
          'level_note': NOTE.get(i) or 'All values within the bounds stated in each harness comment; see evidence.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'harness not built yet')})
json.dump({'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
