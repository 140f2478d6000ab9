#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools'); import jobs
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = 'Holds for every value of the symbolic inputs within the stated bounds (%s). Trusts clang 18 -O1 lowering, the executor in engine/, Z3, the libc/libjpeg models in harness/, and, where stated, reads float arithmetic as real arithmetic; counterexamples are replayed on the native build.'
checks = []
for i in ids:
    if i not in jobs.PROPS: continue
    P = jobs.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 tools/vprun.py %s' % i, thorough_cmd='python3 tools/vprun.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
      technique=P.get('technique', 'symbolic execution of the LLVM IR of /repo with Z3 deciding every assertion and memory check'), level=P.get('level', 'model_checking'), level_note=P.get('note', NOTE % P.get('bounds', ''))))
M = dict(version=1, setup_cmd='bash engine/build.sh', hooks=dict(guard='none', enable='no hooks: the checks compile the unmodified sources', source_commits=[]), checks=checks,
  not_applicable=[dict(property=i, reason=jobs.NA.get(i, 'no check registered')) for i in ids if i not in jobs.PROPS], notes='Checks need the pre-installed clang-18/LLVM 18, Z3 headers (libz3-dev), python3 and python3-vt (z3, numpy) only.')
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
