#!/usr/bin/env python3
"""Runs a reported counterexample again on the real code: replay.py build/replays/<file>.json
Builds /repo's current sources with the harness (address and undefined behaviour sanitizers, then a plain build under valgrind)
and feeds the harness the recorded inputs. Exit 1 when the failure shows, 0 when it does not."""
import sys, os, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools'); import jobs, vprun
def main(path):
    v = json.load(open(path)); P = jobs.PROPS[v['property']]; print('%(property)s %(entry)s: %(kind)s: %(msg)s at %(where)s' % v)
    for k, x in v['inputs'].items(): print('  %s = %s' % (k, x))
    os.makedirs(vprun.B, exist_ok=True); work = tempfile.mkdtemp(prefix='r_', dir=vprun.B)
    try:
        prep = P['prepare'](work, v.get('tier', 'quick'), 1, vprun.REPO) if 'prepare' in P else {}
        same = [x for x in prep.get('violations', []) if x['entry'] == v['entry'] and x['kind'] == v['kind']]
        for x in same: print('the importer run shows it again: %s (%s)\n%s' % (x['msg'], x['inputs'], x.get('log', '')[-1500:]))
        if same: return 1
        if v['entry'] not in [e['fn'] for e in P['entries'] + prep.get('entries', [])]: print('the failure does not show'); return 0
        b = vprun.Build(work, P['harness'], incs=prep.get('inc', []), extra_src=prep.get('src', []), stubs=P.get('stubs', []), defs=P.get('defs', []) + (['-DVP_DEEP=1'] if v.get('tier') == 'thorough' else []))
        bad, how, out = vprun.replay(b, v['entry'], v); print(how); print(out); return 1 if bad else 0
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__': sys.exit(main(sys.argv[1]))
