#!/usr/bin/env python3-vt
"""imp.py MODE OUTDIR REPO [--deep] [--only a,b]: symbolic runs of the importer; writes OUTDIR/result.json and C++ files."""
import sys, os, json, time, re, subprocess, struct
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [V + '/tools', V + '/tools/pystubs']
from impcore import *
import impmodels as M, impdeny as D, impval as W

def net_body(i, p, ish, osh, msg='output of the generated network is the ONNX result'):
    m = p.model; o = ['  RT x0 = symR("x", %s); Tensor *xt = asT(x0), *out = mkT(2, mk(%s).d); for (u32 i = 0; i < out->num_elements_; i++) out->data_[i] = vp_f32("dirty");' % (ish, osh)]
    o += ['  ' + c for c in m.code]
    o += ['  Net_%d *net = new Net_%d();' % (i, i), '  vp_assert(read_binary_weights(path, &net->kernels, &net->biases) == 0, "the exported weights load into the generated network");', '  vp_assert(vp_open_files() == 0, "the weights file is closed");', '  net->run(xt, out);']
    o += ['  soft(out, %s, "%s");' % (m.soft, msg) if m.soft else '  same(out, %s, "%s");' % (m.var[m.out], msg), '  vp_reach("net"); delete net;']
    return o
def weights_body(i, p, ish, osh): return net_body(i, p, ish, osh, 'every layer uses the values of its own initializers')
def valid_body(i, p, ish, osh):
    """a network whose weights cannot be loaded computes nothing"""
    o = net_body(i, p, ish, osh, 'a model that is accepted is computed as ONNX defines it'); k = next(k for k, l in enumerate(o) if 'read_binary_weights' in l); o[k] = '  if (read_binary_weights(path, &net->kernels, &net->biases) != 0) { vp_reach("load"); return; }'; return o
def life_body(i, p, ish, osh):
    """histories of one network: built and dropped, built and run once, run on several inputs, each next to a fresh one"""
    N = 'Net_%d' % i; o = ['  Tensor *a = asT(symR("x", %s)), *b = asT(symR("y", %s)), *o = mkT(2, mk(%s).d); u32 n = o->num_elements_; float *fa = new float[n], *fb = new float[n], *na = new float[a->num_elements_];' % (ish, ish, osh)]
    o += ['  for (u32 i = 0; i < n; i++) o->data_[i] = vp_f32("dirty"); for (u32 i = 0; i < a->num_elements_; i++) na[i] = a->data_[i];', '  vp_leak_mark(); { %s *d = new %s(); delete d; } vp_leak_check("a network that was never run leaves nothing allocated");' % (N, N)]
    run = '%s->run(%s, o); for (u32 i = 0; i < n; i++) %s;'; load = 'vp_assert(read_binary_weights(path, &%s->kernels, &%s->biases) == 0, "weights load");'
    o += ['  vp_leak_mark(); { %s *f = new %s(); %s' % (N, N, load % ('f', 'f')) + run % ('f', 'a', 'fa[i] = o->data_[i]') + ' delete f; } vp_leak_check("a network that ran once leaves nothing allocated");']
    o += ['  { %s *g = new %s(); %s' % (N, N, load % ('g', 'g')) + run % ('g', 'b', 'fb[i] = o->data_[i]') + ' delete g; }']
    o += ['  vp_leak_mark(); { %s *h = new %s(); %s' % (N, N, load % ('h', 'h')) + run % ('h', 'b', 'vp_eq(o->data_[i], fb[i], "the first run gives what another network gives")') + run % ('h', 'a', 'vp_eq(o->data_[i], fa[i], "a later run gives what a fresh network gives")') + run % ('h', 'a', 'vp_eq(o->data_[i], fa[i], "running twice on an input gives the same")') + run % ('h', 'b', 'vp_eq(o->data_[i], fb[i], "a later run gives what a fresh network gives")') + ' delete h; } vp_leak_check("a network that ran several times leaves nothing allocated");', '  for (u32 i = 0; i < a->num_elements_; i++) vp_eq(a->data_[i], na[i], "the input is left as it was");', '  vp_assert(vp_open_files() == 0, "no file is left open"); vp_reach("net");']
    return o
def called(r): r['functions'] = sorted(IMP.called); return r
def program(txt, net, what):
    # a generated main program in a namespace of its own: its includes go to the top of the file, main gets another name
    incs = [l for l in txt.splitlines() if re.match(r'\s*#\s*include', l) and 'network.h' not in l]; b = body(txt, [r'\s*#\s*include']); defs = re.findall(r'(?m)^\s*#\s*define\s+(\w+)', b)
    return incs, ['namespace %s {' % what, net, re.sub(r'\bmain\s*\(', 'vp_main(', b), '}'] + ['#undef ' + d for d in defs]
def mains_extra(i, p):
    o = []
    for src, kind in (('reference', 'R'), ('dummy', 'D')): o += program(p.r[src], '#undef Network\ntypedef StandIn Network;', '%s_%d' % (kind, i))[1]
    return o + program(p.r['reference'], '#define Network Net_%d' % i, 'E_%d' % i)[1]
def mains_body(i, p, ish, osh):
    m = p.model; o = ['  u32 kind = vp_pick("scenario", 0, 9); vp_mode(kind == 0 || kind == 9 ? 1 : 0); RT x0 = symR("x", %s);' % ish]
    o += ['  if (kind <= 4) reference((MainFn)R_%d::vp_main, x0, %s, kind); else if (kind <= 8) dummy((MainFn)D_%d::vp_main, x0, %s, kind - 5); else {' % (i, osh, i, osh)] + ['  ' + c for c in m.code] + ['  whole((MainFn)E_%d::vp_main, x0, %s); }' % (i, m.var[m.out])]
    return o
def mains_head(fam): return ['#include "mains.h"'] + sorted({l.strip() for p in fam.paths if p.r['ok'] for k in ('reference', 'dummy') for l in program(p.r[k], '', '')[0]})
GENS = dict(c30=dict(body=mains_body, extra=mains_extra, head=mains_head, mode=0), c26=dict(body=net_body), c25=dict(body=weights_body, special=True), c28=dict(body=life_body), c27=dict(body=valid_body, accept=False))

def one(a):
    mode, n, f, out, via, g = a; t = time.time()
    try: fam = Family(IMP, n, f, via); fn = '%s_%s' % (mode, n); txt = emit(fam, fn, mode, g) if not fam.bad else None
    except Exception as e: import traceback; return n, dict(errors=['%s: %s' % (n, traceback.format_exc()[-1500:])])
    if g.get('accept', True) and not fam.bad: viol0 = refused(fam, n)
    else: viol0 = []
    rej = sorted({p.r['why'] for p in fam.paths if not p.r['ok']}); r = dict(errors=[], notes=fam.notes, src=[], entries=[], violations=viol0 + (special(fam, n) if g.get('special') and not fam.bad else []))
    if fam.bad: r['errors'].append('%s: %s' % (n, fam.bad))
    if txt:
        p = '%s/%s.cpp' % (out, fn); open(p, 'w').write(txt); ok, log = compiles(p)
        if not ok: # which of the generated networks is it?
            v_, keep = uncompilable(fam, out, n); r['violations'] += v_; fam.paths = keep; txt = emit(fam, fn, mode, g) if keep else None
            if txt: open(p, 'w').write(txt); ok, log = compiles(p)
            if txt and not ok: r['errors'].append('%s: %s' % (n, log[-1500:])); txt = None
        if txt: r['src'].append(p); r['entries'].append(fn)
    elif not fam.bad and not r['violations'] and g.get('accept', True): r['errors'].append('%s: no model of the family is accepted (%s)' % (n, '; '.join(rej[:3])))
    r['stats'] = dict(fam.stats, accepted=sum(p.r['ok'] for p in fam.paths), rejected=rej[:5], seconds=round(time.time() - t, 2)); return n, called(r)
def compiles(p, std='gnu++17', cc='clang++-18', inc=()):
    r = subprocess.run([cc, '-std=' + std, '-fsyntax-only', '-w', '-Wno-narrowing', '-DDEBUG=0', '-DINFO=1', '-I' + REPO, '-I' + V + '/harness'] + ['-I' + i for i in inc] + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT); return r.returncode == 0, r.stdout.decode('utf-8', 'replace')
def uncompilable(fam, out, n):
    """plain runs of the importer, compiled as the generated Makefile does"""
    viol, keep, seen = [], [], {}
    for p in fam.paths:
        if not p.r['ok']: continue
        k = (p.r['cpp'], p.r['h'])
        if k not in seen:
            vals = {k: (float(np.float32(v)) if k.startswith('f_') else v) for k, v in p.vals.items()}
            with Fixed(vals): m = fam.build(); r = IMP.run(m.proto(), n, fam.via)
            d = '%s/g_%s_%d' % (out, n, len(seen)); os.makedirs(d, exist_ok=True)
            for f, t in (('network.cpp', r['cpp']), ('network.h', r['h'])): open(d + '/' + f, 'w').write(t or '')
            seen[k], log = compiles(d + '/network.cpp', 'c++11', 'g++', [d])
            if not seen[k]: viol.append(dict(kind='compile', entry=n, msg='the network generated for an accepted model does not compile', where=n, inputs=vals, log=log[-600:], replayed='importer run on the model with these attribute values, g++ of the result'))
        if seen[k]: keep.append(p)
    return viol, keep
def plain(p, n, via):
    vals = {k: (float(np.float32(v)) if k.startswith('f_') else v) for k, v in p.vals.items()}
    return vals
def refused(fam, n):
    r = []
    for p in fam.paths:
        if not p.r['ok']: r.append(dict(kind='refused', entry=n, msg='a model within the supported domain is not translated: ' + p.r['why'], where=n, inputs=plain(p, n, fam.via), log=p.r['log'][-600:], replayed='plain importer run on the model with these attribute values')) # Family.agrees has made the plain run
    return r[:3]
def special(fam, n):
    """the bytes of special floats are exported unchanged: plain runs, compared with the symbolic weights filled in"""
    r = []
    for p in fam.paths:
        if not p.r['ok'] or r: continue
        vals = plain(p, n, fam.via); tk = tokens_in(p.r['weights'], p.model.ntok)
        for sv in (SPECIAL, [0.0], SPECIAL[5:] + SPECIAL[:5]):
            Model.default_special = sv
            try:
                with Fixed(vals): m = fam.build(); q = IMP.run(m.proto(), n, fam.via)
            finally: Model.default_special = None
            want = bytearray(p.r['weights'])
            for pos, i in tk: want[pos:pos + 4] = struct.pack('f', sv[i % len(sv)])
            if q['weights'] != bytes(want): r.append(dict(kind='special', entry=n, msg='weights %s are not exported bit for bit' % sv[:4], where=n, inputs=vals, log=q['why'], replayed='plain importer run')); break
    return r
def check_deny(fam, p, ex):
    """a model that is accepted is one of the supported ones, for every value on the path"""
    if not p.r['ok']: return None
    cm = ex.valid(p.model.supported)
    if cm is None: return None
    vals = ex.values(cm); m, r = fam.plain(vals)
    if not r['ok'] or m.supported: return 'counterexample %s is not confirmed by a plain run' % vals
    fam.violations.append(dict(kind='accepted', entry=fam.name, msg='a model outside the supported domain is translated', where=describe(m), inputs=vals, log='', replayed='plain importer run on the model with these attribute values'))
def describe(m): return '; '.join('%s(%s)%s' % (n.op_type, ', '.join('%s%s' % (i, tuple(m.shapes[i])) for i in n.input), ''.join(' %s=%s' % (a.name, next((getattr(a, f) for f in ('i', 'f', 's') if f in a._set), list(a.ints) or list(a.floats))) for a in n.attribute if a.name != 'value')) for n in m.g.node if n.op_type not in ('Flatten', 'Relu'))[:280]
def check_shapes(fam, p, ex):
    """every shape the importer works with is the one ONNX defines, for all dimensions on the path"""
    def differs(got, want):
        if got is None or len(tuple(got)) != len(want): return ex.values(ex.sol.model()) if ex.check() == z3.sat else {}
        cm = ex.valid(z3.And([symx.tobool(symx._eq(g, w)) for g, w in zip(got, want)])) if want else None
        return None if cm is None else ex.values(cm)
    m, r = p.model, p.r; outs = [o for n in m.g.node for o in n.output]
    if r['states'] is None and (r['shapes'] is None or not r['ok'] and not re.match(r'exit|no code generated', r['why'])):
        if r['ok'] or re.match(r'exit|no code generated', r['why']): fam.skipped += 1; return None # refused before shapes are inferred
        fam.violations.append(dict(kind='shape', entry=fam.name, msg='shape inference fails: ' + r['why'], where=describe(m), inputs=p.vals, log=r['log'][-400:], replayed='plain importer run on the model with these dimensions')); return None
    for o in outs:
        for src in ('states', 'shapes'):
            d = r[src]
            if d is None or (src == 'shapes' and r['why'].startswith('exit')): continue # refused while shapes were being worked out
            got = d.get(o); want = m.shapes[o]
            if src == 'states' and got is None and r['shapes'] is not None and o in r['shapes']: continue
            if src == 'shapes' and o not in d and r['states'] and r['states'].get(o) is not None: continue # constants that were folded
            cm = differs(got, want)
            if cm is None: continue
            m2, q = fam.plain(cm); g2 = (q[src] or {}).get(o)
            if g2 is not None and tuple(g2) == tuple(m2.shapes[o]): return 'counterexample %s is not confirmed by a plain run' % cm
            n = next(n for n in m2.g.node if o in n.output)
            fam.violations.append(dict(kind='shape', entry=fam.name, msg='shape of %s is %s, ONNX says %s' % (n.op_type, g2, tuple(m2.shapes[o])), where=describe(m2), inputs=cm, log='', replayed='plain importer run on the model with these dimensions')); return None
PYGENS = dict(c24=check_shapes, c27=check_deny)
def pyone(a):
    mode, n, f, out, via, g = a; t = time.time()
    try: fam = Family(IMP, n, f, via, max_paths=20000, check=g)
    except Exception as e: import traceback; return n, dict(errors=['%s: %s' % (n, traceback.format_exc()[-1500:])])
    if mode == 'c24' and fam.skipped == len(fam.paths) and not fam.violations: fam.bad = fam.bad or 'no shapes could be read off'
    r = dict(errors=['%s: %s' % (n, fam.bad)] if fam.bad else [], notes=fam.notes, violations=fam.violations[:2]); rej = sorted({p.r['why'] for p in fam.paths if not p.r['ok']})
    r['stats'] = dict(fam.stats, accepted=sum(p.r['ok'] for p in fam.paths), rejected=rej[:5], seconds=round(time.time() - t, 2)); return n, called(r)
def scratch(base): x = IMP or UT; x.scratch = '%s/%d' % (base, os.getpid()); os.makedirs(x.scratch, exist_ok=True)
def pool_map(f, jobs, out):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8, scratch, (out + '/scratch',)) as p: return p.map(f, jobs, 1)
def families(mode, models, out, via='main', only=None, gens=None):
    R = dict(functions=[], entries=[], src=[], violations=[], errors=[], notes=[], stats={}); g = gens or GENS[mode]; JOBS[:] = [(mode, n, f, out, via, g) for n, f in models.items() if not only or n in only]
    for n, r in pool_map(job, range(len(JOBS)), out):
        for k in ('entries', 'src', 'errors', 'notes', 'violations'): R[k] += r.get(k, [])
        R['functions'] = sorted({*R['functions'], *r.get('functions', [])})
        R['stats'][n] = r.get('stats', {})
    return R
JOBS = []
UTILS = ('c29', 'c31')
def utilone(a):
    mode, n, f, out, via, g = a
    try: return n, UTMOD.one(UT, n, f, out)
    except Exception as e: import traceback; return n, dict(errors=['%s: %s' % (n, traceback.format_exc()[-1500:])])
def job(i): return (utilone if JOBS[i][5] == 'util' else pyone if callable(JOBS[i][5]) else one)(JOBS[i])

if __name__ == '__main__':
    a = sys.argv[1:]; deep = '--deep' in a; only = a[a.index('--only') + 1].split(',') if '--only' in a else None
    mode, out, REPO = a[:3]; repo = REPO; os.makedirs(out, exist_ok=True); IMP = Importer(repo, out + '/scratch') if mode not in UTILS else None
    if mode == 'c26': R = families(mode, dict(M.COMPUTE, **(M.DEEP_COMPUTE if deep else {})), out, only=only)
    elif mode == 'c25': R = families(mode, M.WEIGHTED, out, only=only)
    elif mode == 'c30': R = families(mode, M.MAINS, out, only=only)
    elif mode == 'c28': R = families(mode, dict(M.COMPUTE, **{'w_' + k: v for k, v in M.WEIGHTED.items() if k in ('shared', 'branches', 'seq_convb_bn', 'seq_conv', 'seq_dw_convb')}), out, only=only)
    elif mode == 'c27':
        R = families(mode, D.DENY, out, only=only, gens=check_deny); Q = families(mode, W.VALID, out, only=only)
        for k in ('entries', 'src', 'errors', 'notes', 'violations'): R[k] += Q[k]
        R['functions'] = sorted({*R['functions'], *Q['functions']}); R['stats'].update({'v_' + k: v for k, v in Q['stats'].items()})
    elif mode == 'c29':
        import utilgen as UTMOD; UT = UTMOD.Util(repo, out + '/scratch'); R = families(mode, UTMOD.FAMS, out, only=only, gens='util')
    elif mode == 'c31':
        import imgprep as UTMOD; UT = UTMOD.Lib(repo, out + '/scratch'); R = families(mode, UTMOD.FAMS, out, only=only, gens='util')
    elif mode == 'c24': R = families(mode, D.SHAPES, out, only=only, gens=check_shapes)
    json.dump(R, open(out + '/result.json', 'w'), indent=1)
