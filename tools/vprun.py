#!/usr/bin/env python3
"""Runs the symbolic checks of one property: compiles /repo's current sources and the harness to LLVM IR,
lets engine/symex decide every obligation, replays each counterexample natively, writes the evidence file."""
import sys, os, json, subprocess, time, shutil, tempfile, hashlib, fcntl, resource, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('VP_REPO', '/repo')
H = V + '/harness'; B = V + '/build'; SYMEX = B + '/symex'
LIB = ['tensor', 'layers/layer', 'layers/convolution', 'layers/fully_connected', 'layers/batch_normalization'] + ['layers/pooling/' + p for p in ('pooling', 'max_pooling', 'average_pooling', 'global_max_pooling', 'global_average_pooling')] + ['layers/activation_functions/' + a for a in ('activation_function', 'clip', 'lrn', 'relu', 'sigmoid', 'softmax', 'tan_h')]
IO = ['read_binary_reference_data', 'read_binary_weights', 'read_imagenet_labels', 'read_imagenet_validation_labels', 'read_jpeg', 'read_means', 'read_mnist', 'read_pgm', 'write_float', 'write_pgm']
DEFS = ['-DDEBUG=0', '-DINFO=1']
NOB = ['-fno-builtin-' + f for f in ('strcmp', 'strncmp', 'memcmp', 'bcmp', 'strlen', 'strcpy', 'strncpy', 'strchr', 'strcat')] # else short comparisons become wide loads of bytes whose value does not matter
# targets the optimiser may turn other library calls into
KEEP = ['bcmp', 'memcmp', 'memchr', 'strlen', 'strchr', 'strcmp', 'strncmp', 'strcpy', 'strnlen', 'fputc', 'fputs', 'fwrite', 'putchar', 'puts', 'strtol', 'malloc', 'strstr', 'strrchr']
class CheckError(Exception): pass

def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return r.returncode, r.stdout.decode('utf-8', 'replace')

def ensure_engine():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        rc, out = sh(['bash', V + '/engine/build.sh'])
        if rc: raise CheckError('engine build failed:\n' + out[-3000:])

def repo_sources():
    """every library source of the tree, so that files a change adds are linked too"""
    r = []
    for d, _, fs in os.walk(REPO + '/pico-cnn'):
        for f in sorted(fs):
            if f.endswith('.cpp'): r.append(os.path.join(d, f))
    return sorted(r)

class Build:
    def __init__(self, work, harness, extra=(), incs=(), defs=(), extra_src=(), stubs=()):
        self.work, self.harness, self.incs, self.defs, self.extra_src = work, harness, list(incs), list(defs), list(extra_src); self.native = {}; self.stubs = list(stubs)
    def cxx(self): return ['-I' + REPO, '-I' + H] + ['-I' + i for i in self.incs] + DEFS + ['-w'] + self.defs
    def ir(self, entries):
        """bitcode of repo + harness + stubs, one optimised module per set of entries"""
        srcs = [(s, []) for s in repo_sources()] + [(s, []) for s in self.extra_src] + [(H + '/' + h, []) for h in self.harness] + [(H + '/libc_stub.cpp', ['-fno-builtin']), (H + '/stdio_stub.cpp', ['-fno-builtin']), (H + '/jpeg_stub.cpp', [])] + [(H + '/' + t, ['-fno-builtin']) for t in self.stubs]
        def one(a):
            i, (s, fl) = a; o = '%s/ir%d.bc' % (self.work, i)
            rc, out = sh(['clang++-18', '-Wno-narrowing', '-include', H + '/nostr.h', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c'] + NOB + self.cxx() + ['-I' + os.path.dirname(s)] + fl + [s, '-o', o])
            if rc: raise CheckError('cannot compile %s:\n%s' % (s, out[-3000:]))
            return o
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, enumerate(srcs)))
        lib = objs[:len(repo_sources())]
        rc, out = sh(['llvm-link-18', '-o', self.work + '/all.bc'] + objs)
        if rc: raise CheckError('llvm-link: ' + out[-3000:])
        rc, out = sh(['opt-18', '-passes=internalize,globaldce,always-inline,function(sroa<modify-cfg>,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)', '-internalize-public-api-list=' + ','.join(entries + KEEP), self.work + '/all.bc', '-o', self.work + '/opt.bc'])
        if rc: raise CheckError('opt: ' + out[-3000:])
        for o in objs: os.remove(o)
        os.remove(self.work + '/all.bc')
        return self.work + '/opt.bc'
    def nat(self, entry, kind):
        """native executable of one entry: 'asan' or 'plain'"""
        if (entry, kind) in self.native: return self.native[(entry, kind)]
        fl = ['-g', '-fno-omit-frame-pointer'] + (['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=undefined,float-cast-overflow'] if kind == 'asan' else ['-O1'])
        if kind not in self.native:
            srcs = repo_sources() + self.extra_src + [H + '/' + h for h in self.harness] + [H + '/jpeg_stub.cpp']
            def one(a):
                i, s = a; o = '%s/%s%d.o' % (self.work, kind, i)
                rc, out = sh(['clang++-18', '-Wno-narrowing'] + fl + ['-DVP_NATIVE=1', '-c'] + self.cxx() + ['-I' + os.path.dirname(s), s, '-o', o])
                if rc: raise CheckError('native compile of %s failed:\n%s' % (s, out[-3000:]))
                return o
            with cf.ThreadPoolExecutor(8) as ex: self.native[kind] = list(ex.map(one, enumerate(srcs)))
        exe = '%s/%s_%s' % (self.work, kind, entry)
        rc, out = sh(['clang++-18'] + fl + self.cxx() + ['-DVP_ENTRY=' + entry, H + '/vp_native.cpp'] + self.native[kind] + ['-o', exe, '-lm'])
        if rc: raise CheckError('native link failed:\n' + out[-3000:])
        self.native[(entry, kind)] = exe; return exe
    def run(self, exe, inputs=None, seed=None, valgrind=False, timeout=60):
        d = tempfile.mkdtemp(dir=self.work); env = dict(os.environ, VP_DIR=d, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=97:print_stacktrace=1')
        if inputs is not None:
            with open(d + '/inputs.txt', 'w') as f:
                for k, v in inputs.items(): f.write('%s %s\n' % (k, v))
            env['VP_INPUTS'] = d + '/inputs.txt'
        if seed is not None: env['VP_SEED'] = str(seed)
        os.makedirs(d + '/s'); env['VP_DIR'] = d + '/s'
        try:
            cmd = (['valgrind', '-q', '--error-exitcode=96', '--leak-check=no', '--track-origins=no'] if valgrind else []) + [exe]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d, stdin=subprocess.DEVNULL, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))); rc, out = p.returncode, p.stdout[-200000:].decode('utf-8', 'replace')
        except subprocess.TimeoutExpired: rc, out = -99, 'timeout'
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

def replay(b, entry, v):
    """does the counterexample fail on the real build? returns (bool, how, output)"""
    tried = []
    for kind, vg in ((('asan', False), ('plain', True)) if v['kind'] != 'uninit' else (('plain', True), ('asan', False))):
        exe = b.nat(entry, kind); rc, out = b.run(exe, v['inputs'], valgrind=vg)
        tail = '\n'.join([l for l in out.splitlines() if any(k in l for k in ('VPFAIL', ' vs ', 'runtime error', 'ERROR: AddressSanitizer', 'uninitialised', 'Invalid', 'SUMMARY', 'VPINVALID', '    #0', '    #1', '    #2', '    #3'))][:25])
        tried.append('%s rc=%d\n%s' % (kind + ('+valgrind' if vg else ''), rc, tail))
        if rc == -99:
            if v['kind'] in ('nonterm', 'steps'): return True, 'timeout', tail
            continue
        if rc not in (0, 77): return True, '%s rc=%d' % (kind + ('+valgrind' if vg else ''), rc), tail
    return False, '; '.join(t.splitlines()[0] for t in tried), '\n'.join(tried)

def known(prop):
    r = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]; key, _, desc = rest.partition(' :: '); r.append((key[4:].split('&&') if key.startswith('key=') else [key], desc or rest))
    return r

def main(prop, tier):
    t0 = time.time(); sys.path.insert(0, V + '/tools'); import jobs
    P = jobs.PROPS[prop]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(B, exist_ok=True)
    rep_dir = B + '/replays'; os.makedirs(rep_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='w_' + prop + '_', dir=B); budget = P.get('budget', 240 if tier == 'quick' else 780)
    kf = known(prop)
    def is_known(v):
        txt = v['kind'] + ' ' + v['msg'] + ' ' + v['where'] + ' ' + v['entry']
        return next((d for keys, d in kf if all(k in txt for k in keys)), None)
    errors, viols, unrep, reports, natok, natbad, I, prep = [], [], [], [], 0, [], {}, {}
    try:
        ensure_engine()
        extra_src, incs = [], []
        if 'prepare' in P: prep = P['prepare'](work, tier, seed, REPO); extra_src, incs = prep.get('src', []), prep.get('inc', [])
        b = Build(work, P['harness'], incs=incs, extra_src=extra_src, stubs=P.get('stubs', []), defs=P.get('defs', []) + (['-DVP_DEEP=1'] if tier == 'thorough' else []))
        errors += prep.get('errors', []); viols += prep.get('violations', [])
        ents = [e for e in P['entries'] + prep.get('entries', []) if tier == 'thorough' or e.get('tier', 'quick') == 'quick']
        ir = b.ir([e['fn'] for e in ents]) if ents else None
        I = prep.get('evidence', {}).get('importer', {}); natok += I.get('plain_runs_agreeing', 0)
        wsum = sum(e.get('weight', 1) for e in ents); tstart = time.time(); done_w = 0
        fast = os.environ.get('VP_FAST') # for surveys of many changes: the first violation is enough
        for e in ents:
            if fast and any(not is_known(v) for v in viols): break
            left = budget - (time.time() - tstart); w = e.get('weight', 1); share = max(left * w / max(wsum - done_w, 1e-9), 15); done_w += w
            out = work + '/rep.json'
            if os.path.exists(out): os.remove(out)
            cmd = [SYMEX, '--entry', e['fn'], '--timeout', str(share), '--threads', str(e.get('threads', 8)), '--seed', str(seed), '--qto', str(e.get('qto', 20000)), '--repo', REPO, '--out', out] + (['--max-inst', str(e['max_inst'])] if 'max_inst' in e else []) + [ir]
            try: rc, o = sh(cmd, timeout=share + 200)
            except subprocess.TimeoutExpired: rc, o = -1, 'executor did not stop'
            if rc or not os.path.exists(out): errors.append('%s: executor failed (%s) %s' % (e['fn'], rc, o[-500:])); continue
            R = json.load(open(out)); R['job'] = e; reports.append(R)
            for r in e.get('reach', ['end']):
                if not R['reach'].get(r) and not R['violations']: errors.append('%s: vacuous, %r never reached' % (e['fn'], r))
            if R['unsupported'] and not R['violations']: errors.append('%s: cannot encode: %s' % (e['fn'], list(R['unsupported'].items())[:3]))
            if (R['timedout'] or R['left']) and not R['violations']:
                errors.append('%s: not finished within %ds (%d paths left)' % (e['fn'], share, R['left']))
            for v in R['violations']:
                ok, how, outp = replay(b, e['fn'], v); v['entry'] = e['fn']; v['replayed'] = how; v['native'] = outp
                (viols if ok else unrep).append(v)
            if os.environ.get('VP_VERBOSE'): print('# %s: %d paths, %d obligations, %d queries, %.1fs, viol %d, undecided %s unsupported %s' % (e['fn'], R['paths'], R['obligations'], R['queries'], R['wall'], len(R['violations']), R['undecided'], R['unsupported']), flush=True)
        # the encoding is validated against the real build on concrete runs of the same harness
        nval = P.get('native_runs', 6)
        if not errors and all(is_known(v) for v in viols):
            for e in ents:
                if e.get('no_native'): continue
                exe = b.nat(e['fn'], 'asan')
                with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda k: b.run(exe, seed=seed * 1000 + k), range(nval)))
                for k, (rc, o) in enumerate(res):
                    if rc == 0: natok += 1
                    elif rc != 77: natbad.append('%s seed %d rc %d: %s' % (e['fn'], seed * 1000 + k, rc, '\n'.join([l for l in o.splitlines() if any(k in l for k in ('VPFAIL', ' vs ', 'rror', '    #'))][:14])))
    except CheckError as ex: errors.append(str(ex))
    except subprocess.TimeoutExpired as ex: errors.append('timeout: ' + str(ex)[:200])
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(work, ignore_errors=True)
    lines = []; nviol = 0; kfs = 0
    for v in viols:
        m = is_known(v)
        if m: kfs += 1; l = 'KNOWN-FINDING: property=%s %s' % (prop, m); (l in lines) or lines.append(l); continue
        nviol += 1; path = '%s/%s_%s_%d.json' % (rep_dir, prop, v['entry'], nviol)
        json.dump(dict(property=prop, tier=tier, entry=v['entry'], kind=v['kind'], msg=v['msg'], where=v['where'], inputs=v['inputs'], replayed=v['replayed'], native=v.get('native', v.get('log', '')), how='tools/replay.py ' + path), open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path)); lines.append('  %s: %s at %s [%s]' % (v['kind'], v['msg'], v['where'][:300], v['replayed']))
    # paths and queries of the importer count with those of the executor
    tot = lambda k: sum(R[k] for R in reports) + I.get({'ob_solver': 'obligations'}.get(k, k), 0)
    funcs = sorted(set(f for R in reports for f in R['functions']) | set(I.get('functions', []))); samples = [R['entry'] + ': ' + s for R in reports for s in R['samples'][:4]][:24] or I.get('samples') or ['none']
    undec = {}; [undec.__setitem__(R['entry'] + ': ' + k, n) for R in reports for k, n in R['undecided'].items()]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=nviol,
      assumptions=jobs.ASSUME + P.get('assume', []),
      coverage=dict(states=tot('paths'), transitions=tot('instructions'), traces_validated_against_impl=natok, samples=samples, exhaustive=False,
        explanation='states = symbolic paths, transitions = IR instructions interpreted symbolically, traces = concrete runs of the same harness on the sanitizer build of /repo that agreed',
        method='bounded symbolic execution of the LLVM IR of /repo, Z3 decides every obligation', bounds=P.get('bounds', '') if tier == 'quick' else P.get('bounds_thorough', P.get('bounds', '')),
        functions_encoded=funcs, obligations=tot('obligations'), obligations_constant=tot('ob_const'), obligations_by_solver=tot('ob_solver'), obligations_undecided=tot('ob_undecided'), undecided=undec,
        queries=tot('queries'), solver_s=round(tot('solver_s'), 3), unknown_answers=tot('unknown'), memory_checks=tot('memory_checks'), infeasible_paths=tot('infeasible'), branch_forks=tot('forks'), branch_merges=tot('merges'),
        entries=[dict(entry=R['entry'], paths=R['paths'], obligations=R['obligations'], queries=R['queries'], wall=round(R['wall'], 2), asserts=R['asserts'], reach=R['reach']) for R in reports],
        known_findings=kfs, unreproduced_counterexamples=[dict(entry=v['entry'], kind=v['kind'], msg=v['msg'], where=v['where'], how=v['replayed']) for v in unrep], errors=errors, native_disagreements=natbad, **prep.get('evidence', {})))
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for l in lines: print(l)
    for v in unrep: print('note: counterexample not reproduced: %s %s at %s [%s]%s' % (v['kind'], v['msg'], v['where'][:200], v['replayed'], ' %s' % v.get('inputs') if os.environ.get('VP_VERBOSE') else ''))
    for n in natbad[:3]: print('note: native run disagrees (%d in all): ' % len(natbad) + n[:1500])
    if undec: print('note: undecided obligations: %s' % undec)
    print('%s %s: %d paths, %d obligations (%d by solver, %d undecided), %d queries, %.1fs solver, %.1fs wall, %d violations, %d native traces' % (prop, tier, tot('paths'), tot('obligations'), tot('ob_solver'), tot('ob_undecided'), tot('queries'), tot('solver_s'), time.time() - t0, nviol, natok))
    if nviol: return 1
    for e in errors: print('ERROR: ' + e)
    return 2 if errors else 0

if __name__ == '__main__':
    a = sys.argv[1:]; tier = 'quick'
    if '--thorough' in a: tier = 'thorough'; a.remove('--thorough')
    sys.exit(main(a[0], tier))
