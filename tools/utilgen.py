"""Runs /repo's data utilities on every shape of a family and turns the files they write into harness sources: the stored floats
become symbolic, the C++ readers have to give them back (C29)."""
import sys, os, io, re, struct, contextlib, importlib.util, types, shutil, numpy as np, onnx
from impcore import SPECIAL, token_float, Path
import symx
from symx import Explorer, Fixed, choose, Infeasible, Limit

class Util(object):
    """the utilities, with stand-ins for the packages that are not installed"""
    def __init__(s, repo, scratch):
        s.repo, s.scratch, s.called = repo, scratch, set(); os.makedirs(scratch, exist_ok=True); s.mods = {}; s.seen = {}
        def mod(n, **k): m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
        mod('caffe2'); mod('caffe2.python'); mod('caffe2.python.onnx'); b = mod('caffe2.python.onnx.backend', run_model=s.run_model, prepare=s.prepare); sys.modules['caffe2.python.onnx'].backend = b; sys.modules['caffe2.python'].onnx = sys.modules['caffe2.python.onnx']; sys.modules['caffe2'].python = sys.modules['caffe2.python']
        mod('magic', from_file=lambda f, mime=False: s.kind, from_buffer=lambda f, mime=False: s.kind)
        mod('scipy'); mod('scipy.io'); w = mod('scipy.io.wavfile', read=lambda f, *a, **k: (16000, s.media.copy())); sys.modules['scipy.io'].wavfile = w; sys.modules['scipy'].io = sys.modules['scipy.io']
        im = mod('imageio', imread=lambda f, *a, **k: s.media.copy()); im.v2 = im; sys.modules['imageio.v2'] = im
        onnx.load = onnx.load_model = lambda f, *a, **k: onnx.ModelProto()
        onnx.TensorProto.ParseFromString = lambda t, b: t.__dict__.update(array=s.tensors[bytes(b).decode()]); onnx.TensorProto.FromString = staticmethod(lambda b: onnx.TensorProto(array=s.tensors[bytes(b).decode()])); onnx.load_tensor = lambda f, *a, **k: onnx.TensorProto(array=s.tensors[(f.read() if hasattr(f, 'read') else open(f, 'rb').read()).decode()])
    def run_model(s, model, inputs, *a, **k): x = inputs[0] if isinstance(inputs, (list, tuple)) else inputs; s.ran = np.array(x, copy=True); return [s.answer]
    def prepare(s, model, *a, **k): return types.SimpleNamespace(run=lambda x, **k: s.run_model(model, x))
    def run(s, name, argv, before=()):
        """main() of a utility in an empty directory -> (why it stopped, files it left there)"""
        d = s.scratch + '/u'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); old = os.getcwd(), sys.argv; s.ran = None; why = ''
        for f, b in before: open(d + '/' + f, 'wb').write(b)
        if name not in s.mods:
            sp = importlib.util.spec_from_file_location('util_' + name, s.repo + '/util/' + name + '.py'); s.mods[name] = importlib.util.module_from_spec(sp); sp.loader.exec_module(s.mods[name])
            for n, f in s.mods[name].__dict__.items():
                if isinstance(f, types.FunctionType): s.called.add('%s.py:%s' % (name, n))
        os.chdir(d); sys.argv = [name] + argv
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): s.mods[name].main()
        except SystemExit as e: why = 'exit %s' % e.code
        except Exception as e: why = '%s: %s' % (type(e).__name__, e)
        finally: os.chdir(old[0]); sys.argv = old[1]
        files = {}
        for r, _, fs in os.walk(d):
            for f in fs:
                p = os.path.relpath(os.path.join(r, f), d)
                if p not in dict(before): files[p] = open(os.path.join(r, f), 'rb').read()
        return why, files

def toks(n, base=0, special=None): return np.array([token_float(base + i) if special is None else special[(base + i) % len(special)] for i in range(n)], np.float32)
def layout(a, how):
    if how == 'fortran': return np.asfortranarray(a)
    if how == 'strided': b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), np.float32); b[..., ::2] = a; return b[..., ::2]
    if how == 'double': return a.astype(np.float64)
    return a
# every family: -> why it stopped, [(file content or None, 'in' or 'out', shape, values in order)]
def f_parse(u, special, dims):
    C, H, W = dims(); o = choose('outputs', [1, 2, 5]); how = choose('layout', ['plain', 'fortran', 'strided', 'double']); k = choose('files', [1, 2]); ins = [toks(C * H * W, 97 * j, special).reshape(1, C, H, W) for j in range(k)]; outs = [toks(o, 1000 + 97 * j, special).reshape(1, o) for j in range(k)]
    u.tensors = {'%s%d' % (n, j): layout(a, how) for n, l in (('i', ins), ('o', outs)) for j, a in enumerate(l)}; before = [('%s_%d.pb' % (p, j), b'%s%d' % (n, j)) for n, p in ((b'i', 'input'), (b'o', 'output')) for j in range(k)]
    why, f = u.run('parse_onnx_reference_files', ['--input', u.scratch + '/u'], before); return why, [(f.get('input_%d.data' % j), 'in', a.shape, a) for j, a in enumerate(ins)] + [(f.get('output_%d.data' % j), 'out', a.shape, a) for j, a in enumerate(outs)]
def small(): return choose('C', [1, 2, 3]), choose('H', [1, 2, 3]), choose('W', [1, 2, 3])
def large(): return choose('dims', [(3, 7, 5), (1, 1, 40), (12, 1, 1), (1, 28, 28), (20, 3, 3)])
def generated(u, special, argv, media, kind, shape, o):
    u.kind, u.media = kind, media; u.answer = toks(o, 1000, special).reshape(1, o); d = u.scratch + '/u'
    why, f = u.run('generate_reference_data', ['--model', d + '/net.onnx', '--shape'] + [str(x) for x in shape] + argv, [('net.onnx', b'm')] + ([('sample.dat', b's')] if media is not None else []))
    pick = lambda n: next((b for p, b in f.items() if n in os.path.basename(p)), None)
    if u.ran is None: return why or 'the model was not run', [(None, 'in', shape, None)]
    return why, [(pick('_input'), 'in', shape, u.ran), (pick('_output'), 'out', u.answer.shape, u.answer)]
def f_random(u, special):
    n = choose('rank', [2, 3, 4]); shape = (1,) + {2: lambda: (choose('W', [1, 2, 7]),), 3: lambda: (choose('C', [1, 2, 3]), choose('W', [1, 2, 5])), 4: lambda: (choose('C', [1, 2, 3]), choose('H', [1, 2, 3]), choose('W', [1, 2, 3]))}[n](); return generated(u, special, choose('args', [['--seed', '5'], ['--seed', '7', '--range', '3', '9']]), None, None, shape, choose('outputs', [1, 4]))
def f_random_large(u, special): return generated(u, special, ['--seed', '3'], None, None, choose('shape', [(1, 3, 9, 7), (1, 17, 2, 1), (1, 40, 11), (1, 300)]), choose('outputs', [10, 100]))
def px(n): return (np.arange(n) * 7 % 251 + 1).astype(np.uint8) # different for up to 251
def f_jpeg(u, special): H, W = choose('H', [1, 2, 3]), choose('W', [1, 2, 4]); return generated(u, special, ['--file', u.scratch + '/u/sample.dat'], px(3 * H * W).reshape(H, W, 3), 'image/jpeg', (1, 3, H, W), choose('outputs', [1, 3]))
def f_pgm(u, special): H, W = choose('H', [1, 2, 3, 7]), choose('W', [1, 2, 4, 9]); return generated(u, special, ['--file', u.scratch + '/u/sample.dat'], px(H * W).reshape(H, W), 'image/x-portable-greymap', (1, 1, H, W), choose('outputs', [1, 3]))
def f_wav(u, special): C, W = choose('C', [1, 2, 3]), choose('W', [1, 2, 5, 16]); sh = choose('shape', [(1, C, W), (1, C, 1, W), (1, 1, C, W)]); n = C * W; return generated(u, special, ['--file', u.scratch + '/u/sample.dat'], ((np.arange(n) * 37 % 101) * 300 - 9001).astype(np.int16) + np.int16(30000 if n < 4 else 0), 'audio/x-wav', sh, choose('outputs', [1, 3]))
FAMS = dict(parse=lambda u, s: f_parse(u, s, small), parse_large=lambda u, s: f_parse(u, s, large), random=f_random, random_large=f_random_large, jpeg=f_jpeg, pgm=f_pgm, wav=f_wav)

def words(data, vals):
    """places of the stored values: (position, index)"""
    ix = {}
    for i, v in enumerate(vals): ix.setdefault(struct.pack('f', v), i)
    return [(p, ix[data[p:p + 4]]) for p in range(0, len(data) - 3, 4) if data[p:p + 4] in ix]
def one(u, name, f, out):
    """-> result of one family"""
    ex = Explorer(max_paths=4000); paths = []; viol = []
    for (why, items), exc, pc in ex.explore(lambda: f(u, None)):
        vals = dict(ex.model or {})
        if why or any(b is None for b, _, _, _ in items):
            viol.append(dict(kind='refused', entry=name, msg='no file is written for data within the supported domain: ' + (why or 'nothing found'), where=name, inputs=vals, log='', replayed='plain run of the utility')); continue
        items = [(b, k, tuple(sh), np.asarray(a, np.float32).reshape(-1)) for b, k, sh, a in items]; dup = any(len({struct.pack('f', v) for v in a}) != len(a) for _, _, _, a in items)
        if dup: return dict(errors=['%s: the stored values are not distinct' % name])
        if name.startswith('parse'): # special values are stored as they are
            for sp in (SPECIAL, [0.0], SPECIAL[4:] + SPECIAL[:4]):
                with Fixed(vals): w2, it2 = f(u, sp)
                for (b, k, sh, a), (b2, _, _, a2) in zip(items, it2):
                    want = bytearray(b); a2 = np.asarray(a2, np.float32).reshape(-1)
                    for p, i in words(b, a): want[p:p + 4] = struct.pack('f', a2[i])
                    if b2 != bytes(want) and not viol: viol.append(dict(kind='special', entry=name, msg='the values %s are not stored bit for bit' % list(a2[:4]), where=name, inputs=vals, log=w2, replayed='plain run of the utility'))
        paths.append((vals, items))
    fn = 'c29_' + name; o = ['#include "ref.h"', '#include "pico-cnn/io/read_binary_reference_data.h"', 'namespace {', 'static void check(const char *file, bool out, const uint8_t *skel, u32 n, const Tok *tok, u32 nt, int nd, std::initializer_list<u32> shape, u32 cnt) { float *w = new float[cnt]; for (u32 i = 0; i < cnt; i++) w[i] = vp_f32("stored"); Tensor *t = symT("old", nd, shape.begin()), *q = t; vp_assert(t->num_elements_ == cnt, "the tensor has the size of the data"); data_file(file, skel, n, tok, nt, w); const char *p = vp_path(file);',
        '  int r = out ? read_binary_reference_output_data(p, &q) : read_binary_reference_input_data(p, &q); vp_assert(r == 0, "the reader accepts the file of the utility"); vp_assert(q == t && t->num_elements_ == cnt, "the tensor is the same"); for (u32 i = 0; i < cnt; i++) vp_biteq(t->data_[i], w[i], "the reader gives back what the utility stored"); delete t; delete[] w; vp_reach("net"); }']
    case = []
    for i, (vals, items) in enumerate(paths):
        c = []
        for j, (b, k, sh, a) in enumerate(items):
            tk = words(b, a); o.append('static const uint8_t S%d_%d[] = {%s};' % (i, j, ','.join(str(x) for x in b) or '0')); o.append('static const Tok T%d_%d[] = {%s};' % (i, j, ', '.join('{%d, %d}' % t for t in tk) or '{0, 0}')); c.append('check("f%d.data", %s, S%d_%d, %d, T%d_%d, %d, %d, {%s}, %d);' % (j, 'true' if k == 'out' else 'false', i, j, len(b), i, j, len(tk), len(sh), ', '.join('%du' % d for d in sh), len(a)))
        case.append('    case %d: %s return; // %s' % (i, ' '.join(c), vals))
    o += ['}', 'extern "C" void %s() {' % fn, '  switch (vp_pick("path", 0, %d)) {' % max(len(paths) - 1, 0)] + case + ['  }', '}']
    r = dict(errors=[], notes=[], violations=viol[:3], src=[], entries=[], functions=sorted(u.called))
    if paths: p = '%s/%s.cpp' % (out, fn); open(p, 'w').write('\n'.join(o) + '\n'); r['src'].append(p); r['entries'].append(fn)
    elif not viol: r['errors'].append('%s: nothing was written' % name)
    r['stats'] = dict(paths=ex.paths, queries=ex.queries, solver_s=ex.solver_s, validated=len(paths), accepted=len(paths), obl=0); return r
