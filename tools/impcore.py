"""Runs /repo's importer on models whose attributes and dimensions are symbolic (symx.py), and turns the generated networks
into C++ for the executor, next to the ONNX definition of the same model (harness/ref.h)."""
import sys, os, io, re, shutil, struct, contextlib, importlib, types, time, z3
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
import symx, npshim
from symx import Explorer, SymInt, SymFloat, SymBool, SymFrac, ctext, sym, symf, choose, Fixed, Infeasible, Limit
import onnx

class Importer(object):
    def __init__(s, repo, scratch):
        npshim.install(); s.dir = repo + '/onnx_import'; s.scratch = scratch; os.makedirs(scratch, exist_ok=True); sys.path.insert(0, s.dir); sys.dont_write_bytecode = True
        old = os.getcwd(); os.chdir(scratch)
        with contextlib.redirect_stdout(io.StringIO()): s.main = importlib.import_module('onnx_to_pico_cnn'); s.backend = importlib.import_module('backend'); s.constprop = importlib.import_module('constprop')
        os.chdir(old); s.mods = [m for m in list(sys.modules.values()) if (getattr(m, '__file__', None) or '').startswith(s.dir + '/')]
        for m in s.mods: m.__dict__.setdefault('int', npshim.VInt)
        s.graphs = []; s.states = []; s.called = set()
        # what the importer believes about shapes, read off at the calls of its own functions
        for m in s.mods:
            for n, f in list(m.__dict__.items()):
                if isinstance(f, types.FunctionType) and (f.__code__.co_filename or '').startswith(s.dir + '/'): m.__dict__[n] = s.rec(f)
    def rec(s, f):
        import functools; name = '%s:%s' % (os.path.basename(f.__code__.co_filename), f.__qualname__)
        @functools.wraps(f)
        def w(*a, **k):
            s.called.add(name)
            for x in a:
                if isinstance(getattr(x, 'shape_dict', None), dict): s.graphs.append(x)
            r = f(*a, **k)
            if isinstance(r, dict) and r and all(hasattr(v, 'shape') and hasattr(v, 'value') for v in r.values()): s.states.append(r)
            return r
        return w
    def run(s, model, name, via='main'):
        """-> dict(ok, why, cpp, h, weights, dummy, reference)"""
        del onnx.SAVED[:]; del s.graphs[:]; del s.states[:]
        out = os.path.join(s.scratch, 'generated_code'); shutil.rmtree(out, ignore_errors=True); old = os.getcwd(); os.chdir(s.scratch); buf = io.StringIO(); why = ''
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf): (s.main.onnx_to_pico_cnn if via == 'main' else s.backend.Backend.prepare)(model, name)
        except SystemExit as e: why = 'exit %s' % e.code
        except Exception as e: why = '%s: %s' % (type(e).__name__, e); s.exc = e
        finally: os.chdir(old)
        def rd(f, mode='r'):
            p = os.path.join(out, name, f)
            if not os.path.exists(p): return None
            with open(p, mode) as h: return h.read()
        r = dict(cpp=rd('network.cpp'), h=rd('network.h'), weights=rd('network.weights.bin', 'rb'), dummy=rd('dummy_input.cpp'), reference=rd('reference_input.cpp'), make=rd('Makefile'), log=buf.getvalue())
        r['states'] = {k: v.shape for k, v in s.states[-1].items()} if s.states else None; r['shapes'] = dict(s.graphs[-1].shape_dict) if s.graphs else None
        r['ok'] = not why and all(r[k] is not None for k in ('cpp', 'h', 'weights', 'dummy', 'reference')); r['why'] = why or ('' if r['ok'] else 'no code generated: ' + (([l for l in r['log'].splitlines() if 'ERROR' in l] or [''])[0])); return r

def T(x): # C text of a dimension or attribute
    if isinstance(x, SymInt): return ctext(x.e)
    if isinstance(x, SymFloat): return repr(x)
    if isinstance(x, (float, np.floating)): return repr(float(x)) + 'f'
    return str(int(x))
def L(xs): return ', '.join('(u32)(%s)' % T(x) for x in xs)

SPECIAL = [0.0, -0.0, float('inf'), float('-inf'), float('nan'), 1e-45, -1.1754942e-38, 3.4028235e+38, 1e-7, 0.1, -2.5, 16777217.0, 1.17549435e-38, 123456.789]
class Model(object):
    default_special = None; via = None; supported = None; hide = False; ir3 = None # ir3: initializers are listed as graph inputs too, as old exporters did: before or after the real one
    def __init__(s, name, special=None):
        s.name = name; s.g = onnx.GraphProto(name='g'); s.shapes = {}; s.code = []; s.var = {}; s.ntok = 0; s.special = Model.default_special if special is None else special; s.nonneg = []; s.consts = {}; s.k = 0; s.ins = []; s.soft = None; s.out = None; s.facts = []; s.sp_vals = []
    def input(s, name, shape):
        s.g.input.append(onnx.mk_value_info(name, shape)); s.ins.append((name, tuple(shape))); s.shapes[name] = tuple(shape); s.var[name] = 'x%d' % (len(s.ins) - 1); return name
    def weight(s, name, shape, nonneg=False):
        n = int(np.prod(shape)) if shape else 1; base = s.ntok; s.ntok += n
        if s.special is None: a = np.array([token_float(base + i) for i in range(n)], np.float32)
        else: a = np.array([s.special[(base + i) % len(s.special)] for i in range(n)], np.float32); s.sp_vals += [struct.pack('f', v) for v in a]
        if nonneg: s.nonneg += range(base, base + n)
        s.g.initializer.append(onnx._from_array(a.reshape(shape), name)); s.shapes[name] = tuple(shape); s.var[name] = 'W_' + cid(name); s.code.append('RT W_%s = of(w + %d, {%s}); (void)W_%s;' % (cid(name), base, L(shape), cid(name))); return name
    def const(s, name, value, dtype=np.int64):
        a = np.array(value, object if npshim.has_sym(value) else dtype); s.g.initializer.append(onnx._from_array(a, name)); s.shapes[name] = tuple(a.shape); s.consts[name] = a; return name
    def scalar(s, name, f, shape=()):
        a = np.empty(shape, object if isinstance(f, SymFloat) else np.float32); a[...] = f; s.g.initializer.append(onnx._from_array(a, name)); s.shapes[name] = tuple(shape); s.consts[name] = f; return name
    def node(s, op, ins, outs, name, attrs):
        n = onnx.NodeProto(name=name, op_type=op, input=list(ins), output=list(outs))
        for k, v in attrs.items():
            a = onnx.AttributeProto(name=k)
            if isinstance(v, (bytes, str)): a.s = v.encode() if isinstance(v, str) else v
            elif isinstance(v, (list, tuple)):
                (a.floats if v and isinstance(v[0], float) else a.ints).extend(v)
            elif isinstance(v, np.ndarray): t = onnx._from_array(v); a.t.CopyFrom(t); a.t = a.t
            elif isinstance(v, (float, SymFloat)): a.f = v
            else: a.i = v
            n.attribute.append(a)
        s.g.node.append(n); return n
    def op(s, op, ins, out=None, name=None, ref=None, **attrs):
        s.k += 1; out = out or 't%d' % s.k; s.node(op, ins, [out], '%s_%d' % (op.lower(), s.k) if name is None else name, attrs)
        sh = [s.shapes[i] for i in ins]; f = OPS[op]; shape, code = f(s, ins, sh, dict(attrs, **(ref or {}))); s.shapes[out] = tuple(shape)
        if code: v = 'r%d' % s.k; s.code.append('RT %s = %s;' % (v, code)); s.var[out] = v
        return out
    def cop(s, op, ins, shape, out=None, value=None, **attrs):
        """an operator on constants"""
        s.k += 1; out = out or 'c%d' % s.k; s.node(op, ins, [out], '%s_%d' % (op.lower(), s.k), attrs); s.shapes[out] = tuple(shape); return out
    def output(s, name, shape=None): s.g.output.append(onnx.mk_value_info(name, shape or s.shapes[name])); s.out = name; return s
    def proto(s):
        if s.ir3: vi = [onnx.mk_value_info(t.name, t.dims) for t in s.g.initializer]; real = list(s.g.input); s.g.input[:] = vi + real if s.ir3 == 'before' else real + vi
        hid = {o for n in s.g.node if n.op_type in INFERRED for o in n.output} if s.hide else ()
        m = onnx.ModelProto(graph=s.g, vp_shapes={k: v for k, v in s.shapes.items() if k not in hid and all(k != i[0] for i in s.ins) and all(k != t.name for t in s.g.initializer)})
        m.opset_import.append(onnx.OperatorSetIdProto(version=9)); return m

INFERRED = ('MaxPool', 'AveragePool', 'Transpose', 'BatchNormalization', 'Clip', 'Squeeze', 'Unsqueeze', 'Softmax', 'Shape', 'Cast', 'MatMul', 'Add', 'Constant', 'Gather', 'Concat', 'Reshape', 'Gemm', 'Relu')
def cid(n): return re.sub(r'\W', '_', n)
def token_float(i): return struct.unpack('f', bytes([tk(i & 63), tk((i >> 6) & 63), 0x80 + ((i >> 12) & 63), 0x3f]))[0]
def tk(b): return 0x40 + b # never the top byte of a token
def tokens_in(data, n):
    want = {struct.pack('f', token_float(i)): i for i in range(n)}; r = []
    for p in range(len(data) - 3):
        if data[p + 3] == 0x3f and data[p:p + 4] in want: r.append((p, want[data[p:p + 4]]))
    return r

def sp(sh, a): # spatial parameters as {rows, columns} and {top, left, bottom, right}
    two = len(sh) == 4; k = list(a['kernel_shape']); st = list(a.get('strides') or [1] * len(k)); p = list(a.get('pads') or [0] * 2 * len(k))
    if not two: k, st, p = [1] + k, [1] + st, [0, p[0], 0, p[1]]
    return k, st, p
def odim(x, p0, p1, k, s): return (x + p0 + p1 - k) // s + 1
def o_conv(m, ins, sh, a):
    k, s, p = sp(sh[0], a); x, w = sh[0], sh[1]; o = (x[0], w[0]) + ((odim(x[2], p[0], p[2], k[0], s[0]), odim(x[3], p[1], p[3], k[1], s[1])) if len(x) == 4 else (odim(x[2], p[1], p[3], k[1], s[1]),))
    return o, 'r_conv(%s, %s, %s, A4{{%s}}, A4{{%s}}, A4{{%s}}, %s)' % (m.var[ins[0]], m.var[ins[1]], m.var[ins[2]] + '.v' if len(ins) > 2 else 'nullptr', L(k), L(s), L(p), T(a.get('group', 1)))
def o_pool(mx):
    def f(m, ins, sh, a):
        k, s, p = sp(sh[0], a); x = sh[0]; o = (x[0], x[1]) + ((odim(x[2], p[0], p[2], k[0], s[0]), odim(x[3], p[1], p[3], k[1], s[1])) if len(x) == 4 else (odim(x[2], p[1], p[3], k[1], s[1]),))
        return o, 'r_pool(%s, %d, A4{{%s}}, A4{{%s}}, A4{{%s}}, %s)' % (m.var[ins[0]], mx, L(k), L(s), L(p), T(a.get('count_include_pad', 0)))
    return f
def keep(fmt): return lambda m, ins, sh, a: (sh[0], fmt(m, ins, a))
def o_reshape(m, ins, sh, a):
    t = a['target'] if 'target' in a else list(m.consts[ins[1]]); x = sh[0]; o = [x[i] if d == 0 else d for i, d in enumerate(t)]; un = [i for i, d in enumerate(o) if isinstance(d, (int, np.integer)) and d == -1]
    if un: o[un[0]] = npshim.prod(x) // npshim.prod(d for i, d in enumerate(o) if i != un[0])
    return tuple(o), 'r_shape(%s, {%s})' % (m.var[ins[0]], L(o))
def o_flatten(m, ins, sh, a): ax = a.get('axis', 1); o = (npshim.prod(sh[0][:ax]), npshim.prod(sh[0][ax:])); return o, 'r_shape(%s, {%s})' % (m.var[ins[0]], L(o))
def o_squeeze(m, ins, sh, a): ax = {x % len(sh[0]) for x in a['axes']}; o = tuple(d for i, d in enumerate(sh[0]) if i not in ax); return o, 'r_shape(%s, {%s})' % (m.var[ins[0]], L(o))
def o_unsqueeze(m, ins, sh, a):
    n = len(sh[0]) + len(a['axes']); ax = {x % n for x in a['axes']}; it = iter(sh[0]); o = tuple(1 if i in ax else next(it) for i in range(n)); return o, 'r_shape(%s, {%s})' % (m.var[ins[0]], L(o))
def o_concat(m, ins, sh, a): ax = a['axis'] % len(sh[0]); t = 0; t = sum((s[ax] for s in sh[1:]), sh[0][ax]); return tuple(t if i == ax else d for i, d in enumerate(sh[0])), 'r_concat({%s}, %d)' % (', '.join(m.var[i] for i in ins), ax)
def o_add(m, ins, sh, a): return npshim.bcast(sh[0], sh[1]), 'r_add(%s, %s)' % (m.var[ins[0]], m.var[ins[1]])
def o_transpose(m, ins, sh, a): p = a.get('perm') or list(range(len(sh[0])))[::-1]; return tuple(sh[0][i] for i in p), 'r_transpose(%s, A4{{%s}})' % (m.var[ins[0]], L(p))
def o_pad(m, ins, sh, a): n = len(sh[0]); p = a['pads']; return tuple(p[i] + sh[0][i] + p[i + n] for i in range(n)), 'r_pad(%s, {%s}, %s)' % (m.var[ins[0]], L(p), T(a.get('value', 0.0)))
def o_softmax(m, ins, sh, a): m.soft = m.var[ins[0]]; return sh[0], None
OPS = dict(Conv=o_conv, MaxPool=o_pool(1), AveragePool=o_pool(0), Reshape=o_reshape, Flatten=o_flatten, Squeeze=o_squeeze, Unsqueeze=o_unsqueeze, Concat=o_concat, Add=o_add, Transpose=o_transpose, Pad=o_pad, Softmax=o_softmax,
    Relu=keep(lambda m, i, a: 'r_relu(%s)' % m.var[i[0]]), Clip=keep(lambda m, i, a: 'r_clip(%s, %s, %s)' % (m.var[i[0]], T(a['min']), T(a['max']))), Dropout=keep(lambda m, i, a: m.var[i[0]]),
    BatchNormalization=keep(lambda m, i, a: 'r_bn(%s, %s, %s)' % (m.var[i[0]], ', '.join(m.var[x] + '.v' for x in i[1:]), T(a['epsilon']))), LRN=keep(lambda m, i, a: 'r_lrn(%s, %s, %s, %s)' % (m.var[i[0]], T(a['size']), T(a['alpha']), T(a['beta']))),
    Mul=keep(lambda m, i, a: 'r_mul(%s, %s)' % (m.var[i[0]], T(m.consts[i[1]]))),
    Gemm=lambda m, i, sh, a: ((sh[0][0], sh[1][0]), 'r_gemm(%s, %s, %s)' % (m.var[i[0]], m.var[i[1]], m.var[i[2]] + '.v' if len(i) > 2 else 'nullptr')), MatMul=lambda m, i, sh, a: ((sh[0][0], sh[1][1]), 'r_matmul(%s, %s)' % (m.var[i[0]], m.var[i[1]])),
    GlobalMaxPool=lambda m, i, sh, a: (sh[0][:2] + (1,) * (len(sh[0]) - 2), 'r_gpool(%s, 1)' % m.var[i[0]]), GlobalAveragePool=lambda m, i, sh, a: (sh[0][:2] + (1,) * (len(sh[0]) - 2), 'r_gpool(%s, 0)' % m.var[i[0]]))

class Path(object): pass
def concrete_text(txt, vals):
    """generated text with every symbolic place filled in"""
    def v(mt):
        e, _ = symx.TOKEXPR[mt.group(0)]; r = z3.simplify(z3.substitute(e, *[(z3.Int(n), z3.IntVal(x)) for n, x in vals.items() if isinstance(x, int)])); return str(r.as_long())
    txt = re.sub(r'VPE_\d+_', v, txt); return re.sub(r'VPF_(\w+)', lambda mt: repr(vals['f_' + mt.group(1)]) if 'f_' + mt.group(1) in vals else mt.group(0), txt)

def strip(t): return re.sub(r'(?m)^\s*(//[^\n]*)?\n', '', re.sub(r'//[^\n]*', '', t))

class Family(object):
    """all paths of the importer over one family of models"""
    def __init__(s, imp, name, build, via='main', timeout=60, max_paths=1500, deadline=None, check=None):
        s.imp, s.name, s.build, s.via = imp, name, build, via; s.violations = []; s.skipped = 0; s.check = check; s.paths = []; s.stats = dict(paths=0, queries=0, solver_s=0.0, forks=0, validated=0, obl=0, concretised=False); s.notes = []
        t0 = time.time()
        for concrete in (False, True):
            s.paths = []; ex = Explorer(max_paths=max_paths, deadline=deadline or t0 + (420 if concrete else 240)); ex.concrete = concrete; bad = None
            try:
                for (m, r), exc, pc in ex.explore(s.once):
                    p = Path(); p.model, p.r, p.pc, p.vals, p.names = m, r, pc, ex.model or {}, dict(ex.names); bad = s.agrees(p)
                    if bad: break
                    if check: bad = check(s, p, ex)
                    if bad: break
                    s.paths.append(p); s.stats['validated'] += 1
            except Limit as e: bad = str(e)
            for k in ('paths', 'queries', 'forks', 'obl'): s.stats[k] += getattr(ex, k)
            s.stats['solver_s'] += ex.solver_s
            if not bad: break
            s.notes.append('%s: %s' % (name, bad)); s.stats['concretised'] = True # a run with symbolic values went where a plain run does not: one path per value instead
        s.bad = bad
    def once(s):
        m = s.build(); return m, s.imp.run(m.proto(), s.name, m.via or s.via)
    def plain(s, vals):
        """a run with values instead of symbols"""
        vals = {k: (float(np.float32(v)) if k.startswith('f_') else v) for k, v in vals.items()}; old = Explorer.cur
        try:
            with Fixed(vals): return s.once()
        finally: Explorer.cur = old
    def agrees(s, p):
        """the symbolic run, filled in with values of its path, is the plain run"""
        vals = p.vals; m, r = s.plain(vals)
        if r['ok'] != p.r['ok']: return 'plain run %s, symbolic run %s' % (r['why'] or 'accepted', p.r['why'] or 'accepted')
        if r['ok']:
            if any(k.startswith('f_') for k in vals): return None # printed floats may differ in their last digits
            for k in ('cpp', 'h', 'dummy', 'reference'):
                if strip(concrete_text(p.r[k], vals)) != strip(r[k]): return 'generated %s differs from a plain run' % k
            if p.r['weights'] != r['weights']: return 'exported weights differ from a plain run'

def body(txt, drop):
    return '\n'.join(l for l in txt.splitlines() if not any(re.match(d, l) for d in drop))
def pc_text(pc):
    e = z3.simplify(z3.And(*pc)) if pc else z3.BoolVal(True); return ctext(e)

def fixed_by(p):
    """variables which have a single value on the path"""
    r = {}; sol = z3.Solver(); sol.add(*p.pc)
    for n, (e, lo, hi) in p.names.items():
        if not n.startswith('f_') and n in p.vals and (lo == hi or sol.check(z3.Int(n) != p.vals[n]) == z3.unsat): r[n] = p.vals[n]
    return r
def emit(fam, fn, kind, gen):
    """one C++ file: the networks of all accepted paths, and an entry that checks the one its attribute values select"""
    o = gen.get('head', lambda fam: [])(fam) + ['#include "ref.h"', 'namespace {', '#define VP_NS_%s' % fn]; names = {}; var = {}; order = []
    for p in fam.paths:
        names.update(p.names)
        if not p.r['ok']: continue
        tk_ = tokens_in(p.r['weights'], p.model.ntok); key = (p.r['cpp'], p.r['h'], p.r['weights'], tuple(p.model.code), tuple(p.model.ins), tuple(map(str, p.model.shapes[p.model.out])), p.model.soft, p.r['reference'], p.r['dummy'])
        key = tuple(map(str, key))
        if key not in var: var[key] = len(order); order.append((p, tk_, []))
        order[var[key]][2].append(p)
    if not order: return None
    for n, (e, lo, hi) in sorted(names.items()): o.append('static float VPF_%s;' % n[2:] if n.startswith('f_') else 'static int64_t VPA_%s;' % n)
    txt = ''.join(p.r[k] for p, _, _ in order for k in ('cpp', 'h', 'reference', 'dummy')) 
    for t in sorted(set(re.findall(r'VPE_\d+_', txt)), key=lambda t: int(t[4:-1])): o.append('#define %s ((uint32_t)(%s))' % (t, symx.TOKEXPR[t][1]))
    for i, (p, tk_, ps) in enumerate(order):
        o += ['#undef NETWORK_H', '#define Network Net_%d' % i, body(p.r['h'], [r'\s*#include']), body(p.r['cpp'], [r'\s*#include'])] + gen.get('extra', lambda *a: [])(i, p) + ['#undef Network']
        o.append('static const uint8_t SKEL_%d[] = {%s};' % (i, ','.join(str(b) for b in p.r['weights']) or '0')); o.append('static const Tok TOK_%d[] = {%s};' % (i, ', '.join('{%d, %d}' % t for t in tk_) or '{0, 0}'))
        m = p.model; oshape = m.shapes[m.out]; o.append('static void v%d() {' % i)
        o += ['  float w[%d]; for (u32 i = 0; i < %d; i++) w[i] = vp_f32("w"); const char *path = vp_path("network.weights.bin"); (void)path;' % (max(m.ntok, 1), m.ntok)]
        if m.nonneg: o.append('  { static const u32 q[] = {%s}; for (u32 i : q) vp_assume(w[i] >= 0); }' % ', '.join(map(str, m.nonneg)))
        o += ['  ' + f for f in m.facts]
        o.append('  weights_file(SKEL_%d, %d, TOK_%d, %d, w);' % (i, len(p.r['weights']), i, len(tk_)))
        o += gen['body'](i, p, '{%s}' % L(m.ins[0][1]), '{%s}' % L(oshape)); o.append('}')
    o.append('}'); o.append('extern "C" void %s() {' % fn)
    if gen.get('mode', 1): o.append('  vp_mode(1);')
    for n, (e, lo, hi) in sorted(names.items()):
        if n.startswith('f_'): o.append('  VPF_%s = vp_f32("%s");%s' % (n[2:], n[2:], '' if lo is None else ' vp_assume(VPF_%s >= %rf && VPF_%s <= %rf);' % (n[2:], float(lo), n[2:], float(hi))))
    # every path of the importer, with every value of the attributes and dimensions it leaves open
    o.append('  switch (vp_pick("path", 0, %d)) {' % (sum(len(ps) for _, _, ps in order) - 1)); k = 0
    for i, (p, _, ps) in enumerate(order):
        for q in ps:
            fixed = fixed_by(q); o.append('  case %d:' % k); k += 1
            for n, (e, lo, hi) in sorted(q.names.items()):
                if not n.startswith('f_'): o.append('    VPA_%s = %d;' % (n, fixed[n]) if n in fixed else '    VPA_%s = pk("%s", %d, %d);' % (n, n, lo, hi))
            o.append('    if (%s) v%d(); return;' % (pc_text(q.pc), i))
    o.append('  }')
    o.append('}'); return '\n'.join(o) + '\n'
