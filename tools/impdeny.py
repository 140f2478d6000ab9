"""Families of models for shape inference (C24) and for what the importer has to refuse (C27)."""
from impmodels import *
from impmodels import _tattr

def AND(*c): return SymBool(z3.And(*[symx.tobool(x) for x in c])) if any(isinstance(x, SymBool) for x in c) else all(c)
def OR(*c): return SymBool(z3.Or(*[symx.tobool(x) for x in c])) if any(isinstance(x, SymBool) for x in c) else any(c)
def maybe(name, f): return f() if choose('has_' + name, [False, True]) else None
def vmax(a, b): return SymInt(z3.If(symx._i(a) >= symx._i(b), symx._i(a), symx._i(b))) if isinstance(a, SymInt) or isinstance(b, SymInt) else max(a, b)

# ---- C27: accepted implies supported
AUTO = [None, b'NOTSET', b'VALID', b'SAME_UPPER', b'SAME_LOWER']
def same_pads(x, k, d, s, upper): t = vmax(((x + s - 1) // s - 1) * s + (k - 1) * d + 1 - x, 0); return (t // 2, t - t // 2) if upper else (t - t // 2, t // 2)
def spatial_attrs(ext, ks, smax=2, pmax=2, dil=True, ceil=False):
    """-> attributes, output extents, whether they mean what the same attributes without auto_pad, dilations and ceil_mode mean"""
    n = len(ext); st = [sym('s%d' % i, 1, smax) for i in range(n)]; v = choose('variant', ['plain', 'pads', 'dil', 'dilpads', 'NOTSET', 'NOTSETpads', 'VALID', 'SAME_UPPER', 'SAME_LOWER', 'SAME_UPPERdil'][:None if dil else 9]); a = dict(kernel_shape=list(ks), strides=st); pads = [0] * (2 * n); ok = []
    if not dil and 'dil' in v: raise Infeasible()
    auto = next((x for x in AUTO if x and v.startswith(x.decode())), None); d = [1] * n
    if 'dil' in v: d = [sym('d%d' % i, 1, 3) for i in range(n)]; a['dilations'] = d; ok += [OR(x == 1, k == 1) for x, k in zip(d, ks)]
    if auto is not None: a['auto_pad'] = auto
    if 'pads' in v: pads = [sym('p%d' % i, 0, pmax) for i in range(2 * n)]; a['pads'] = pads; [assume(p < k) for p, k in zip(pads, list(ks) * 2)]
    if auto in (b'SAME_UPPER', b'SAME_LOWER'):
        for i in range(n): pads[i], pads[i + n] = same_pads(ext[i], ks[i], d[i], st[i], auto == b'SAME_UPPER'); ok += [pads[i] == 0, pads[i + n] == 0]
    [assume(e + pads[i] + pads[i + n] >= (ks[i] - 1) * d[i] + 1) for i, e in enumerate(ext)]
    c = choose('ceil', [None, 0, 1]) if ceil else None
    if c is not None: a['ceil_mode'] = c
    o = []
    for i, e in enumerate(ext):
        q = e + pads[i] + pads[i + n] - (ks[i] - 1) * d[i] - 1; o.append((-((-q) // st[i]) if c == 1 else q // st[i]) + 1); ok.append(OR(c != 1, q % st[i] == 0))
    return a, o, AND(*ok)
def raw(m, op, ins, shape, **attrs):
    """a node without a reference"""
    m.k += 1; out = 't%d' % m.k; m.node(op, ins, [out], '%s_%d' % (op.lower(), m.k), attrs); m.shapes[out] = tuple(shape); m.var[out] = 'none'; return out
def rtail(m, t):
    if len(m.shapes[t]) != 2: s = m.shapes[t]; t = raw(m, 'Flatten', [t], (s[0], npshim.prod(s[1:])))
    return m.output(t)
def deny(m, t, ok): m = rtail(m, t) if t else m; m.supported = ok; return m

def d_conv2d(kernels):
    m = Model('m'); ks = choose('kernel', kernels); e = (sym('H', 14, 15), sym('W', 15, 16)); a, o, ok = spatial_attrs(e, ks); g, b = choose('group', [(None, False), (1, True), (2, False)]); x = m.input('input', (1, 2, *e)); w = m.weight('w', (2, 2 // (g or 1)) + ks)
    return deny(m, raw(m, 'Conv', [x, w] + ([m.weight('b', (2,))] if b else []), (1, 2, *o), **opt(a, group=g)), AND(ok, all(k % 2 for k in ks)))
def d_conv1d():
    m = Model('m'); ks = (choose('kernel', [1, 2, 3, 4, 5, 6]),); e = (sym('W', 14, 16),); a, o, ok = spatial_attrs(e, ks, 3); b = choose('bias', [False, True]); x = m.input('input', (1, 2, *e)); w = m.weight('w', (2, 2) + ks); return deny(m, raw(m, 'Conv', [x, w] + ([m.weight('b', (2,))] if b else []), (1, 2, *o), **a), AND(ok, ks[0] % 2 == 1))
def d_conv3d():
    m = Model('m'); k = (1, 1, 1); x = m.input('input', (1, 2, 2, sym('H', 1, 2), 2)); return deny(m, raw(m, 'Conv', [x, m.weight('w', (2, 2) + k)], m.shapes[x], kernel_shape=list(k), strides=[1, 1, 1]), False)
def d_pool(op, two):
    def f():
        m = Model('m'); mx = op == 'MaxPool'; e = (sym('H', 6, 7), sym('W', 6, 7)) if two else (sym('W', 6, 9),); ks = [sym('k%d' % i, 1, 3) for i in range(len(e))]; a, o, ok = spatial_attrs(e, ks, 2 if two else 3, 1, dil=mx, ceil=True); x = m.input('input', (1, 2, *e))
        if not mx: a = opt(a, count_include_pad=choose('include', [None, 0, 1]))
        elif choose('has_order', [False, True]): a['storage_order'] = 1 # only concerns the indices
        return deny(m, raw(m, op, [x], (1, 2, *o), **a), ok)
    return f
def d_pool3d():
    m = Model('m'); x = m.input('input', (1, 2, 2, sym('H', 1, 2), 2)); return deny(m, raw(m, choose('op', ['MaxPool', 'AveragePool']), [x], m.shapes[x], kernel_shape=[1, 1, 1], strides=[1, 1, 1]), False)
def d_pool_indices():
    """the second output of MaxPool is not computed"""
    m = Model('m'); x = m.input('input', (1, 2, sym('H', 2, 3), 2)); m.node('MaxPool', [x], ['y', 'idx'], 'pool', dict(kernel_shape=[1, 1], strides=[1, 1])); m.shapes['y'] = m.shapes['idx'] = m.shapes[x]; return deny(m, choose('used', ['idx']), False)
def d_gemm():
    m = Model('m'); i, o = choose('size', [(2, 3), (3, 3), (1, 1), (1, 2)]); rows = choose('rows', [1, 2]); tA, tB = choose('transA', [None, 0, 1]), choose('transB', [None, 0, 1]); al = maybe('alpha', lambda: symf('alpha', -4, 4)); be = maybe('beta', lambda: symf('beta', -4, 4)); bs = choose('bias', [None, (o,), (1, o), (1, 1), (1,), ()])
    x = m.input('input', (1, rows * i)); t = x
    sh = (i, rows) if tA else (rows, i)
    if rows > 1 or tA: t = raw(m, 'Reshape', [x, m.const('rs', list(sh))], sh)
    w = m.weight('w', (o, i) if tB else (i, o)); ins = [t, w] + ([m.weight('b', bs)] if bs is not None else [])
    return deny(m, raw(m, 'Gemm', ins, (rows, o), **opt({}, alpha=al, beta=be, transA=tA, transB=tB)), AND(al is None or al == 1, be is None or bs is None or be == 1, not tA or (i == 1 and rows == 1), tB == 1 or (i == 1 and o == 1), rows == 1, bs is None or npshim.prod(bs) == o))
def d_matmul():
    m = Model('m'); rows = choose('rows', [1, 2]); v = choose('form', ['plain', 'x3', 'w3', 'w1', 'x4', 'data']); x = m.input('input', (1, 2 * rows)); t = raw(m, 'Reshape', [x, m.const('rs', [rows, 2])], (rows, 2)) if rows > 1 else x
    if v == 'plain': return deny(m, raw(m, 'MatMul', [t, m.weight('w', (2, 3))], (rows, 3)), rows == 1)
    if v == 'x3': t = raw(m, 'Reshape', [t, m.const('r3', [1, rows, 2])], (1, rows, 2)); return deny(m, raw(m, 'MatMul', [t, m.weight('w', (2, 3))], (1, rows, 3)), False)
    if v == 'x4': t = raw(m, 'Reshape', [t, m.const('r3', [1, 1, rows, 2])], (1, 1, rows, 2)); return deny(m, raw(m, 'MatMul', [t, m.weight('w', (2, 3))], (1, 1, rows, 3)), False)
    if v == 'w3': return deny(m, raw(m, 'MatMul', [t, m.weight('w', (2, 2, 3))], (2, rows, 3)), False)
    if v == 'w1': t = raw(m, 'MatMul', [t, m.weight('w', (2,))], (rows,)); return deny(m, raw(m, 'Reshape', [t, m.const('r2', [1, rows])], (1, rows)), False)
    q = raw(m, 'Reshape', [x, m.const('r3', [2, rows])], (2, rows)); return deny(m, raw(m, 'MatMul', [t, q], (rows, rows)), rows == 1)
def d_softmax():
    m = Model('m'); n = choose('rank', [2, 3, 4]); sh = (1, sym('C', 1, 3), sym('H', 1, 2), sym('W', 1, 2))[:n]; ax = choose('axis', [None] + list(range(-n, n))); x = m.input('input', sh); k = 1 if ax is None else ax % n; return deny(m, raw(m, 'Softmax', [x], sh, **opt({}, axis=ax)), npshim.prod(sh[:k]) == 1)
def d_lrn():
    m = Model('m'); n = choose('rank', [2, 3, 4]); sh = (1, 3, sym('H', 1, 2), sym('W', 1, 2))[:n]; b = maybe('bias', lambda: symf('bias', 0, 4)); x = m.input('input', sh); return deny(m, raw(m, 'LRN', [x], sh, **opt(dict(alpha=0.5, beta=0.75, size=choose('size', [1, 3, 5])), bias=b)), AND(n == 4, b is None or b == 1))
def d_concat():
    m = Model('m'); n = choose('rank', [2, 3, 4]); sh = (1, sym('C', 1, 3), sym('H', 1, 3), sym('W', 1, 3))[:n]; ax = choose('axis', list(range(-n, n))); x = m.input('input', sh); r = m.op('Relu', [x]); return deny(m, raw(m, 'Concat', [x, r], [d * 2 if i == ax % n else d for i, d in enumerate(sh)], axis=ax), ax % n == 1)
def d_batch():
    m = Model('m'); m.via = 'backend'; n = choose('rank', [3, 4]); N = sym('N', 1, 4); sh = (N, 2, sym('H', 1, 2), 2)[:n]; x = m.input('input', sh); op = choose('op', ['Relu', 'Flatten']); return deny(m, m.op('Relu', [x]) if op == 'Relu' else x, N == 1)
def d_inner_batch():
    """a batch that only appears inside"""
    m = Model('m'); N = choose('N', [1, 2, 3]); op = choose('op', ['Conv', 'MaxPool', 'BatchNormalization', 'GlobalAveragePool', 'LRN']); x = m.input('input', (1, 2 * N, 2, 2)); t = raw(m, 'Reshape', [x, m.const('rs', [N, 2, 2, 2])], (N, 2, 2, 2))
    if op == 'Conv': t = raw(m, 'Conv', [t, m.weight('w', (2, 2, 1, 1))], (N, 2, 2, 2), kernel_shape=[1, 1], strides=[1, 1])
    elif op == 'MaxPool': t = raw(m, 'MaxPool', [t], (N, 2, 2, 2), kernel_shape=[1, 1], strides=[1, 1])
    elif op == 'BatchNormalization': t = raw(m, op, [t] + [m.weight(w, (2,)) for w in 'abcd'], (N, 2, 2, 2), epsilon=0.5)
    elif op == 'LRN': t = raw(m, op, [t], (N, 2, 2, 2), alpha=0.5, beta=0.5, size=1)
    else: t = raw(m, op, [t], (N, 2, 1, 1))
    return deny(m, raw(m, 'Reshape', [t, m.const('r2', [1, -1])], (1, npshim.prod(m.shapes[t]))), OR(N == 1, op != 'Conv' and op != 'BatchNormalization')) # the library stops at batches in Conv and BatchNormalization, it does not compute something else
def d_io():
    m = Model('m'); i = choose('inputs', [1, 2, 3]); o = choose('outputs', [1, 2, 3]); n = choose('outrank', [1, 2, 3, 4, 5]); C = sym('C', 1, 3); xs = [m.input('x%d' % k, (1, C)) for k in range(i)]; t = xs[0]
    for x in xs[1:]: t = m.op('Add', [t, x])
    for k in range(o):
        y = m.op('Relu', [t]); s = {1: (C,), 2: (1, C), 3: (1, C, 1), 4: (1, C, 1, 1), 5: (1, C, 1, 1, 1)}[n]
        if n != 2: y = raw(m, 'Reshape', [y, m.const('s%d' % k, list(s))], s)
        m.output(y)
    return deny(m, None, i == 1 and o == 1 and n in (2, 4)) if n != 4 else deny(m, None, False)
UNSUP1 = 'Abs Acos Asin Atan Ceil Cos Cosh Elu Erf Exp Floor HardSigmoid Hardmax Identity InstanceNormalization IsInf IsNaN LeakyRelu Log LogSoftmax LpNormalization LpPool MeanVarianceNormalization Neg Not Reciprocal Round Selu Shrink Sigmoid Sign Sin Sinh Softplus Softsign Sqrt Tan Tanh ThresholdedRelu Cast Swish HardSwish Celu Gelu Mish DepthToSpace SpaceToDepth CumSum NonZero QuantizeLinear TfIdfVectorizer Upsample Resize ReduceMax ReduceMean ReduceMin ReduceSum ReduceL2 ArgMax LSTM GRU RNN Slice Split Tile Expand Compress OneHot TopK EyeLike RandomNormalLike MaxUnpool GlobalLpPool Crop ImageScaler Scale Affine ParametricSoftplus ScaledTanh GivenTensorFill'.split()
UNSUP2 = 'Sub Div Max Min Mean Sum Pow PRelu Mod And Or Xor Equal Greater Less Where Gather GatherElements ScatterElements BitShift Einsum ConvTranspose ConvInteger QLinearConv MatMulInteger QLinearMatMul If Loop Scan DequantizeLinear RoiAlign MaxRoiPool Bernoulli'.split()
def d_op1():
    m = Model('m'); sh = choose('shape', [lambda: (1, sym('C', 1, 3)), lambda: (1, 2, sym('H', 1, 2), 2)])(); op = choose('op', UNSUP1); pos = choose('pos', ['first', 'last', 'middle']); x = m.input('input', sh); t = x if pos == 'first' else m.op('Relu', [x]); t = raw(m, op, [t], sh); t = m.op('Relu', [t]) if pos != 'last' else t; return deny(m, t, False)
def d_op2():
    m = Model('m'); op = choose('op', UNSUP2); sec = choose('second', ['data', 'initializer', 'scalar', 'first']); x = m.input('input', (1, sym('C', 2, 3)) if sec != 'initializer' else (1, 3)); r = m.op('Relu', [x]) if sec == 'data' else m.weight('w', (1, 3)) if sec in ('initializer', 'first') and isinstance(m.shapes[x][1], int) else m.scalar('w', 2.0, (1,))
    return deny(m, raw(m, op, [x, r] if sec != 'first' else [r, x], m.shapes[x], axis=1), False)
def d_pad():
    m = Model('m'); n = choose('rank', [2, 3, 4, 5]); sh = (1, 2, sym('H', 2, 3), 2, 2)[:n] if n > 2 else (1, sym('H', 2, 3)); nz = choose('which', list(range(2 * n))); p = [0] * (2 * n); p[nz] = sym('p', -1, 2); p[-1] = p[-1] if nz == 2 * n - 1 else sym('q', -1, 1); mode = choose('mode', [b'constant', b'reflect', b'edge']); x = m.input('input', sh); o = [p[i] + d + p[i + n] for i, d in enumerate(sh)]; [assume(d >= 1) for d in o]
    return deny(m, raw(m, 'Pad', [x], o, pads=p, mode=mode, value=choose('value', [0.0, 1.5])), AND(n <= 4, OR(mode == b'constant', AND(*[v == 0 for v in p])), *([v >= 0 for v in p] + ([v == 0 for i, v in enumerate(p) if i % n < 2] if n > 2 else []))))
def d_add():
    """broadcasting between data"""
    m = Model('m'); H, W = sym('H', 1, 2), sym('W', 1, 3); x = m.input('input', (1, 2, H, W)); r = m.op('Relu', [x]); v = choose('second', ['gap', 'gapflat', 'chan', 'rows', 'cols', 'three']); g = m.op('GlobalAveragePool', [x])
    if v == 'gapflat': a = m.op('Flatten', [r]); b = m.op('Flatten', [g]); assume(OR(m.shapes[a][1] == m.shapes[b][1], False))
    elif v == 'chan': a, b = r, m.op('Conv', [x, m.weight('w', (1, 2, 1, 1))], kernel_shape=[1, 1], strides=[1, 1])
    elif v == 'rows': a, b = r, m.op('MaxPool', [x], kernel_shape=[1, W], strides=[1, 1])
    elif v == 'cols': a, b = r, m.op('MaxPool', [x], kernel_shape=[H, 1], strides=[1, 1])
    elif v == 'three': a, b = r, m.op('Squeeze', [m.op('MaxPool', [x], kernel_shape=[H, W], strides=[1, 1])], axes=[0])
    else: a, b = r, g
    if choose('swap', [False, True]): a, b = b, a
    s = npshim.bcast(m.shapes[a], m.shapes[b]); return deny(m, raw(m, 'Add', [a, b], s), AND(npshim.prod(m.shapes[a]) == npshim.prod(s), npshim.prod(m.shapes[b]) == npshim.prod(s)))
def d_add_init():
    m = Model('m'); C = choose('C', [1, 2, 3]); N = choose('rank', [2, 4]); H = sym('H', 1, 2) if N == 4 else None; x = m.input('input', (1, C) if N == 2 else (1, C, H, 2)); bs = choose('shape', [(), (1,), (2,), (3,), (1, 1), (1, 3), (2, 1), (C, 1, 1), (1, C, 1, 1), (1, 2, 2), (2, 1, 1, 1)]); b = m.weight('b', bs)
    try: s = npshim.bcast(m.shapes[x], bs)
    except ValueError: raise Infeasible()
    if choose('swap', [False, True]): x, b = b, x
    return deny(m, raw(m, 'Add', [x, b], s), AND(npshim.prod(m.shapes['input']) == npshim.prod(s), npshim.prod(bs) == npshim.prod(s)))
def d_mul():
    m = Model('m'); x = m.input('input', (1, choose('C', [1, 3]))); v = choose('factor', [(), (1,), (3,), (1, 1), (1, 3), (1, 1, 1), 'data', 'self']); C = m.shapes[x][1]
    if v in ('data', 'self'): r = m.op('Relu', [x]) if v == 'data' else x; return deny(m, raw(m, 'Mul', [x, r], (1, C)), False)
    try: s = npshim.bcast((1, C), v)
    except ValueError: raise Infeasible()
    w = m.weight('w', v); sw = choose('swap', [False, True]); return deny(m, raw(m, 'Mul', [w, x] if sw else [x, w], s), npshim.prod(v) == 1)
def d_bn():
    m = Model('m'); n = choose('rank', [2, 3, 4, 5]); sp = choose('spatial', [None, 0, 1]); H = choose('H', [1, 2]); sh = (1, 2, H, 2, 2)[:n]; ps = sh[1:] if sp == 0 else (2,); x = m.input('input', sh); return deny(m, raw(m, 'BatchNormalization', [x] + [m.weight(w, ps) for w in 'abcd'], sh, **opt(dict(epsilon=0.5), spatial=sp)), AND(n in (3, 4), sp != 0))
def d_inputs():
    """attributes that later versions of ONNX made inputs"""
    m = Model('m'); v = choose('op', ['clip', 'clipmin', 'pad', 'squeeze', 'unsqueeze', 'reducesum', 'slice', 'dropout', 'split']); C = sym('C', 2, 3); x = m.input('input', (1, C)); t = m.op('Relu', [x])
    if v == 'clip': t = raw(m, 'Clip', [t, m.scalar('lo', 0.0), m.scalar('hi', 1.0)], (1, C))
    elif v == 'clipmin': t = raw(m, 'Clip', [t, m.scalar('lo', 0.0)], (1, C))
    elif v == 'pad': t = raw(m, 'Pad', [t, m.const('p', [0, 1, 0, 1])], (1, C + 2), mode=b'constant')
    elif v == 'squeeze': u = m.op('Unsqueeze', [t], axes=[2]); t = raw(m, 'Squeeze', [u, m.const('a', [2])], (1, C))
    elif v == 'unsqueeze': u = raw(m, 'Unsqueeze', [t, m.const('a', [2])], (1, C, 1)); t = u
    elif v == 'slice': t = raw(m, 'Slice', [t, m.const('a', [0]), m.const('b', [1]), m.const('c', [1])], (1, 1))
    elif v == 'dropout': t = raw(m, 'Dropout', [t, m.scalar('r', 0.5)], (1, C)); t = m.op('Relu', [t])
    elif v == 'split': t = raw(m, 'Split', [t, m.const('a', [1, C - 1])], (1, 1), axis=1)
    else: t = raw(m, 'ReduceSum', [t, m.const('a', [1])], (1, 1))
    return deny(m, t, False)
DENY = dict(conv2d=lambda: d_conv2d([(1, 1), (3, 3), (5, 5)]), conv2d_flat=lambda: d_conv2d([(1, 3), (3, 1), (1, 2)]), conv2d_even=lambda: d_conv2d([(2, 2), (2, 1), (2, 3)]), conv2d_even2=lambda: d_conv2d([(3, 2), (4, 1), (1, 4)]), conv1d=d_conv1d, conv3d=d_conv3d, maxpool2d=d_pool('MaxPool', True), maxpool1d=d_pool('MaxPool', False), avgpool2d=d_pool('AveragePool', True), avgpool1d=d_pool('AveragePool', False), pool3d=d_pool3d, pool_indices=d_pool_indices, gemm=d_gemm, matmul=d_matmul, softmax=d_softmax, lrn=d_lrn, concat=d_concat, batch=d_batch, inner_batch=d_inner_batch, io=d_io, op1=d_op1, op2=d_op2, pad=d_pad, add=d_add, add_init=d_add_init, mul=d_mul, bn=d_bn, inputs=d_inputs)

# ---- C24: shapes the importer infers, compared with the ONNX definition for all dimensions
def foo(m, shape):
    """the first operand is the input or derived from it, the shapes of others come with the model"""
    if m.ins: return raw(m, 'Any', [m.ins[0][0]], shape)
    v = choose('via', ['input', 'relu', 'other'])
    if v == 'other': m.input('input', (1, 2)); return raw(m, 'Any', ['input'], shape)
    assume(shape[0] == 1); x = m.input('input', shape); return raw(m, 'Relu', [x], shape) if v == 'relu' else x
def fin(m, hide=True): m.supported = True; m.hide = hide and choose('valueinfo', [False, True]); m.output(list(m.shapes)[-1]); return m
def dims(k, hi, lo=1): return tuple(sym('D%d' % i, lo, hi) for i in range(k))
def s_pool(op, two):
    def f():
        m = Model('m'); n = 2 if two else 1; e = dims(n, 400 if two else 60000); ks = [sym('k%d' % i, 1, 20) for i in range(n)]; st = choose('strides', [[1, 1], [2, 2], [3, 2], [1, 4], [5, 7]] if two else [[1], [2], [3], [8]]); none = choose('padsattr', [False, True]); p = [0] * (2 * n) if none else [sym('p%d' % i, 0, 9) for i in range(2 * n)]; [assume(a < ks[i % n]) for i, a in enumerate(p)]; [fits(e[i], ks[i], p[i], p[i + n]) for i in range(n)]
        x = m.input('input', (1, sym('C', 1, 300)) + e); m.op(op, [x], **opt(dict(kernel_shape=ks, strides=st), pads=None if none else p)); return fin(m)
    return f
def s_transpose():
    m = Model('m'); n = choose('rank', [2, 3, 4, 5]); p = choose('perm', list(itertools.permutations(range(n)))); x = foo(m, dims(n, 24)); raw(m, 'Transpose', [x], [m.shapes[x][i] for i in p], perm=list(p)); return fin(m)
def s_squeeze():
    m = Model('m'); n = choose('rank', [2, 3, 4, 5]); one = choose('ones', [list(c) for k in range(1, n) for c in itertools.combinations(range(n), k)]); ax = choose('axes', [one, one[::-1], [a - n for a in one], one[:1]]); d = [1 if i in one else x for i, x in enumerate(dims(n, 40))]; x = foo(m, d); raw(m, 'Squeeze', [x], [v for i, v in enumerate(d) if i not in {a % n for a in ax}], axes=ax); return fin(m)
def s_unsqueeze():
    m = Model('m'); n = choose('rank', [1, 2, 3]); k = choose('new', [1, 2]); ax = list(choose('axes', list(itertools.permutations(range(n + k), k)))); d = dims(n, 40); x = foo(m, d); it = iter(d); raw(m, 'Unsqueeze', [x], [1 if i in ax else next(it) for i in range(n + k)], axes=ax); return fin(m)
def s_concat():
    m = Model('m'); n = choose('rank', [1, 2, 3, 4]); k = choose('inputs', [1, 2, 3, 4]); ax = choose('axis', list(range(-n, n))); d = dims(n, 30); ins = []; tot = 0
    for i in range(k): c = sym('A%d' % i, 1, 30); tot = tot + c; ins.append(foo(m, [c if j == ax % n else v for j, v in enumerate(d)]))
    raw(m, 'Concat', ins, [tot if j == ax % n else v for j, v in enumerate(d)], axis=ax); return fin(m)
def s_reshape():
    m = Model('m'); C, H, W = dims(3, 60); v = choose('target', ['1-1', '0-1', '00-1', '-100', '1C-1', '-1n', '0-10', 'split', 'all', '0000', '-1']); how = choose('how', ['initializer', 'constant', 'cast']); x = foo(m, (1, C, H, W))
    t, o = {'1-1': ([1, -1], (1, C * H * W)), '0-1': ([0, -1], (1, C * H * W)), '00-1': ([0, 0, -1], (1, C, H * W)), '-100': ([-1, 0, 0], (W, C, H)), '1C-1': ([1, C, -1], (1, C, H * W)), '-1n': ([-1, C * H * W], (1, C * H * W)), '0-10': ([0, -1, 0], (1, C * W, H)), 'split': ([1, C, 1, H, W], (1, C, 1, H, W)), 'all': ([H, W, C], (H, W, C)), '0000': ([0, 0, 0, 0], (1, C, H, W)), '-1': ([-1], (C * H * W,))}[v]
    if how == 'initializer': s = m.const('s', t, object)
    else: m.cop('Constant', [], (len(t),), 'sc'); m.g.node[-1].attribute.append(_tattr('value', np.array(t, object))); s = 'sc'
    if how == 'cast': s = m.cop('Cast', [s], (len(t),), to=7)
    raw(m, 'Reshape', [x, s], o); return fin(m)
def kvec(m, v, obj=False): m.cop('Constant', [], np.shape(v)); m.g.node[-1].attribute.append(_tattr('value', np.array(v, object if obj else np.int64))); return m.g.node[-1].output[0]
def s_view():
    """shapes computed from the shapes of values"""
    m = Model('m'); n = choose('rank', [3, 4]); d = (1,) + dims(n - 1, 40); v = choose('graph', ['flat', 'keep', 'swap', 'cast', 'two', 'sq']); x = foo(m, d); s = m.cop('Shape', [x], (n,)); tot = npshim.prod(d); ga = lambda i: m.cop('Gather', [s, kvec(m, i)], np.shape(i), axis=0); un = lambda t: m.cop('Unsqueeze', [t], (1,), axes=[0])
    if v == 'flat': k, o = [un(ga(0)), kvec(m, [-1], True)], (1, tot)
    elif v == 'keep': k, o = [un(ga(0)), un(ga(1)), kvec(m, [-1], True)], (1, d[1], npshim.prod(d[2:]))
    elif v == 'swap': k, o = [un(ga(2)), un(ga(1)), kvec(m, [-1], True)], (d[2], d[1], npshim.prod(d[3:]))
    elif v == 'cast': c = m.cop('Cast', [ga(0)], (), to=7); k, o = [un(c), kvec(m, [-1], True)], (1, tot)
    elif v == 'two': g = ga([0, 1]); k, o = [g, kvec(m, [-1], True)], (1, d[1], npshim.prod(d[2:]))
    else: g = m.cop('Squeeze', [ga([1])], (), axes=[0]); k, o = [un(g), kvec(m, [-1], True)], (d[1], tot // d[1] if n == 3 and False else npshim.prod(d[2:]))
    c = m.cop('Concat', k, (len(o),), axis=0); raw(m, 'Reshape', [x, c], o); return fin(m)
def s_matmul():
    m = Model('m'); a, b, c, B = sym('M', 1, 30), sym('K', 1, 30), sym('N', 1, 30), sym('B', 1, 6); v = choose('ranks', ['22', '32', '42', '33', '23', '12', '21', '44', '43']); m.input('input', (1, 2))
    p, q, o = {'22': ((a, b), (b, c), (a, c)), '32': ((B, a, b), (b, c), (B, a, c)), '42': ((1, B, a, b), (b, c), (1, B, a, c)), '33': ((B, a, b), (B, b, c), (B, a, c)), '23': ((a, b), (B, b, c), (B, a, c)), '12': ((b,), (b, c), (c,)), '21': ((a, b), (b,), (a,)), '44': ((1, B, a, b), (2, B, b, c), (2, B, a, c)), '43': ((2, B, a, b), (1, b, c), (2, B, a, c))}[v]
    raw(m, 'MatMul', [foo(m, p), foo(m, q)], o); return fin(m)
def s_add():
    m = Model('m'); n = choose('rank', [2, 3, 4]); d = dims(n, 20, 1 if n == 2 else 2); mask = choose('mask', list(itertools.product('=1x', repeat=n))); a = list(d); b = [v if c == '=' else 1 for v, c in zip(d, mask)]; a = [1 if c == 'x' else v for v, c in zip(a, mask)]; b = [v if c != '1' else 1 for v, c in zip(d, mask)]
    short = choose('short', [k for k in (0, 1, 2) if k < n and 'x' not in mask[:k]])
    b = b[short:]; x, y = foo(m, a), foo(m, b)
    if choose('swap', [False, True]): x, y = y, x
    raw(m, 'Add', [x, y], d); return fin(m)
def s_gemm():
    m = Model('m'); r, i, o = sym('M', 1, 2000), sym('K', 1, 2000), sym('N', 1, 2000); ins = [foo(m, (r, i)), foo(m, (o, i))] + ([foo(m, (o,))] if choose('bias', [False, True]) else []); raw(m, 'Gemm', ins, (r, o), transB=1, **choose('attrs', [{}, dict(transA=0, alpha=1.0, beta=1.0)])); return fin(m)
def s_gather():
    m = Model('m'); n = choose('rank', [2, 3, 4]); ax = choose('axis', list(range(n))); i = choose('index', [0, [0], [0, 0, 0], [[0, 0], [0, 0], [0, 0]]]); d = dims(n, 30); x = foo(m, d); raw(m, 'Gather', [x, kvec(m, i)], d[:ax] + np.shape(i) + d[ax + 1:], axis=ax); return fin(m)
def s_keep():
    m = Model('m'); n = choose('rank', [2, 3, 4]); d = dims(n, 60); x = foo(m, d); op = choose('op', ['Relu', 'Clip', 'Softmax', 'BatchNormalization', 'BatchNormalization2']); at = dict(Clip=dict(min=0.0, max=6.0), Softmax=dict(axis=1)).get(op, dict(epsilon=0.5) if op[0] == 'B' else {})
    if op == 'BatchNormalization2': raw(m, 'BatchNormalization', [x] + [m.weight(w, (3,)) for w in 'abcd'], d, **at) # shapes of the parameters have no influence
    elif op[0] == 'B': raw(m, op, [x] + [foo(m, (d[1],)) for _ in range(4)], d, **at)
    else: raw(m, op, [x], d, **at)
    return fin(m)
def s_chain():
    """operators whose shapes depend on one another, several consumers, any order of equal ranks in the graph"""
    m = Model('m'); C, H, W = sym('C', 1, 20), sym('H', 4, 60), sym('W', 4, 60); v = choose('graph', range(8)); x = foo(m, (1, C, H, W)); P = lambda t, k=2, s=2: m.op('MaxPool', [t], kernel_shape=[k, k], strides=[s, s]); T = lambda t, *p: m.op('Transpose', [t], perm=list(p)); R = lambda t: m.op('Relu', [t])
    if v == 0: m.op('Add', [P(x), R(P(R(x)))])
    elif v == 1: m.op('Concat', [P(x), P(R(x)), P(P(x, 1, 1))], axis=1)
    elif v == 2: P(T(P(x), 0, 1, 3, 2), 1, 1)
    elif v == 3: t = T(x, 0, 2, 3, 1); T(R(t), 0, 3, 1, 2)
    elif v == 4: t = m.op('Unsqueeze', [P(x)], axes=[0]); t = m.op('Squeeze', [t], axes=[1]); m.op('Add', [t, P(x)])
    elif v == 5: t = P(P(x)); raw(m, 'Reshape', [t, m.const('s', [0, -1], object)], (1, npshim.prod(m.shapes[t][1:])))
    elif v == 6: t = P(x, 3, 1); s = m.cop('Shape', [t], (4,)); g = m.cop('Gather', [s, kvec(m, 1)], (), axis=0); u = m.cop('Unsqueeze', [g], (1,), axes=[0]); k = m.cop('Concat', [kvec(m, [1]), u, kvec(m, [-1], True)], (3,), axis=0); o = (1, C, m.shapes[t][2] * m.shapes[t][3]); t = raw(m, 'Reshape', [t, k], o); raw(m, 'Transpose', [t], (1, o[2], C), perm=[0, 2, 1])
    else: a = T(x, 0, 1, 3, 2); b = T(a, 0, 1, 3, 2); c = m.op('Add', [b, x]); d = m.op('Concat', [c, b, x], axis=2); P(d)
    return fin(m)
SHAPES = dict(maxpool2d=s_pool('MaxPool', True), avgpool2d=s_pool('AveragePool', True), maxpool1d=s_pool('MaxPool', False), avgpool1d=s_pool('AveragePool', False), transpose=s_transpose, squeeze=s_squeeze, unsqueeze=s_unsqueeze, concat=s_concat, reshape=s_reshape, view=s_view, matmul=s_matmul, add=s_add, gemm=s_gemm, gather=s_gather, keep=s_keep, chain=s_chain)
