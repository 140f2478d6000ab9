"""Families of models: symbolic attributes and dimensions, structure chosen path by path."""
from impcore import *

def opt(attrs, **k): return dict(attrs, **{a: v for a, v in k.items() if v is not None})
def tail(m, t): # outputs are of rank 2
    if len(m.shapes[t]) != 2: t = m.op('Flatten', [t])
    return m.output(t)
def assume(c): Explorer.cur.assume(c)
def fits(x, k, p0, p1, s=1): assume(x + p0 + p1 >= k)

def conv2d_pads():
    m = Model('m'); H, W = sym('H', 2, 4), sym('W', 3, 3); k = choose('kernel', [(3, 1), (1, 3), (3, 3)]); st = [sym('sh', 1, 2), sym('sw', 1, 2)]; p = [sym(n, 0, 1) for n in ('pt', 'pl', 'pb', 'pr')]; fits(H, k[0], p[0], p[2]); fits(W, k[1], p[1], p[3])
    x = m.input('input', (1, 1, H, W)); w = m.weight('w', (1, 1) + k); b = m.weight('b', (1,)); return tail(m, m.op('Conv', [x, w, b], kernel_shape=list(k), strides=st, pads=p, group=1))
def conv2d_groups():
    m = Model('m'); g, ci, co = choose('groups', [(1, 1, 2), (1, 3, 1), (2, 1, 1), (2, 2, 1), (3, 1, 2)]); H = sym('H', 1, 2); bias = choose('bias', [True, False]); at = choose('attr', [{}, dict(pads=[0, 0, 0, 0])]); ga = {} if g == 1 and choose('groupattr', [True, False]) else dict(group=g)
    x = m.input('input', (1, g * ci, H, 3)); w = m.weight('w', (g * co, ci, 1, 3)); ins = [x, w] + ([m.weight('b', (g * co,))] if bias else []); return tail(m, m.op('Conv', ins, kernel_shape=[1, 3], strides=[1, 1], **at, **ga))
def conv1d():
    m = Model('m'); W = sym('W', 2, 5); k = choose('kernel', [1, 3]); s = sym('s', 1, 3); p = [sym('pl', 0, 2), sym('pr', 0, 1)]; g, ci, co = choose('groups', [(1, 1, 2), (1, 2, 1), (2, 1, 1)]); bias = choose('bias', [True, False]); fits(W, k, *p)
    x = m.input('input', (1, g * ci, W)); w = m.weight('w', (g * co, ci, k)); ins = [x, w] + ([m.weight('b', (g * co,))] if bias else []); return tail(m, m.op('Conv', ins, kernel_shape=[k], strides=[s], pads=p, group=g))
def conv1d_plain():
    m = Model('m'); W = sym('W', 3, 5); s = sym('s', 1, 2); x = m.input('input', (1, 1, W)); w = m.weight('w', (2, 1, 3)); b = m.weight('b', (2,)); return tail(m, m.op('Conv', [x, w, b], kernel_shape=[3], strides=[s]))
def pool(op, two, avg):
    def f():
        m = Model('m'); none = choose('padsattr', [False, True]); cip = sym('include', 0, 1) if avg and choose('includeattr', [False, True]) else None
        if two:
            H, W = sym('H', 3, 4), sym('W', 3, 3); k = [sym('kh', 1, 3), sym('kw', 1, 2)]; st = [sym('sh', 1, 2), sym('sw', 1, 2)]; p = [0] * 4 if none else [sym(n, 0, 1) for n in ('pt', 'pl', 'pb', 'pr')]; [assume(a < k[i % 2]) for i, a in enumerate(p)]; fits(H, k[0], p[0], p[2]); fits(W, k[1], p[1], p[3]); x = m.input('input', (1, 1, H, W))
        else:
            W = sym('W', 3, 6); k = [sym('k', 1, 4)]; st = [sym('s', 1, 3)]; p = [0] * 2 if none else [sym('pl', 0, 2), sym('pr', 0, 1)]; [assume(a < k[0]) for a in p]; fits(W, k[0], *p); x = m.input('input', (1, 2, W))
        if not none or (avg and not two): pa = p # AveragePool over one axis has no default for pads in the importer
        else: pa = None
        return tail(m, m.op(op, [x], **opt(dict(kernel_shape=k, strides=st), pads=pa, count_include_pad=cip)))
    return f
def gpool():
    m = Model('m'); C, H, W = sym('C', 1, 2), sym('H', 1, 3), sym('W', 1, 3); op = choose('op', ['GlobalMaxPool', 'GlobalAveragePool']); x = m.input('input', (1, C, H, W)); t = m.op(op, [x]); s = choose('shape', ['flatten', 'squeeze'])
    return m.output(m.op('Squeeze', [t], axes=[2, 3])) if s == 'squeeze' else tail(m, t)
def gemm():
    m = Model('m'); i, o = choose('size', [(1, 1), (2, 3), (5, 2)]); v = choose('attrs', [dict(transB=1), dict(transB=1, alpha=1.0, beta=1.0, transA=0)]); bias = choose('bias', [True, False]); two = choose('two', [False, True])
    t = m.input('input', (1, i)); t = m.op('Gemm', [t, m.weight('w', (o, i))] + ([m.weight('b', (o,))] if bias else []), **v)
    if two: t = m.op('Gemm', [t, m.weight('w2', (2, o)), m.weight('b2', (2,))], **v)
    return m.output(t)
def matmul():
    m = Model('m'); i, o = choose('size', [(1, 1), (2, 3), (5, 2)]); kind = choose('then', ['none', 'bias', 'matmul', 'biasfirst']); t = m.input('input', (1, i)); t = m.op('MatMul', [t, m.weight('w', (i, o))])
    if kind == 'bias': t = m.op('Add', [t, m.weight('b', (o,))])
    if kind == 'biasfirst': b = m.weight('b', (o,)); t = m.op('Add', [b, t])
    if kind == 'matmul': t = m.op('MatMul', [t, m.weight('w2', (o, 2))])
    return m.output(t)
def bn():
    m = Model('m'); H = sym('H', 1, 2); r = choose('rank', [4, 3]); C = choose('C', [1, 2, 3]); e = symf('eps', 0.00001, 1); x = m.input('input', (1, C, H, 2) if r == 4 else (1, C, H)); t = m.op('BatchNormalization', [x, m.weight('scale', (C,)), m.weight('bias', (C,)), m.weight('mean', (C,)), m.weight('var', (C,), nonneg=True)], epsilon=e); return tail(m, t)
def relu():
    m = Model('m'); sh = choose('shape', [lambda: (1, sym('N', 1, 4)), lambda: (1, 2, sym('W', 1, 3)), lambda: (1, 2, sym('H', 1, 2), sym('W', 1, 3))])(); x = m.input('input', sh); t = m.op('Relu', [x]); return tail(m, t)
def clip():
    m = Model('m'); lo, hi = symf('lo', -8, 8), symf('hi', -8, 8); assume(lo <= hi); x = m.input('input', choose('shape', [(1, 3), (1, 2, 1, 2)])); return tail(m, m.op('Clip', [x], min=lo, max=hi))
def lrn():
    m = Model('m'); n = choose('size', [1, 3, 5]); C = sym('C', 1, 4); a, b = symf('alpha', 0, 4), symf('beta', 0, 2); x = m.input('input', (1, C, 1, 2)); return tail(m, m.op('LRN', [x], alpha=a, beta=b, size=n))
def softmax():
    m = Model('m'); x = m.input('input', (1, sym('N', 1, 4))); return m.output(m.op('Softmax', [x], **choose('axis', [{}, dict(axis=1)])))
def mul():
    m = Model('m'); f = symf('factor'); sh = choose('shape', [(), (1,)]); x = m.input('input', choose('in', [(1, 3), (1, 2, 1, 2)])); return tail(m, m.op('Mul', [x, m.scalar('f', f, sh)]))
def add_branches():
    m = Model('m'); H = sym('H', 1, 2); x = m.input('input', (1, 2, H, 2)); a = m.op('Conv', [x, m.weight('wa', (2, 2, 1, 1))], kernel_shape=[1, 1], strides=[1, 1]); b = m.op('Conv', [x, m.weight('wb', (2, 2, 1, 1)), m.weight('bb', (2,))], kernel_shape=[1, 1], strides=[1, 1], pads=[0, 0, 0, 0])
    v = choose('graph', ['ab', 'ba', 'xa', 'aa', 'relu', 'twice'])
    if v == 'relu': r = m.op('Relu', [a]); t = m.op('Add', [r, b]); t = m.op('Add', [t, a])
    elif v == 'twice': s = m.op('Add', [a, b]); t = m.op('Add', [s, x]); t = m.op('Add', [t, s])
    else: q = dict(a=a, b=b, x=x); t = m.op('Add', [q[v[0]], q[v[1]]])
    return tail(m, t)
def add_vec():
    m = Model('m'); n = sym('N', 1, 4); x = m.input('input', (1, n)); r = m.op('Relu', [x]); t = m.op('Add', [x, r] if choose('order', [0, 1]) else [r, x]); t = m.op('Relu', [t]); return m.output(m.op('Add', [t, r]))
def concat():
    m = Model('m'); H = sym('H', 1, 2); r = choose('rank', [4, 3, 2])
    if r == 4: x = m.input('input', (1, 2, H, 2)); a = m.op('Conv', [x, m.weight('wa', (1, 2, 1, 1))], kernel_shape=[1, 1], strides=[1, 1]); b = m.op('Conv', [x, m.weight('wb', (3, 2, 1, 1))], kernel_shape=[1, 1], strides=[1, 1])
    elif r == 3: x = m.input('input', (1, 2, H)); a = m.op('Conv', [x, m.weight('wa', (1, 2, 1))], kernel_shape=[1], strides=[1]); b = m.op('Conv', [x, m.weight('wb', (3, 2, 1))], kernel_shape=[1], strides=[1])
    else: x = m.input('input', (1, H)); a = m.op('Relu', [x]); b = m.op('Concat', [x, a], axis=1)
    q = dict(a=a, b=b, x=x); return tail(m, m.op('Concat', [q[c] for c in choose('order', ['ab', 'ba', 'xab', 'bax', 'aa', 'bxaxb', 'a'])], axis=1))
def transpose():
    m = Model('m')
    if choose('rank', [4, 2]) == 4: import itertools; p = choose('perm', list(itertools.permutations(range(4)))); x = m.input('input', (1, 2, sym('H', 1, 3), sym('W', 2, 3))); return tail(m, m.op('Transpose', [x], perm=list(p)))
    p = choose('perm', [[0, 1], [1, 0]]); x = m.input('input', (1, sym('N', 1, 4))); return m.output(m.op('Transpose', [x], perm=p))
def pad():
    m = Model('m'); r = choose('rank', [4, 3, 2]); v = symf('value'); p = [sym(n, 0, 2) for n in ('p0', 'p1', 'p2', 'p3')]
    if r == 4: x = m.input('input', (1, 2, sym('H', 1, 2), 2)); ps = [0, 0, p[0], p[1], 0, 0, p[2], p[3]]
    elif r == 3: x = m.input('input', (1, 2, sym('H', 1, 2))); ps = [0, 0, p[0], 0, 0, p[1]]
    else: x = m.input('input', (1, sym('H', 1, 2))); ps = [p[0], p[1], p[2], p[3]]
    return tail(m, m.op('Pad', [x], pads=ps, mode=b'constant', value=v))
def reshape():
    m = Model('m'); C, H, W = sym('C', 1, 3), sym('H', 1, 3), sym('W', 1, 2); k = choose('target', [[1, -1], [0, -1], [-1, None]]); x = m.input('input', (1, C, H, W)); pre = choose('pre', ['relu', 'none', 'two']); t = x
    if pre == 'relu': t = m.op('Relu', [t])
    if pre == 'two': t = m.op('Reshape', [t, m.const('s0', [1, 0, -1])])
    if k[1] is None: k = [-1, int(npshim.prod(m.shapes[t]))]
    if choose('how', ['initializer', 'constant']) == 'initializer': t = m.op('Reshape', [t, m.const('s', k)])
    else: m.cop('Constant', [], (2,), 'sc', value=None); m.g.node[-1].attribute.append(_tattr('value', np.array(k, np.int64))); t = m.op('Reshape', [t, 'sc'], ref=dict(target=k))
    if choose('post', [False, True]): t = m.op('Relu', [t])
    return m.output(t)
def _tattr(n, v): a = onnx.AttributeProto(name=n); a.t = onnx._from_array(v); return a
def reshape_nops():
    """reshapes that keep the shape, or only look as if they did"""
    m = Model('m'); C = sym('C', 1, 3); x = m.input('input', (1, C, 1, 1)); v = choose('graph', ['same', 'cut', 'cutnode', 'zero', 'chain', 'both']); t = x
    if v == 'same': t = m.op('Reshape', [m.op('Relu', [t]), m.const('s', [1, C, 1, 1])]); t = m.op('Flatten', [m.op('Relu', [t])])
    elif v == 'cut': t = m.op('Reshape', [m.op('Relu', [t]), m.const('s', [1, C])])
    elif v == 'cutnode': t = m.op('Relu', [m.op('Reshape', [m.op('Relu', [t]), m.const('s', [1, C])])])
    elif v == 'zero': t = m.op('Flatten', [m.op('Reshape', [m.op('Relu', [t]), m.const('s', [0, 0, 0, 0])])])
    elif v == 'chain': a = m.op('Relu', [t]); t = m.op('Reshape', [a, m.const('s', [1, C, 1, 1])]); t = m.op('Reshape', [t, m.const('s2', [1, C, 1, 1])]); t = m.op('Reshape', [t, m.const('s3', [1, -1])])
    else: a = m.op('Flatten', [m.op('Relu', [t])]); t = m.op('Reshape', [a, m.const('s', [1, C])]); t = m.op('Add', [t, a])
    return m.output(t)
def view():
    """what PyTorch exports for x.view(x.size(0), -1)"""
    m = Model('m'); C, H, W = sym('C', 1, 3), sym('H', 1, 2), sym('W', 1, 2); x = m.input('input', (1, C, H, W)); t = m.op('Relu', [x]); s = m.cop('Shape', [t], (4,)); i = m.cop('Constant', [], ()); m.g.node[-1].attribute.append(_tattr('value', np.array(0, np.int64))); g = m.cop('Gather', [s, i], (), axis=0); u = m.cop('Unsqueeze', [g], (1,), axes=[0]); c = m.cop('Constant', [], (1,)); m.g.node[-1].attribute.append(_tattr('value', np.array([-1], np.int64))); k = m.cop('Concat', [u, c], (2,), axis=0); t = m.op('Reshape', [t, k], ref=dict(target=[1, -1]))
    if choose('post', [False, True]): t = m.op('Relu', [t])
    return m.output(t)
def squeeze():
    m = Model('m'); C, W = sym('C', 1, 3), sym('W', 1, 3); v = choose('graph', ['s23', 's2', 'un', 'un3', 'cancel']); 
    if v == 's23': x = m.input('input', (1, C, 1, 1)); t = m.op('Squeeze', [m.op('Relu', [x])], axes=[2, 3])
    elif v == 's2': x = m.input('input', (1, C, 1, W)); t = m.op('Flatten', [m.op('Relu', [m.op('Squeeze', [x], axes=[2])])])
    elif v == 'un': x = m.input('input', (1, C)); t = m.op('Flatten', [m.op('Unsqueeze', [m.op('Relu', [x])], axes=[2])])
    elif v == 'un3': x = m.input('input', (1, C, W)); t = m.op('Unsqueeze', [m.op('Relu', [x])], axes=[3]); t = m.op('Relu', [t]); t = m.op('Flatten', [t])
    else: x = m.input('input', (1, C)); t = m.op('Squeeze', [m.op('Unsqueeze', [m.op('Relu', [x])], axes=[2, 3])], axes=[2, 3]); t = m.op('Relu', [t])
    return m.output(t)
def unsqueeze_out():
    m = Model('m'); C = sym('C', 1, 3); x = m.input('input', (C,)) if choose('rank', [1]) == 2 else m.input('input', (1, C, 1)); t = m.op('Relu', [x]); t = m.op('Squeeze', [t], axes=[0, 2]); return m.output(m.op('Unsqueeze', [t], axes=[0]))
def dropout():
    m = Model('m'); C = sym('C', 1, 3); x = m.input('input', (1, C)); t = m.op('Relu', [x]); t = m.op('Dropout', [t], ratio=0.5); return m.output(m.op('Gemm', [t, m.weight('w', (2, int(C))), m.weight('b', (2,))], transB=1))
def names():
    """names with the characters the generator replaces, and nodes without a name"""
    m = Model('m'); v = choose('style', [('data.0', 'layer/conv:0', 'c.w', 'c/b', 'out:0'), ('0', '', '1', '2', '3'), ('x', 'block.0/conv.1:2', 'block.0.w', 'block.0.b', 'y/z.1')]); H = sym('H', 1, 2); x = m.input(v[0], (1, 1, H, 2)); t = m.op('Conv', [x, m.weight(v[2], (2, 1, 1, 1)), m.weight(v[3], (2,))], name=v[1], kernel_shape=[1, 1], strides=[1, 1]); t = m.op('MaxPool', [t], name=v[1] and v[1] + '/pool', kernel_shape=[1, 2], strides=[1, 1]); t = m.op('Relu', [t], name=v[1] and v[1] + '.relu'); return m.output(m.op('Flatten', [t], out=v[4], name=''))
def lenet():
    m = Model('m'); H = sym('H', 4, 5); x = m.input('data', (1, 1, H, 4)); t = m.op('Conv', [x, m.weight('c1.w', (2, 1, 3, 3)), m.weight('c1.b', (2,))], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1], dilations=[1, 1], group=1); t = m.op('Relu', [t]) if choose('relu', [False, True]) else t; t = m.op('AveragePool', [t], kernel_shape=[2, 2], strides=[2, 2], pads=[0, 0, 0, 0]); n = 2 * 2 * 2; t = m.op('Reshape', [t, m.const('shape', [1, n])]); t = m.op('Gemm', [t, m.weight('fc1.w', (2, n)), m.weight('fc1.b', (2,))], alpha=1.0, beta=1.0, transB=1); t = m.op('Gemm', [t, m.weight('fc2.w', (3, 2)), m.weight('fc2.b', (3,))], alpha=1.0, beta=1.0, transB=1); return m.output(m.op('Softmax', [t], axis=1) if choose('softmax', [True, False]) else t)
def residual():
    m = Model('m'); H = sym('H', 2, 3); x = m.input('in', (1, 2, H, 2)); c = m.op('Conv', [x, m.weight('w1', (2, 2, 3, 1))], kernel_shape=[3, 1], strides=[1, 1], pads=[1, 0, 1, 0]); bnp = [m.weight('g', (2,)), m.weight('be', (2,)), m.weight('mu', (2,)), m.weight('va', (2,), nonneg=True)]; t = m.op('BatchNormalization', [c] + bnp, epsilon=0.0009765625); t = m.op('Add', [t, x]) if choose('skip', [0, 1]) else m.op('Add', [x, t]); t = m.op('GlobalAveragePool', [t]); t = m.op('Flatten', [t]); return m.output(m.op('Gemm', [t, m.weight('fw', (2, 2)), m.weight('fb', (2,))], transB=1))

def graphs(n, kinds):
    """all graphs of n cheap nodes in which every intermediate value is used; a node is (kind, operands)"""
    r = []
    def go(nodes):
        i = len(nodes)
        if i == n:
            used = {o for _, q in nodes for o in q}
            if all(v in used for v in range(1, n)) and any(k != 'D' for k, _ in nodes): r.append(list(nodes))
            return
        for k in kinds:
            for q in ([(a,) for a in range(i + 1)] if k in 'RND' else [(a, b) for a in range(i + 1) for b in range(i + 1)]): go(nodes + [(k, q)])
    go([]); return r
def dag(n, kinds, rank4=False, part=slice(None)):
    def f():
        g = choose('graph', graphs(n, kinds)[part]); m = Model('m'); sh = (1, 2, 1, 2) if rank4 else (1, 3); v = [m.input('input', sh)]
        for i, (k, q) in enumerate(g):
            a = [v[o] for o in q]; v.append(m.op('Relu', a) if k == 'R' else m.op('Reshape', a + [m.const('s%d' % i, list(sh))]) if k == 'N' else m.op('Dropout', a, ratio=0.5) if k == 'D' else m.op('Add', a) if k == 'A' else m.op('Concat', a, axis=1))
        return tail(m, v[-1])
    return f
COMPUTE = dict(conv2d_pads=conv2d_pads, conv2d_groups=conv2d_groups, conv1d=conv1d, conv1d_plain=conv1d_plain, maxpool2d=pool('MaxPool', True, False), maxpool1d=pool('MaxPool', False, False), avgpool2d=pool('AveragePool', True, True), avgpool1d=pool('AveragePool', False, True), gpool=gpool, gemm=gemm, matmul=matmul, bn=bn, relu=relu, clip=clip, lrn=lrn, softmax=softmax, mul=mul, add_branches=add_branches, add_vec=add_vec, concat=concat, transpose=transpose, pad=pad, reshape=reshape, reshape_nops=reshape_nops, view=view, squeeze=squeeze, unsqueeze_out=unsqueeze_out, dropout=dropout, names=names, lenet=lenet, residual=residual, dag1=dag(1, 'RNA'), dag2=dag(2, 'RNAD', True), dag3=dag(3, 'RNA'), dag3d=dag(3, 'RNAD', True), dag3c=dag(3, 'RC'))
DEEP_COMPUTE = {'dag4_%d' % i: dag(4, 'RNA', part=slice(i, None, 6)) for i in range(6)}

# sequences of layers with weights
def wl(m, t, kind, one_d=False):
    i = m.k; W = lambda n, sh, **k: m.weight('%s%d' % (n, i), sh, **k); k1 = (1,) if one_d else (1, 1); ca = dict(kernel_shape=list(k1), strides=list(k1))
    if kind == 'convb': return m.op('Conv', [t, W('w', (2, 2) + k1), W('b', (2,))], **ca)
    if kind == 'conv': return m.op('Conv', [t, W('w', (2, 2) + k1)], **ca)
    if kind == 'dw': return m.op('Conv', [t, W('w', (2, 1) + k1), W('b', (2,))], group=2, **ca)
    if kind == 'bn': return m.op('BatchNormalization', [t, W('g', (2,)), W('be', (2,)), W('mu', (2,)), W('va', (2,), nonneg=True)], epsilon=0.0009765625)
    n = int(m.shapes[t][1]); o = {4: 3, 3: 2, 2: 3}[n]
    if kind == 'gemmb': return m.op('Gemm', [t, W('w', (o, n)), W('b', (o,))], transB=1)
    if kind == 'gemm': return m.op('Gemm', [t, W('w', (o, n))], transB=1)
    if kind == 'mm': return m.op('MatMul', [t, W('w', (n, o))])
    if kind == 'mmb': return m.op('Add', [m.op('MatMul', [t, W('w', (n, o))]), W('b', (o,))])
    if kind == 'add': return m.op('Add', [t, W('b', (n,))])
import itertools
def seqs(k, n): return [list(q) for j in range(n + 1) for q in itertools.product(k, repeat=j)]
def wseq(pre, one_d=False, flat=None):
    def f():
        m = Model('m'); t = m.input('input', (1, 2, 2) if one_d else (1, 2, 1, 2))
        for k in pre: t = wl(m, t, k, one_d)
        t = m.op('Flatten', [t])
        for k in choose('flat', flat or seqs(('gemmb', 'gemm', 'mm', 'mmb', 'add'), 2)): t = wl(m, t, k)
        return m.output(t)
    return f
WEIGHTED = {'_'.join(['seq'] + p): wseq(p) for p in seqs(('convb', 'conv', 'dw', 'bn'), 2)}
WEIGHTED.update({'_'.join(['seq1d'] + p): wseq(p, True, [[], ['gemm'], ['add'], ['gemmb', 'mm']]) for p in seqs(('convb', 'conv', 'dw', 'bn'), 2) if p})
def w_shared():
    """initializers used by several layers, or several times by one"""
    m = Model('m'); v = choose('graph', range(14)); x = m.input('input', (1, 2, 1, 2)); c = dict(kernel_shape=[1, 1], strides=[1, 1]); W = m.weight
    conv = lambda t, *i, **a: m.op('Conv', [t] + list(i), **dict(c, **a)); bn = lambda t, *i: m.op('BatchNormalization', [t] + list(i), epsilon=0.0009765625); P = lambda t: [t] * 2; E = lambda t: m.op('Flatten', [t])
    if v == 0: w, b = W('w', (2, 2, 1, 1)), W('b', (2,)); t = E(conv(conv(x, w, b), w, b))
    elif v == 1: w = W('w', (2, 2, 1, 1)); t = E(conv(conv(x, w, W('b', (2,))), w, W('b2', (2,))))
    elif v == 2: b = W('b', (2,)); t = E(conv(conv(x, W('w', (2, 2, 1, 1)), b), W('w2', (2, 2, 1, 1)), b))
    elif v == 3: w = W('w', (2, 2, 1, 1)); t = E(conv(conv(conv(x, w), w, W('b', (2,))), w))
    elif v == 4: p = [W('g', (2,)), W('be', (2,)), W('mu', (2,)), W('va', (2,), nonneg=True)]; t = E(bn(bn(x, *p), *p))
    elif v == 5: z = W('z', (2,), nonneg=True); t = E(conv(bn(x, z, z, z, z), W('w', (2, 2, 1, 1)), W('b', (2,))))
    elif v == 6: z = W('z', (2,)); t = E(bn(bn(x, W('g', (2,)), z, z, W('va', (2,), nonneg=True)), W('g2', (2,)), W('be', (2,)), z, W('va2', (2,), nonneg=True)))
    elif v == 7: b = W('b', (2,)); t = E(conv(bn(x, W('g', (2,)), b, W('mu', (2,)), W('va', (2,), nonneg=True)), W('w', (2, 2, 1, 1)), b))
    elif v == 8: w, b = W('w', (4, 4)), W('b', (4,)); t = m.op('Gemm', [m.op('Gemm', [E(x), w, b], transB=1), w, b], transB=1)
    elif v == 9: w = W('w', (4, 4)); t = m.op('Gemm', [m.op('MatMul', [E(x), w]), w, W('b', (4,))], transB=1)
    elif v == 10: b = W('b', (4,)); t = m.op('Gemm', [m.op('Add', [E(x), b]), W('w', (4, 4)), b], transB=1)
    elif v == 11: b = W('b', (4,)); t = m.op('Add', [m.op('Add', [E(x), b]), b]); t = m.op('MatMul', [t, W('w', (4, 2))])
    elif v == 12: w = W('w', (2, 1, 1, 1)); t = E(conv(conv(conv(x, w, group=2), W('w2', (2, 2, 1, 1))), w, W('b', (2,)), group=2))
    else: b = W('b', (4,)); w = W('w', (4, 4)); t = m.op('MatMul', [E(x), w]); t = m.op('Add', [b, t]); t = m.op('MatMul', [t, w]); t = m.op('Gemm', [t, w, b], transB=1)
    return m.output(t)
def w_order():
    """initializers in another order than their uses, unused ones, and ones that are listed as inputs"""
    m = Model('m'); m.ir3 = choose('ir3', [None, 'before', 'after']); o = choose('order', [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [3, 0, 4, 1, 2]]); d = [('b2', (3,)), ('w2', (3, 4)), ('unused', (5,)), ('b1', (2,)), ('w1', (2, 2, 1, 1))]; [m.weight(*d[i]) for i in o]
    x = m.input('input', (1, 2, 1, 2)); t = m.op('Conv', [x, 'w1', 'b1'], kernel_shape=[1, 1], strides=[1, 1]); return m.output(m.op('Gemm', [m.op('Flatten', [t]), 'w2', 'b2'], transB=1))
def w_branches():
    """weighted layers on several branches, in different orders of the nodes"""
    m = Model('m'); x = m.input('input', (1, 2, 1, 2)); c = dict(kernel_shape=[1, 1], strides=[1, 1]); v = choose('order', range(3))
    A = lambda: m.op('Conv', [x, m.weight('wa', (2, 2, 1, 1)), m.weight('ba', (2,))], out='a', **c); B = lambda: m.op('Conv', [x, m.weight('wb', (1, 2, 1, 1))], out='b', **c); C = lambda: m.op('BatchNormalization', [x, m.weight('g', (2,)), m.weight('be', (2,)), m.weight('mu', (2,)), m.weight('va', (2,), nonneg=True)], out='c', epsilon=0.0009765625)
    for f in ([A, B, C], [C, B, A], [B, C, A])[v]: f()
    t = m.op('Flatten', [m.op('Concat', ['a', 'b', 'c'], axis=1)]); return m.output(m.op('Gemm', [t, m.weight('wg', (2, 10)), m.weight('bg', (2,))], transB=1))
def w_names():
    """layer names up to and beyond the sizes of the reader's buffers"""
    m = Model('m'); n = choose('length', [1, 15, 16, 98, 99, 100, 101, 260]); x = m.input('input', (1, 2, 1, 2)); c = dict(kernel_shape=[1, 1], strides=[1, 1]); t = m.op('Conv', [x, m.weight('w1', (2, 2, 1, 1)), m.weight('b1', (2,))], name='c' * n, **c); return m.output(m.op('Gemm', [m.op('Flatten', [t]), m.weight('w2', (3, 4)), m.weight('b2', (3,))], name='g' * n, transB=1))
def w_big():
    """tensors larger than the others, non-square"""
    m = Model('m'); v = choose('size', [(3, 2, 3, 5), (5, 3, 1, 7), (1, 6, 5, 3), (16, 1, 1, 1), (12, 4, 3, 3)]); o, i, h, w = v; x = m.input('input', (1, i, h, w)); t = m.op('Conv', [x, m.weight('w1', (o, i, h, w)), m.weight('b1', (o,))], kernel_shape=[h, w], strides=[1, 1]); t = m.op('Flatten', [t]); t = m.op('Gemm', [t, m.weight('w2', (7, o)), m.weight('b2', (7,))], transB=1); return m.output(m.op('MatMul', [t, m.weight('w3', (7, 2))]))
WEIGHTED.update(shared=w_shared, order=w_order, branches=w_branches, names=w_names, big=w_big)

# models whose generated main programs are run (C30)
def mains4():
    m = Model('m'); x = m.input('input', (1, sym('C', 1, 2), sym('H', 1, 2), sym('W', 1, 3))); return tail(m, m.op('Relu', [x]))
def mains3():
    m = Model('m'); x = m.input('data.0', (1, sym('C', 1, 2), sym('W', 1, 3))); return tail(m, m.op('Relu', [x]))
def mains2():
    m = Model('m'); n, k = choose('sizes', [(1, 1), (2, 1), (3, 2), (1, 4)]); x = m.input('input', (1, n)); w = m.weight('w', (k, n)); b = m.weight('b', (k,)); return m.output(m.op('Gemm', [x, w, b], transB=1))
def mains2h():
    m = Model('m'); m.via = 'prepare'; x = m.input('input', (sym('N', 1, 3), sym('W', 1, 3))); return m.output(m.op('Clip', [x], min=-1.0, max=1.0))
def mains_conv():
    m = Model('m'); x = m.input('input', (1, 1, 2, 3)); w = m.weight('w', (2, 1, 1, 3)); b = m.weight('b', (2,)); t = m.op('Conv', [x, w, b], kernel_shape=[1, 3], strides=[1, 1]); return tail(m, t)
def mains_large():
    m = Model('m'); sh = choose('shape', [(1, 3, 5, 7), (1, 20, 11), (1, 300), (1, 12, 1, 1)]); return tail(m, m.op('Relu', [m.input('input', sh)]))
MAINS = dict(rank4=mains4, rank3=mains3, rank2=mains2, rank2h=mains2h, conv=mains_conv)
