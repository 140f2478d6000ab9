"""Families of models at the edges of what the importer knows: it may refuse them, but what it accepts has to compute them (C27)."""
from impmodels import *
from impmodels import _tattr
import impdeny
C1 = dict(kernel_shape=[1, 1], strides=[1, 1])
def cconst(m, name, shape):
    """a Constant node holding weights"""
    w = m.weight(name + '_i', shape); t = m.g.initializer.pop(); m.g.node.append(onnx.NodeProto(name='const_' + name, op_type='Constant', input=[], output=[w])); a = onnx.AttributeProto(name='value'); a.t.CopyFrom(t); a.t = a.t; m.g.node[-1].attribute.append(a); return w
def aux(m, op, ins, shape, **a):
    """a node whose value is not used for the result"""
    m.k += 1; o = 'd%d' % m.k; m.node(op, ins, [o], '%s_d%d' % (op.lower(), m.k), a); m.shapes[o] = tuple(shape); m.var[o] = 'none'; return o
def v_dead():
    """nodes whose values are not used"""
    m = Model('m'); v = choose('dead', ['shape', 'shape2', 'relu', 'conv', 'before', 'chain', 'gather', 'const']); at = choose('at', ['out', 'mid', 'in']); x = m.input('input', (1, 3)); t = m.op('Relu', [x]); u = m.op('Relu', [t]); q = dict(out=u, mid=t, **{'in': x})[at]
    if v == 'shape': aux(m, 'Shape', [q], (2,))
    elif v == 'shape2': aux(m, 'Shape', [q], (2,)); aux(m, 'Shape', [q], (2,))
    elif v == 'relu': aux(m, 'Relu', [q], (1, 3))
    elif v == 'conv': r = aux(m, 'Reshape', [q, m.const('rs', [1, 3, 1, 1])], (1, 3, 1, 1)); aux(m, 'Conv', [r, m.weight('w', (2, 3, 1, 1))], (1, 2, 1, 1), **C1)
    elif v == 'before': aux(m, 'Gemm', [q, m.weight('w', (2, 3)), m.weight('b', (2,))], (1, 2), transB=1); u = m.op('Gemm', [u, m.weight('w2', (2, 3)), m.weight('b2', (2,))], transB=1)
    elif v == 'chain': s = aux(m, 'Shape', [q], (2,)); aux(m, 'Cast', [s], (2,), to=7)
    elif v == 'gather': s = aux(m, 'Shape', [q], (2,)); k = impdeny.kvec(m, [1]); aux(m, 'Gather', [s, k], (1,), axis=0)
    else: cconst(m, 'k', (2,))
    return m.output(u)
def v_order():
    """operands in the other order, of the other kind, or the same one twice"""
    m = Model('m'); v = choose('op', ['mul', 'mulw', 'mul2', 'matmulw', 'matmulx', 'gemmw', 'addw', 'addww', 'addself', 'concatw', 'concatself', 'mulself', 'gemmx', 'convx', 'bnx']); x = m.input('input', (1, 2))
    if v == 'mul': t = mulop(m, x, 'first')
    elif v == 'mulw': t = mulop(m, m.weight('w', (1, 2)), 'first')
    elif v == 'mul2': t = mulop(m, m.op('Relu', [mulop(m, x, 'first')]), 'second')
    elif v == 'matmulw': r = m.op('Reshape', [x, m.const('rs', [2, 1])]); t = m.op('MatMul', [m.weight('w', (1, 2)), r])
    elif v == 'matmulx': r = m.op('Reshape', [x, m.const('rs', [2, 1])]); t = m.op('MatMul', [x, r])
    elif v == 'gemmw': t = m.op('Gemm', [m.weight('w', (1, 2)), x], transB=1)
    elif v == 'gemmx': t = m.op('Gemm', [x, x], transB=1)
    elif v == 'addw': t = m.op('Add', [m.weight('w', (1, 2)), x])
    elif v == 'addww': s = m.op('Add', [m.weight('w', (1, 2)), m.weight('w2', (1, 2))]); t = m.op('Add', [s, x])
    elif v == 'addself': t = m.op('Add', [x, x])
    elif v == 'concatw': t = m.op('Concat', [x, m.weight('w', (1, 3))], axis=1)
    elif v == 'concatself': t = m.op('Concat', [x, x, x], axis=1)
    elif v == 'mulself': t = m.op('Relu', [x]); t = impdeny.raw(m, 'Mul', [t, t], (1, 2)); m.var[t] = 'r_prod(r1, r1)'
    elif v == 'convx': r = m.op('Reshape', [x, m.const('rs', [1, 2, 1, 1])]); t = m.op('Flatten', [m.op('Conv', [r, r], **C1)])
    else: r = m.op('Reshape', [x, m.const('rs', [1, 1, 2])]); t = m.op('Flatten', [m.op('BatchNormalization', [r] + [m.weight(n, (1,), nonneg=True) for n in 'abcd'], epsilon=0.0009765625)])
    return m.output(t)
def mulop(m, x, where):
    f = 'f%d' % m.k; m.scalar(f, 3.0, (1,)); m.k += 1; out = 't%d' % m.k; m.node('Mul', [f, x] if where == 'first' else [x, f], [out], 'mul_%d' % m.k, {}); m.shapes[out] = m.shapes[x]; m.code.append('RT r%d = r_mul(%s, 3.0f);' % (m.k, m.var[x])); m.var[out] = 'r%d' % m.k; return out
def v_const():
    """weights that are the values of Constant nodes"""
    m = Model('m'); v = choose('op', ['conv', 'convb', 'gemm', 'gemmb', 'matmul', 'add', 'bn', 'both']); x = m.input('input', (1, 2))
    r = lambda: m.op('Reshape', [x, m.const('rs', [1, 2, 1, 1])])
    if v == 'conv': t = m.op('Conv', [r(), cconst(m, 'w', (2, 2, 1, 1))], **C1)
    elif v == 'convb': t = m.op('Conv', [r(), m.weight('w', (2, 2, 1, 1)), cconst(m, 'b', (2,))], **C1)
    elif v == 'gemm': t = m.op('Gemm', [x, cconst(m, 'w', (3, 2))], transB=1)
    elif v == 'gemmb': t = m.op('Gemm', [x, m.weight('w', (3, 2)), cconst(m, 'b', (3,))], transB=1)
    elif v == 'matmul': t = m.op('MatMul', [x, cconst(m, 'w', (2, 3))])
    elif v == 'add': t = m.op('Add', [x, cconst(m, 'b', (2,))])
    elif v == 'both': t = m.op('Gemm', [x, m.weight('w', (3, 2)), m.weight('b', (3,))], transB=1); t = m.op('Add', [t, cconst(m, 'c', (3,))])
    else: t = m.op('BatchNormalization', [r(), m.weight('a', (2,)), cconst(m, 'b', (2,)), m.weight('c', (2,)), m.weight('d', (2,), nonneg=True)], epsilon=0.0009765625)
    return tail(m, t)
def v_nop():
    """nothing but renamed values"""
    m = Model('m'); v = choose('graph', ['reshape', 'flatten', 'chain', 'unsq', 'drop', 'both', 'relu', 'mid', 'twice', 'out2']); x = m.input('input', (1, 3)); R = lambda t, k='rs', s=(1, 3): m.op('Reshape', [t, m.const(k, list(s))])
    if v == 'reshape': t = R(x)
    elif v == 'flatten': t = m.op('Flatten', [x])
    elif v == 'chain': t = R(R(R(x), 'r2'), 'r3')
    elif v == 'unsq': t = m.op('Squeeze', [m.op('Unsqueeze', [x], axes=[2])], axes=[2])
    elif v == 'drop': t = m.op('Dropout', [x], ratio=0.5)
    elif v == 'both': a = R(x); b = R(x, 'r2'); t = m.op('Add', [a, b])
    elif v == 'relu': t = R(m.op('Relu', [R(x)]), 'r2')
    elif v == 'mid': a = m.op('Relu', [x]); b = R(a); c = R(a, 'r2', (1, 1, 3)); t = m.op('Add', [b, m.op('Flatten', [c])])
    elif v == 'twice': a = R(m.op('Relu', [x])); t = m.op('Concat', [a, R(a, 'r2'), x], axis=1)
    else: a = m.op('Relu', [x]); b = R(a); aux(m, 'Relu', [b], (1, 3)); t = R(b, 'r2')
    return m.output(t)
def v_ranks():
    """operators on values of other ranks"""
    m = Model('m'); op = choose('op', ['Relu', 'Clip', 'Transpose', 'BatchNormalization', 'LRN', 'GlobalAveragePool', 'GlobalMaxPool', 'Concat', 'Pad', 'Softmax', 'Add', 'Mul', 'Flatten', 'Dropout']); n = choose('rank', [2, 3, 4, 5]); sh = (1, 2, 2, 1, 2)[:n]; x = m.input('input', (1, npshim.prod(sh))); t = x if n == 2 else m.op('Reshape', [x, m.const('rs', list(sh))])
    if op in ('LRN', 'GlobalAveragePool', 'GlobalMaxPool') and n == 2: raise Infeasible()
    if n == 5 and op not in ('Relu', 'Clip', 'Add', 'Mul', 'Dropout', 'Flatten'): s = {'Concat': (1, 4) + sh[2:]}.get(op, sh[:2] + (1,) * 3 if op[0] == 'G' else sh); t = impdeny.raw(m, op, [t, t] if op == 'Concat' else [t] + ([m.weight(w, (2,)) for w in 'abcd'] if op[0] == 'B' else []), s, **dict(Transpose=dict(perm=[0, 1, 2, 3, 4]), BatchNormalization=dict(epsilon=0.5), LRN=dict(size=1, alpha=0.5, beta=0.5), Concat=dict(axis=1), Pad=dict(pads=[0] * 10), Softmax=dict(axis=1)).get(op, {})); m.var[t] = 'r1'; return tail(m, t)
    if op == 'Transpose': t = m.op(op, [t], perm=choose('perm', list(itertools.permutations(range(n)))))
    elif op == 'BatchNormalization': t = m.op(op, [t] + [m.weight(w, (2 if n > 2 else 2,), nonneg=True) for w in 'abcd'], epsilon=0.0009765625)
    elif op == 'Clip': t = m.op(op, [t], min=-1.0, max=1.0)
    elif op == 'LRN': t = m.op(op, [t], size=3, alpha=0.5, beta=0.5)
    elif op == 'Concat': t = m.op(op, [t, m.op('Relu', [t])], axis=choose('axis', range(-n, n)))
    elif op == 'Pad': p = [0] * 2 * n; p[choose('where', range(2 * n))] = 1; t = m.op(op, [t], pads=p, mode=b'constant', value=1.5)
    elif op == 'Softmax':
        ax = choose('axis', [None] + list(range(-n, n))); k = 1 if ax is None else ax % n
        if npshim.prod(sh[:k]) != 1 or n != 2: t = impdeny.raw(m, op, [t], sh, **opt({}, axis=ax)); raise Infeasible() # what it means is not written down here; C27 refuses it
        t = m.op(op, [t], **opt({}, axis=ax))
    elif op == 'Add': t = m.op(op, [t, m.op('Relu', [t])])
    elif op == 'Mul': t = m.op(op, [t, m.scalar('f', 3.0, choose('fs', [(), (1,), (1, 1), (1, 1, 1, 1)]))])
    elif op == 'Flatten': t = m.op(op, [t], axis=choose('axis', range(0, n + 1)))
    elif op == 'Dropout': t = m.op(op, [t], ratio=0.5)
    else: t = m.op(op, [t])
    return tail(m, t) if len(m.shapes[t]) != 2 or m.soft else m.output(t)
def v_batch():
    """batches that only appear inside"""
    m = Model('m'); N = choose('N', [2, 3]); op = choose('op', ['MaxPool', 'AveragePool', 'GlobalAveragePool', 'GlobalMaxPool', 'LRN', 'Relu', 'Concat', 'Transpose', 'Pad', 'Add']); x = m.input('input', (1, N * 4)); t = m.op('Reshape', [x, m.const('rs', [N, 2, 1, 2])])
    if op in ('MaxPool', 'AveragePool'): t = m.op(op, [t], kernel_shape=[1, 2], strides=[1, 1], pads=choose('pads', [[0, 0, 0, 0], [0, 1, 0, 0]]))
    elif op == 'LRN': t = m.op(op, [t], size=3, alpha=0.5, beta=0.5)
    elif op == 'Concat': t = m.op(op, [t, t], axis=1)
    elif op == 'Transpose': t = m.op(op, [t], perm=choose('perm', list(itertools.permutations(range(4)))))
    elif op == 'Pad': t = m.op(op, [t], pads=[0, 0, 0, 1, 0, 0, 1, 0], mode=b'constant', value=1.5)
    elif op == 'Add': t = m.op(op, [t, t])
    else: t = m.op(op, [t])
    return m.output(m.op('Reshape', [t, m.const('r2', [1, -1])]))
def v_prepare():
    """through the backend interface, batch sizes as they are"""
    m = Model('m'); m.via = 'backend'; N = choose('N', [1, 2]); v = choose('op', ['gemm', 'relu', 'conv', 'softmax', 'add']); n = choose('rank', [2, 4]) if v == 'relu' else 4 if v == 'conv' else 2; x = m.input('input', (N, 2, 1, 2)[:n])
    if v == 'gemm': t = m.op('Gemm', [x, m.weight('w', (3, 2)), m.weight('b', (3,))], transB=1)
    elif v == 'conv': t = m.op('Conv', [x, m.weight('w', (2, 2, 1, 1))], **C1)
    elif v == 'softmax':
        if N > 1: raise Infeasible()
        t = m.op('Softmax', [x], axis=1)
    elif v == 'add': t = m.op('Add', [x, m.op('Relu', [x])])
    else: t = m.op('Relu', [x])
    return tail(m, t)
def v_odd():
    """unusual but valid ways of writing a model"""
    m = Model('m'); v = choose('case', ['nogroup', 'pads0', 'onechannel', 'unusedinit', 'outmid', 'noname', 'numname', 'unnamed2', 'keyword', 'bnextra', 'onlyin', 'late']); x = m.input('input', (1, 2, 1, 2))
    if v == 'nogroup': t = m.op('Conv', [x, m.weight('w', (2, 1, 1, 1))], group=2, **C1)
    elif v == 'pads0': t = m.op('MaxPool', [x], kernel_shape=[1, 2], strides=[1, 2], pads=[0, 0, 0, 0])
    elif v == 'onechannel': t = m.op('Conv', [x, m.weight('w', (1, 2, 1, 1)), m.weight('b', (1,))], **C1); t = m.op('Conv', [t, m.weight('w2', (1, 1, 1, 1))], group=1, **C1)
    elif v == 'unusedinit': m.weight('q', (3, 3)); t = m.op('Relu', [x])
    elif v == 'outmid': t = m.op('Flatten', [x]); u = m.op('Relu', [t]); aux(m, 'Relu', [u], (1, 4)); aux(m, 'Clip', [u], (1, 4), min=0.0, max=1.0); return m.output(u)
    elif v == 'noname': t = m.op('Relu', [m.op('Relu', [x], name='')], name='')
    elif v == 'unnamed2': t = m.op('Conv', [m.op('Conv', [x, m.weight('w', (2, 2, 1, 1))], name='', **C1), m.weight('w2', (2, 2, 1, 1))], name='', **C1)
    elif v == 'numname': t = m.op('Relu', [m.op('Conv', [x, m.weight('7', (2, 2, 1, 1))], name='n1', **C1)], out='3', name='n2')
    elif v == 'keyword': t = m.op('Relu', [m.op('Relu', [x], name='input', out='output')], name='kernels', out='run')
    elif v == 'bnextra': t = m.op('BatchNormalization', [x] + [m.weight(n, (2,), nonneg=True) for n in 'abcd'], epsilon=0.0009765625, momentum=0.5)
    elif v == 'onlyin': return m.output(m.op('Flatten', [x]))
    else: t = m.op('Relu', [x]); m.weight('zz', (4,)); t = m.op('Add', [m.op('Flatten', [t]), 'zz']); return m.output(t)
    return tail(m, t)
VALID = dict(dead=v_dead, order=v_order, const=v_const, nop=v_nop, ranks=v_ranks, batch=v_batch, prepare=v_prepare, odd=v_odd)
