"""Stand-in for the onnx 1.5 package (not installed here): the message classes and helpers the importer uses.
Shape inference answers with the shapes the model builder attached (the ONNX definition of each operator)."""
import copy, struct, sys, types

class _Msg(object):
    _lists = (); _scalars = {}; _subs = {}
    def __init__(self, **k):
        self.__dict__['_set'] = set()
        for n in self._lists: self.__dict__[n] = []
        for n, d in self._scalars.items(): self.__dict__[n] = d
        for n, v in k.items():
            if n in self._lists: getattr(self, n).extend(v)
            else: setattr(self, n, v)
    def __getattr__(self, n):
        if n in type(self)._subs: v = type(self)._subs[n](); self.__dict__[n] = v; return v
        raise AttributeError(n)
    def __setattr__(self, n, v):
        if n not in self._scalars and n not in self._subs and n not in self._lists: raise AttributeError('%s has no field %r' % (type(self).__name__, n))
        self.__dict__[n] = v; self._set.add(n)
    def HasField(self, n):
        if n in self._lists: raise ValueError('Field %r is repeated' % n)
        if n not in self._scalars and n not in self._subs: raise ValueError('no field %r' % n)
        return n in self._set
    def ClearField(self, n):
        self._set.discard(n)
        if n in self._lists: del getattr(self, n)[:]
        elif n in self._scalars: self.__dict__[n] = self._scalars[n]
    def CopyFrom(self, o): self.__dict__.update(copy.deepcopy(o.__dict__))
    def SerializeToString(self): return b''

class TensorProto(_Msg):
    UNDEFINED, FLOAT, UINT8, INT8, UINT16, INT16, INT32, INT64, STRING, BOOL, FLOAT16, DOUBLE = range(12)
    _lists = ('dims', 'float_data', 'int32_data', 'int64_data'); _scalars = {'name': '', 'data_type': 1, 'raw_data': b'', 'array': None}
class AttributeProto(_Msg):
    UNDEFINED, FLOAT, INT, STRING, TENSOR, GRAPH, FLOATS, INTS, STRINGS, TENSORS, GRAPHS = range(11)
    _lists = ('floats', 'ints', 'strings', 'tensors', 'graphs'); _scalars = {'name': '', 'f': 0.0, 'i': 0, 's': b'', 'type': 0, 'doc_string': ''}; _subs = {'t': TensorProto}
class NodeProto(_Msg): _lists = ('input', 'output', 'attribute'); _scalars = {'name': '', 'op_type': '', 'domain': '', 'doc_string': ''}
class Dimension(_Msg):
    _scalars = {'dim_value': 0, 'dim_param': '', 'denotation': ''}
    def __setattr__(self, n, v):
        _Msg.__setattr__(self, n, v); o = {'dim_value': 'dim_param', 'dim_param': 'dim_value'}.get(n) # one of the two
        if o: self.ClearField(o)
    def WhichOneof(self, g): return next((n for n in ('dim_value', 'dim_param') if n in self._set), None)
class TensorShapeProto(_Msg): _lists = ('dim',)
TensorShapeProto.Dimension = Dimension
class TensorType(_Msg): _scalars = {'elem_type': 0}; _subs = {'shape': TensorShapeProto}
class TypeProto(_Msg): _subs = {'tensor_type': TensorType}
class ValueInfoProto(_Msg): _scalars = {'name': '', 'doc_string': ''}; _subs = {'type': TypeProto}
class OperatorSetIdProto(_Msg): _scalars = {'domain': '', 'version': 0}
class GraphProto(_Msg): _lists = ('node', 'initializer', 'input', 'output', 'value_info'); _scalars = {'name': '', 'doc_string': ''}
class ModelProto(_Msg): _lists = ('opset_import', 'metadata_props'); _scalars = {'ir_version': 4, 'producer_name': '', 'vp_shapes': None}; _subs = {'graph': GraphProto}

def mk_value_info(name, shape):
    v = ValueInfoProto(name=name); v.type.tensor_type.elem_type = 1
    for d in shape: x = Dimension(); x.dim_value = d; v.type.tensor_type.shape.dim.append(x)
    return v

SAVED = []
def save(m, f, *a, **k): SAVED.append(str(f))
save_model = save
def load(f, *a, **k): raise RuntimeError('the stand-in onnx package loads no files')
load_model = load

def _mod(name, **k):
    m = types.ModuleType('onnx.' + name); m.__dict__.update(k); sys.modules['onnx.' + name] = m; globals()[name.split('.')[-1]] = m; return m

def _to_array(t): return t.array
def _from_array(a, name=None): return TensorProto(name=name or '', dims=list(a.shape), array=a)
def _infer(m, *a, **k):
    """values no one declared get their ONNX shape; declared dims without a value get one"""
    m = copy.copy(m); g = m.graph; known = {v.name for v in g.value_info} | {v.name for v in g.input} | {v.name for v in g.output} | {t.name for t in g.initializer}
    sh = m.vp_shapes or {}
    for v in list(g.output) + list(g.value_info):
        if v.name in sh:
            dims = v.type.tensor_type.shape.dim
            if not dims and len(sh[v.name]): v.CopyFrom(mk_value_info(v.name, sh[v.name])); continue
            for x, d in zip(dims, sh[v.name]):
                if x.WhichOneof('v') != 'dim_value': x.dim_value = d
    for n, s in sh.items():
        if n not in known: g.value_info.append(mk_value_info(n, s))
    return m
def _optimize(m, passes=None):
    """eliminate_nop_dropout: a Dropout with ratio 0 is removed and its consumers read its input"""
    for p in passes or ():
        if p == 'eliminate_nop_dropout':
            g = m.graph
            for n in list(g.node):
                if n.op_type == 'Dropout' and any(x.name == 'ratio' and x.f == 0.0 for x in n.attribute):
                    outs = {o.name for o in g.output}
                    if n.output[0] in outs:
                        if any(n.input[0] in k.input for k in g.node if k is not n) or n.input[0] in outs or not any(n.input[0] in k.output for k in g.node): continue
                        for k in g.node: k.output[:] = [n.output[0] if o == n.input[0] else o for o in k.output]
                    else:
                        for k in g.node: k.input[:] = [n.input[0] if i == n.output[0] else i for i in k.input]
                    g.node.remove(n)
    return m
def _check(m, *a, **k): pass
_mod('numpy_helper', to_array=_to_array, from_array=_from_array)
_mod('shape_inference', infer_shapes=_infer)
_mod('checker', check_model=_check, check_graph=_check, check_node=_check, ValidationError=type('ValidationError', (Exception,), {}))
_mod('optimizer', optimize=_optimize)
_mod('utils', polish_model=lambda m: m)
_mod('helper', make_tensor_value_info=lambda n, t, s: mk_value_info(n, s))
class _BackendRep(object):
    def run(self, inputs, **k): return (None,)
class _Backend(object): pass
_b = _mod('backend'); _b.base = _mod('backend.base', BackendRep=_BackendRep, Backend=_Backend, Device=object); globals()['backend'] = _b
