"""A small stand-in for jinja2 (not installed here): the template language as far as code templates use it."""
import os, re

class TemplateError(Exception): pass
class TemplateNotFound(TemplateError): pass
class TemplateSyntaxError(TemplateError): pass
class UndefinedError(TemplateError): pass

class Undefined(object):
    def __init__(self, name=''): self._n = name
    def __str__(self): return ''
    def __bool__(self): return False
    def __iter__(self): return iter(())
    def __len__(self): return 0
    def __eq__(self, o): return isinstance(o, Undefined)
    def __ne__(self, o): return not isinstance(o, Undefined)
    __hash__ = None
    def _err(self, *a): raise UndefinedError('%r is undefined' % self._n)
    __getattr__ = __getitem__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __floordiv__ = __mod__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = _err
class StrictUndefined(Undefined):
    __str__ = __bool__ = __iter__ = __len__ = __eq__ = __ne__ = Undefined._err

TOK = re.compile(r'\s*(?:(\d+\.\d+(?:[eE][+-]?\d+)?|\d+)|("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\')|([A-Za-z_]\w*)|(==|!=|<=|>=|//|\*\*|[-+*/%<>()\[\]{}.,:|~=]))')

def lex(s):
    i, r = 0, []
    while s[i:].strip():
        m = TOK.match(s, i)
        if not m: raise TemplateSyntaxError('cannot read %r' % s[i:])
        i = m.end()
        n, q, w, o = m.groups()
        # a number after a dot is an index (a.0), and "a.0.1" must not be read as one float
        if n is not None and '.' in n and r and r[-1] == ('o', '.'):
            a, b = n.split('.', 1); r += [('n', int(a)), ('o', '.'), ('n', int(b))]
        elif n is not None: r.append(('n', float(n) if ('.' in n or 'e' in n or 'E' in n) else int(n)))
        elif q is not None: r.append(('s', q[1:-1].encode('latin1', 'backslashreplace').decode('unicode_escape')))
        elif w is not None: r.append(('w', w))
        else: r.append(('o', o))
    return r + [('e', None)]

FILTERS = {'length': len, 'count': len, 'int': lambda v, d=0: int(v), 'float': lambda v, d=0.0: float(v), 'string': str, 'upper': lambda v: str(v).upper(), 'lower': lambda v: str(v).lower(), 'trim': lambda v: str(v).strip(),
    'join': lambda v, d='', attribute=None: d.join(str(getattr(x, attribute) if attribute else x) for x in v), 'first': lambda v: next(iter(v)), 'last': lambda v: list(v)[-1], 'list': list, 'abs': abs, 'round': round, 'sum': sum, 'max': max, 'min': min,
    'default': lambda v, d='', b=False: d if isinstance(v, Undefined) or (b and not v) else v, 'replace': lambda v, a, b: str(v).replace(a, b), 'capitalize': lambda v: str(v).capitalize(), 'title': lambda v: str(v).title(), 'reverse': lambda v: list(v)[::-1], 'sort': sorted, 'unique': lambda v: list(dict.fromkeys(v)), 'safe': lambda v: v, 'e': lambda v: v, 'escape': lambda v: v, 'format': lambda v, *a: v % a, 'map': lambda v, f=None, attribute=None: [getattr(x, attribute) if attribute else FILTERS[f](x) for x in v], 'items': lambda v: list(v.items()), 'batch': lambda v, n: [list(v)[i:i + n] for i in range(0, len(list(v)), n)], 'd': lambda v, d='', b=False: d if isinstance(v, Undefined) or (b and not v) else v}
TESTS = {'defined': lambda v: not isinstance(v, Undefined), 'undefined': lambda v: isinstance(v, Undefined), 'none': lambda v: v is None, 'odd': lambda v: v % 2 == 1, 'even': lambda v: v % 2 == 0, 'number': lambda v: isinstance(v, (int, float)), 'string': lambda v: isinstance(v, str), 'iterable': lambda v: hasattr(v, '__iter__'), 'sequence': lambda v: hasattr(v, '__len__'), 'divisibleby': lambda v, n: v % n == 0, 'equalto': lambda v, n: v == n, 'eq': lambda v, n: v == n, 'ne': lambda v, n: v != n, 'mapping': lambda v: isinstance(v, dict), 'true': lambda v: v is True, 'false': lambda v: v is False, 'in': lambda v, s: v in s, 'sameas': lambda v, n: v is n, 'lt': lambda v, n: v < n, 'gt': lambda v, n: v > n, 'le': lambda v, n: v <= n, 'ge': lambda v, n: v >= n}

def getitem(o, k):
    if isinstance(k, str):
        if hasattr(o, k): return getattr(o, k)
    try: return o[k]
    except (TypeError, LookupError, AttributeError): return Undefined(str(k))
def subscript(o, k):
    try: return o[k]
    except (TypeError, LookupError, AttributeError):
        if isinstance(k, str) and hasattr(o, k): return getattr(o, k)
        if isinstance(o, Undefined): o._err()
        return Undefined(str(k))

class P(object):
    """expression parser, builds closures over the context"""
    def __init__(s, text): s.t = lex(text); s.i = 0
    def pk(s, *ops): return s.t[s.i][1] if s.t[s.i][0] in 'ow' and s.t[s.i][1] in ops else None
    def nx(s): s.i += 1; return s.t[s.i - 1]
    def need(s, op):
        if s.t[s.i] != ('o', op): raise TemplateSyntaxError('expected %r near %r' % (op, s.t[s.i:]))
        s.i += 1
    def done(s):
        if s.t[s.i][0] != 'e': raise TemplateSyntaxError('unexpected %r' % (s.t[s.i:],))
    def expr(s):
        a = s.or_()
        if s.pk('if'):
            s.nx(); c = s.or_(); b = None
            if s.pk('else'): s.nx(); b = s.expr()
            return lambda x: a(x) if c(x) else (b(x) if b else Undefined())
        return a
    def or_(s):
        a = s.and_()
        while s.pk('or'): s.nx(); a = (lambda p, q: lambda x: p(x) or q(x))(a, s.and_())
        return a
    def and_(s):
        a = s.not_()
        while s.pk('and'): s.nx(); a = (lambda p, q: lambda x: p(x) and q(x))(a, s.not_())
        return a
    def not_(s):
        if s.pk('not'): s.nx(); a = s.not_(); return lambda x: not a(x)
        return s.cmp()
    def cmp(s):
        a = s.add(); parts = []
        while True:
            o = s.pk('==', '!=', '<', '>', '<=', '>=', 'in')
            if o: s.nx()
            elif s.pk('not') and s.t[s.i + 1] == ('w', 'in'): s.nx(); s.nx(); o = 'not in'
            else: break
            parts.append((o, s.add()))
        if not parts: return a
        F = {'==': lambda p, q: p == q, '!=': lambda p, q: p != q, '<': lambda p, q: p < q, '>': lambda p, q: p > q, '<=': lambda p, q: p <= q, '>=': lambda p, q: p >= q, 'in': lambda p, q: p in q, 'not in': lambda p, q: p not in q}
        if len(parts) == 1: o, b = parts[0]; return lambda x: F[o](a(x), b(x))
        def run(x):
            l = a(x)
            for o, b in parts:
                r = b(x)
                if not F[o](l, r): return False
                l = r
            return True
        return run
    def bin(s, sub, table):
        a = sub()
        while True:
            o = s.pk(*table)
            if not o: return a
            s.nx(); a = (lambda p, q, f: lambda x: f(p(x), q(x)))(a, sub(), table[o])
    def add(s): return s.bin(s.mul, {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '~': lambda p, q: str(p) + str(q)})
    def mul(s): return s.bin(s.un, {'*': lambda p, q: p * q, '/': lambda p, q: p / q, '//': lambda p, q: p // q, '%': lambda p, q: p % q})
    def un(s):
        if s.pk('-'): s.nx(); a = s.un(); return lambda x: -a(x)
        if s.pk('+'): s.nx(); return s.un()
        a = s.post(s.prim())
        if s.pk('**'): s.nx(); b = s.un(); return (lambda p, q: lambda x: p(x) ** q(x))(a, b)
        return a
    def args(s, close):
        a, k = [], {}
        while not s.pk(close):
            if s.t[s.i][0] == 'w' and s.t[s.i + 1] == ('o', '='): n = s.nx()[1]; s.nx(); k[n] = s.expr()
            else: a.append(s.expr())
            if s.pk(','): s.nx()
        s.nx(); return a, k
    def prim(s):
        k, v = s.nx()
        if k in 'ns': return lambda x: v
        if k == 'w':
            if v in ('true', 'True'): return lambda x: True
            if v in ('false', 'False'): return lambda x: False
            if v in ('none', 'None'): return lambda x: None
            return lambda x: x.get(v)
        if v == '(':
            if s.pk(')'): s.nx(); return lambda x: ()
            a = [s.expr()]; tup = False
            while s.pk(','):
                tup = True; s.nx()
                if s.pk(')'): break
                a.append(s.expr())
            s.need(')'); return (lambda x: tuple(e(x) for e in a)) if tup else a[0]
        if v == '[': a, _ = s.args(']'); return lambda x: [e(x) for e in a]
        if v == '{':
            it = []
            while not s.pk('}'):
                a = s.expr(); s.need(':'); it.append((a, s.expr()))
                if s.pk(','): s.nx()
            s.nx(); return lambda x: {a(x): b(x) for a, b in it}
        raise TemplateSyntaxError('unexpected %r' % (v,))
    def post(s, a):
        while True:
            if s.pk('.'):
                s.nx(); k, v = s.nx(); a = (lambda p, v: lambda x: getitem(p(x), v))(a, v)
            elif s.pk('['):
                s.nx(); part, col = [None], False
                while not s.pk(']'):
                    if s.pk(':'): s.nx(); part.append(None); col = True
                    else: part[-1] = s.expr()
                s.nx()
                if col: a = (lambda p, q: lambda x: p(x)[slice(*[e(x) if e else None for e in q])])(a, part)
                else: a = (lambda p, q: lambda x: subscript(p(x), q(x)))(a, part[0])
            elif s.pk('('):
                s.nx(); ar, kw = s.args(')'); a = (lambda p, ar, kw: lambda x: p(x)(*[e(x) for e in ar], **{n: e(x) for n, e in kw.items()}))(a, ar, kw)
            elif s.pk('|'):
                s.nx(); n = s.nx()[1]; ar, kw = [], {}
                if s.pk('('): s.nx(); ar, kw = s.args(')')
                if n not in FILTERS: raise TemplateSyntaxError('stand-in jinja2 has no filter %r' % n)
                a = (lambda p, f, ar, kw: lambda x: f(p(x), *[e(x) for e in ar], **{n: e(x) for n, e in kw.items()}))(a, FILTERS[n], ar, kw)
            elif s.pk('is'):
                s.nx(); neg = bool(s.pk('not')) and bool(s.nx()); n = s.nx()[1]; ar = []
                if n not in TESTS: raise TemplateSyntaxError('stand-in jinja2 has no test %r' % n)
                if s.pk('('): s.nx(); ar, _ = s.args(')')
                elif s.t[s.i][0] in 'ns' or (s.t[s.i][0] == 'w' and s.t[s.i][1] not in ('and', 'or', 'else', 'if', 'not', 'in')): ar = [s.prim()]
                a = (lambda p, f, ar, neg: lambda x: bool(f(p(x), *[e(x) for e in ar])) != neg)(a, TESTS[n], ar, neg)
            else: return a

class Ctx(object):
    def __init__(s, d, up=None): s.d = d; s.up = up
    def get(s, n):
        c = s
        while c is not None:
            if n in c.d: return c.d[n]
            c = c.up
        return Undefined(n)

class Loop(object):
    def __init__(s, i, n): s.index0, s.index, s.first, s.last, s.length, s.revindex, s.revindex0 = i, i + 1, i == 0, i == n - 1, n, n - i, n - i - 1
    def cycle(s, *a): return a[s.index0 % len(a)]

class Namespace(object):
    def __init__(s, **k): s.__dict__.update(k)

class Template(object):
    def __init__(s, src, env=None):
        s.env = env or Environment(); src = src.replace('\r\n', '\n')
        if src.endswith('\n') and not s.env.keep_trailing_newline: src = src[:-1]
        parts = re.split(r'(\{%-?\+?.*?-?\+?%\}|\{\{-?.*?-?\}\}|\{#.*?#\})', src, flags=re.S); toks = []; lstrip = False
        for k, p in enumerate(parts):
            if k % 2 == 0:
                if lstrip: p = p.lstrip(); lstrip = False
                if s.env.trim_blocks and toks and toks[-1][0] in ('b', 'c') and p.startswith('\n'): p = p[1:]
                if k + 1 < len(parts):
                    n = parts[k + 1]
                    if n[2] == '-': p = p.rstrip()
                    elif s.env.lstrip_blocks and n[1] in '%#': p = re.sub(r'(^|\n)[ \t]*$', lambda m: m.group(1), p)
                toks.append(('t', p))
            else:
                inner = p[2:-2]
                if inner[:1] in '-+': inner = inner[1:]
                if inner[-1:] == '-': inner = inner[:-1]; lstrip = True
                toks.append(({'{%': 'b', '{{': 'v', '{#': 'c'}[p[:2]], inner.strip()))
        s.t, s.i = toks, 0; s.nodes, end = s.block(())
    def block(s, ends):
        r = []
        while s.i < len(s.t):
            k, v = s.t[s.i]; s.i += 1
            if k == 't': r.append((lambda v: lambda x, o: o.append(v))(v))
            elif k == 'v':
                p = P(v); e = p.expr(); p.done(); r.append((lambda e: lambda x, o: o.append(str(e(x))))(e))
            elif k == 'b':
                w = re.match(r'\w+', v); w = w.group(0) if w else ''; rest = v[len(w):].strip()
                if w in ends: return r, (w, rest)
                if w == 'if': r.append(s.if_(rest))
                elif w == 'for': r.append(s.for_(rest))
                elif w == 'set':
                    n, _, e = rest.partition('='); p = P(e); e = p.expr(); p.done(); n = n.strip()
                    def st(x, o, n=n, e=e):
                        if '.' in n: a, b = n.split('.'); setattr(x.get(a), b, e(x))
                        else: x.d[n] = e(x)
                    r.append(st)
                elif w == 'include':
                    p = P(rest); e = p.expr(); r.append((lambda e: lambda x, o: [n(x, o) for n in s.env.get_template(e(x)).nodes])(e))
                elif w == 'raw':
                    while s.t[s.i][1] != 'endraw' and s.i < len(s.t): r.append((lambda v: lambda x, o: o.append(v))(s.t[s.i][1])); s.i += 1
                    s.i += 1
                else: raise TemplateSyntaxError('stand-in jinja2 has no tag %r' % w)
        if ends: raise TemplateSyntaxError('missing %s' % (ends,))
        return r, None
    def if_(s, cond):
        br = []
        p = P(cond); c = p.expr(); p.done()
        while True:
            body, (w, rest) = s.block(('elif', 'else', 'endif')); br.append((c, body))
            if w == 'elif': p = P(rest); c = p.expr(); p.done()
            elif w == 'else': body, _ = s.block(('endif',)); br.append((None, body)); break
            else: break
        def run(x, o):
            for c, b in br:
                if c is None or c(x):
                    for n in b: n(x, o)
                    return
        return run
    def for_(s, head):
        m = re.match(r'([\w\s,]+?)\s+in\s+(.*)$', head, re.S)
        if not m: raise TemplateSyntaxError('bad for: %r' % head)
        names = [n.strip() for n in m.group(1).split(',')]; p = P(m.group(2)); e = p.or_(); flt = None
        if p.pk('if'): p.nx(); flt = p.expr()
        p.done(); body, (w, _) = s.block(('endfor', 'else')); els = []
        if w == 'else': els, _ = s.block(('endfor',))
        def run(x, o):
            it = e(x); it = list(it.items()) if isinstance(it, dict) and len(names) == 2 else list(it); sel = []
            for v in it:
                d = dict(zip(names, v)) if len(names) > 1 else {names[0]: v}
                if flt is None or flt(Ctx(d, x)): sel.append(d)
            for k, d in enumerate(sel):
                d['loop'] = Loop(k, len(sel)); c = Ctx(d, x)
                for n in body: n(c, o)
            if not sel:
                for n in els: n(x, o)
        return run
    def render(s, *a, **k):
        d = dict(*a); d.update(k); o = []
        g = {'range': range, 'namespace': Namespace, 'dict': dict}; g.update(s.env.globals); x = Ctx(d, Ctx(g))
        for n in s.nodes: n(x, o)
        return ''.join(o)

class FileSystemLoader(object):
    def __init__(s, path, **k): s.paths = [path] if isinstance(path, str) else list(path)
    def read(s, name):
        for p in s.paths:
            f = os.path.join(p, name)
            if os.path.isfile(f): return open(f, newline='').read()
        raise TemplateNotFound(name)
class DictLoader(object):
    def __init__(s, d): s.d = d
    def read(s, name):
        if name not in s.d: raise TemplateNotFound(name)
        return s.d[name]
class Environment(object):
    def __init__(s, loader=None, trim_blocks=False, lstrip_blocks=False, keep_trailing_newline=False, undefined=None, **k):
        s.loader, s.trim_blocks, s.lstrip_blocks, s.keep_trailing_newline = loader, trim_blocks, lstrip_blocks, keep_trailing_newline; s.globals = {}; s.filters = FILTERS; s.tests = TESTS; s.cache = {}
    def get_template(s, name):
        if name not in s.cache: s.cache[name] = Template(s.loader.read(name), s)
        return s.cache[name]
    def from_string(s, t): return Template(t, s)
