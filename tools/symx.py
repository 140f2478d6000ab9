"""Symbolic execution of Python code: integers and reals are proxies around Z3 terms, every branch on one is decided by the
solver and forks when both sides are possible. Paths are explored by re-running the code with a longer decision prefix."""
import time, math, numbers, z3

class Infeasible(Exception): pass
class Limit(Exception): pass

class Explorer(object):
    cur = None; fixed = None; concrete = False; names = {}
    def __init__(s, timeout_ms=20000, max_paths=20000, deadline=None):
        s.todo = [[]]; s.paths = 0; s.queries = 0; s.solver_s = 0.0; s.forks = 0; s.unknown = 0; s.timeout = timeout_ms; s.max_paths = max_paths; s.deadline = deadline; s.obl = 0; s.concretised = 0
    def check(s, *cs):
        t = time.time(); s.queries += 1; r = s.sol.check(*cs); s.solver_s += time.time() - t
        if r == z3.unknown: s.unknown += 1
        return r
    def explore(s, fn):
        """runs fn once per path; yields (result, exception, path condition)"""
        while s.todo:
            if s.paths >= s.max_paths or (s.deadline and time.time() > s.deadline): raise Limit('%d paths explored, %d left' % (s.paths, len(s.todo)))
            s.prefix = s.todo.pop(); s.pos = 0; s.sol = z3.Solver(); s.sol.set('timeout', s.timeout); s.pc = []; s.names = {}; s.fresh = 0
            Explorer.cur = s; res = exc = None
            try: res = fn()
            except Infeasible: continue
            except Limit: raise
            except (Exception, SystemExit) as e: exc = e
            s.model = None
            if s.names:
                if s.check() == z3.unsat: continue
                s.model = s.values(s.sol.model())
            s.paths += 1
            try: yield res, exc, list(s.pc)
            finally: Explorer.cur = None
    def add(s, c):
        s.pc.append(c); s.sol.add(c)
    def assume(s, c):
        c = tobool(c)
        if z3.is_true(c): return
        s.add(c)
        if s.check() == z3.unsat: raise Infeasible()
    def branch(s, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.pos < len(s.prefix):
            d = s.prefix[s.pos]; s.pos += 1; s.add(c if d else z3.Not(c)); return d
        t = s.check(c) != z3.unsat; f = s.check(z3.Not(c)) != z3.unsat
        if not t and not f: raise Infeasible()
        d = t
        if t and f: s.forks += 1; s.todo.append(s.prefix[:s.pos] + [False])
        s.prefix = s.prefix[:s.pos] + [d]; s.pos += 1; s.add(c if d else z3.Not(c)); return d
    def concretise(s, e):
        """one path per value"""
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        s.concretised += 1
        while True:
            if s.pos < len(s.prefix): # a value tried before on this prefix
                v, d = s.prefix[s.pos]; s.pos += 1; s.add(e == v if d else e != v)
                if d: return v
                continue
            if s.check() != z3.sat: raise Infeasible()
            v = s.sol.model().eval(e, model_completion=True).as_long()
            if s.check(e != v) != z3.unsat: s.forks += 1; s.todo.append(s.prefix[:s.pos] + [(v, False)])
            s.prefix = s.prefix[:s.pos] + [(v, True)]; s.pos += 1; s.add(e == v); return v
    def values(s, m):
        r = {n: m.eval(e[0], model_completion=True) for n, e in s.names.items()}
        return {n: v.as_long() if z3.is_int_value(v) else float(v.numerator_as_long()) / float(v.denominator_as_long()) for n, v in r.items()}
    def valid(s, c):
        """does c hold for all values on this path? returns None or a counterexample model"""
        s.obl += 1; c = z3.simplify(tobool(c))
        if z3.is_true(c): return None
        r = s.check(z3.Not(c))
        if r == z3.unsat: return None
        if r == z3.unknown: raise Limit('solver gave no answer')
        return s.sol.model()

def _eq(a, b):
    r = a == b
    return r if isinstance(r, SymBool) else bool(r)
def tobool(c): return c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c)) if not z3.is_expr(c) else c

class SymBool(object):
    def __init__(s, e): s.e = e
    def __bool__(s): return Explorer.cur.branch(s.e)
    def __and__(s, o): return SymBool(z3.And(s.e, tobool(o)))
    def __or__(s, o): return SymBool(z3.Or(s.e, tobool(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(s): return SymBool(z3.Not(s.e))
    def __eq__(s, o): return SymBool(s.e == tobool(o))
    def __ne__(s, o): return SymBool(s.e != tobool(o))
    def __hash__(s): return 0
    def __int__(s): return int(bool(s))
    __index__ = __int__
    def __repr__(s): return repr(bool(s))
    def __add__(s, o): return int(bool(s)) + o
    __radd__ = __add__

def _i(o):
    if isinstance(o, SymInt): return o.e
    if isinstance(o, SymBool): return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, bool): return z3.IntVal(int(o))
    if isinstance(o, numbers.Integral): return z3.IntVal(int(o))
    return None
def _r(o):
    """(numerator, denominator > 0) over integers, or None"""
    if isinstance(o, SymFrac): return o.n, o.d
    i = _i(o)
    if i is not None: return i, z3.IntVal(1)
    if isinstance(o, numbers.Real) and not isinstance(o, SymFloat):
        f = float(o)
        if math.isinf(f) or math.isnan(f): return None
        n, d = f.as_integer_ratio(); return z3.IntVal(n), z3.IntVal(d)
    return None

def wrap(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SymInt(e)
def _pos(d):
    """the divisor's sign is settled on the path; zero raises as Python does"""
    if z3.is_int_value(d): v = d.as_long(); 
    else:
        x = Explorer.cur
        if x.branch(d == 0): raise ZeroDivisionError('division by zero')
        return 1 if x.branch(d > 0) else -1
    if v == 0: raise ZeroDivisionError('division by zero')
    return 1 if v > 0 else -1
def fdiv(a, b):
    s = _pos(b)
    if s < 0: a, b = -a, -b
    return wrap(a / b)   # Z3 integer division with a positive divisor rounds down
def fmod(a, b):
    q = fdiv(a, b); return wrap(a - _i(q) * b)

class SymInt(object):
    __array_priority__ = 1000
    def __init__(s, e): s.e = e
    def _bin(f):
        def op(s, o):
            i = _i(o)
            if i is None: return NotImplemented
            return f(s.e, i)
        return op
    __add__ = _bin(lambda a, b: wrap(a + b)); __radd__ = _bin(lambda a, b: wrap(b + a)); __sub__ = _bin(lambda a, b: wrap(a - b)); __rsub__ = _bin(lambda a, b: wrap(b - a))
    __floordiv__ = _bin(fdiv); __rfloordiv__ = _bin(lambda a, b: fdiv(b, a)); __mod__ = _bin(fmod); __rmod__ = _bin(lambda a, b: fmod(b, a))
    def __mul__(s, o):
        i = _i(o)
        if i is None:
            if isinstance(o, (list, tuple, str)): return o * int(s)
            return NotImplemented
        return wrap(s.e * i)
    __rmul__ = __mul__
    def __divmod__(s, o): return s // o, s % o
    def __rdivmod__(s, o): return o // s, o % s
    def __truediv__(s, o): return SymFrac(s.e, z3.IntVal(1)) / o
    def __rtruediv__(s, o): return SymFrac(_i(o), z3.IntVal(1)) / s if _i(o) is not None else NotImplemented
    def __neg__(s): return wrap(-s.e)
    def __pos__(s): return s
    def __abs__(s): return s if s >= 0 else -s
    def __pow__(s, k):
        r = 1
        for _ in range(int(k)): r = r * s
        return r
    def _cmp(f):
        def op(s, o):
            if isinstance(o, SymFrac): return NotImplemented
            i = _i(o)
            if i is None:
                q = _r(o)
                if q is None: return NotImplemented
                return SymBool(f(s.e * q[1], q[0]))
            return SymBool(f(s.e, i))
        return op
    __lt__ = _cmp(lambda a, b: a < b); __le__ = _cmp(lambda a, b: a <= b); __gt__ = _cmp(lambda a, b: a > b); __ge__ = _cmp(lambda a, b: a >= b)
    def __eq__(s, o):
        q = _r(o)
        return SymBool(s.e * q[1] == q[0]) if q is not None else False
    def __ne__(s, o):
        q = _r(o)
        return SymBool(s.e * q[1] != q[0]) if q is not None else True
    def __bool__(s): return Explorer.cur.branch(s.e != 0)
    def __hash__(s): return hash(int(s))
    def __int__(s): return Explorer.cur.concretise(s.e)
    __index__ = __int__
    def __float__(s): return float(int(s))
    def __floor__(s): return s
    __ceil__ = __trunc__ = __floor__
    def __round__(s, n=None): return s
    def item(s): return s
    def astype(s, *a, **k): return s
    def bit_length(s): return int(s).bit_length()
    real = property(lambda s: s); numerator = real
    def __repr__(s): return token(s.e)
    __str__ = __repr__
    def __format__(s, spec): return repr(s) if spec in ('', 'd', 's') else format(int(s), spec)
    def __copy__(s): return s
    def __deepcopy__(s, m): return s
numbers.Integral.register(SymInt)

TOKENS = {}; TOKEXPR = {}
def token(e):
    """a name standing for the term in generated text"""
    e = z3.simplify(e); k = ctext(e)
    if k not in TOKENS: TOKENS[k] = 'VPE_%d_' % len(TOKENS); TOKEXPR[TOKENS[k]] = (e, k)
    return TOKENS[k]

class SymFrac(object):
    """quotient of integers, as Python's true division yields it (rounding of the double is not modelled)"""
    __array_ufunc__ = None
    def __init__(s, n, d): s.n, s.d = n, d
    def _b(f):
        def op(s, o):
            q = _r(o)
            return NotImplemented if q is None else f(s.n, s.d, *q)
        return op
    __add__ = __radd__ = _b(lambda a, b, c, d: frac(a * d + c * b, b * d)); __sub__ = _b(lambda a, b, c, d: frac(a * d - c * b, b * d)); __rsub__ = _b(lambda a, b, c, d: frac(c * b - a * d, b * d)); __mul__ = __rmul__ = _b(lambda a, b, c, d: frac(a * c, b * d))
    def __truediv__(s, o):
        q = _r(o)
        if q is None: return NotImplemented
        g = _pos(q[0]); return frac(s.n * q[1] * g, s.d * q[0] * g)
    def __rtruediv__(s, o):
        q = _r(o); return frac(*q) / s
    def __floordiv__(s, o): return (s / o).__floor__()
    def __neg__(s): return frac(-s.n, s.d)
    __lt__ = _b(lambda a, b, c, d: SymBool(a * d < c * b)); __le__ = _b(lambda a, b, c, d: SymBool(a * d <= c * b)); __gt__ = _b(lambda a, b, c, d: SymBool(a * d > c * b)); __ge__ = _b(lambda a, b, c, d: SymBool(a * d >= c * b))
    def __eq__(s, o): q = _r(o); return False if q is None else SymBool(s.n * q[1] == q[0] * s.d)
    def __ne__(s, o): q = _r(o); return True if q is None else SymBool(s.n * q[1] != q[0] * s.d)
    def __hash__(s): return 0
    def __bool__(s): return Explorer.cur.branch(s.n != 0)
    def __floor__(s): return wrap(s.n / s.d)
    def __ceil__(s): return wrap(-((-s.n) / s.d))
    def __trunc__(s): return s.__floor__() if s >= 0 else s.__ceil__()
    __int__ = lambda s: int(s.__trunc__())
    def __round__(s, n=None):
        f = wrap((2 * s.n + s.d) / (2 * s.d)); return f if not (SymBool(z3.And((2 * s.n + s.d) % (2 * s.d) == 0, _i(f) % 2 == 1))) else f - 1
    def floor(s): return s.__floor__()
    def ceil(s): return s.__ceil__()
    def is_integer(s): return SymBool(s.n % s.d == 0)
    def __float__(s): raise Limit('a quotient of symbolic integers is needed as a float')
    def __repr__(s): return '((%s) / (double)(%s))' % (ctext(s.n), ctext(s.d))
def frac(n, d): return SymFrac(z3.simplify(n), z3.simplify(d))
numbers.Real.register(SymFrac)

class SymFloat(object):
    """an opaque float attribute with a name; comparisons fork, arithmetic and formatted output fix a value"""
    __array_ufunc__ = None
    PIN = 1.2345678300247528e-05 # representable in binary32, seven significant digits
    def __init__(s, name, e=None, calc=None): s.name, s.e, s.calc = name, e if e is not None else z3.Real('f_' + name), calc # calc: the value of a derived float once its operands are fixed
    def _q(o): return z3.RealVal(str(o)) if isinstance(o, int) else z3.RealVal('%d/%d' % float(o).as_integer_ratio()) if isinstance(o, numbers.Real) and not isinstance(o, (SymFloat, SymFrac, SymInt)) and math.isfinite(float(o)) else z3.ToReal(o.e) if isinstance(o, SymInt) else o.e if isinstance(o, SymFloat) else None
    def _c(f):
        def op(s, o):
            q = SymFloat._q(o); return NotImplemented if q is None else SymBool(f(s.e, q))
        return op
    __lt__ = _c(lambda a, b: a < b); __le__ = _c(lambda a, b: a <= b); __gt__ = _c(lambda a, b: a > b); __ge__ = _c(lambda a, b: a >= b)
    def __eq__(s, o): q = SymFloat._q(o); return False if q is None else SymBool(s.e == q)
    def __ne__(s, o): q = SymFloat._q(o); return True if q is None else SymBool(s.e != q)
    def __bool__(s): return Explorer.cur.branch(s.e != 0)
    def __hash__(s): return 0
    def pin(s):
        if s.calc: return s.calc()
        x = Explorer.cur; n, d = SymFloat.PIN.as_integer_ratio(); q = z3.RealVal('%d/%d' % (n, d))
        if x.branch(s.e == q): return SymFloat.PIN
        if not z3.is_const(s.e): raise Limit('arithmetic on a symbolic float')
        raise Infeasible() # a sampled value stands for the rest; recorded as a bound
    def __float__(s): return s.pin()
    def _whole(s, t, f):
        """an integer function of the float: each of its values on a path of its own, if they are few"""
        x = Explorer.cur; return f(s.pin()) if x.check(z3.Or(t > 40, t < -40)) != z3.unsat else x.concretise(t)
    def __int__(s): return s._whole(z3.If(s.e >= 0, z3.ToInt(s.e), -z3.ToInt(-s.e)), int)
    __trunc__ = __int__
    def __floor__(s): return s._whole(z3.ToInt(s.e), math.floor)
    def __ceil__(s): return s._whole(-z3.ToInt(-s.e), math.ceil)
    def __round__(s, n=None):
        if n is not None: return round(s.pin(), n)
        h = z3.ToInt(s.e + z3.Q(1, 2)); return s._whole(z3.If(z3.And(z3.ToReal(h) == s.e + z3.Q(1, 2), h % 2 == 1), h - 1, h), round)
    def is_integer(s): return SymBool(s.e == z3.ToReal(z3.ToInt(s.e)))
    def item(s): return s
    def __repr__(s): return 'VPF_' + s.name if not s.calc else repr(s.pin())
    __str__ = __repr__
    def __format__(s, spec): return repr(s) if spec in ('', 's', 'r') else format(s.pin(), spec)
    def _a(n):
        return lambda s, *o: getattr(s.pin(), n)(*[x.pin() if isinstance(x, SymFloat) else x for x in o])
    def _d(n, f):
        def op(s, *o):
            q = [SymFloat._q(x) for x in o]
            if any(x is None for x in q): return getattr(s.pin(), n)(*o)
            return SymFloat(None, f(s.e, *q), lambda: getattr(s.pin(), n)(*[x.pin() if isinstance(x, SymFloat) else float(x) for x in o]))
        return op
    __add__ = _d('__add__', lambda a, b: a + b); __radd__ = _d('__radd__', lambda a, b: b + a); __sub__ = _d('__sub__', lambda a, b: a - b); __rsub__ = _d('__rsub__', lambda a, b: b - a); __mul__ = _d('__mul__', lambda a, b: a * b); __rmul__ = _d('__rmul__', lambda a, b: b * a); __neg__ = _d('__neg__', lambda a: -a); __abs__ = _d('__abs__', lambda a: z3.If(a >= 0, a, -a))
    for _n in ('truediv', 'rtruediv', 'pow', 'floordiv', 'mod', 'hex'): locals()['__%s__' % _n if _n != 'hex' else 'hex'] = _a('__%s__' % _n if _n != 'hex' else 'hex')
numbers.Real.register(SymFloat)

def ctext(e):
    """C text of an integer or boolean term over int64 variables VPA_<name>"""
    k = e.decl().kind(); a = [ctext(c) for c in e.children()]
    if z3.is_int_value(e): return str(e.as_long())
    if z3.is_true(e): return '1'
    if z3.is_false(e): return '0'
    if z3.is_rational_value(e): return '(%s.0 / %s.0)' % (e.numerator_as_long(), e.denominator_as_long())
    if k == z3.Z3_OP_UNINTERPRETED: n = e.decl().name(); return 'VPF_' + n[2:] if z3.is_real(e) else 'VPA_' + n
    if k == z3.Z3_OP_TO_REAL: return '((double)%s)' % a[0]
    J = {z3.Z3_OP_ADD: ' + ', z3.Z3_OP_MUL: ' * ', z3.Z3_OP_SUB: ' - ', z3.Z3_OP_AND: ' && ', z3.Z3_OP_OR: ' || ', z3.Z3_OP_LE: ' <= ', z3.Z3_OP_GE: ' >= ', z3.Z3_OP_LT: ' < ', z3.Z3_OP_GT: ' > ', z3.Z3_OP_EQ: ' == ', z3.Z3_OP_DISTINCT: ' != '}
    if k in J: return '(' + J[k].join(a) + ')'
    if k == z3.Z3_OP_UMINUS: return '(-%s)' % a[0]
    if k == z3.Z3_OP_NOT: return '(!%s)' % a[0]
    if k == z3.Z3_OP_IDIV: return 'vp_fdiv(%s, %s)' % tuple(a)
    if k == z3.Z3_OP_MOD: return 'vp_fmod(%s, %s)' % tuple(a)
    if k == z3.Z3_OP_ITE: return '(%s ? %s : %s)' % tuple(a)
    if k == z3.Z3_OP_IMPLIES: return '(!%s || %s)' % tuple(a)
    raise Limit('no C text for %s' % e)

def sym(name, lo, hi):
    x = Explorer.cur
    if x.fixed is not None: return x.fixed[name]
    e = z3.Int(name); x.names[name] = (e, lo, hi); x.add(z3.And(e >= lo, e <= hi))
    if x.concrete: return x.concretise(e)
    return SymInt(e)
def choose(name, opts):
    """one of the options, each on a path of its own"""
    x = Explorer.cur
    if x.fixed is not None: return opts[x.fixed[name]]
    if not opts: raise Infeasible()
    e = z3.Int(name); x.names[name] = (e, 0, len(opts) - 1)
    if x.pos == len(x.prefix): # all options are possible: the variable is new
        x.forks += len(opts) - 1; x.concretised += 1; x.todo += [x.prefix[:x.pos] + [(i, True)] for i in range(len(opts) - 1, 0, -1)]; x.prefix = x.prefix[:x.pos] + [(0, True)]
    i = x.prefix[x.pos][0]; x.pos += 1; x.add(e == i); return opts[i]
def symf(name, lo=None, hi=None):
    x = Explorer.cur
    if x.fixed is not None: return x.fixed['f_' + name]
    f = SymFloat(name); x.names['f_' + name] = (f.e, lo, hi)
    if lo is not None: x.add(z3.And(f.e >= z3.RealVal(str(lo)), f.e <= z3.RealVal(str(hi))))
    return f

class Fixed(object):
    """concrete values for the symbolic ones: a plain run"""
    def __init__(s, vals): s.fixed = vals; s.concrete = True; s.names = {}
    def __enter__(s): s.old = Explorer.cur; Explorer.cur = s; return s
    def __exit__(s, *a): Explorer.cur = s.old
    def assume(s, c):
        if not c: raise Infeasible()
