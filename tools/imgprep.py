"""Symbolic runs of /repo's util/prepare_images.py (C31): sizes, positions and the dimensions of the images are symbolic integers;
PIL is a stand-in that records, as terms, which part of which image every saved picture shows and at what size."""
import sys, os, io, re, contextlib, importlib.util, types, shutil, builtins, z3
import symx
from symx import Explorer, Fixed, choose, sym, Infeasible, Limit, SymInt, SymFrac, _i, tobool, _eq
MAXD = 65535
FILES = [('ILSVRC2012_val_00000001.JPEG', 1), ('ILSVRC_2.JPEG', 1), ('cat.JPEG', 1), ('notes.txt', 0), ('ILSVRC_list.txt', 0), ('JPEG', 0), ('ILSVRC.JPEG.bak', 0), ('dog.png', 0)]

class Meta(type):
    def __instancecheck__(c, x): return isinstance(x, builtins.int) or isinstance(x, SymInt)
    def __eq__(c, o): return o is c or o is builtins.int
    def __hash__(c): return hash(builtins.int)
class Int(metaclass=Meta):
    """int() of the utility: command line words may stand for symbolic integers"""
    words = {}; __name__ = 'int'
    def __new__(c, *a, **k):
        if a and isinstance(a[0], str) and a[0] in Int.words: return Int.words[a[0]]
        if a and isinstance(a[0], (SymInt, SymFrac)): return a[0].__trunc__()
        return builtins.int(*a, **k)

class Img(object):
    """a picture: its size and the part of the file it shows"""
    format = 'JPEG'; mode = 'RGB'; info = {}
    def __init__(s, lib, file, w, h, box, scaled=False): s.lib, s.file, s.width, s.height, s.box, s.scaled = lib, file, w, h, box, scaled
    size = property(lambda s: (s.width, s.height))
    def __enter__(s): return s
    def __exit__(s, *a): pass
    def close(s): pass
    def load(s): pass
    def copy(s): return Img(s.lib, s.file, s.width, s.height, s.box, s.scaled)
    def convert(s, *a, **k): return s.copy()
    def resize(s, size, resample=None, box=None, reducing_gap=None):
        c = s if box is None else s.crop(box); w, h = size
        if bool(w <= 0) or bool(h <= 0): raise ValueError('height and width must be > 0')
        return Img(s.lib, s.file, w, h, c.box, c.scaled or not (bool(w == c.width) and bool(h == c.height)))
    def crop(s, box=None):
        if box is None: return s.copy()
        l, t, r, b = [round(v) if isinstance(v, (float, SymFrac)) else v for v in box]
        if bool(r < l): raise ValueError("Coordinate 'right' is less than 'left'")
        if bool(b < t): raise ValueError("Coordinate 'lower' is less than 'upper'")
        if s.scaled: raise Limit('crop of a scaled picture')
        return Img(s.lib, s.file, r - l, b - t, (s.box[0] + l, s.box[1] + t, s.box[0] + r, s.box[1] + b), False)
    def save(s, path, *a, **k):
        path = os.path.abspath(os.fspath(path)); open(path, 'wb').close(); s.lib.saved.append((path, s))

class Lib(object):
    def __init__(s, repo, scratch):
        s.repo, s.scratch, s.called = repo, scratch, set(); os.makedirs(scratch, exist_ok=True); s.mod = None; s.saved = []; s.dims = {}
        I = types.ModuleType('PIL.Image'); I.open = s.open; I.Image = Img
        for n in ('ANTIALIAS', 'LANCZOS', 'BICUBIC', 'BILINEAR', 'NEAREST', 'BOX', 'HAMMING'): setattr(I, n, n)
        I.Resampling = types.SimpleNamespace(**{n: n for n in ('LANCZOS', 'BICUBIC', 'BILINEAR', 'NEAREST', 'BOX', 'HAMMING')})
        P = types.ModuleType('PIL'); P.Image = I; sys.modules['PIL'] = P; sys.modules['PIL.Image'] = I
    def open(s, f, mode='r', *a, **k):
        n = os.path.basename(f if isinstance(f, (str, os.PathLike)) else f.name)
        if n not in s.dims: raise OSError('cannot identify image file %r' % n)
        w, h = s.dims[n]; return Img(s, n, w, h, (0, 0, w, h))
    def main(s, argv, words):
        """-> why it stopped"""
        if s.mod is None:
            sp = importlib.util.spec_from_file_location('util_prepare_images', s.repo + '/util/prepare_images.py'); s.mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(s.mod)
            for n, f in s.mod.__dict__.items():
                if isinstance(f, types.FunctionType) and f.__module__ == 'util_prepare_images': s.called.add('prepare_images.py:' + n)
        Int.words = words; s.mod.__dict__['int'] = Int; old = sys.argv; sys.argv = ['prepare_images'] + argv; why = ''
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): s.mod.main()
        except SystemExit as e: why = 'exit %s' % e.code
        except (Infeasible, Limit): raise
        except Exception as e: why = '%s: %s' % (type(e).__name__, e)
        finally: sys.argv = old
        return why

def word(words, n, v):
    """the command line word for a value"""
    if isinstance(v, SymInt): words['<%s>' % n] = v; return '<%s>' % n
    return str(v)
def setup(lib, files):
    d = lib.scratch + '/img'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); lib.saved = []; lib.dims = {}
    for i, (f, jpeg) in enumerate(files):
        open(d + '/' + f, 'wb').close()
        if jpeg: lib.dims[f] = (sym('W%d' % i, 1, MAXD), sym('H%d' % i, 1, MAXD))
    return d
NUM = re.compile(r'VPE_\d+_|(?<![A-Za-z0-9_.])\d+(?=x)|(?<=x)\d+(?=[_/]|$)')
def same_text(a, b):
    """terms that have to be equal for two texts to agree, or None"""
    if NUM.split(a) != NUM.split(b): return None
    val = lambda t: z3.IntVal(t) if t[0] != 'V' else symx.TOKEXPR[t][0]
    return [val(x) == val(y) for x, y in zip(NUM.findall(a), NUM.findall(b))]
def eqs(p, q): return [tobool(_eq(x, y)) for x, y in zip(p, q)]
def expect(why, lib, d, rounds, mode, w, h, pos, files, claim):
    """claim(condition, text) for everything the run has to satisfy"""
    sub, pre = dict(scale=('scaled', 'scale'), center_crop=('center_cropped', 'center_crop'), crop=('cropped', 'crop'))[mode]
    todo = [f for f, j in files if j and (mode != 'crop' or f.startswith('ILSVRC'))]; fits = z3.BoolVal(True)
    if mode == 'crop': fits = z3.And([z3.And(_i(pos[0]) + _i(w) < _i(lib.dims[f][0]), _i(pos[1]) + _i(h) < _i(lib.dims[f][1])) for f in todo])
    if why: claim(z3.Not(fits), 'stops although every image is large enough: ' + why)
    if mode == 'crop' and not why: claim(z3.And([z3.And(_i(pos[0]) + _i(w) <= _i(lib.dims[f][0]), _i(pos[1]) + _i(h) <= _i(lib.dims[f][1])) for f in todo]), 'a crop that leaves the image is not reported')
    n = {f: 0 for f in todo}
    for path, im in lib.saved:
        if im.file not in n: claim(z3.BoolVal(False), '%s is not to be processed' % im.file); continue
        n[im.file] += 1; W, H = lib.dims[im.file]
        t = same_text(os.path.relpath(path, d), '%s_%sx%s/%sx%s_%s_%s' % (sub, w, h, w, h, pre, im.file)); claim(z3.And(t) if t is not None else z3.BoolVal(False), 'name of the result is ' + os.path.relpath(path, d))
        claim(z3.And(eqs(im.size, (w, h))), 'size of the result')
        if mode == 'scale': claim(z3.And(eqs(im.box, (0, 0, W, H))), 'the whole image is scaled')
        else: claim(z3.BoolVal(not im.scaled), 'a crop is not scaled')
        if mode == 'crop': claim(z3.And(eqs(im.box, (pos[0], pos[1], pos[0] + w, pos[1] + h))), 'the crop starts at the requested position'); claim(z3.And(_i(pos[0]) + _i(w) <= _i(W), _i(pos[1]) + _i(h) <= _i(H)), 'the crop lies inside the image')
        if mode == 'center_crop':
            for lo, hi, full, ax in ((im.box[0], im.box[2], W, 'horizontally'), (im.box[1], im.box[3], H, 'vertically')): m = _i(lo) - (_i(full) - _i(hi)); claim(z3.And(m >= -1, m <= 1), 'the crop is centred ' + ax)
    if not why:
        for f in todo: claim(z3.BoolVal(n[f] == rounds), '%s is written %d times in %d runs' % (f, n[f], rounds))
def f_mode(lib, mode):
    k = choose('files', [0, 1, 2]); files = [FILES[:1] + FILES[3:4], FILES, FILES[2:3] + FILES[1:2] + FILES[4:7]][k]; d = setup(lib, files); words = {}
    w = sym('w', 1, MAXD); square = choose('square', [0, 1]); h = w if square else sym('h', 1, MAXD); pos = None; argv = ['--directory', d + choose('slash', ['', '/']), '--mode', mode, '--size', word(words, 'w', w)] + ([] if square else [word(words, 'h', h)])
    if mode == 'crop':
        x = sym('x', 0, MAXD); one = choose('one', [0, 1]); y = x if one else sym('y', 0, MAXD); pos = (x, y); argv += ['--crop_pos', word(words, 'x', x)] + ([] if one else [word(words, 'y', y)])
    rounds = choose('rounds', [1, 2]); why = ''
    for _ in range(rounds): why = why or lib.main(argv, words)
    return lambda claim: expect(why, lib, d, rounds, mode, w, h, pos, files, claim)
def f_refused(lib):
    d = setup(lib, FILES[:4]); words = {}; w, h, c, x, y = [sym(n, 1, MAXD) for n in 'whcxy']; q = lambda *a: [word(words, n, v) for n, v in a]
    W, Hh, C, X, Y = ('w', w), ('h', h), ('c', c), ('x', x), ('y', y)
    a = choose('arguments', [['--mode', 'scale', '--size'] + q(W, Hh, C), ['--mode', 'center_crop', '--size'] + q(W, Hh, C), ['--mode', 'crop', '--crop_pos', '1', '--size'] + q(W, Hh, C), ['--mode', 'crop', '--size'] + q(W, Hh), ['--mode', 'crop', '--size'] + q(W, Hh) + ['--crop_pos'] + q(X, Y, C), ['--mode', 'other', '--size'] + q(W, Hh), ['--mode', 'Scale', '--size'] + q(W, Hh), ['--mode', 'scale'], ['--size'] + q(W, Hh)])
    why = lib.main(['--directory', d] + a, words); n = len(lib.saved)
    return lambda claim: claim(z3.BoolVal(n == 0), 'something is written although the arguments are not usable: ' + ' '.join(a))
FAMS = dict(scale=lambda l: f_mode(l, 'scale'), center=lambda l: f_mode(l, 'center_crop'), crop=lambda l: f_mode(l, 'crop'), refused=f_refused)
class Claims(object):
    def __init__(s): s.bad = []
    def __call__(s, c, text):
        if not z3.is_true(z3.simplify(c)): s.bad.append(text)
def one(lib, name, f, out):
    ex = Explorer(max_paths=20000); viol, errors, n, seen = [], [], 0, set()
    for fin, exc, pc in ex.explore(lambda: f(lib)):
        if exc is not None: errors.append('%s: %s: %s' % (name, type(exc).__name__, exc)); continue
        bad = []
        def claim(c, text):
            m = ex.valid(c)
            if m is not None: bad.append((text, ex.values(m)))
        try: fin(claim)
        except Limit as e: errors.append('%s: %s' % (name, e)); continue
        for text, vals in bad[:2]:
            with Fixed(vals): pf = f(lib)
            c = Claims(); pf(c)
            if c.bad: (c.bad[0] in seen) or viol.append(dict(kind='image', entry=name, msg=c.bad[0], where=name, inputs=vals, log='', replayed='plain run of the utility with these sizes')); seen.add(c.bad[0])
            else: errors.append('%s: counterexample %s (%s) is not confirmed by a plain run' % (name, vals, text))
        if not bad: # the plain run of this path satisfies the same
            with Fixed(dict(ex.model or {})): pf = f(lib)
            c = Claims(); pf(c)
            if c.bad: errors.append('%s: a plain run disagrees: %s' % (name, c.bad[0]))
            else: n += 1
        if len(viol) >= 4: break
    r = dict(errors=errors[:3] if not viol else [], notes=[], violations=viol[:3], src=[], entries=[], functions=sorted(lib.called))
    r['stats'] = dict(paths=ex.paths, queries=ex.queries, solver_s=ex.solver_s, validated=n, accepted=n, obl=ex.obl); return r
