"""C01: reading a .cxi file written from a dataset gives the dataset back."""
import copy
from .util import *
from . import spec
from vg.norm import (strip, same_value, eval_elementwise, CannotEval, laurent)
from vg import h5model

RULE = ('the composition of the writer (to_cxi and the add_* functions) and '
        'the reader (from_cxi and the get_* functions) over an abstract HDF5 '
        'file is normalised, per dataset field, to the identity')

STR_E = ['title', 'experiment_identifier', 'experiment_description',
         'program_name']
DATE_E = ['start_time', 'end_time']
STR_S = ['name', 'description', 'unit_cell_group']
FLT_S = ['concentration', 'mass', 'temperature', 'thickness',
         'unit_cell_volume']


def parse_hook(I, args, kw, node, fr):
    """dateutil.parser.parse: inverse of isoformat; an arbitrary string may
    happen to be a date, else ValueError."""
    s = strip(I.freeze(I.reduce(args[0])))
    if s.op == 'strmeth' and s.args[0] == 'isoformat':
        return s.args[1]
    if s.op == 'call' and s.args[0].op == 'attr' and \
            s.args[0].args[1] == 'isoformat':
        return s.args[0].args[0]
    if s.op == 'sym' and s.args[1] == 'str':
        c = mk('looks_like_date', (s,))
        base = I.st
        s1 = base.fork()
        s1.trace = list(base.trace)
        I.learn(s1, c, False)
        I.st = s1
        I.throw('ValueError', node, fr)
        I.st = base
        I.learn(I.st, c, True)
        return mk('parsed_date', (s,))
    return None


def make(prog, typ, absent=(), entry=True, extra=None):
    I = Interp(prog, {('ext', 'dateutil.parser.parse'): parse_hook})
    I.noexc = True
    cls = prog.cls('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset')
    F = {}

    def s(name, t=None, shape=None):
        x = sym('ds.' + name, t or typ)
        F[name] = x
        if shape:
            I.shapes[x] = tup(*shape)
        return x
    E = [(const(k), s('entry_info.' + k, 'str')) for k in STR_E] + \
        [(const(k), s('entry_info.' + k, 'datetime')) for k in DATE_E] + \
        [(const('polarization_states'),
          s('entry_info.polarization_states', 'ndarray', (4,)))]
    S = [(const(k), s('sample_info.' + k, 'str')) for k in STR_S] + \
        [(const(k), s('sample_info.' + k, 'float')) for k in FLT_S] + \
        [(const('unit_cell'), s('sample_info.unit_cell', 'ndarray', (6,))),
         (const('orientation'), s('sample_info.orientation', 'ndarray',
                                  (3, 3)))]
    D = [(const('distance'), s('detector_geometry.distance')),
         (const('basis'), s('detector_geometry.basis', None, (3, 2))),
         (const('corner'), s('detector_geometry.corner', None, (3,)))]
    n = sym('N', 'int')
    h, w = sym('H', 'int'), sym('W', 'int')
    attrs = {
        'entry_info': I.newdict(E), 'sample_info': I.newdict(S),
        'wavelength': s('wavelength'),
        'detector_geometry': I.newdict(D),
        'mask': s('mask', 'tensor', (h, w)),
        'qe_mask': s('qe_mask', 'tensor', (h, w)),
        'background': s('background', 'tensor', (h, w)),
        'patterns': s('patterns', 'tensor', (n, h, w)),
        'translations': s('translations', 'tensor', (n, 3)),
        'intensities': s('intensities', 'tensor', (n,)),
        'axes': I.newlist([const('translation'), const('y'), const('x')]),
    }
    for a in absent:
        if a == 'corner':
            d = attrs['detector_geometry']
            I.setobj(d, I.obj(d).drop(const('corner')))
        elif a == 'corner=None':
            d = attrs['detector_geometry']
            I.setobj(d, I.obj(d).put(const('corner'), NONE))
        elif a == 'no intensities attribute':
            attrs.pop('intensities')
        elif a in attrs:
            attrs[a] = NONE
    if extra:
        extra(I, attrs)
    ds = I.new('inst', cls, attrs)
    return I, cls, ds, F


def write(I, prog, cls, ds, via_path):
    m = method(prog, cls, 'to_cxi')
    if via_path:
        I.run(FuncVal(m), (ds, sym('path', 'str')), {})
        fs = I.hooks.get('%files', {})
        f = fs.get(sym('path', 'str'))
        return f
    # an open file prepared by create_cxi
    cc = prog.func('cdtools.tools.data.data', 'create_cxi')
    f = I.run(FuncVal(cc), (sym('path', 'str'),), {})
    I.run(FuncVal(m), (ds, f), {})
    return f


def read(I, prog, cls, f, via_path, **kw):
    m = method(prog, cls, 'from_cxi')
    arg = sym('path', 'str') if via_path else f
    r = I.run(FuncVal(m), (mk('class', (cls,)), arg), kw)
    r = I.reduce(r) if I.st is not None else UNDEF
    return r


def fld(I, ref, name):
    return I.getattr(ref, name)


def run(prog, rep, thorough):
    variants = []
    for typ in ('tensor', 'ndarray'):
        for via in (False, True):
            variants.append((typ, via, ()))
    for a in ('entry_info', 'sample_info', 'mask', 'qe_mask', 'background',
              'corner', 'corner=None', 'intensities',
              'no intensities attribute', 'axes'):
        variants.append(('tensor', False, (a,)))
    if thorough:
        opt = ('sample_info', 'mask', 'qe_mask', 'background', 'corner',
               'intensities', 'axes')
        import itertools
        for k in range(2, len(opt) + 1):
            for c in itertools.combinations(opt, k):
                variants.append(('tensor', False, c))
                variants.append(('ndarray', True, c))
    for typ, via, absent in variants:
        tag = '[%s fields, %s%s]' % (typ, 'by file name' if via else
                                     'open file',
                                     ', without ' + ','.join(absent)
                                     if absent else '')
        with rep.guard('round trip ' + tag):
            one(prog, rep, typ, via, absent, tag)
    base_class(prog, rep)
    extras(prog, rep)


def one(prog, rep, typ, via, absent, tag):
    I, cls, ds, F = make(prog, typ, absent)
    f = write(I, prog, cls, ds, via)
    w = where(method(prog, cls, 'to_cxi'))
    if I.st is None or f is None:
        rep.bad('cxi-write-fails:%s' % (','.join(absent) or 'all-fields'), w,
                'writing a dataset always raises ' + tag)
        return
    r = read(I, prog, cls, f, via)
    rep.saw(I)
    rw = where(method(prog, cls, 'from_cxi'))
    if I.st is None or r.op != 'ref':
        if I.st is None or r is UNDEF:
            rep.bad('cxi-read-fails:%s' % (','.join(absent) or 'all-fields'),
                    rw, 'reading back a written dataset always raises ' + tag)
        else:
            rep.und('round trip ' + tag, 'result not resolved')
        return
    if I.obj(r).cls is not cls:
        rep.bad('cxi-class', rw, 'the object read back is not of the class '
                'it was read through')
    check_fields(prog, rep, I, r, F, absent, tag, w)


def settle(rep, name, tag, got, want, w, ident=()):
    st, g = same_value(got, want, ident)
    key = 'cxi-roundtrip:%s' % name
    if st == 'same':
        rep.ok('%s %s' % (name, tag), 'normalises to the stored field')
    elif st in ('diff', 'diff?'):
        rep.bad(key, loc(g) if g.op not in ('const', 'undef') else w,
                '%s %s: value read back is %s, not the written field' % (
                    name, tag, show(g, 8)[:300]))
    else:
        rep.und('%s %s' % (name, tag), 'not normalised: ' + show(g, 6)[:200])


def check_fields(prog, rep, I, r, F, absent, tag, w):
    def g(name):
        return I.reduce(fld(I, r, name))

    def maxzero(x):
        # documented: cut_zeros clamps negative pixels of the patterns
        if x.op == 'f:maximum' and len(x.args) == 2:
            for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                if is_const(b) and cval(b) == 0:
                    return a
        if x.op == 'f:clamp' and cval(dict(x.kw).get('min', NONE)) == 0 and \
                dict(x.kw).get('max', NONE) is NONE:
            return x.args[0]
        return None

    def nanmean0(x):
        if x.op in ('f:nanmean', 'f:mean'):
            d = dict(x.kw).get('dim')
            if d is not None and d.op == 'tuple' and not d.args:
                return x.args[0]
        return None

    for name in ('wavelength', 'translations', 'patterns', 'qe_mask',
                 'background', 'intensities'):
        got = I.freeze(g(name))
        gone = name in absent or name == 'intensities' and \
            'no intensities attribute' in absent
        if gone:
            if strip(got) is NONE:
                rep.ok('absent %s %s' % (name, tag))
            elif is_const(strip(got)) or not any(
                    x.op == 'unknown' for x in walk(got)):
                rep.bad('cxi-roundtrip:absent-%s' % name, w,
                        'a dataset without %s is read back with %s' % (
                            name, show(got, 5)[:200]))
            else:
                rep.und('absent %s %s' % (name, tag), show(got)[:200])
            continue
        ids = {'patterns': (maxzero,), 'background': (nanmean0,)}.get(
            name, ())
        settle(rep, name, tag, got, F[name], w, ids)
    # mask: truth table over its two values
    if 'mask' in absent:
        got = strip(I.freeze(g('mask')))
        try:
            v = eval_elementwise(got, {})
            if v in (True, 1):
                rep.ok('absent mask reads back as all-good ' + tag)
            else:
                rep.bad('cxi-roundtrip:absent-mask', w,
                        'a missing mask is read back as %r' % (v,))
        except CannotEval as e:
            if got is NONE:
                rep.ok('absent mask ' + tag)
            else:
                rep.und('absent mask ' + tag, str(e))
    else:
        got = I.freeze(g('mask'))
        try:
            tt = {v: eval_elementwise(got, {F['mask']: v})
                  for v in (True, False)}
            if all(bool(tt[v]) == v for v in tt):
                rep.ok('mask %s' % tag, 'truth table %s' % tt)
            else:
                rep.bad('cxi-roundtrip:mask', loc(strip(got)),
                        'mask values %s are read back for (True, False)' % (
                            tt,))
        except CannotEval as e:
            if got is NONE or not any(x is F['mask'] for x in walk(got)) and \
                    not any(x.op == 'unknown' for x in walk(got)):
                rep.bad('cxi-roundtrip:mask', w, 'the mask is not read back')
            else:
                rep.und('mask %s' % tag, 'cannot evaluate %s' % e)
    # axes
    ax = I.reduce(g('axes')) if I.hasattr(r, 'axes') is TRUE else NONE
    if 'axes' in absent:
        if ax is NONE:
            rep.ok('absent axes ' + tag)
        else:
            rep.und('absent axes ' + tag, show(ax))
    else:
        seq = ops.sequence(I, ax)
        want = ['translation', 'y', 'x']
        if seq is not None and [cval(x) for x in seq] == want:
            rep.ok('axes ' + tag)
        elif seq is not None and all(is_const(x) for x in seq) or \
                ax is NONE:
            rep.bad('cxi-roundtrip:axes', w, 'axes %s are read back as %s' % (
                want, show(I.freeze(ax))))
        else:
            rep.und('axes ' + tag, show(I.freeze(ax)))
    # geometry
    dg = g('detector_geometry')
    o = I.obj(dg) if dg.op == 'ref' else None
    if o is None or o.kind != 'dict':
        rep.und('detector_geometry ' + tag, show(dg))
    else:
        for k in ('distance', 'basis', 'corner'):
            v = o.data.get(const(k), UNDEF)
            v = I.freeze(I.reduce(v))
            if k == 'corner' and ('corner' in absent or
                                  'corner=None' in absent):
                if strip(v) in (NONE, UNDEF):
                    rep.ok('absent corner ' + tag)
                else:
                    rep.bad('cxi-roundtrip:absent-corner', w,
                            'a corner position appears on reading: %s' %
                            show(v)[:200])
                continue
            settle(rep, 'detector_geometry.' + k, tag, v,
                   F['detector_geometry.' + k], w)
    # metadata dictionaries
    for dname in ('entry_info', 'sample_info'):
        d = g(dname)
        if dname in absent:
            if d is NONE or d.op == 'ref' and not I.obj(d).data:
                rep.ok('absent %s %s' % (dname, tag))
            else:
                rep.und('absent %s %s' % (dname, tag), show(I.freeze(d)))
            continue
        o = I.obj(d) if d.op == 'ref' else None
        if o is None or o.kind != 'dict':
            if d is NONE:
                rep.bad('cxi-roundtrip:' + dname, w, dname + ' is dropped')
            else:
                rep.und(dname + ' ' + tag, show(d))
            continue
        for full, F0 in F.items():
            if not full.startswith(dname + '.'):
                continue
            k = full.split('.', 1)[1]
            v = o.data.get(const(k), UNDEF)
            v = I.freeze(I.reduce(v))
            if k == 'orientation':
                orientation(rep, v, F0, tag, w)
                continue
            settle(rep, full, tag, v, F0, w)


class Rows(Exception):
    pass


def orientation(rep, v, F0, tag, w):
    """Rows of a rotation matrix: unit length, third = first x second."""
    name = 'sample_info.orientation'
    if v is UNDEF or v is NONE:
        rep.bad('cxi-roundtrip:' + name, w, 'the orientation is dropped')
        return
    A = [[('o', i, j) for j in range(3)] for i in range(3)]

    def go(x):
        if x is F0:
            return A
        if x.op == 'f:ravel' or x.op == 'f:flatten' or \
                x.op == 'f:reshape' and cval(dict(x.kw).get('shape')) == -1:
            m = go(x.args[0])
            return [e for row in m for e in row]
        if x.op == 'index':
            m, i = go(x.args[0]), x.args[1]
            if i.op == 'tuple' and len(i.args) == 1:
                i = i.args[0]
            if i.op == 'slice' and all(is_const(a) for a in i.args):
                return m[slice(*[cval(a) for a in i.args])]
            if is_const(i) and isinstance(cval(i), int):
                return m[cval(i)]
            raise Rows('index')
        if x.op == 'f:linalg.norm':
            m = go(x.args[0])
            if m in A:
                return 1.0
            raise Rows('norm of a part of a row')
        if x.op == 'bin' and x.args[0] == '/':
            m, d = go(x.args[1]), go(x.args[2])
            if d == 1.0:
                return m
            raise Rows('division')
        if x.op == 'const':
            return x.args[0]
        if x.op == 'f:cross' and len(x.args) >= 2:
            a, b = go(x.args[0]), go(x.args[1])
            for i in range(3):
                if a == A[i] and b == A[(i + 1) % 3]:
                    return A[(i + 2) % 3]
                if b == A[i] and a == A[(i + 1) % 3]:
                    return [('-',) + e for e in A[(i + 2) % 3]]
            raise Rows('cross product')
        if x.op in ('list', 'tuple'):
            return [go(a) for a in x.args]
        if x.op in ('f:stack', 'f:vstack'):
            return go(x.args[0])
        raise Rows(x.op)
    try:
        m = go(strip(v))
        if m == A:
            rep.ok(name + ' ' + tag)
        else:
            rep.bad('cxi-roundtrip:' + name, loc(strip(v)),
                    'a rotation matrix is read back as rows %r' % (m,))
    except (Rows, TypeError, IndexError) as e:
        rep.und(name + ' ' + tag, 'not evaluated: %s' % e)


def base_class(prog, rep):
    """CDataset itself, by file name and by open file."""
    cls = prog.cls('cdtools.datasets.base', 'CDataset')
    for via in (False, True):
        tag = '[CDataset, %s]' % ('by file name' if via else 'open file')
        with rep.guard('round trip ' + tag):
            I, _, ds, F = make(prog, 'tensor')
            o = I.obj(ds)
            data = {k: v for k, v in o.data.items() if k not in
                    ('patterns', 'translations', 'intensities', 'axes')}
            I.setobj(ds, HObj('inst', cls, data))
            f = write(I, prog, cls, ds, via)
            w = where(method(prog, cls, 'to_cxi'))
            if I.st is None or f is None:
                rep.bad('cxi-write-fails:CDataset-%s' % (
                    'path' if via else 'file'), w,
                    'writing a CDataset always raises ' + tag)
                continue
            r = read(I, prog, cls, f, via)
            rep.saw(I)
            if I.st is None or r.op != 'ref':
                rep.und('round trip ' + tag, 'not resolved')
                continue
            for name in ('wavelength', 'qe_mask'):
                settle(rep, 'CDataset.' + name, tag,
                       I.freeze(I.reduce(fld(I, r, name))), F[name], w)


def extras(prog, rep):
    """Redundant encodings agree: energy <-> wavelength, pixel sizes <->
    basis, and cut_zeros=False is the exact identity."""
    with rep.guard('energy'):
        I, cls, ds, F = make(prog, 'ndarray')
        f = write(I, prog, cls, ds, False)
        o = I.obj(f.args[0])
        I.setobj(f.args[0], o.drop(
            const('entry_1/instrument_1/source_1/wavelength')))
        r = read(I, prog, cls, f, False)
        rep.saw(I)
        settle(rep, 'wavelength-from-energy', '', I.freeze(I.reduce(
            fld(I, r, 'wavelength'))), F['wavelength'],
            where(prog.func('cdtools.tools.data.data', 'add_source')))
    with rep.guard('cut_zeros'):
        I, cls, ds, F = make(prog, 'tensor')
        f = write(I, prog, cls, ds, False)
        r = read(I, prog, cls, f, False, cut_zeros=FALSE)
        settle(rep, 'patterns', '[cut_zeros=False]', I.freeze(I.reduce(
            fld(I, r, 'patterns'))), F['patterns'],
            where(method(prog, cls, 'from_cxi')))
    with rep.guard('pixel size'):
        I, cls, ds, F = make(prog, 'ndarray')
        f = write(I, prog, cls, ds, False)
        o = I.obj(f.args[0])
        b = F['detector_geometry.basis']
        for path, col in (('x_pixel_size', 1), ('y_pixel_size', 0)):
            v = o.data.get(const('entry_1/instrument_1/detector_1/' + path))
            if v is None:
                rep.und(path, 'not written')
                continue
            v = strip(v)
            col_of = [mk('index', (b, mk('tuple', (mk('slice', (
                NONE, NONE, NONE)), const(c))))) for c in (0, 1)]
            hit = [c for c in (0, 1) if any(x is col_of[c] for x in walk(v))]
            if v.op == 'f:linalg.norm' and hit == [col]:
                rep.ok(path + ' is the norm of basis column %d' % col)
            elif v.op == 'f:linalg.norm' and hit == [1 - col]:
                rep.bad('cxi-pixel-size:' + path, loc(v),
                        '%s is computed from basis column %d; readers build '
                        'column %d from it' % (path, 1 - col, col))
            else:
                rep.und(path, show(v))
    for gone in (('basis_vectors',), ('basis_vectors', 'x_pixel_size'),
                 ('basis_vectors', 'y_pixel_size'), ('distance',),
                 ('corner_position',)):
        with rep.guard('without ' + ', '.join(gone)):
            implicit(prog, rep, gone)
    with rep.guard('surface normal'):
        normal(prog, rep)


def normal(prog, rep):
    """the orientation of samples given by their surface normal"""
    f = prog.func('cdtools.tools.data.data', 'get_sample_info')
    I, cls, ds, F = make(prog, 'ndarray')
    cxi = write(I, prog, cls, ds, False)
    n = sym('surface_normal', 'tensor')
    I.shapes[n] = tup(3)
    o = I.obj(cxi.args[0])
    for k in [k for k in o.data if is_const(k) and str(cval(k)).startswith(
            'entry_1/sample_1/geometry_1/')]:
        o = o.drop(k)
    I.setobj(cxi.args[0], o.put(const(
        'entry_1/sample_1/geometry_1/surface_normal'), n))
    t = 'get_sample_info[surface normal]'
    r = I.run(FuncVal(f), (cxi,), {})
    if I.st is None:
        rep.bad('cxi-geometry', where(f), '%s: raises' % t)
        return
    r = I.reduce(r)
    v = I.obj(r).data.get(const('orientation')) if r.op == 'ref' else None
    if v is None:
        rep.und(t, show(r))
        return
    v = peeled(I, v)
    want = I.reduce(deep(I, I.freeze(I.reduce(I.run(FuncVal(spec.ref(
        prog, 'cxi', 'orientation_from_normal')), (n,), {})))))
    g, q = [x.args[0].args if x.op == 'f:ndarray' and x.args[0].op == 'list'
            else () for x in (v, want)]
    if len(g) != 3 or len(q) != 3:
        rep.und(t, show(v, 5))
        return
    for k in range(3):
        spec.compare(rep, I, g[k], q[k], 'cxi-geometry', where(f), t,
                     'axis %d of the orientation' % k)


def peeled(I, v):
    """without the reading of a dataset and its precision"""
    v = I.reduce(deep(I, I.freeze(v)))
    while True:
        d = {z: z.args[0] for z in walk(v) if z.op in (
            'h5read', 'f:float32', 'f:float64', 'astype')}
        if not d:
            return v
        v = subst(v, d)


def implicit(prog, rep, gone):
    """the detector geometry of files which lack some of its entries"""
    f = prog.func('cdtools.tools.data.data', 'get_detector_geometry')
    I, cls, ds, F = make(prog, 'ndarray')
    cxi = write(I, prog, cls, ds, False)
    det = 'entry_1/instrument_1/detector_1/'
    o = I.obj(cxi.args[0])
    had = {k: o.data.get(const(det + k)) for k in (
        'x_pixel_size', 'y_pixel_size')}
    for k in gone:
        o = o.drop(const(det + k))
    I.setobj(cxi.args[0], o)
    t = 'get_detector_geometry[no %s]' % ', '.join(gone)
    r = I.run(FuncVal(f), (cxi,), {})
    if I.st is None:
        rep.bad('cxi-geometry', where(f), '%s: raises' % t)
        return
    rep.saw(I)
    r = I.reduce(deep(I, I.freeze(I.reduce(r))))
    if r.op != 'tuple' or len(r.args) != 3:
        rep.und(t, show(r))
        return
    w = where(f)
    x, y = sym('x_pixel_size', 'float'), sym('y_pixel_size', 'float')
    if had['x_pixel_size'] is None or had['y_pixel_size'] is None:
        rep.und(t, 'the pixel sizes are not written')
        return

    def plain(v):
        return peeled(I, v)
    sizes = {plain(had['x_pixel_size']): x, plain(had['y_pixel_size']): y}
    distance, basis, corner = [subst(plain(v), sizes) if 'basis_vectors' in
                               gone else plain(v) for v in r.args]
    b, c, d = [plain(F['detector_geometry.' + k]) for k in (
        'basis', 'corner', 'distance')]
    if 'basis_vectors' in gone:
        if 'x_pixel_size' in gone:
            x = y
        if 'y_pixel_size' in gone:
            y = x
        elements(rep, I, basis, spec.module(prog, 'cxi').funcs[
            'basis_from_pixels'], (x, y), w, t)
    else:
        spec.compare(rep, I, basis, b, 'cxi-geometry', w, t, 'the basis')
    if 'distance' in gone:
        want = plain(I.run(FuncVal(spec.ref(
            prog, 'cxi', 'distance_from_corner')), (b, c), {}))
        # the length of a number is its magnitude
        if distance.op == 'f:linalg.norm' and distance.args[0].op in (
                'f:dot', 'f:inner', 'f:vdot'):
            distance = mk('f:abs', (distance.args[0],))
        spec.compare(rep, I, distance, want, 'cxi-geometry', w, t,
                     'the distance')
    else:
        spec.compare(rep, I, distance, d, 'cxi-geometry', w, t,
                     'the distance')
    if 'corner_position' in gone:
        if corner is NONE:
            rep.ok(t + ' the corner')
        else:
            rep.und(t + ' the corner', show(corner))
    else:
        spec.compare(rep, I, corner, c, 'cxi-geometry', w, t, 'the corner')


def rows(v):
    """the elements of a matrix that is written out"""
    if v.op == 'f:T' or v.op == 'f:transpose' and len(v.args) == 1:
        z = rows(v.args[0])
        return z and [list(q) for q in zip(*z)]
    if v.op in ('f:ndarray', 'f:tensor', 'f:asarray'):
        v = v.args[0]
    if v.op in ('list', 'tuple') and v.args and all(
            q.op in ('list', 'tuple') for q in v.args) and len(
                {len(q.args) for q in v.args}) == 1:
        return [list(q.args) for q in v.args]


def elements(rep, I, got, ref, args, w, t):
    want = rows(I.reduce(deep(I, I.freeze(I.reduce(I.run(
        FuncVal(ref), args, {}))))))
    z = rows(got)
    if z is None:
        rep.und(t, show(got, 5))
        return
    if (len(z), len(z[0])) != (len(want), len(want[0])):
        rep.bad('cxi-geometry', w, '%s: the basis is a %d by %d matrix' % (
            t, len(z), len(z[0])))
        return
    for i, r in enumerate(z):
        for j, v in enumerate(r):
            spec.compare(rep, I, v, want[i][j], 'cxi-geometry', w, t,
                         'component %d of basis vector %d' % (i, j))
