"""C21: simulated datasets, and the upkeep of probes and objects."""
from .util import *
from . import c13, c18, models as M, opaque, spec
from vg import alg, ops, norm
from vg.loader import AnalysisError

RULE = ('each method that derives a dataset, intensities or new probes from '
        'a model, and a reference written from its documentation, are '
        'interpreted on the same symbolic model (the tools they call taken '
        'as functions of their arguments); returned values, fields of the '
        'dataset and the parameters left behind are compared')
ANA = 'cdtools.tools.analysis.analysis'
IMG = 'cdtools.tools.image_processing.image_processing'
INIT = 'cdtools.tools.initializers.initializers'
PROP = 'cdtools.tools.propagators.propagators'
SIMS = ('FancyPtycho', 'MultislicePtycho', 'Bragg2DPtycho')
WEIGHTED = ('FancyPtycho', 'MultislicePtycho')


def ortho(I, env, names):
    p = ops.shapeof(I, env['probes'])
    if cval(env.get('return_reexpressed_weights'), False):
        # one row for every mode of every exposure
        n = ops.binop(I, '*', M.N_, sym('L', 'int'))
        return [p, tup(n, M.P_)]
    return p


TOOLS = {
    (ANA, 'orthogonalize_probes'): ortho,
    (IMG, 'center'): opaque.same,
    (INIT, 'RPI_spectral_init'): None,
    (PROP, 'far_field'): opaque.same,
    (PROP, 'inverse_far_field'): opaque.same,
}
CX = ('self.probe', 'self.obj', 'self.weights', 'wavefields')


def real(x):
    return x.op == 'sym' and x.args[0] not in CX


def hooks(prog):
    for m, n in TOOLS:
        if n not in prog.modules[m].funcs:
            raise AnalysisError('%s.%s is missing' % (m, n))
    out = opaque.hooks(prog, TOOLS)

    def forward(I, fv, args, kw, node, fr):
        kw = dict(kw)
        if kw or len(args) != 3:
            return None
        return mk('f:tool.forward', tuple(I.reduce(deep(I, I.freeze(
            I.reduce(a)))) for a in args[1:]))
    f = prog.find_method(prog.cls('cdtools.models.base', 'CDIModel'),
                         'forward')
    out['call', f.qual] = forward
    return out


def weights(tag, n):
    return {'%weights': TRUE} if n == 3 else {}


def models(prog, name):
    """(given, options, tag) to analyse"""
    opts = tuple(o for o in c13.OPTS if o in M.params(M.model_class(
        prog, name), prog))
    base = {b: FALSE for b in c13.BOOLS[name]}
    yield opts, base, ''
    if name in WEIGHTED:
        yield tuple(o for o in opts if o != 'weights'), dict(
            base, **{'%weights': TRUE}), 'weight matrices'
        yield opts, dict(base, fourier_probe=TRUE), 'fourier_probe'


def run(prog, rep, thorough):
    for name in SIMS:
        for given, over, tag in models(prog, name):
            simulate(prog, rep, name, given, over, tag)
    for name in WEIGHTED:
        for given, over, tag in models(prog, name):
            maintain(prog, rep, name, given, over, tag)
    rpi(prog, rep)


def build(prog, name, given, over):
    I, m = c13.make(prog, name, given, over, hooks(prog))
    if m is None:
        raise AnalysisError('%s.__init__ always raises' % name)
    if '%weights' in over:
        # as many modes as each shot needs
        w = sym('self.weights', 'tensor')
        I.shapes[w] = tup(M.N_, sym('L', 'int'), M.P_)
    if name == 'RPI':
        I.shapes[sym('self.obj', 'tensor')] = tup(
            sym('K', 'int'), M.HO, M.WO)
    return I, m


def value(I, m, nm):
    v = I.reduce(I.obj(m).data[nm])
    while v.op in ('f:setdata', 'f:Parameter'):
        v = I.reduce(v.args[0])
    return I.reduce(deep(I, I.freeze(v)))


def filled(v):
    """without the replacement of NaN by the dataset (C15)"""
    while v.op == 'f:masked_fill' and dict(v.kw).get(
            'mask', NONE).op == 'f:isnan':
        v = v.args[0]
    return v


def reference(prog, fn, name, given, over, mkargs):
    I, m = build(prog, name, given, over)
    return c13.result(I, FuncVal(spec.ref(prog, 'maintenance', fn)), m,
                      mkargs)


def check(prog, rep, I, got, fn, name, given, over, mkargs, key, f, t, what):
    want = reference(prog, fn, name, given, over, mkargs)
    spec.compare(rep, I, got, want, key, where(f), t, what, real)


def maintain(prog, rep, name, given, over, tag):
    cls = M.model_class(prog, name)
    wm = '%weights' in over

    def start(meth):
        f = prog.find_method(cls, meth)
        if f is None:
            raise AnalysisError('%s.%s is missing' % (name, meth))
        I, m = build(prog, name, given, over)
        rep.saw(I)
        return f, I, m
    no = lambda I: ((), {})
    for its in ((), (sym('iterations', 'int'),)):
        t = '%s.center_probes[%s%s]' % (name, tag, ', iterations' * len(its))
        with rep.guard(t):
            f, I, m = start('center_probes')
            ar = lambda I: (its, {})
            got = c13.result(I, FuncVal(f), m, ar)
            rep.saw(I)
            key = name + '.center_probes'
            if got is None:
                rep.bad('raises:' + key, where(f), t + ' always raises')
                continue
            v = norm.strip(value(I, m, 'probe'))
            fp = over.get('fourier_probe') is TRUE
            ctr = [x for x in walk(v) if x.op == 'f:tool.center']
            plain = [x for x in ctr if norm.strip(dict(x.kw).get(
                'image', NONE)).op == 'sym']
            inv = [x for x in ctr if norm.strip(dict(x.kw).get(
                'image', NONE)).op == 'f:tool.inverse_far_field']
            if fp and (plain or v.op == 'f:tool.center') or \
                    not fp and inv:
                rep.bad('plane:' + key, where(f), '%s: the probe is not '
                        'centered in real space' % t)
                continue
            check(prog, rep, I, v, 'center_probes', name,
                  given, over, ar, key, f, t, 'the centered probe')
            same(rep, I, m, ('weights', 'obj', 'background'), key, f, t)
    t = '%s.tidy_probes[%s]' % (name, tag)
    with rep.guard(t):
        f, I, m = start('tidy_probes')
        got = c13.result(I, FuncVal(f), m, no)
        rep.saw(I)
        key = name + '.tidy_probes'
        if got is None:
            rep.bad('raises:' + key, where(f), t + ' always raises')
        else:
            v = value(I, m, 'probe')
            if wm:
                v = mk('tuple', (v, value(I, m, 'weights')))
            check(prog, rep, I, v,
                  'tidy_weighted' if wm else 'tidy_stable', name, given,
                  over, no, key, f, t, 'the tidied probes')
            same(rep, I, m, ('obj', 'background') + (
                () if wm else ('weights',)), key, f, t)
    for meth in ('get_probe_intensities', 'get_rhos'):
        f = prog.find_method(cls, meth)
        if f is None:
            continue
        t = '%s.%s[%s]' % (name, meth, tag)
        with rep.guard(t):
            f, I, m = start(meth)
            got = c13.result(I, FuncVal(f), m, no)
            rep.saw(I)
            check(prog, rep, I, got, meth, name, given, over, no,
                  name + '.' + meth, f, t, name + '.' + meth)


def same(rep, I, m, names, key, f, t):
    for n in names:
        v = value(I, m, n)
        if v.op != 'sym':
            rep.bad('sets:%s:%s' % (key, n), where(f),
                    '%s also changes %s' % (t, n))


def pieces(rep, I, pats, key, f, t):
    """slices of the exposures that follow each other from the first one"""
    A = alg.Alg(newaxis=False, I=I)
    for x in walk(pats):
        if x.op == 'range' and len(x.args) == 3 and x.args[2] is NONE:
            rep.bad('pieces:' + key, where(f), '%s: the exposures are cut '
                    'into pieces of length None' % t)
            return
        if x.op != 'index' or x.args[0] not in (c13.IX, c13.TR) or \
                x.args[1].op != 'slice':
            continue
        low, high, step = x.args[1].args
        r = low.args[0] if low.op == 'elem' else None
        if r is None or r.op != 'range' or len(r.args) != 3 or \
                step is not NONE:
            continue
        what = '%s: the pieces of %s' % (t, show(x.args[0]))
        if is_const(r.args[0]) and cval(r.args[0]) != 0:
            rep.bad('pieces:' + key, where(f), '%s start at %r, not at the '
                    'first exposure' % (what, cval(r.args[0])))
            continue
        s = alg.decide(A, ops.binop(I, '-', high, low), r.args[2])
        if s[0] == 'diff':
            rep.bad('pieces:' + key, where(f), '%s are not as long as the '
                    'distance between them: %s' % (what, s[1]))
        elif s[0] == 'same':
            rep.ok(what)


def simulate(prog, rep, name, given, over, tag):
    cls = M.model_class(prog, name)
    f = method(prog, cls, 'sim_to_dataset')
    ps = fparams(f)
    cases = [('', {}, 'whole' if 'calculation_width' in ps else 'patterns')]
    if 'calculation_width' in ps:
        cases.append(('in pieces', {'calculation_width': sym(
            'width', 'int')}, 'chunked'))
    key = name + '.sim_to_dataset'
    for c, kw, ref in cases:
        t = '%s[%s]' % (key, ', '.join(x for x in (tag, c) if x))
        with rep.guard(t):
            I, m = build(prog, name, given, over)
            r = I.run(FuncVal(f), (m, tup(c13.IX, c13.TR)), dict(kw))
            rep.saw(I)
            if I.st is None:
                rep.bad('raises:' + key, where(f), t + ' always raises')
                continue
            r = I.reduce(r)
            o = I.obj(r) if r.op == 'ref' else None
            if o is None or o.cls is None or o.cls.name != 'Ptycho2DDataset':
                rep.bad('dataset:' + key, where(f),
                        '%s does not return a Ptycho2DDataset' % t)
                continue
            g = lambda n: I.reduce(deep(I, I.freeze(I.reduce(o.data[n]))))
            wk = tuple(kw.values())
            pats = filled(g('patterns'))
            check(prog, rep, I, pats, ref, name, given, over,
                  lambda I: ((c13.IX, c13.TR) + wk, {}), key + ':patterns',
                  f, t + ' patterns', 'the patterns')
            pieces(rep, I, pats, key, f, t)
            if not any(x.op in ('f:detach', 'f:data', 'f:numpy') for x in
                       walk(pats)):
                rep.bad('graph:' + key, where(f), '%s: the patterns of the '
                        'dataset still require a gradient' % t)
            else:
                rep.ok(t + ' detached')
            for n, w in (('translations', c13.TR),
                         ('wavelength', sym('self.wavelength', 'tensor')),
                         ('mask', sym('self.mask', 'tensor'))):
                v = filled(g(n))
                if n == 'mask':
                    w = mk('astype', (w, const('bool')))
                spec.compare(rep, I, v, w, key + ':' + n, where(f),
                             '%s %s' % (t, n), n, real)
            d = I.reduce(o.data['detector_geometry'])
            d = {cval(k): v for k, v in I.obj(d).data.items()
                 if isinstance(k, T)} if d.op == 'ref' else {}
            for k, a in (('distance', 'det_distance'), ('basis', 'det_basis'),
                         ('corner', 'det_corner')):
                if k not in d:
                    rep.bad('geometry:%s:%s' % (key, k), where(f),
                            '%s: the detector geometry has no %s' % (t, k))
                    continue
                w = value(I, m, a)
                spec.compare(rep, I, I.reduce(deep(I, I.freeze(I.reduce(
                    d[k])))), w, '%s:%s' % (key, k), where(f),
                    '%s %s' % (t, k), 'detector ' + k, real)
            s = I.reduce(o.data['sample_info'])
            d = {cval(k): v for k, v in I.obj(s).data.items()
                 if isinstance(k, T)} if s.op == 'ref' else {}
            if 'orientation' not in d:
                rep.bad('orientation:' + key, where(f),
                        t + ': the dataset has no sample orientation')
                continue
            check(prog, rep, I, I.reduce(deep(I, I.freeze(I.reduce(
                d['orientation'])))), 'orientation', name, given, over,
                lambda I: ((), {}), key + ':orientation', f,
                t + ' orientation', 'the sample orientation')


def rpi(prog, rep):
    name = 'RPI'
    cls = M.model_class(prog, name)
    given, over, _ = next(iter(c13.configs(prog, name, False)))
    pat = sym('pattern', 'tensor')
    shape = (sym('h', 'int'), sym('w', 'int'))
    n = sym('n', 'int')
    K = sym('K', 'int')
    now = (K, (M.HO, M.WO))
    for kind, pre in (('uniform', ()), ('random', ()), ('spectral', (pat,))):
        fn = kind + '_init'
        for asked, (nn, sh) in (((), now), (('shape', 'n'), (n, shape)),
                                (('shape',), (K, shape)),
                                (('n',), (n, (M.HO, M.WO)))):
            for via in (fn, 'init_obj'):
                t = 'RPI.%s[%s%s]' % (via, kind, ''.join(
                    ', ' + x for x in asked))
                with rep.guard(t):
                    f = method(prog, cls, via)
                    I, m = build(prog, name, given, over)
                    kw = {}
                    if 'shape' in asked:
                        kw['obj_shape'] = tup(*shape)
                    if 'n' in asked:
                        kw['n_modes'] = n
                    if pre:
                        kw['pattern'] = pat
                    a = (m,) + ((const(kind),) if via == 'init_obj' else ())
                    I.run(FuncVal(f), a, kw)
                    rep.saw(I)
                    if I.st is None:
                        rep.bad('raises:RPI.' + via, where(f),
                                t + ' always raises')
                        continue
                    check(prog, rep, I, value(I, m, 'obj'), fn, name, given,
                          over, lambda I: (pre + (tup(*sh), nn), {}),
                          'RPI.' + via + ':' + kind, f, t, 'the object')
