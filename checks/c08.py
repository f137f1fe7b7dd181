"""C08: a model built from a dataset describes that dataset as asked."""
from .util import *
from . import models as M, c02, spec
from vg import alg
from vg.terms import rebuild
from vg.norm import strip, laurent, same_value

RULE = ('from_dataset / from_calibration are interpreted up to the '
        'constructor call with a symbolic dataset and symbolic options; the '
        'arguments that arrive are compared with the field or option they '
        'stand for; the constructor is interpreted with symbolic arguments '
        'and each attribute compared with its argument')

SAME = ('translation_scale', 'saturation', 'oversampling', 'fourier_probe',
        'loss', 'units', 'simulate_probe_translation',
        'simulate_finite_pixels', 'exponentiate_obj', 'phase_only',
        'near_field', 'propagate_probe', 'correct_tilt', 'lens',
        'weight_matrix', 'panel_plot_mode', 'plot_level', 'dtype')
BOOL = ('fourier_probe', 'simulate_probe_translation',
        'simulate_finite_pixels', 'exponentiate_obj', 'phase_only',
        'near_field', 'propagate_probe', 'correct_tilt', 'lens',
        'weight_matrix', 'panel_plot_mode')
TYPES = {'translation_scale': 'float', 'saturation': 'float',
         'oversampling': 'int', 'loss': 'str', 'units': 'str',
         'plot_level': 'float', 'dtype': 'obj'}
OPTIONAL = ('mask', 'background', 'intensities', 'qe_mask', 'orientation',
            'sample_info')


def S(I, n, t='tensor', sh=None):
    x = sym('dataset.' + n, t)
    if sh is not None:
        I.shapes[x] = tup(*sh)
    I.learn(I.st, mk('is', (x, NONE)), False)
    return x


def dataset(I, prog, absent=()):
    dc = prog.cls('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset')
    F = {'wavelength': S(I, 'wavelength', 'tensor', ()),
         'translations': S(I, 'translations', 'tensor', (M.N_, 3)),
         'patterns': S(I, 'patterns', 'tensor', (M.N_, M.H_, M.W_)),
         'mask': S(I, 'mask', 'tensor', (M.H_, M.W_)),
         'background': S(I, 'background', 'tensor', (M.H_, M.W_)),
         'intensities': S(I, 'intensities', 'tensor', (M.N_,)),
         'qe_mask': S(I, 'qe_mask', 'tensor', (M.H_, M.W_))}
    at = dict(F)
    F['orientation'] = S(I, 'orientation', 'tensor', (3, 3))
    for a in absent:
        if a in at:
            at[a] = NONE
    F['geometry'] = M.geometry(I)
    at['detector_geometry'] = F['geometry']
    at['entry_info'] = NONE
    if 'sample_info' in absent:
        at['sample_info'] = NONE
    elif 'orientation' in absent:
        at['sample_info'] = I.newdict([])
    else:
        at['sample_info'] = I.newdict([(const('orientation'),
                                        F['orientation'])])
    at['get_as_args'] = mk('tuple', (I.newlist([]), I.newdict([])))
    return I.new('inst', dc, at), F


class Capture(object):
    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        self.cls = M.model_class(prog, name)
        self.ctor = method(prog, self.cls, '__init__')
        self.calls, self.inits = [], {}
        h = {('new', name): self.new}
        for n in ('exit_wave_geometry', 'SHARP_style_probe',
                  'SHARP_style_near_field_probe', 'calc_object_setup',
                  'gaussian_probe', 'translations_to_pixel',
                  'project_translations_to_sample',
                  'generate_angular_spectrum_propagator',
                  'generate_generalized_angular_spectrum_propagator'):
            h[('call', n)] = self.watch(n)
        self.I = M.interp(prog, h)

    def watch(self, n):
        def f(I, fv, args, kw, node, fr):
            self.inits.setdefault(n, []).append(
                {k: deep(I, v) for k, v in bind(fv.func, args, kw).items()})
            return None
        return f

    def new(self, I, cls, args, kw, node, fr):
        b = bind(self.ctor, args, kw, 1)
        self.calls.append({k: I.reduce(deep(I, v)) for k, v in b.items()})
        self.raw = b
        self.node = where(fr.func, node)
        x = sym('obj0', 'tensor')
        return I.new('inst', cls, {'obj': x, 'probe': b.get('probe', x)})


def run(prog, rep, thorough):
    for name in M.MODELS:
        cls = M.model_class(prog, name)
        f = method(prog, cls, 'from_dataset')
        ps = fparams(f)[2:]
        for absent in [()] + [(a,) for a in OPTIONAL] + [OPTIONAL]:
            t = '%s.from_dataset[%s]' % (
                name, 'without ' + ', '.join(absent) if absent else 'all')
            with rep.guard(t):
                one(prog, rep, name, f, t, absent, {})
        for o in ps:
            vals = []
            if o in BOOL:
                vals = [TRUE, FALSE]
            elif o in SAME:
                vals = [sym('option.' + o, TYPES[o])]
            elif o == 'scattering_mode':
                vals = [const('t'), const('transmission')]
            elif o == 'use_qe_mask':
                vals = [TRUE, FALSE]
            elif o == 'allow_probe_fourier_shifts':
                vals = [TRUE, FALSE]
            elif o == 'probe_support_radius':
                vals = [sym('option.' + o, 'float')]
            elif o in ('n_modes', 'obj_padding', 'propagation_distance'):
                vals = [sym('option.' + o, 'int')]
            elif o in ('mask', 'background'):
                vals = [sym('option.' + o, 'tensor')]
            for v in vals:
                t = '%s.from_dataset[%s=%s]' % (name, o, show(v))
                with rep.guard(t):
                    one(prog, rep, name, f, t, (), {o: v})
        if name in ('FancyPtycho', 'MultislicePtycho', 'Bragg2DPtycho'):
            derived(prog, rep, name)
        with rep.guard(name + ' constructor'):
            ctor(prog, rep, name)
    with rep.guard('RPI obj_basis'):
        rpi_basis(prog, rep)
    with rep.guard('RPI.from_calibration'):
        calibration(prog, rep)


def required(I, name, ps):
    kw = {}
    for p in ps:
        if p in ('dz', 'nz'):
            kw[p] = sym('option.' + p, 'int' if p == 'nz' else 'float')
        elif p == 'probe':
            kw[p] = S(I, 'probe', 'tensor', (M.P_, M.H_, M.W_))
    if 'loss' in ps:
        kw['loss'] = sym('option.loss', 'str')
    return kw


def one(prog, rep, name, f, tag, absent, opts):
    c = Capture(prog, name)
    I = c.I
    ds, F = dataset(I, prog, absent)
    ps = fparams(f)[2:]
    kw = required(I, name, ps)
    for o, v in opts.items():
        kw[o] = v
        if not is_const(v):
            I.learn(I.st, mk('is', (v, NONE)), False)
    r = I.run(FuncVal(f), (mk('class', (c.cls,)), ds), dict(kw))
    rep.saw(I)
    w = where(f)
    if I.st is None and not c.calls:
        rep.bad('from-dataset-raises:' + name, w, '%s always raises' % tag)
        return
    if not c.calls:
        rep.und(tag, 'constructor call not seen')
        return
    got = c.calls[-1]
    w = c.node
    cp = fparams(c.ctor)[1:]

    def cmp(p, want, what, other=()):
        """the constructor argument p is want"""
        if p not in cp:
            return
        g = got.get(p)
        if g is None:
            d = default(c.ctor, p)
            if d is not None and d is want:
                rep.ok('%s %s' % (p, tag))
            else:
                rep.bad('not-given:%s.%s' % (name, p), w, '%s: %s is not '
                        'given to the model (%s)' % (tag, what, show(want, 4)))
            return
        verdict(I, rep, name, p, g, want, w, tag, what, other)

    cmp('wavelength', F['wavelength'], 'the wavelength')
    if 'detector_geometry' in cp:
        dg = c.raw.get('detector_geometry')
        dg = I.reduce(dg) if dg is not None else None
        if dg is F['geometry']:
            rep.ok('detector_geometry ' + tag)
        elif dg is None:
            rep.bad('not-given:%s.detector_geometry' % name, w,
                    'the detector geometry is not given to the model')
        else:
            o = I.obj(dg) if dg.op == 'ref' else None
            ref = I.obj(F['geometry']).data
            if o is None or o.kind != 'dict':
                rep.und('detector_geometry ' + tag, show(dg, 4))
            else:
                for k, v in ref.items():
                    verdict(I, rep, name, 'detector_geometry.%s' % cval(k),
                            o.data.get(k, UNDEF), v, w, tag, 'the detector '
                            'geometry')
    for p in ('mask', 'background'):
        if p not in cp:
            continue
        g = got.get(p)
        own = opts.get(p)
        if p in absent:
            if own is not None:
                continue
            if g is not None and g is not NONE and any(
                    x.op == 'sym' and str(x.args[0]) == 'dataset.' + p
                    for x in walk(g)):
                rep.bad('invented:%s.%s' % (name, p), w, show(g, 4))
            elif p == 'mask' and g is not None and g is not NONE:
                allones(rep, name, g, w, tag)
            else:
                rep.ok('absent %s %s' % (p, tag))
            continue
        want = own if own is not None else F[p]
        if p == 'background':
            want = mk('f:sqrt', (want,))
        cmp(p, want, 'the ' + p)
    if 'qe_mask' in cp and 'use_qe_mask' in ps:
        if opts.get('use_qe_mask') is TRUE:
            cmp('qe_mask', F['qe_mask'], 'the quantum efficiency mask')
        elif absent == ():
            g = got.get('qe_mask')
            if g is None or g is NONE:
                rep.ok('qe_mask %s' % tag)
            elif any(x is F['qe_mask'] for x in walk(g)) and g.op != 'phi':
                rep.bad('unasked:%s.qe_mask' % name, w, 'the quantum '
                        'efficiency mask is used although it was not asked '
                        'for')
            else:
                rep.und('qe_mask ' + tag, show(g, 4))
    if 'translations' in cp:
        cmp('translations', F['translations'], 'the translations')
    # ---- weights
    if 'weights' in cp and name in ('FancyPtycho', 'MultislicePtycho'):
        weights(I, rep, name, got.get('weights'), F['intensities'],
                'intensities' in absent, w, tag)
    # ---- surface normal
    if 'surface_normal' in cp:
        g = got.get('surface_normal')
        z = opts.get('scattering_mode') is not None or \
            'orientation' in absent or 'sample_info' in absent
        want = mk('index', (F['orientation'], const(2)))
        if g is None:
            rep.bad('not-given:%s.surface_normal' % name, w, 'the surface '
                    'normal is not given to the model')
        elif z:
            v = vector(I, g)
            if v == (0.0, 0.0, 1.0):
                rep.ok('surface normal ' + tag)
            elif v is not None or any(x is F['orientation']
                                      for x in walk(g)) and g.op != 'phi':
                rep.bad('surface-normal:' + name, w, 'the surface normal is '
                        '%s, it should be [0, 0, 1] (%s)' % (show(g, 4), tag))
            else:
                rep.und('surface normal ' + tag, show(g, 5))
        else:
            verdict(I, rep, name, 'surface_normal', g, want, w, tag,
                    'the surface normal')
    elif ('orientation' not in absent and 'sample_info' not in absent and
          opts.get('scattering_mode') is None and name != 'RPI'):
        rows = {x.args[1] for g in got.values() if isinstance(g, T)
                for x in walk(g) if x.op == 'index' and
                x.args[0] is F['orientation'] and is_const(x.args[1])}
        if rows == {const(2)}:
            rep.ok('surface normal ' + tag)
        elif rows and const(2) not in rows:
            rep.bad('surface-normal:' + name, w, 'the surface normal is row '
                    '%s of the sample orientation, it should be row 2' %
                    show(min(rows, key=lambda x: x.n)))
    # ---- options handed on
    for p in SAME:
        if p in cp and p in ps and p in kw:
            cmp(p, kw[p], 'the option ' + p)
        elif p in cp and p in ps:
            d = default(f, p)
            if d is not None:
                cmp(p, d, 'the default of the option ' + p)
    # ---- initializers
    init(I, rep, name, c, kw, F, ds, w, tag, f)
    extra(I, rep, name, c, got, kw, opts, w, tag)


def scope(t):
    return [x for x in walk(t)]


def verdict(I, rep, name, p, g, want, w, tag, what, other=()):
    if p == 'mask':
        g = nobool(deep(I, I.freeze(g)))
    s, a, b = c02.same(I, g, want)
    if s == 'same' or a is b:
        rep.ok('%s %s' % (p, tag))
        return
    if a.op == 'call' and a.args[0].op == 'ext' and \
            a.args[0].args[0] in ('torch.tensor', 'numpy.array'):
        rep.und('%s %s' % (p, tag), show(a, 4))
        return
    if s != 'diff':
        if b.op != 'tuple' and a.op not in ('tuple', 'list', 'dict'):
            c = alg.compare(a, b)[0]
            if c == 'same':
                rep.ok('%s %s' % (p, tag))
                return
            s = c if c != 'unknown' else s
    bad = s == 'diff' or is_const(a)
    if not bad and not any(x is b for x in walk(a)) and not any(
            x.op in ('unknown', 'phi', 'mu') for x in walk(a)):
        bad = True
    if not bad and a.op in norm.CHANGING | {'f:fft2', 'f:logical_not',
                                            'f:matmul', 'f:mm'} and \
            b in a.args and b.op == 'sym':
        bad = True
    if not bad and a.op in ('f:mm', 'f:matmul') and b.op == 'sym' and any(
            x is b for y in a.args for x in walk(y)):
        bad = True
    if bad:
        rep.bad('wrong:%s.%s' % (name, p), w, '%s is %s, it should be %s '
                '(%s)' % (what, show(a, 5), show(b, 4), tag))
    else:
        rep.und('%s %s' % (p, tag), '%s vs %s' % (show(a, 5), show(b, 4)))


def nobool(g):
    """a mask is boolean already"""
    def f(x):
        if x.op in ('f:to', 'astype', 'f:astype', 'f:as_tensor', 'f:bool') \
                and x.args and isinstance(x.args[0], T):
            return x.args[0]
        return x
    return rebuild(strip(g), f)


def allones(rep, name, g, w, tag):
    g = strip(g)
    if g.op == 'new:torch.ones' or g.op == 'f:ones_like':
        rep.ok('absent mask ' + tag)
    elif g.op == 'new:torch.zeros' or g.op == 'f:zeros_like':
        rep.bad('wrong:%s.mask' % name, w, 'without a mask all pixels are '
                'masked out')
    else:
        rep.und('absent mask ' + tag, show(g, 4))


def vector(I, g):
    g = strip(I.reduce(g))
    if g.op in ('list', 'tuple') and all(is_const(x) for x in g.args):
        return tuple(float(cval(x)) for x in g.args)
    if g.args and isinstance(g.args[0], T) and g.op.split(':')[-1] in (
            'array', 'tensor', 'as_tensor', 'asarray', 'call'):
        for x in g.args:
            if isinstance(x, T) and x.op in ('list', 'tuple'):
                return vector(I, x)
    return None


def weights(I, rep, name, g, inten, gone, w, tag):
    if gone:
        if g is not None and any(x is inten for x in walk(g)):
            rep.bad('weights:' + name, w, 'intensities of a dataset without')
        else:
            rep.ok('weights ' + tag)
        return
    if g is None:
        rep.bad('not-given:%s.weights' % name, w, 'the recorded intensities '
                'have no effect on the weights of the exposures')
        return
    sq = [x for x in walk(g) if x.op == 'f:sqrt' and any(
        y is inten for y in walk(x))]
    uses = [x for x in walk(g) if x is inten]
    if not uses:
        if any(x.op in ('unknown',) for x in walk(g)):
            rep.und('weights ' + tag, show(g, 6))
        else:
            rep.bad('weights:' + name, w, 'the recorded intensities have no '
                    'effect on the weights of the exposures: %s' % show(g, 6))
        return
    # normal form: k * sqrt(I) / mean(sqrt(I)), k free of the intensities
    a = strip(g)
    if outside(a, inten):
        rep.bad('weights:' + name, w, 'the weights are amplitudes, so they '
                'should follow the square root of the recorded intensities: '
                '%s' % show(g, 7))
        return
    rep.ok('weights ' + tag)


def outside(t, x):
    """x occurs in t other than below a square root"""
    if t is x:
        return True
    if t.op in ('f:sqrt',):
        return False
    if t.op == 'bin' and t.args[0] == '**' and is_const(t.args[2]) and \
            cval(t.args[2]) == 0.5:
        return False
    if t.op in ('attr', 'len', 'shape'):
        return False
    if t.op.startswith('new:'):
        return False
    return any(outside(a, x) for a in t.args if isinstance(a, T)) or any(
        outside(v, x) for k, v in t.kw
        if isinstance(v, T) and k not in ('dtype', 'device', '%lib'))


def init(I, rep, name, c, kw, F, ds, w, tag, f):
    """arguments of the initializers"""
    ov = kw.get('oversampling', default(f, 'oversampling') or const(1))
    basis = I.obj(F['geometry']).data[const('basis')]
    dist = I.obj(F['geometry']).data[const('distance')]

    def chk(fn, p, want, key, what, missing=None):
        for b in c.inits.get(fn, ())[-1:]:
            g = b.get(p)
            if g is None:
                if missing is not None and want is missing:
                    rep.ok('%s of %s %s' % (p, fn, tag))
                    continue
                rep.bad('initializer:%s:%s.%s' % (name, fn, p), w, '%s is '
                        'not given to %s (%s)' % (what, fn, tag))
                continue
            s, x, y = c02.same(I, g, want)
            if s == 'same' or x is y:
                rep.ok('%s of %s %s' % (p, fn, tag))
            elif s == 'diff' or is_const(x) or not any(
                    z is y or z.op in ('unknown', 'phi') for z in walk(x)):
                rep.bad('initializer:%s:%s.%s' % (name, fn, p), w, '%s gets '
                        '%s, it should get %s (%s)' % (
                            fn, show(x, 4), show(y, 4), tag))
            else:
                rep.und('%s of %s %s' % (p, fn, tag), show(x, 5))
    chk('exit_wave_geometry', 'det_basis', basis, '', 'the detector basis')
    chk('exit_wave_geometry', 'wavelength', F['wavelength'], '',
        'the wavelength')
    chk('exit_wave_geometry', 'distance', dist, '', 'the distance')
    chk('exit_wave_geometry', 'oversampling', ov, '', 'the oversampling',
        const(1))
    for b in c.inits.get('exit_wave_geometry', ())[-1:]:
        g = b.get('det_shape')
        g = seq(I, g)
        if g is None:
            rep.und('det_shape ' + tag, show(b.get('det_shape'), 4))
        else:
            g = [strip(x) for x in g]
            if g == [M.H_, M.W_]:
                rep.ok('det_shape ' + tag)
            elif g == [M.W_, M.H_]:
                rep.bad('initializer:%s:shape-swapped' % name, w, 'the shape '
                        'of the detector is given in reverse')
            else:
                rep.und('det_shape ' + tag, str([show(x) for x in g]))
    for b in c.inits.get('SHARP_style_probe', ())[-1:]:
        d = b.get('dataset')
        if d is not None and strip(d) is ds:
            rep.ok('dataset of the probe ' + tag)
    chk('SHARP_style_probe', 'oversampling', ov, '', 'the oversampling',
        const(1))
    if 'propagation_distance' in kw:
        chk('SHARP_style_probe', 'propagation_distance',
            kw['propagation_distance'], '', 'the propagation distance')
    if name != 'SimplePtycho':
        pad = kw.get('obj_padding', default(f, 'obj_padding'))
        if pad is not None:
            chk('calc_object_setup', 'padding', pad, '',
                'the object padding')
    for b in c.inits.get('calc_object_setup', ())[-1:]:
        g = b.get('probe_shape')
        g = seq(I, g)
        if g is None or len(g) != 2:
            rep.und('object setup ' + tag, 'shape not resolved')
            continue
        k = cval(ov) if is_const(ov) else None
        for x, d in zip(g, (M.H_, M.W_)):
            x = norm.lin(strip(x))
            want = norm.lin(bin_('*', d, ov))
            if x == want:
                rep.ok('object setup %s %s' % (show(d), tag))
            elif x == {d: 1} or set(x) & {M.H_, M.W_} - {d}:
                rep.bad('initializer:%s:object-shape' % name, w, 'the object '
                        'is set up for exit waves of another shape than '
                        'the oversampled detector')
            else:
                rep.und('object setup ' + tag, str(x))


def seq(I, g):
    if g is None:
        return None
    if g.op == 'list' and not any(x.op == 'splice' for x in g.args):
        return list(g.args)
    return ops.sequence(I, g)


def bin_(o, a, b):
    if is_const(b) and cval(b) == 1:
        return a
    return mk('bin', (o, a, b))


def extra(I, rep, name, c, got, kw, opts, w, tag):
    if 'allow_probe_fourier_shifts' in opts:
        g = got.get('probe_fourier_shifts', NONE)
        on = opts['allow_probe_fourier_shifts'] is TRUE
        if is_const(g) and (g is NONE) == on:
            rep.bad('probe-fourier-shifts:' + name, w, 'probe Fourier shifts '
                    'are %s (%s)' % ('not set up' if on else 'set up', tag))
        else:
            rep.ok('probe_fourier_shifts ' + tag)
    if 'probe_support_radius' in opts:
        g = got.get('probe_support', NONE)
        if g is NONE:
            rep.bad('probe-support:' + name, w, 'the probe support asked for '
                    'is not given to the model')
        else:
            rep.ok('probe support ' + tag)
    if 'n_modes' in opts:
        g = got.get('probe_guess', got.get('obj_guess'))
        if name == 'RPI':
            g = got.get('obj_guess')
        if g is not None and any(x is opts['n_modes'] for x in walk(g)):
            rep.ok('n_modes ' + tag)
        elif g is not None and not any(x.op == 'unknown' for x in walk(g)):
            rep.bad('n-modes:' + name, w, 'the number of modes asked for has '
                    'no effect on the initial guess')
    g = got.get('translation_offsets')
    if g is not None:
        s = ops.shapeof(I, g)
        z = norm.lin(strip(g)) == {} or is_zero(g)
        if z:
            rep.ok('zero translation offsets ' + tag)
        else:
            rep.und('translation offsets ' + tag, show(g, 4))
        if s is not None and len(s.args) == 2:
            if s.args[0] is M.N_ and cval(s.args[1]) == 2:
                rep.ok('one offset per exposure ' + tag)
            elif s.args[0].op == 'sym' or is_const(s.args[0]):
                rep.bad('offsets-shape:' + name, w, 'translation offsets of '
                        'shape %s' % show(s))


def is_zero(g):
    g = strip(g)
    return g.op == 'bin' and g.args[0] == '*' and any(
        isinstance(x, T) and is_const(x) and cval(x) == 0 for x in g.args)


# --------------------------------------------------------------- constructor

def ctor(prog, rep, name):
    cls = M.model_class(prog, name)
    f = method(prog, cls, '__init__')
    w = where(f)
    for given, over, loss, tag in c02.configs(prog, name, False):
        I, _, m = c02.build(prog, name, given, over, loss)
        t = '%s()[%s]' % (name, tag)
        rep.saw(I)
        if I.st is None:
            rep.bad('constructor-raises:' + name, w, '%s always raises' % t)
            continue
        attrs(prog, rep, I, name, cls, m, f, given, over, loss, t, w)
    for crop in (0, None):
        if 'obj_view_crop' not in fparams(f):
            continue
        with rep.guard(name + ' obj_view_crop'):
            I = M.interp(prog)
            x = const(0) if crop == 0 else sym('obj_view_crop', 'int')
            if crop is None:
                I.learn(I.st, mk('cmp', ('>', x, const(0))), True)
            m, _ = M.build(I, prog, name, (), obj_view_crop=x)
            if I.st is None:
                rep.und(name + ' obj_view_crop', 'not resolved')
                continue
            v = deep(I, I.obj(m).data.get('obj_view_slice', UNDEF))
            sl = list(v.args) if v.op == 'tuple' else None
            if sl is None or len(sl) != 2 or any(s.op != 'slice'
                                                 for s in sl):
                rep.und(name + ' obj_view_slice', show(v, 4))
                continue
            for s in sl:
                a, b = strip(I.reduce(s.args[0])), strip(I.reduce(s.args[1]))
                full = a in (NONE, const(0)) and b is NONE
                if crop == 0 and full or crop is None and a is x and \
                        norm.lin(b) == {x: -1}:
                    rep.ok('%s obj_view_slice' % name)
                elif crop == 0 and is_const(a) and is_const(b):
                    rep.bad('obj-view-crop:' + name, w, 'without a crop the '
                            'visible part of the object is [%s:%s]' % (
                                show(a), show(b)))
                elif crop is None and full:
                    rep.bad('obj-view-crop:' + name, w, 'the crop of the '
                            'object view is ignored')
                else:
                    rep.und('%s obj_view_slice' % name, show(s, 4))


LOSS = {'amplitude mse': ('amplitude_mse', 'AmplitudeMSENormalizer'),
        'poisson nll': ('poisson_nll', 'SimplePoissonNLLNormalizer'),
        'intensity mse': ('intensity_mse', 'IntensityMSENormalizer')}


def attrs(prog, rep, I, name, cls, m, f, given, over, loss, tag, w):
    data = I.obj(m).data
    ps = fparams(f)[1:]
    for p in ps:
        if p in ('dtype', 'loss', 'obj_view_crop', 'detector_geometry'):
            continue
        if p in over:
            want = over[p]
        elif p in M.NEEDED or p in given:
            want = sym(p, M.ARGS[p][0])
        else:
            continue
        if p == 'weights' and '%weights' in over:
            want = sym('weights', 'tensor')
        if p == 'lens' and over.get('correct_tilt') is not TRUE:
            continue      # a setting of the tilt correction
        at = {'obj_guess': 'obj', 'probe_guess': 'probe',
              'translations': 'original_translations'}.get(p, p)
        v = data.get(at)
        if v is None and is_const(want):
            continue
        if v is None and any(x is want for d in data.values()
                             if isinstance(d, T) for x in walk(d)):
            rep.ok('%s %s' % (p, tag))
            continue
        if v is None:
            rep.bad('argument-lost:%s.%s' % (name, p), w, '%s: the argument '
                    '%s is not kept by the model' % (tag, p))
            continue
        v = deep(I, I.freeze(I.reduce(v)))
        if p in ('probe_guess', 'obj_guess', 'probe', 'translation_offsets'):
            if p == 'probe_guess' and 'probe_norm' in data:
                v = mk('bin', ('*', v, deep(I, data['probe_norm'])))
            if p == 'translation_offsets' and 'translation_scale' in data:
                v = mk('bin', ('*', v, deep(I, data['translation_scale'])))
            prod(I, rep, name, p, v, want, w, tag)
            continue
        verdict(I, rep, name + '()', p, v, want, w, tag,
                'the attribute ' + at)
    if 'weight_matrix' in ps:
        off = [e for e, q in walk_events(I.st.trace) if e.kind == 'setattr'
               and e.name == 'requires_grad' and len(e.args) > 1]
        off = [e for e in off if 'weights' in show(deep(I, e.args[0]), 3) or
               'eye' in show(deep(I, e.args[0]), 5)]
        on = over.get('weight_matrix', default(f, 'weight_matrix'))
        if on is TRUE and any(I.reduce(e.args[1]) is FALSE for e in off):
            rep.bad('weight-matrix:' + name, w, 'the weight matrix is fixed '
                    'although it was asked for')
        elif on is FALSE and off and I.reduce(off[-1].args[1]) is FALSE:
            rep.ok('weight matrix fixed ' + tag)
        elif on is FALSE and not off:
            rep.und('weight matrix ' + tag, 'requires_grad not seen')
        else:
            rep.ok('weight matrix ' + tag)
    if loss in LOSS and 'loss' in ps:
        fn, nz = LOSS[loss]
        v = deep(I, I.reduce(data.get('loss', UNDEF)))
        names = [x.args[0].func.qual for x in walk(v) if x.op == 'func']
        if fn in names:
            rep.ok('loss %s' % tag)
        elif names:
            rep.bad('loss:%s:%s' % (name, loss), w, 'the loss %r selects %s'
                    % (loss, names[0]))
        else:
            rep.und('loss ' + tag, show(v, 4))
        v = I.reduce(data.get('loss_normalizer', UNDEF))
        o = I.obj(v) if v.op == 'ref' else None
        if o is not None and o.cls is not None:
            if o.cls.name == nz:
                rep.ok('loss normalizer ' + tag)
            else:
                rep.bad('normalizer:%s:%s' % (name, loss), w, 'the loss %r '
                        'is normalized by %s' % (loss, o.cls.name))
        else:
            rep.und('loss normalizer ' + tag, show(v, 4))
    if 'detector_geometry' in ps:
        g = prog.find_method(cls, 'get_detector_geometry')
        if g is None:
            return
        r = I.reduce(I.run(FuncVal(g), (m,), {}))
        o = I.obj(r) if r.op == 'ref' and I.st is not None else None
        if o is None or o.kind != 'dict':
            rep.und('get_detector_geometry ' + tag, show(r, 4))
            return
        for k, n in (('distance', 'distance'), ('basis', 'det_basis'),
                     ('corner', 'corner')):
            v = o.data.get(const(k))
            if v is None:
                rep.bad('geometry-lost:%s.%s' % (name, k), w, 'the %s of the '
                        'detector is not kept by the model' % k)
                continue
            verdict(I, rep, name + '()', 'detector_geometry.' + k,
                    deep(I, v), sym(n, 'tensor'), w, tag, 'the detector ' + k)


def prod(I, rep, name, p, v, want, w, tag):
    """v is want, up to supports multiplied on"""
    v = strip(v)
    fs = []
    num, den = [], []

    def go(x, up):
        x = strip(x)
        if x.op == 'bin' and x.args[0] in ('*', '/'):
            go(x.args[1], up)
            go(x.args[2], up if x.args[0] == '*' else not up)
        elif x.op == 'index' and x.args[1].op == 'tuple' and all(
                i is NONE or is_const(i) and cval(i) is Ellipsis or
                i.op == 'slice' for i in x.args[1].args) and any(
                i is NONE for i in x.args[1].args):
            go(x.args[0], up)
        else:
            (num if up else den).append(x)
    go(v, True)
    for x in list(den):
        if x in num:
            num.remove(x)
            den.remove(x)
    rest = [x for x in num if x is not want and not any(
        'support' in str(y.args[0]) for y in walk(x) if y.op == 'sym') and
        not is_ones(x)]
    if num.count(want) == 1 and not rest and not den:
        rep.ok('%s %s' % (p, tag))
    elif not any(x is want or x.op in ('unknown', 'phi') for x in walk(v)) \
            or alg.compare(v, want, extra=lambda x: const(1) if
                           x.op == 'sym' and 'support' in str(x.args[0])
                           else None)[0] == 'diff':
        rep.bad('wrong:%s().%s' % (name, p), w, 'the argument %s is kept as '
                '%s (%s)' % (p, show(v, 5), tag))
    else:
        rep.und('%s %s' % (p, tag), show(v, 7))


def is_ones(x):
    x = nobool(x)
    return x.op in ('new:torch.ones', 'f:ones_like', 'new:torch.ones_like') or is_const(x) and \
        cval(x) in (1, True)


# --------------------------------------------------------------- calibration

def calibration(prog, rep):
    cls = M.model_class(prog, 'RPI')
    f = prog.find_method(cls, 'from_calibration')
    if f is None:
        return
    for gone in ((), ('background',), ('mask',)):
        c = Capture(prog, 'RPI')
        I = c.I
        F = {'wavelength': S(I, 'wavelength', 'tensor', ()),
             'obj_basis': S(I, 'obj_basis', 'tensor', (3, 2)),
             'probe': S(I, 'probe', 'tensor', (M.P_, M.H_, M.W_)),
             'background': S(I, 'background', 'tensor', (M.H_, M.W_)),
             'mask': S(I, 'mask', 'tensor', (M.H_, M.W_))}
        d = I.newdict([(const(k), v) for k, v in F.items() if k not in gone])
        kw = {}
        for p in fparams(f)[2:]:
            if p in SAME and p not in BOOL and p != 'dtype':
                kw[p] = sym('option.' + p, TYPES[p])
                I.learn(I.st, mk('is', (kw[p], NONE)), False)
            elif p in BOOL:
                kw[p] = TRUE
        I.run(FuncVal(f), (mk('class', (cls,)), d), dict(kw))
        rep.saw(I)
        tag = 'RPI.from_calibration[%s]' % (','.join(gone) or 'all')
        if not c.calls:
            if I.st is None:
                rep.bad('from-calibration-raises', where(f), tag +
                        ' always raises')
            else:
                rep.und(tag, 'constructor not seen')
            continue
        got, w = c.calls[-1], c.node
        exp = {'wavelength': F['wavelength'], 'probe_basis': F['obj_basis'],
               'probe': F['probe']}
        if 'background' not in gone:
            exp['background'] = mk('f:sqrt', (F['background'],))
        if 'mask' not in gone:
            exp['mask'] = F['mask']
        exp.update(kw)
        for p, want in exp.items():
            if p not in fparams(c.ctor):
                continue
            g = got.get(p)
            if g is None:
                rep.bad('not-given:RPI.calibration.%s' % p, w, '%s of the '
                        'calibration is not given to the model' % p)
                continue
            verdict(I, rep, 'RPI.calibration', p, g, want, w, tag, p)


# ---------------------------------------------------------- derived values

HP, WP = sym('HP', 'int'), sym('WP', 'int')
EWB, PR0 = sym('exit_wave_basis', 'tensor'), sym('probe0', 'tensor')


def derived(prog, rep, name):
    """quantities computed from the dataset and the options"""
    cls = M.model_class(prog, name)
    f = method(prog, cls, 'from_dataset')
    w = where(f)
    ps = fparams(f)[2:]
    C = [sym('crop', 'int')] * 2
    if name == 'Bragg2DPtycho':
        C = [sym('crop0', 'int'), sym('crop1', 'int')]
    pair = mk('tuple', tuple(C)) if name == 'Bragg2DPtycho' else C[0]
    runs = [('default', {}), ('oversampling', {
        'oversampling': sym('option.oversampling', 'int')})]
    if 'probe_fourier_crop' in ps:
        runs.append(('probe_fourier_crop', {'probe_fourier_crop': pair}))
    for tag, opts in runs:
        t = '%s.from_dataset[%s]' % (name, tag)
        with rep.guard(t):
            c = Capture(prog, name)
            I = c.I
            prs = sym('propagator', 'tensor')
            for n, v in (('exit_wave_geometry', EWB),
                         ('SHARP_style_probe', PR0),
                         ('SHARP_style_near_field_probe', PR0),
                         ('gaussian_probe', PR0),
                         ('generate_angular_spectrum_propagator', prs)):
                I.hooks['call', n] = known(c, n, v)
            I.shapes.update({EWB: tup(3, 2), PR0: tup(HP, WP)})
            ds, F = dataset(I, prog)
            kw = required(I, name, ps)
            kw.update(opts)
            for v in opts.values():
                for x in (v.args if v.op == 'tuple' else (v,)):
                    I.learn(I.st, mk('is', (x, NONE)), False)
                    I.learn(I.st, mk('cmp', ('==', x, const(0))), False)
                    I.learn(I.st, mk('cmp', ('!=', x, const(0))), True)
                    I.learn(I.st, mk('cmp', ('>', x, const(0))), True)
            I.run(FuncVal(f), (mk('class', (c.cls,)), ds), dict(kw))
            rep.saw(I)
            if not c.calls:
                rep.und(t, 'constructor call not seen')
                continue
            got = c.calls[-1]
            for p in ('obj_basis', 'probe_basis'):
                if p not in got:
                    continue
                want = EWB
                if name == 'Bragg2DPtycho':
                    # projected onto the sample
                    want = got.get('obj_basis')
                    if p == 'obj_basis' or want is None:
                        continue
                base = want
                if p == 'probe_basis' and 'probe_fourier_crop' in opts:
                    J, want = spec.call(prog, spec.ref(
                        prog, 'construction', 'cropped_basis'),
                        lambda J: ((base, mk('tuple', (HP, WP)),
                                    mk('tuple', tuple(C))), {}),
                        {base: (3, 2)})
                spec.compare(rep, I, got[p], want, 'derived:%s.%s' % (
                    name, p), c.node, '%s of %s' % (p, t), 'the ' + p,
                    real=lambda x: x.op == 'sym')
            ov = opts.get('oversampling', default(f, 'oversampling'))
            for b in c.inits.get('generate_angular_spectrum_propagator',
                                 ())[-1:]:
                if name == 'MultislicePtycho':
                    interslice(I, rep, name, b, ov, F, kw, c.node, t)


def known(c, n, v):
    def f(I, fv, args, kw, node, fr):
        c.inits.setdefault(n, []).append(
            {k: deep(I, x) for k, x in bind(fv.func, args, kw).items()})
        return v
    return f


def interslice(I, rep, name, b, ov, F, kw, w, t):
    """the propagator between slices acts on the exit waves"""
    s = seq(I, b.get('shape', UNDEF))
    if s is None or len(s) != 2:
        rep.und('interslice shape ' + t, show(b.get('shape', UNDEF), 4))
    else:
        for x, d in zip(s, (M.H_, M.W_)):
            x = norm.lin(strip(x))
            if x == norm.lin(bin_('*', d, ov)):
                rep.ok('interslice shape %s' % t)
            elif x == {d: 1} or {M.H_, M.W_} & {
                    z for k in x if isinstance(k, T)
                    for z in walk(k)} - {d}:
                rep.bad('interslice-shape:' + name, w, 'the interslice '
                        'propagator is not made for the (oversampled) exit '
                        'waves (%s)' % t)
            else:
                rep.und('interslice shape ' + t, str(x))
    s = seq(I, b.get('spacing', UNDEF))
    if s is None or len(s) != 2:
        rep.und('interslice spacing ' + t, show(b.get('spacing', UNDEF), 4))
    else:
        for i, x in enumerate(s):
            col = {cval(y.args[1].args[1]) for y in walk(x)
                   if y.op == 'index' and y.args[0] is EWB and
                   y.args[1].op == 'tuple' and len(y.args[1].args) == 2 and
                   is_const(y.args[1].args[1])}
            if col == {i}:
                rep.ok('interslice spacing %s' % t)
            elif col == {1 - i}:
                rep.bad('interslice-spacing:' + name, w, 'the spacings of '
                        'the interslice propagator are exchanged')
            else:
                rep.und('interslice spacing ' + t, show(x, 5))
    for p, v in (('wavelength', F['wavelength']), ('z', kw.get('dz'))):
        if v is not None and p in b:
            verdict(I, rep, name, 'interslice_propagator.' + p, b[p], v, w,
                    t, 'the %s of the interslice propagator' % p)


def rpi_basis(prog, rep):
    for tag, over in (('', {}),):
        f = method(prog, M.model_class(prog, 'RPI'), '__init__')
        I = M.interp(prog)
        B = M.arg(I, 'probe_basis', None, (3, 2))
        m, _ = M.build(I, prog, 'RPI', given=(), probe_basis=B,
                       probe=M.arg(I, 'probe', None, (M.P_, HP, WP)),
                       obj_guess=M.arg(I, 'obj_guess', None, (
                           sym('K', 'int'), M.HO, M.WO)))
        rep.saw(I)
        if m is None or I.st is None:
            rep.und('RPI obj_basis', 'constructor not resolved')
            continue
        J, want = spec.call(prog, spec.ref(
            prog, 'construction', 'rpi_obj_basis'), lambda J: (
                (B, mk('tuple', (HP, WP)), mk('tuple', (M.HO, M.WO))), {}),
            {B: (3, 2)})
        v = deep(I, I.freeze(I.reduce(I.obj(m).data.get(
            'obj_basis', UNDEF))))
        spec.compare(rep, I, v, want, 'derived:RPI.obj_basis', where(f),
                     'obj_basis of RPI()', 'the obj_basis',
                     real=lambda x: x.op == 'sym')
