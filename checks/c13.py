"""C13: the forward model of every model class."""
from .util import *
import os

from . import models as M, opaque, spec

RULE = ('each method of each model and its reference implementation are '
        'interpreted on the same model (built by the constructor, then given '
        'arbitrary current values) for every option; results are compared in '
        'algebraic normal form')
SPEC = {
    'SimplePtycho': {'interaction': 'simple_interaction',
                     'forward_propagator': 'far',
                     'measurement': 'simple_measurement'},
    'FancyPtycho': {'interaction': 'fancy_interaction',
                    'forward_propagator': 'fancy_forward_propagator',
                    'backward_propagator': 'fancy_backward_propagator',
                    'measurement': 'fancy_measurement',
                    'corrected_translations': 'corrected_translations'},
    'MultislicePtycho': {'interaction': ('multislice_interaction',
                                         'multislice_interaction2'),
                         'forward_propagator': 'far',
                         'backward_propagator': 'inverse_far',
                         'measurement': 'multislice_measurement',
                         'corrected_translations': 'corrected_translations'},
    'Bragg2DPtycho': {'interaction': 'bragg_interaction',
                      'forward_propagator': 'bragg_forward_propagator',
                      'backward_propagator': 'bragg_backward_propagator',
                      'measurement': 'bragg_measurement',
                      'corrected_translations': 'corrected_translations'},
    'RPI': {'interaction': 'rpi_interaction',
            'forward_propagator': 'far', 'backward_propagator': 'inverse_far',
            'measurement': 'bragg_measurement', 'loss': 'rpi_loss',
            'regularizer': 'rpi_regularizer'},
}
BOOLS = {
    'FancyPtycho': ('fourier_probe', 'simulate_probe_translation',
                    'simulate_finite_pixels', 'exponentiate_obj',
                    'phase_only', 'near_field'),
    'MultislicePtycho': ('fourier_probe', 'simulate_probe_translation',
                         'simulate_finite_pixels', 'exponentiate_obj'),
    'Bragg2DPtycho': ('propagate_probe', 'correct_tilt', 'lens'),
    'RPI': ('exponentiate_obj', 'phase_only', 'weight_matrix'),
    'SimplePtycho': (),
}
OPTS = ('translation_offsets', 'probe_fourier_shifts', 'weights', 'qe_mask',
        'saturation', 'probe_support', 'surface_normal', 'min_translation',
        'angular_spectrum_propagator', 'inv_angular_spectrum_propagator',
        'background', 'translations', 'obj_support', 'median_propagation',
        'translation_scale', 'mask', 'phase_only')
TR, TR1 = sym('shots', 'tensor'), sym('shot', 'tensor')
IX, IX1 = sym('index', 'tensor'), sym('index', 'int')
SHAPES = {TR: (M.L_, 3), TR1: (3,), IX: (M.L_,)}


def configs(prog, name, thorough):
    cls = M.model_class(prog, name)
    ps = M.params(cls, prog)
    opts = tuple(o for o in OPTS if o in ps)
    bools = tuple(b for b in BOOLS[name] if b in ps)
    base = {b: FALSE for b in bools}
    sizes = [{}]
    if 'oversampling' in ps:
        sizes.append({'oversampling': const(2)})
    for b in (None,) + bools:
        d = dict(base)
        if b:
            d[b] = TRUE
        if b == 'phase_only':
            d['exponentiate_obj'] = TRUE
        if b == 'lens':
            d['correct_tilt'] = TRUE
        yield opts, d, b or 'all fields'
    for o in opts:
        d = dict(base)
        if o in ('angular_spectrum_propagator',
                 'inv_angular_spectrum_propagator', 'mask',
                 'translation_scale'):
            continue
        yield tuple(x for x in opts if x != o), base, 'without ' + o
        if o == 'probe_fourier_shifts' and 'simulate_probe_translation' in \
                bools:
            yield tuple(x for x in opts if x != o), dict(
                base, simulate_probe_translation=TRUE), \
                'simulate_probe_translation only'
    yield (), base, 'nothing optional'
    if 'weights' in opts and name != 'Bragg2DPtycho':
        yield opts, dict(base, **{'%weights': TRUE}), 'weight matrices'
    if 'oversampling' in ps:
        yield opts, dict(base, oversampling=const(2)), 'oversampling'
        yield opts, dict(base, oversampling=const(2), **{'%crop': TRUE}), \
            'oversampling, crop'
    if thorough:
        for i, b in enumerate(bools):
            for c in bools[:i]:
                yield opts, dict(base, **{b: TRUE, c: TRUE}), b + ', ' + c
        for o in opts:
            for b in bools:
                yield tuple(x for x in opts if x != o), dict(
                    base, **{b: TRUE}), '%s without %s' % (b, o)


def make(prog, name, given, over, hooks=None):
    """A model with arbitrary current values."""
    I = M.interp(prog, hooks)
    for x, s in SHAPES.items():
        I.shapes[x] = tup(*s)
    I.intindex = {IX}
    over = dict(over)
    kw = {}
    if over.pop('%weights', None) is not None:
        kw['weights'] = M.arg(I, 'weights', None, (M.N_, M.P_, M.P_))
    crop = over.pop('%crop', None)
    k = over.get('oversampling')
    k = cval(k) if k is not None else 1
    sh = [x if k == 1 else mk('bin', ('*', const(k), x))
          for x in (M.H_, M.W_)]
    if crop is not None:
        sh = [sym('HP', 'int'), sym('WP', 'int')]
    if name not in ('SimplePtycho', 'RPI'):
        kw['probe_guess'] = M.arg(I, 'probe_guess', None, (M.P_, *sh))
        if 'probe_support' in given:
            kw['probe_support'] = M.arg(I, 'probe_support', None, tuple(sh))
    if name == 'MultislicePtycho':
        kw['obj_guess'] = M.arg(I, 'obj_guess', None, (
            const(2), M.HO, M.WO))
    if name == 'RPI':
        kw['obj_guess'] = M.arg(I, 'obj_guess', None, (
            sym('K', 'int'), M.HO, M.WO))
    kw.update(over)
    m, _ = M.build(I, prog, name, given=tuple(
        g for g in given if g not in kw), **kw)
    if I.st is None:
        return I, None
    for r in [k for k in I.obj(m).data if isinstance(k, str) and
              k.startswith('%reg:')]:
        nm = r[5:]
        v = I.obj(m).data[nm]
        b = norm.strip(v)
        while b.op in ('astype', 'conv'):
            b = b.args[0] if isinstance(b.args[0], T) else b.args[1]
        if is_const(b) or v is NONE:
            continue
        x = sym('self.' + nm, 'tensor')
        s = ops.shapeof(I, v)
        if nm in ('probe', 'I_phase', 'J_phase', 'universal_propagator'):
            s = tup(*sh)
            if nm == 'probe':
                s = {'SimplePtycho': tup(M.H_, M.W_), 'RPI': tup(
                    M.P_, *sh)}.get(name, tup(M.P_, *sh))
        if s is not None:
            I.shapes[x] = s
        I.setobj(m, I.obj(m).put(nm, x))
        I.st.pc[mk('is', (x, NONE))] = False
    return I, m


def real(x):
    return x.op == 'sym' and x.args[0] not in (
        'self.probe', 'self.obj', 'self.weights', 'wavefields',
        'self.angular_spectrum_propagator',
        'self.inv_angular_spectrum_propagator',
        'self.interslice_propagator')


def wavefields(I, n):
    x = sym('wavefields', 'tensor')
    I.shapes[x] = tup(M.L_, M.P_, M.H_, M.W_) if n != 'SimplePtycho' else \
        tup(M.L_, M.H_, M.W_)
    return x


def relevant(meth, tag):
    if meth in ('interaction', 'corrected_translations'):
        return True
    words = {'measurement': ('finite', 'oversampling', 'qe_mask',
                             'saturation', 'background', 'optional'),
             'forward_propagator': ('near_field', 'tilt', 'lens'),
             'backward_propagator': ('near_field', 'tilt', 'lens')}
    return tag == 'all fields' or any(w in tag for w in words.get(meth, ()))


def cases(name, meth):
    if meth in ('interaction', 'forward'):
        if name == 'RPI':
            return [('indices', lambda I: ((IX,), {})),
                    ('index', lambda I: ((IX1,), {})),
                    ('indices, translations', lambda I: ((IX, TR), {}))]
        return [('stack', lambda I: ((IX, TR), {})),
                ('single', lambda I: ((IX1, TR1), {}))]
    if meth == 'corrected_translations':
        def ds(I):
            x = sym('dataset.translations', 'tensor')
            I.shapes[x] = tup(M.N_, 3)
            d = I.new('inst', None, {'translations': x})
            I.learn(I.st, mk('is', (d, NONE)), False)
            return (d,), {}
        return [('dataset', ds), ('', lambda I: ((), {}))]
    if meth == 'loss':
        def data(I, *k):
            out = []
            for n in ('sim', 'real', 'mask')[:2 + len(k)]:
                x = sym(n, 'tensor')
                I.shapes[x] = tup(M.L_, M.H_, M.W_)
                out.append(x)
            return tuple(out), {}
        return [('', data), ('mask', lambda I: data(I, 1))]
    if meth == 'regularizer':
        return [('', lambda I: ((sym('factors', 'list'),), {}))]
    return [('', lambda I: ((wavefields(I, name),), {}))]


def run(prog, rep, thorough):
    for name, meths in SPEC.items():
        for given, over, tag in configs(prog, name, thorough):
            for meth, refs in meths.items():
                if not relevant(meth, tag):
                    continue
                for c, mkargs in cases(name, meth):
                    t = '%s.%s[%s%s]' % (name, meth, tag, c and ', ' + c)
                    with rep.guard(t):
                        one(prog, rep, name, given, over, meth, refs, mkargs,
                            t)
    with rep.guard('forward'):
        for name in SPEC:
            for c, mkargs in cases(name, 'forward'):
                one(prog, rep, name, OPTS, {}, 'forward', 'forward', mkargs,
                    '%s.forward[%s]' % (name, c))


def one(prog, rep, name, given, over, meth, refs, mkargs, t):
    if isinstance(refs, str):
        refs = (refs,)
    a = attempt(prog, name, given, over, meth, refs, mkargs, t,
                opaque.hooks(prog), rep)
    b = None
    if not a.good():
        b = attempt(prog, name, given, over, meth, refs, mkargs, t, {}, rep)
        if b.good() or b.bads:
            a = b
        elif not a.bads and os.environ.get('VG_FULL'):
            a = b
    if a.good():
        rep.ok(t)
    elif a.bads:
        rep.bad(*a.bads[0])
    else:
        rep.und(*a.unds[0])


class Notes(object):
    def __init__(self):
        self.bads, self.unds = [], []

    def ok(self, *a):
        pass

    def bad(self, *a):
        self.bads.append(a)

    def und(self, *a):
        self.unds.append(a)

    def good(self):
        return not self.bads and not self.unds


def attempt(prog, name, given, over, meth, refs, mkargs, t, hooks, rep):
    cls = M.model_class(prog, name)
    f = method(prog, cls, meth)
    out = None
    for r in refs:
        x = Notes()
        I, m = make(prog, name, given, over, hooks)
        if m is None:
            x.und(t, 'the constructor raises')
            return x
        got = result(I, FuncVal(f), m, mkargs)
        rep.saw(I)
        J, n = make(prog, name, given, over, hooks)
        want = result(J, FuncVal(spec.ref(prog, 'models', r)), n, mkargs)
        spec.compare(x, I, got, want, name + '.' + meth, where(f), t,
                     '%s.%s' % (name, meth), real)
        if x.good():
            return x
        if r == applicable(I, got, refs):
            out = x
    return out


def applicable(I, got, refs):
    """the last propagation does not change far-field intensities"""
    if len(refs) == 1 or got is None:
        return refs[0]
    A = spec.Alg(real=real, newaxis=False, I=I)
    p = A.poly(spec.strip(got))
    last = any(x.op == 'f:ifft2' for m in p for x, e in m)
    return refs[0 if last else 1]


def result(I, f, m, mkargs):
    args, kw = mkargs(I)
    r = I.run(f, (m,) + tuple(args), dict(kw))
    if I.st is None:
        return None
    return I.reduce(deep(I, I.freeze(I.reduce(r))))
