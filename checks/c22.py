"""C22: what a model built from a dataset starts from."""
from .util import *
from . import c08, c14, c21, models as M, opaque, spec
from vg import ops
from vg.loader import AnalysisError

RULE = ('from_dataset and a reference written from its documentation are '
        'interpreted with the same symbolic dataset and options (the tools '
        'they call taken as functions of their arguments); every argument '
        'that reaches the constructor is compared with the reference')
ANA = 'cdtools.tools.initializers.initializers'
PROP = 'cdtools.tools.propagators.propagators'
INTER = 'cdtools.tools.interactions.interactions'
FRESH = sym('initialized', 'tensor')
HP, WP = sym('HP', 'int'), sym('WP', 'int')


def basis(I, env, names):
    return tup(3, 2)


def probe(I, env, names):
    return tup(HP, WP)


def propagator(I, env, names):
    s = c08.seq(I, env['shape'])
    return None if s is None else mk('tuple', tuple(s))


def setup(I, env, names):
    return [None, tup(2)]


TOOLS = {
    (ANA, 'exit_wave_geometry'): basis,
    (ANA, 'SHARP_style_probe'): probe,
    (ANA, 'SHARP_style_near_field_probe'): probe,
    (ANA, 'gaussian_probe'): probe,
    (ANA, 'calc_object_setup'): setup,
    (INTER, 'translations_to_pixel'): opaque.pixels,
    (INTER, 'project_translations_to_sample'): opaque.project,
    (PROP, 'far_field'): opaque.same,
    (PROP, 'inverse_far_field'): opaque.same,
    (PROP, 'near_field'): opaque.same,
    (PROP, 'generate_angular_spectrum_propagator'): propagator,
    (PROP, 'generate_generalized_angular_spectrum_propagator'): propagator,
}
REAL = ('dataset.', 'det_basis', 'distance', 'option.', 'corner')


def real(x):
    if x.op == 'sym':
        return str(x.args[0]).startswith(REAL)
    return x.op in ('f:tool.exit_wave_geometry', 'f:tool.calc_object_setup',
                    'f:tool.translations_to_pixel')


def wrap(h, DS):
    """h with the dataset and functions among the arguments as values"""
    def value(I, v):
        r = I.reduce(v)
        if r.op == 'ref':
            o = I.obj(r)
            if o is not None and o.kind == 'inst' and r is DS.get('ds'):
                return sym('the dataset', 'obj')
        if r.op == 'func':
            w = sym('wavefields', 'tensor')
            I.shapes[w] = tup(M.H_, M.W_)
            x = I.call(r, (w,), {}, None, DS['frame'])
            return mk('f:function', (I.reduce(deep(I, I.freeze(I.reduce(
                x)))),))
        return v

    def f(I, fv, args, kw, node, fr):
        DS['frame'] = fr
        out = h(I, fv, tuple(value(I, a) for a in args),
                {k: value(I, v) for k, v in kw.items()}, node, fr)
        if out is not None and fv.func.name == 'calc_object_setup' and \
                out.op == 'tuple':
            s = out.args[0]
            return mk('tuple', (tup(mk('index', (s, const(0))),
                                    mk('index', (s, const(1)))),
                                out.args[1]))
        return out
    return f


def hooks(prog, DS):
    for m, n in TOOLS:
        if n not in prog.modules[m].funcs:
            raise AnalysisError('%s.%s is missing' % (m, n))
    return {k: wrap(h, DS) for k, h in opaque.hooks(prog, TOOLS).items()}


def options(name, ps, thorough):
    """(tag, options, absent fields)"""
    def s(n, t='int'):
        return sym('option.' + n, t)
    one = [{}, {'oversampling': s('oversampling')},
           {'propagation_distance': s('propagation_distance', 'float')},
           {'n_modes': const(3)}, {'n_modes': s('n_modes')},
           {'n_obj_modes': const(3)}, {'fourier_probe': TRUE},
           {'probe_support_radius': s('probe_support_radius', 'float')},
           {'randomize_ang': s('randomize_ang', 'float')},
           {'exponentiate_obj': TRUE}, {'phase_only': TRUE},
           {'allow_probe_fourier_shifts': TRUE},
           {'use_qe_mask': TRUE}, {'obj_padding': s('obj_padding')},
           {'obj_view_crop': const(7)}, {'obj_view_crop': const(-5)},
           {'obj_view_crop': const(0)},
           {'scattering_mode': const('r')}, {'scattering_mode': const(
               'reflection')}, {'scattering_mode': const('transmission')},
           {'dm_rank': const(2), 'n_modes': const(3)},
           {'dm_rank': const(-1), 'n_modes': const(3)},
           {'dm_rank': const(0), 'n_modes': const(3)},
           {'near_field': TRUE},
           {'near_field': TRUE, 'oversampling': s('oversampling')},
           {'near_field': TRUE, 'propagation_distance': s(
               'propagation_distance', 'float'),
            'oversampling': s('oversampling')},
           {'exponentiate_obj': TRUE, 'randomize_ang': s(
               'randomize_ang', 'float')},
           {'phase_only': TRUE, 'randomize_ang': s(
               'randomize_ang', 'float')},
           {'phase_only': TRUE, 'exponentiate_obj': TRUE, 'randomize_ang': s(
               'randomize_ang', 'float')},
           {'phase_only': TRUE, 'exponentiate_obj': TRUE},
           {'fourier_probe': TRUE, 'n_modes': const(3)},
           {'probe_support_radius': s('probe_support_radius', 'float'),
            'n_modes': const(3)},
           {'surface_normal': s('surface_normal', 'ndarray')},
           {'probe_shape': s('probe_shape', 'list')},
           {'probe_shape': s('probe_shape', 'list'),
            'propagation_distance': s('propagation_distance', 'float')},
           {'propagator_fourier_crop': s('propagator_fourier_crop')},
           {'obj_size': tup(s('height'), s('width'))},
           {'probe_threshold': s('probe_threshold', 'float')},
           {'initialization': s('initialization', 'str')},
           {'background': s('background', 'tensor')}]
    crop = s('crop')
    if name == 'Bragg2DPtycho':
        crop = tup(s('crop0'), s('crop1'))
    if 'probe_fourier_crop' in ps:
        one += [dict(o, probe_fourier_crop=crop) for o in (
            {}, {'obj_view_crop': const(-5)}, {'fourier_probe': TRUE},
            {'probe_support_radius': s('probe_support_radius', 'float')})]
    for o in one:
        if set(o) <= set(ps):
            yield o, ()
            if o in ({}, {'dm_rank': const(2), 'n_modes': const(3)},
                     {'use_qe_mask': TRUE}):
                for a in c08.OPTIONAL[1:]:
                    yield o, (a,)


def run(prog, rep, thorough):
    for name in M.MODELS:
        f = method(prog, M.model_class(prog, name), 'from_dataset')
        for o, absent in options(name, fparams(f)[2:], thorough):
            t = '%s.from_dataset[%s]' % (name, ', '.join(
                ['%s=%s' % (k, show(v)) for k, v in o.items()] +
                ['no ' + a for a in absent]))
            with rep.guard(t):
                one(prog, rep, name, f, o, absent, t)


def start(prog, name, f, o, absent, DS, extra):
    hk = hooks(prog, DS)
    hk.update(extra)
    I = M.interp(prog, hk)
    ds, F = c08.dataset(I, prog, absent)
    DS['ds'] = ds
    kw = c08.required(I, name, fparams(f)[2:])
    kw.pop('loss', None)
    for k, v in o.items():
        kw[k] = v
        if k == 'surface_normal':
            I.shapes[v] = tup(3)
        if k == 'background':
            I.shapes[v] = tup(M.H_, M.W_)
        for x in (v.args if v.op == 'tuple' else (v,)):
            if x.op == 'sym':
                I.learn(I.st, mk('is', (x, NONE)), False)
            if x.op == 'sym' and k == 'probe_fourier_crop':
                I.nonnegative = I.__dict__.get('nonnegative', set()) | {x}
            if x.op == 'sym' and x.args[1] in ('int', 'float') and \
                    k != 'probe_fourier_crop':
                I.learn(I.st, mk('cmp', ('==', x, const(0))), False)
                I.learn(I.st, mk('cmp', ('!=', x, const(0))), True)
                I.learn(I.st, mk('cmp', ('>', x, const(0))), True)
    return I, ds, kw


def one(prog, rep, name, f, o, absent, t):
    cls = M.model_class(prog, name)
    ctor = method(prog, cls, '__init__')
    calls = []

    def new(I, c, args, kw, node, fr):
        b = bind(ctor, args, kw, 1)
        calls.append(({k: I.reduce(deep(I, I.freeze(I.reduce(v))))
                       for k, v in b.items()}, where(fr.func, node)))
        x = sym('obj0', 'tensor')
        return I.new('inst', c, {'obj': x, 'probe': b.get('probe', x)})
    I, ds, kw = start(prog, name, f, o, absent, {}, {('new', name): new})
    begun = []
    if name == 'RPI':
        g = method(prog, cls, 'init_obj')

        def begin(I, fv, args, kw, node, fr):
            b = bind(fv.func, args, kw)
            begun.append({k: I.reduce(deep(I, I.freeze(I.reduce(v))))
                          for k, v in b.items() if k != 'self'})
            I.setobj(args[0], I.obj(args[0]).put('obj', FRESH))
            return NONE
        I.hooks['call', g.qual] = begin
    m = I.run(FuncVal(f), (mk('class', (cls,)), ds), dict(kw))
    rep.saw(I)
    if not calls:
        if I.st is None:
            rep.bad('raises:' + name, where(f), t + ' always raises')
        else:
            rep.und(t, 'constructor call not seen')
        return
    got, w = calls[-1]
    cp = fparams(ctor)[1:]
    # the length and the sign of the normal do not matter to the projection
    forms = ({},)
    if name == 'Bragg2DPtycho' and o.get('scattering_mode') is not None:
        forms = ({'sign': NONE}, {'sign': const(1)}, {'sign': const(-1)})
    for k in forms[:-1]:
        quiet = c14.Silent()
        judge(prog, quiet, name, f, o, absent, t, got, w, I, ctor, cp, k)
        if not quiet.bads:
            forms = (k,)
            break
    judge(prog, rep, name, f, o, absent, t, got, w, I, ctor, cp, forms[-1])
    if name != 'RPI' or I.st is None:
        return
    if len(begun) != 1:
        rep.bad('not-initialized:RPI', where(f), '%s: init_obj is called %d '
                'times' % (t, len(begun)))
        return
    for p, v in (('initialization_type', kw.get('initialization', default(
            f, 'initialization'))), ('pattern', mk('index', (sym(
                'dataset.patterns', 'tensor'), const(0))))):
        x = begun[0].get(p)
        if x is None:
            rep.bad('not-given:RPI.init_obj.' + p, where(f), '%s: init_obj '
                    'does not get the %s' % (t, p))
        elif v is not None:
            spec.compare(rep, I, x, v, 'RPI.init_obj.' + p, where(f),
                         t + ' ' + p, 'the %s of the object' % p, real)
    g = spec.ref(prog, 'guesses', 'RPI_object')
    J = M.interp(prog)
    r = J.run(FuncVal(g), (FRESH,), {k: v for k, v in kw.items()
                                     if k in fparams(g)})
    spec.compare(rep, I, c21.value(I, I.reduce(m), 'obj'), J.reduce(deep(
        J, J.freeze(J.reduce(r)))), 'RPI.obj', where(f), t + ' obj',
                 'the object', real)


def judge(prog, rep, name, f, o, absent, t, got, w, I, ctor, cp, form):
    g = spec.ref(prog, 'guesses', name)
    J, dj, kj = start(prog, name, f, o, absent, {}, {})
    ps = fparams(g)
    kj.update(form)
    r = J.run(FuncVal(g), (dj,), {k: v for k, v in kj.items() if k in ps})
    if J.st is None:
        raise AnalysisError('the reference for %s raises' % t)
    r = J.reduce(r)
    want = {cval(k): J.reduce(deep(J, J.freeze(J.reduce(v))))
            for k, v in J.obj(r).data.items() if isinstance(k, T)}
    for p, v in want.items():
        if p == 'probe_guess' and p not in cp:
            p = 'probe'
        if p not in cp:
            continue
        x = got.get(p)
        if x is None:
            x = default(ctor, p)
            if x is None or x is NONE and v is not NONE:
                rep.bad('not-given:%s.%s' % (name, p), w, '%s: %s is not '
                        'given to the model' % (t, p))
                continue
        spec.compare(rep, I, x, v, '%s.%s' % (name, p), w, '%s %s' % (t, p),
                     'the argument ' + p, real)
