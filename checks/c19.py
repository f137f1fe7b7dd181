"""C19: initial guesses."""
from .util import *
from . import c08, models as M, opaque, spec
from .c11 import case, nm

RULE = ('each initializer and its reference implementation are interpreted '
        'with the same symbolic arguments and a symbolic dataset for every '
        'combination of options and of optional dataset entries; the results '
        'are compared in algebraic normal form')
MOD = 'cdtools.tools.initializers.initializers'
IP = 'cdtools.tools.image_processing.image_processing'
PROP = 'cdtools.tools.propagators.propagators'
SHAPES = {}
H, W, N, P = M.H_, M.W_, M.N_, M.P_
c = const


def arr(name, kind, *shape):
    x = sym(name, kind)
    SHAPES[x] = shape
    return x


DB = [arr('det_basis' + k, k, 3, 2) for k in ('tensor', 'ndarray')]
BS = [arr('basis' + k, k, 3, 2) for k in ('tensor', 'ndarray')]
TR = arr('translations', 'tensor', N, 2)
SG = arr('sigma', 'ndarray', 2)
CE = arr('center', 'ndarray', 2)
CU = arr('curvature', 'ndarray', 2)
MODE = arr('mode', 'tensor', H, W)
MODES = arr('modes', 'tensor', P, H, W)
LAM, DIST, Z = (sym(x, 'float') for x in ('wavelength', 'distance', 'z'))
AMP, S0, ANG = (sym(x, 'float') for x in ('amplitude', 'sigma0', 'semiangle'))
PAD, OS = sym('padding', 'int'), sym('oversampling', 'int')
SH = tup(H, W)
S2 = tup(sym('h2', 'int'), sym('w2', 'int'))


def real(x):
    return x.op == 'sym' and x not in (MODE, MODES)


def large(I, env, n):
    return None


TOOLS = {(PROP, 'generate_angular_spectrum_propagator'): None,
         (IP, 'fourier_upsample'): None, (IP, 'centroid'): lambda I, e, n:
         tup(c(2))}


def run(prog, rep, thorough):
    hk = opaque.hooks(prog, TOOLS)

    def fn(name, cases, hooks=None):
        spec.function(prog, rep, (MOD, name), ('initializers', name),
                      cases, real=real, shapes=SHAPES, hooks=hooks)

    def plain(name, cases, hooks=None):
        fn(name, [case(nm(*a, **k), *a, **k) for a, k in cases], hooks)

    plain('exit_wave_geometry', [((b, SH, LAM, DIST), k) for b in DB
                                 for k in ({}, {'oversampling': OS})])
    plain('calc_object_setup', [((SH, TR), k) for k in (
        {}, {'padding': PAD})])
    plain('gaussian', [((SH, SG), k) for k in (
        {}, {'amplitude': AMP}, {'center': CE}, {'curvature': CU},
        {'amplitude': AMP, 'center': CE, 'curvature': CU})])

    def data(args, kw, absent=()):
        def f(I):
            ds = c08.dataset(I, prog, absent)[0]
            return [ds] + list(args), kw
        return ('dataset' + ''.join(' without ' + x for x in absent) + ', ' +
                nm(*args, **kw), f)
    fn('gaussian_probe', [data((b, SH, s), k) for b in BS for s in (S0, SG)
                          for k in ({}, {'propagation_distance': Z},
                                    {'propagation_distance': NONE})], hk)
    ab = ((), ('mask',), ('background',), ('mask', 'background'))
    fn('SHARP_style_probe', [data((), k, a) for a in ab for k in (
        {}, {'oversampling': OS}, {'oversampling': c(2)},
        {'propagation_distance': Z},
        {'propagation_distance': Z, 'oversampling': OS})], hk)
    back = mk('func', (FuncVal(prog.func(PROP, 'inverse_far_field')),))
    fn('SHARP_style_near_field_probe', [data((back,), k, a) for a in ab
                                        for k in ({}, {'oversampling': c(2)},
                                                  {'oversampling': c(1)})])
    SL = tup(mk('slice', (sym('a', 'int'), sym('b', 'int'), NONE)),
             mk('slice', (sym('c', 'int'), sym('d', 'int'), NONE)))
    fn('STEM_style_probe', [data((s, SL, ANG), k) for s in (SH, S2) for k in (
        {}, {'oversampling': OS}, {'propagation_distance': Z})], hk)
    plain('generate_subdominant_modes', [((x, c(n)), k) for x in (MODE, MODES)
                                         for n in (1, 2, 3, 6) for k in (
        {}, {'circular': FALSE})])
