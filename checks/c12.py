"""C12: propagators."""
from .util import *
from . import models as M, spec

RULE = ('each propagator and its reference implementation are interpreted '
        'with the same symbolic arguments for every combination of options '
        'and dimensions; the results are compared in algebraic normal form')
MOD = 'cdtools.tools.propagators.propagators'
W2, W3, W4 = (sym('wavefront%d' % n, 'tensor') for n in (2, 3, 4))
PROP = sym('propagator', 'tensor')
KMAP, IMAP = sym('k_map', 'tensor'), sym('intensity_map', 'tensor')
BASIS = sym('basis', 'tensor')
OFF, PV = sym('offset', 'tensor'), sym('propagation_vector', 'tensor')
SB, DB = sym('sample_basis', 'ndarray'), sym('det_basis', 'ndarray')
SP = sym('spacing', 'tensor')
WL, DIST = (sym(x, 'tensor') for x in ('wavelength', 'distance'))
Z, BL = (sym(x, 'float') for x in ('z', 'bandlimit'))
SHAPE = mk('tuple', (M.H_, M.W_))
SHAPES = {W2: (M.H_, M.W_), W3: (M.P_, M.H_, M.W_),
          W4: (M.N_, M.P_, M.H_, M.W_), PROP: (M.H_, M.W_),
          KMAP: (M.HO, M.WO, 2), IMAP: (M.HO, M.WO), BASIS: (3, 2),
          OFF: (3,), PV: (3,), SB: (3, 2), DB: (3, 2), SP: (2,), WL: (),
          DIST: ()}


def case(*a, **k):
    t = ','.join([show(x) for x in a] + ['%s=%s' % (n, show(v))
                                         for n, v in sorted(k.items())])

    def f(I):
        for v in list(k.values()) + list(a):
            if v.op == 'sym':
                I.learn(I.st, mk('is', (v, NONE)), False)
        return a, k
    return t, f


def real(x):
    return x.op == 'sym' and x not in (W2, W3, W4, PROP)


def run(prog, rep, thorough):
    def fn(name, cases, ref=None):
        spec.function(prog, rep, (MOD, name), ('propagators', ref or name),
                      [case(*a, **k) for a, k in cases], shapes=SHAPES,
                      real=real)
    for n in ('far_field', 'inverse_far_field'):
        fn(n, [((w,), {}) for w in (W2, W3, W4)])
    for n in ('near_field', 'inverse_near_field'):
        fn(n, [((w, PROP), {}) for w in (W2, W3, W4)])
    fn('high_NA_far_field', [((w, KMAP), k) for w in (W2, W3, W4)
                             for k in ({}, {'intensity_map': IMAP})])
    g = 'generate_generalized_angular_spectrum_propagator'
    fn(g, [((SHAPE, BASIS, WL, OFF), k) for k in (
        {}, {'propagation_vector': PV}, {'propagate_along_offset': TRUE},
        {'propagate_along_offset': FALSE},
        {'propagation_vector': PV, 'propagate_along_offset': TRUE})])
    fn('generate_angular_spectrum_propagator', [
        ((SHAPE, SP, WL, Z), k) for k in ({}, {'bandlimit': BL})])
    for lens in (None, TRUE, FALSE):
        with rep.guard('high NA maps'):
            f = prog.func(MOD, 'generate_high_NA_k_intensity_map')
            a = (SB, DB, SHAPE, DIST, WL)
            k = {} if lens is None else {'lens': lens}
            I, got = spec.call(prog, f, case(*a, **k)[1], SHAPES)
            rep.saw(I)
            k.setdefault('lens', FALSE)
            J, want = spec.call(prog, spec.ref(
                prog, 'propagators', 'high_NA_k_intensity_map'),
                case(*a, **k)[1], SHAPES)
            spec.compare(rep, I, got, want, f.name, where(f),
                         f.name + ' lens=%s' % show(k['lens']), f.name, real)
