"""C11: the interaction of probe and object."""
from .util import *
from vg import ops
from . import models as M, opaque, spec

RULE = ('each interaction function and its reference implementation are '
        'interpreted with the same symbolic arguments for every combination '
        'of options and dimensions; the results are compared in algebraic '
        'normal form')
MOD = 'cdtools.tools.interactions.interactions'
IP = 'cdtools.tools.image_processing.image_processing'
BASIS = sym('basis', 'tensor')
NORMAL = sym('surface_normal', 'tensor')
T1, TN, P1, PN = (sym(x, 'tensor') for x in (
    'translation', 'translations', 'pixel_translation',
    'pixel_translations'))
PR2, PR3, PR4 = (sym('probe%d' % n, 'tensor') for n in (2, 3, 4))
OB2, OB3 = (sym('obj%d' % n, 'tensor') for n in (2, 3))
SHAPES = {BASIS: (3, 2), NORMAL: (3,), T1: (3,), TN: (M.N_, 3), P1: (2,),
          PN: (M.N_, 2), PR2: (M.H_, M.W_), PR3: (M.P_, M.H_, M.W_),
          PR4: (M.N_, M.P_, M.H_, M.W_), OB2: (M.HO, M.WO),
          OB3: (M.L_, M.HO, M.WO)}


def case(tag, *a, **k):
    def f(I):
        for v in k.values():
            if v.op == 'sym':
                I.learn(I.st, mk('is', (v, NONE)), False)
        return a, k
    return tag, f


def nm(*a, **k):
    return ','.join([show(x) for x in a] + [
        '%s=%s' % (n, show(v)) for n, v in sorted(k.items())])


def real(x):
    return x.op == 'sym' and x not in (PR2, PR3, PR4, OB2, OB3)


def upsampled(I, env, names):
    s = ops.shapeof(I, env['ims'])
    if s is None or s.op != 'tuple':
        return None
    return mk('tuple', s.args[:-2] + tuple(
        ops.binop(I, '*', x, env['upsample_factor']) for x in s.args[-2:]))


def run(prog, rep, thorough):
    def fn(name, cases, hooks=None):
        spec.function(prog, rep, (MOD, name), ('interactions', name),
                      [case(nm(*a, **k), *a, **k) for a, k in cases],
                      shapes=SHAPES, real=real, hooks=hooks)
    for name, one, many in (('translations_to_pixel', T1, TN),
                            ('pixel_to_translations', P1, PN)):
        cs = []
        for x in (one, many):
            cs += [((BASIS, x), {}), ((BASIS, x), {'surface_normal': NORMAL})]
        fn(name, cs)
    fn('project_translations_to_sample', [((BASIS, T1), {}),
                                          ((BASIS, TN), {})])
    fn('ptycho_2D_round', [((pr, OB2, tr), k)
                           for pr in (PR2, PR3) for tr in (P1, PN)
                           for k in ({}, {'multiple_modes': TRUE},
                                     {'multiple_modes': FALSE})])
    fn('ptycho_2D_round', [((pr, OB2, tr), k)
                           for pr in (PR2, PR3) for tr in (P1, PN)
                           for k in ({'upsample_obj': TRUE},
                                     {'upsample_obj': TRUE,
                                      'multiple_modes': TRUE})],
       opaque.hooks(prog, {(IP, 'fourier_upsample'): upsampled}))
    fn('ptycho_2D_linear', [((PR2, OB2, tr), k) for tr in (P1, PN)
                            for k in ({}, {'shift_probe': TRUE},
                                      {'shift_probe': FALSE})])
    cs = []
    for pr in (PR2, PR3, PR4):
        for ob in (OB2, OB3):
            for tr in (P1, PN):
                for mm in (None, TRUE, FALSE):
                    for sb in (None, TRUE):
                        k = {}
                        if mm is not None:
                            k['multiple_modes'] = mm
                        if sb is not None:
                            k['shift_back_ew'] = sb
                        cs.append(((pr, ob, tr), k))
    fn('ptycho_2D_sinc', cs)
    fn('RPI_interaction', [((pr, ob), {}) for pr in (PR2, PR3)
                           for ob in (OB2, OB3)])
