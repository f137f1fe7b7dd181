"""C17: image processing."""
from .util import *
from . import models as M, spec
from .c11 import case, nm

RULE = ('each image processing function and its reference implementation '
        'are interpreted with the same symbolic arguments for every '
        'combination of options and dimensions; the results are compared in '
        'algebraic normal form')
MOD = 'cdtools.tools.image_processing.image_processing'
I2, J2, I3, I4 = (sym(x, 'tensor') for x in ('im', 'im2', 'ims', 'stack'))
A2 = sym('array', 'ndarray')
K1 = sym('kernel', 'tensor')
SH = sym('shift', 'tensor')
AR = sym('search_around', 'tensor')
RES = sym('resolution', 'int')
UP = sym('upsample_factor', 'int')
SHAPES = {I2: (M.H_, M.W_), J2: (M.H_, M.W_), I3: (M.N_, M.H_, M.W_),
          I4: (M.N_, M.P_, M.H_, M.W_), A2: (M.H_, M.W_), K1: (M.W_,),
          SH: (2,), AR: (2,)}


def real(x):
    return x.op == 'sym' and x not in (I2, J2, I3, I4)


def run(prog, rep, thorough):
    def fn(name, cases, rl=real, shapes=SHAPES):
        spec.function(prog, rep, (MOD, name), ('image_processing', name),
                      [case(nm(*a, **k), *a, **k) for a, k in cases],
                      shapes=shapes, real=rl)
    c = const
    fn('hann_window', [((A2,), {})])
    cs = [((x,), k) for x in (I2, I3, I4) for k in (
        {}, {'dims': c(1)}, {'dims': c(2)})] + [((I3,), {'dims': c(3)})]
    fn('centroid', cs)
    fn('centroid_sq', cs + [(a, dict(k, comp=b)) for a, k in cs
                            for b in (TRUE, FALSE)])
    fn('sinc_subpixel_shift', [((I2, SH), {}), ((I2, tup(
        sym('a', 'float'), sym('b', 'float'))), {})])
    fn('find_pixel_shift', [((I2, J2), {})])
    fn('find_subpixel_shift', [((I2, J2), k) for k in (
        {}, {'search_around': AR}, {'search_around': tup(c(2), c(-3))},
        {'resolution': RES}, {'search_around': AR, 'resolution': RES})])
    fn('find_shift', [((I2, J2), k) for k in ({}, {'resolution': RES})])
    fn('convolve_1d', [((x, K1), k) for x in (I2, I3) for k in (
        {}, {'dim': c(-1)}, {'dim': c(1)}, {'fftshift_kernel': FALSE},
        {'fftshift_kernel': TRUE})])
    fn('fourier_upsample', [((x,), k) for x in (I2, I3, I4) for k in (
        {}, {'upsample_factor': UP}, {'upsample_factor': c(3)},
        {'preserve_mean': TRUE},
        {'upsample_factor': UP, 'preserve_mean': TRUE})])
    fn('center', [((x,), k) for x in (I2, I3, I4) for k in (
        {}, {'use_power': FALSE}, {'iterations': c(1)})])
