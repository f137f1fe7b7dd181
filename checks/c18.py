"""C18: analysis metrics."""
from .util import *
from . import c08, models as M, opaque, spec
from .c11 import case, nm

RULE = ('each analysis function and its reference implementation are '
        'interpreted with the same symbolic arguments for every combination '
        'of options, dimensions and array kinds; the results are compared '
        'in algebraic normal form')
IP = 'cdtools.tools.image_processing.image_processing'
INIT = 'cdtools.tools.initializers.initializers'
MOD = 'cdtools.tools.analysis.analysis'


def arr(name, kind, *shape):
    x = sym(name, kind)
    SHAPES[x] = shape
    return x


SHAPES = {}
H, W, N, P = M.H_, M.W_, M.N_, M.P_
H2, W2 = sym('h2', 'int'), sym('w2', 'int')
R_ = sym('r', 'int')
K = ('tensor', 'ndarray')
A, B = [[arr(n + k, k, *s) for k in K] for n, s in (
    ('A', (N, R_)), ('B', (R_, H)))]
PR, QR = [[arr(n + k, k, P, H, W) for k in K] for n in ('probe', 'qrobe')]
P1 = [arr('single' + k, k, H, W) for k in K]
WM = [arr('weights' + k, k, N, P) for k in K]
OB, OC = [[arr(n + k, k, H2, W2) for k in K] for n in ('obj', 'obk')]
OD, RR3 = arr('obl', 'tensor', H2, W2), arr('rrobe', 'tensor', P, H, W)
BS = [arr('basis' + k, k, 3, 2) for k in K]
ST = [arr('stack' + k, k, N, P, H, W) for k in K]
SU = [arr('stack2' + k, k, N, P, H, W) for k in K]
MAT = arr('matrix', 'ndarray', R_, R_)
MATS = arr('matrices', 'ndarray', N, R_, R_)
SL = tup(mk('slice', (sym('a', 'int'), sym('b', 'int'), NONE)),
         mk('slice', (sym('c', 'int'), sym('d', 'int'), NONE)))
NB = sym('nbins', 'int')
L = [mk('list', (OB[i], OC[i])) for i in (0, 1)]
SNR = sym('snr', 'float')
c = const
CPLX = set(A + B + PR + QR + P1 + WM + OB + OC + ST + SU + [MAT, MATS, OD, RR3])


def real(x):
    return x.op == 'sym' and x not in CPLX


def two(I, env, names):
    return tup(const(2))


def outputs(n):
    def f(I, env, names):
        out = [ops.shapeof(I, env[names[0]])]
        for k in ('probe', 'weights')[:n]:
            if env[k] is not NONE:
                out.append(ops.shapeof(I, env[k]))
        return out if len(out) > 1 else out[0]
    return f


# decided on their own; taken as they are where they are combined
TOOLS = {
    (IP, 'find_shift'): two, (IP, 'hann_window'): opaque.same,
    (MOD, 'remove_phase_ramp'): outputs(1),
    (MOD, 'remove_amplitude_exponent'): outputs(2),
    (MOD, 'calc_frc'): None, (MOD, 'calc_generalized_frc'): None,
    (MOD, 'calc_fidelity'): None, (MOD, 'calc_generalized_rms_error'): None,
}


def build(I, x):
    if x.op == 'list':
        return I.newlist(x.args)
    if x.op == 'dict':
        return I.newdict([(const(k), build(I, v)) for k, v in x.args])
    return x


def results(n):
    """what save_results of a model returns"""
    def a(name, *s):
        x = arr(name + n, 'ndarray', *s)
        if name in ('probe', 'obj'):
            CPLX.add(x)
        return x
    return mk('dict', tuple(sorted({
        'obj': a('obj', H2, W2), 'probe': a('probe', P, H, W),
        'weights': a('weights', N), 'translations': a('translations', N, 3),
        'obj_basis': a('obj_basis', 3, 2), 'probe_basis': a('probe_basis', 3,
                                                            2),
        'background': a('background', H, W), 'wavelength': a('wavelength'),
        'state_dict': mk('dict', (('min_translation',
                                   a('min_translation', 2)),))}.items())))


def run(prog, rep, thorough):
    def tag(x):
        return x if x.op != 'dict' else sym('results')

    def lists(f):
        def g(I):
            a, k = f(I)
            return [build(I, x) for x in a], k
        return g

    def fn(name, cases, rl=real, hooks=None):
        spec.function(prog, rep, (MOD, name), ('analysis', name),
                      [(nm(*map(tag, a), **k), lists(case('', *a, **k)[1]))
                       for a, k in cases], shapes=SHAPES, real=rl,
                      hooks=hooks)
    fn('product_svd', [((a, b), {}) for a in A for b in B])
    fn('orthogonalize_probes', [((p,), k) for p in PR for k in (
        {}, {'return_reexpressed_weights': TRUE})] + [
        ((p, w), k) for p in PR for w in WM for k in (
            {}, {'return_reexpressed_weights': TRUE})] + [
        ((A[0],), {'n_probe_dims': c(1)})])
    fn('standardize', [((p, o), k) for p in (PR[0], P1[0], PR[1], P1[1])
                       for o in OB for k in (
        {}, {'obj_slice': SL}, {'correct_ramp': TRUE},
        {'obj_slice': SL, 'correct_ramp': TRUE})])
    fn('calc_consistency_prtf', [((OB[i], L[i], b), k) for i in (0, 1)
                                 for b in BS for k in (
        {}, {'obj_slice': SL}, {'nbins': NB},
        {'obj_slice': SL, 'nbins': NB})])
    fn('calc_deconvolved_cross_correlation', [
        ((x, y), k) for x in OB for y in OC for k in (
            {}, {'im_slice': SL})])
    frc = [{}, {'im_slice': SL}, {'nbins': NB}, {'snr': SNR},
           {'limit': c('corner')}, {'limit': c(' Side')},
           {'limit': c('nothing')},
           {'nbins': NB, 'snr': SNR, 'limit': c('corner')}]
    fn('calc_frc', [((x, y, b), k) for x in OB for y in OC for b in BS
                    for k in frc])
    fn('calc_vn_entropy', [((MAT,), {}), ((MATS,), {})])
    fn('calc_mode_power_fractions', [((p,), k) for p in PR for k in (
        {}, {'assume_preorthogonalized': TRUE})] + [
        ((p, w), k) for p in PR for w in WM for k in (
            {}, {'assume_preorthogonalized': TRUE})] + [
        ((A[0],), {'n_probe_dims': c(1)}), ((A[0],), {
            'n_probe_dims': c(1), 'assume_preorthogonalized': TRUE})])
    fn('calc_rms_error', [((x, y), dict(k, **l)) for x, y in (
        (PR[0], QR[0]), (PR[1], QR[1]), (OB[0], OC[0])) for k in (
        {}, {'align_phases': FALSE}) for l in (
        {}, {'normalize': TRUE}, {'dims': c(1)})])
    fn('calc_fidelity', [((x, y), k) for x, y in (
        (PR[0], QR[0]), (PR[1], QR[1]), (ST[0], SU[0])) for k in (
        {}, {'dims': c(1)})])
    fn('calc_generalized_rms_error', [((x, y), dict(k, **l)) for x, y in (
        (PR[0], QR[0]), (PR[1], QR[1]), (ST[0], SU[0])) for k in (
        {}, {'dims': c(1)}) for l in ({}, {'normalize': TRUE})])
    fn('calc_generalized_frc', [((x, y, b), k) for x, y in (
        (PR[0], QR[0]), (PR[1], QR[1])) for b in BS for k in frc])
    WIN = [sym('window'), SL]
    tr = {'probe': PR[1]}
    wt = {'weights': arr('w', 'ndarray', N),
          'translations': arr('translations', 'ndarray', N, 3),
          'basis': BS[1]}
    fn('remove_phase_ramp', [((OB[1], w), k) for w in WIN for k in (
        {}, tr, {'probe': P1[1]})])
    fn('remove_amplitude_exponent', [((OB[1], w), k) for w in WIN for k in (
        {}, tr, {'probe': P1[1]}, wt, dict(tr, **wt))])
    T1, T2, F1, F2, RR = (results(n) for n in ('_1', '_2', '_f', '_g', ''))
    fn('make_illumination_map', [((RR,), k) for k in (
        {}, {'total_probe_intensity': sym('total', 'float')})])
    hk = opaque.hooks(prog, TOOLS)
    opts = [{}] + [{n: v} for n, v in (
        ('correct_phase_offset', FALSE), ('correct_phase_ramp', FALSE),
        ('correct_amplitude_exponent', TRUE), ('window', SL),
        ('nbins', NB), ('frc_limit', c('corner')))]
    fn('standardize_reconstruction_set', [((T1, T2, F1), k) for k in opts],
       hooks=hk)
    fn('standardize_reconstruction_pair', [((T1, T2), k) for k in opts + [
        {'probe_nbins': NB}]], hooks=hk)
    pp = [[mk('list', (PR[i], QR[i])), mk('list', (P1[i],)),
           mk('list', (P1[i], arr('single2' + K[i], K[i], H, W)))]
          for i in (0, 1)]
    fn('synthesize_reconstructions', [((p, L[i]), k) for i in (0, 1)
                                      for p in pp[i][::2] for k in (
        {}, {'use_probe': TRUE}, {'obj_slice': SL},
        {'correct_ramp': TRUE})] + [
        ((mk('list', (PR[0], QR[0], RR3)), mk('list', (
            OB[0], OC[0], OD))), {})], hooks=hk)

    def ds(k):
        def f(I):
            I.learn(I.st, mk('is', (NB, NONE)), False)
            return (c08.dataset(I, prog)[0],), k
        return f
    spec.function(prog, rep, (MOD, 'calc_spectral_info'),
                  ('analysis', 'calc_spectral_info'),
                  [('dataset' + nm(**k), ds(k)) for k in ({}, {'nbins': NB})],
                  real=real, shapes=SHAPES, hooks=opaque.hooks(prog, {
                      (INIT, 'exit_wave_geometry'): lambda I, env, n: tup(
                          const(3), const(2))}))
