"""C09: the detector model."""
from .util import *
from . import models as M, spec

RULE = ('each measurement function and its reference implementation are '
        'interpreted with the same symbolic arguments for every combination '
        'of options; the results are compared in algebraic normal form')
MOD = 'cdtools.tools.measurements.measurements'
W2, W3, W4 = (sym('wavefield%d' % n, 'tensor') for n in (2, 3, 4))
SHAPES = {W2: (M.H_, M.W_), W3: (M.P_, M.H_, M.W_),
          W4: (M.N_, M.P_, M.H_, M.W_)}
SL = mk('tuple', (mk('slice', (sym('a', 'int'), sym('b', 'int'), NONE)),
                  mk('slice', (sym('c', 'int'), sym('d', 'int'), NONE))))


def cases(bg):
    out = []
    for wf in (W2, W3, W4):
        for sat in (None, sym('saturation', 'float')):
            for ov in (None, const(1), const(2), sym('oversampling', 'int')):
                for fin in (None, FALSE, TRUE):
                    for sl in (None, SL):
                        for eps in (None, sym('epsilon', 'float')):
                            if eps is not None and (sl or fin):
                                continue
                            kw = {}
                            if sat is not None:
                                kw['saturation'] = sat
                            if ov is not None:
                                kw['oversampling'] = ov
                            if fin is not None:
                                kw['simulate_finite_pixels'] = fin
                            if sl is not None:
                                kw['detector_slice'] = sl
                            if eps is not None:
                                kw['epsilon'] = eps
                            out.append((wf, kw))
    return out


def make(prog, args, kw):
    def f(I):
        for v in kw.values():
            if v.op == 'sym':
                I.learn(I.st, mk('is', (v, NONE)), False)
                if v.args[1] == 'int':
                    I.learn(I.st, mk('cmp', ('<', v, const(2))), False)
                    I.learn(I.st, mk('cmp', ('==', v, const(1))), False)
        return args, kw
    return f


def tag(wf, kw):
    return '%dd %s' % (len(SHAPES[wf]), ','.join(
        '%s=%s' % (k, show(v, 2)) for k, v in sorted(kw.items())))


def run(prog, rep, thorough):
    fn = {n: FuncVal(prog.func(MOD, n)) for n in (
        'intensity', 'incoherent_sum')}
    for n in fn:
        cs = [(tag(wf, kw), make(prog, (wf,), kw)) for wf, kw in cases(False)
              if not (n == 'incoherent_sum' and wf is W2)]
        spec.function(prog, rep, (MOD, n), ('measurements', n), cs,
                      shapes=SHAPES)
    bg = sym('background', 'tensor')
    qe = sym('qe_mask', 'tensor')
    sh = dict(SHAPES)
    meas = {n: mk('func', (FuncVal(prog.func(MOD, n)),)) for n in fn}
    cs = []
    for n in (None, 'intensity', 'incoherent_sum'):
        for wf, kw in cases(True):
            if n == 'incoherent_sum' and wf is W2:
                continue
            for q in (None, qe):
                k = dict(kw)
                if n:
                    k['measurement'] = meas[n]
                if q is not None:
                    k['qe_mask'] = q
                cs.append(('%s %s' % (n, tag(wf, k)),
                           make(prog, (wf, bg), k)))
    spec.function(prog, rep, (MOD, 'quadratic_background'),
                  ('measurements', 'quadratic_background'), cs, shapes=sh)
