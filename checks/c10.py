"""C10: losses and their normalizers."""
from .util import *
from . import models as M, spec

RULE = ('each loss and its reference implementation are interpreted with the '
        'same symbolic arguments for every combination of options, each '
        'normalizer over a history of two epochs, and the results compared '
        'in algebraic normal form; with a mask, every use of the data passes '
        'through the selection by the mask')
MOD = 'cdtools.tools.losses.losses'
D, SIM = sym('intensities', 'tensor'), sym('sim_intensities', 'tensor')
MASK = sym('mask', 'tensor')
SHAPES = {D: (M.N_, M.H_, M.W_), SIM: (M.N_, M.H_, M.W_),
          MASK: (M.H_, M.W_)}
LOSSES = ('amplitude_mse', 'intensity_mse', 'poisson_nll')


def run(prog, rep, thorough):
    for n in LOSSES:
        ps = fparams(prog.func(MOD, n))
        cs = []
        opts = [{}]
        for o, vals in (('use_sum', (TRUE, FALSE)),
                        ('subtract_min', (TRUE, FALSE)),
                        ('eps', (sym('eps', 'float'),))):
            if o in fparams(spec.ref(prog, 'losses', n)):
                opts = [dict(k, **e) for k in opts
                        for e in [{}] + [{o: v} for v in vals]]
        for kw in opts:
            for m in (None, NONE, MASK):
                k = dict(kw)
                if m is not None:
                    k['mask'] = m
                cs.append((','.join('%s=%s' % (a, show(b)) for a, b in
                                    sorted(k.items())), make(k)))
        spec.function(prog, rep, (MOD, n), ('losses', n), cs, shapes=SHAPES,
                      real=real)
        with rep.guard('masked pixels ' + n):
            masked(prog, rep, n, cs)
    for cls, reference in (('AmplitudeMSENormalizer', 'mse_normalized'),
                           ('IntensityMSENormalizer', 'mse_normalized'),
                           ('SimplePoissonNLLNormalizer', 'nll_normalized')):
        for m in (None, NONE, MASK):
            for k in (1, 2, 3):
                with rep.guard(cls):
                    normalizer(prog, rep, cls, reference, m, k)


def real(x):
    """all the data is real"""
    return x.op == 'sym'


def make(kw):
    def f(I):
        I.learn(I.st, mk('is', (MASK, NONE)), False)
        return (D, SIM), kw
    return f


def masked(prog, rep, n, cs):
    """noninterference: the data is only used through the mask"""
    f = prog.func(MOD, n)
    for tag, mkf in cs:
        I, got = spec.call(prog, f, mkf, SHAPES)
        if got is None or mkf(I)[1].get('mask') is not MASK:
            continue
        for x in (D, SIM):
            leak = free(got, x)
            if leak is None:
                rep.ok('masked pixels %s %s' % (n, tag))
            elif leak is True:
                rep.bad('masked-pixels:' + n, where(f), '%s[%s]: masked '
                        'pixels of %s enter the loss: %s' % (
                            n, tag, show(x), show(got, 7)))
            else:
                rep.und('masked pixels %s %s' % (n, tag), show(leak, 5))


def free(t, x):
    """None: x occurs only below a selection by the mask; True: x is used
    without the mask; else the node in doubt"""
    memo = {}

    def go(y):
        if y in memo:
            return memo[y]
        memo[y] = None
        r = None
        if y is x:
            r = True
        elif y.op == 'f:masked_select' and dict(y.kw).get('mask') is not \
                None and any(z is MASK for z in walk(dict(y.kw)['mask'])):
            r = None
        elif y.op == 'index' and any(z is MASK for z in walk(y.args[1])):
            r = None
        elif y.op in ('attr', 'f:dim', 'f:numel', 'len', 'shape', 'index') \
                and y.args[0].op == 'attr':
            r = None
        elif y.op == 'attr' and y.args[1] in ('shape', 'dtype', 'device',
                                              'ndim'):
            r = None
        elif any(z is MASK for z in y.args if isinstance(z, T)) or any(
                v is MASK for _, v in y.kw):
            # some other way of combining with the mask
            if any(z is x for z in walk(y)):
                r = y
        else:
            for z in list(y.args) + [v for _, v in y.kw]:
                if isinstance(z, T):
                    q = go(z)
                    if q is True:
                        r = True
                    elif q is not None and r is None:
                        r = q
        memo[y] = r
        return r
    return go(t)


def normalizer(prog, rep, name, reference, mask, batches):
    cls = prog.cls(MOD, name)
    I = M.interp(prog)
    bs = [sym('batch%d' % i, 'tensor') for i in range(4)]
    I.shapes.update({b: tup(M.N_, M.H_, M.W_) for b in bs})
    I.learn(I.st, mk('is', (MASK, NONE)), False)
    loss = [sym('loss%d' % i, 'tensor') for i in range(2)]
    for x in loss:
        I.shapes[x] = tup()
    kw = {} if mask is None else {'mask': mask}
    o = I.construct(cls, (), {})
    acc = method(prog, cls, 'accumulate')
    nrm = method(prog, cls, 'normalize_loss')
    w = where(nrm)
    t = '%s %d batches%s' % (name, batches, '' if mask is None else
                             ' mask=' + show(mask))
    for b in bs[:batches]:
        I.run(FuncVal(acc), (o, b), dict(kw))
    first = I.run(FuncVal(nrm), (o, loss[0]), {})
    if I.st is None:
        rep.bad('raises:' + name, w, '%s always raises' % t)
        return
    first = I.reduce(deep(I, I.reduce(first)))
    I.run(FuncVal(acc), (o, bs[3]), dict(kw))
    second = I.run(FuncVal(nrm), (o, loss[1]), {})
    rep.saw(I)
    if I.st is None:
        rep.bad('raises:' + name, w, '%s raises in the second epoch' % t)
        return
    second = I.reduce(deep(I, I.reduce(second)))
    if any(x is bs[3] for x in walk(second)):
        rep.bad('later-epochs:' + name, w, '%s: patterns seen after the '
                'first epoch change the normalization' % t)
    m = NONE if mask is None else mask
    for k, (x, l) in enumerate(((first, loss[0]), (second, loss[1]))):
        g = spec.ref(prog, 'losses', reference)
        J, want = spec.call(prog, g, lambda J: (
            (mk('tuple', tuple(bs[:batches])), m, l), {}), {
                b: (M.N_, M.H_, M.W_) for b in bs})
        spec.compare(rep, I, x, want, name, w, '%s epoch %d' % (t, k),
                     'the normalized loss', real)
