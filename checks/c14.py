"""C14: gradients reach every trainable parameter."""
from .util import *

from . import c09, c11, c12, c13, models as M, spec

RULE = ('the forward model and the losses are interpreted for every option; '
        'on the resulting value graph, the differentiable paths (not through '
        'detach, .data, no_grad, item, conversions to numpy, integers or '
        'shapes) must lead from the output to every trainable parameter its '
        'definition depends on, and no value derived from one may be '
        'detached on the way')
TRAIN = {
    'SimplePtycho': {'probe', 'obj'},
    'FancyPtycho': {'probe', 'obj', 'background', 'weights',
                    'translation_offsets', 'probe_fourier_shifts'},
    'MultislicePtycho': {'probe', 'obj', 'background', 'weights',
                         'translation_offsets'},
    'Bragg2DPtycho': {'probe', 'obj', 'background', 'weights',
                      'translation_offsets'},
    'RPI': {'obj', 'weights'},
}
CUT = {'f:detach', 'f:data', 'f:item', 'f:numpy', 'f:tolist', 'f:setdata'}
NODIFF = {'f:round', 'f:floor', 'f:ceil', 'f:trunc', 'f:fix', 'f:sign',
          'f:ones_like', 'f:zeros_like', 'f:empty_like', 'f:full_like',
          'f:len', 'cmp', 'not', 'and', 'or', 'is', 'in', 'f:argmax',
          'f:argmin', 'f:argsort', 'f:isnan', 'f:isfinite', 'attr', 'f:int',
          'f:bool', 'isinstance', 'f:any', 'f:all', 'f:numel', 'f:dim',
          'f:shape', 'f:ndim', 'f:size', 'f:isinstance', 'f:hasattr'}
DIFF = {'neg', 'f:exp', 'f:sqrt', 'f:abs', 'f:conj', 'f:sum', 'f:mean',
        'f:stack', 'f:cat', 'f:fft2', 'f:ifft2', 'f:fftshift',
        'f:ifftshift', 'f:pad', 'f:roll', 'f:einsum', 'f:real', 'f:imag',
        'f:clone', 'f:to', 'f:reshape', 'f:view', 'f:unsqueeze', 'f:squeeze',
        'f:permute', 'f:transpose', 'f:swapaxes', 'f:expand', 'f:repeat',
        'f:matmul', 'f:mul', 'f:clamp', 'f:angle', 'f:log', 'f:sin', 'f:cos',
        'f:complex', 'f:contiguous', 'f:float', 'f:T', 'f:dot', 'f:mv',
        'f:as_tensor', 'astype', 'f:pow', 'f:square', 'f:resolve_conj',
        'f:fft', 'f:ifft', 'f:meshgrid', 'f:broadcast_to', 'f:fftn',
        'f:ifftn', 'f:grid_sample', 'f:avg_pool2d', 'f:mse_loss', 'f:nansum',
        'f:view_as_real', 'f:view_as_complex', 'f:Parameter', 'f:prod',
        'f:abs_', 'f:type', 'f:double', 'f:cuda', 'f:cpu', 'f:where',
        'f:max', 'f:min', 'f:maximum', 'f:minimum', 'f:norm', 'f:add',
        'f:sub', 'f:div', 'f:unbind', 'f:split', 'f:flip', 'f:conj_physical',
        'tuple', 'list', 'index', 'phi', 'setitem', 'splice', 'comp', 'map',
        'elem', 'zip', 'enumerate', 'f:enumerate', 'f:zip', 'loopval', 'fold'}
INTS = ('int', 'long', 'int32', 'int64', 'bool', 'int16', 'uint8')


def integer(t):
    """conversion to an integer or boolean type"""
    for x in list(t.args[1:]) + [v for _, v in t.kw]:
        if isinstance(x, T) and x.op in ('ext', 'class', 'const'):
            n = str(x.args[0])
            if n.split('.')[-1] in INTS:
                return True
        elif isinstance(x, str) and x.split('.')[-1] in INTS:
            return True
    return False


def paths(t):
    """[(child, differentiable, known)]"""
    op = t.op
    if op in NODIFF:
        return []
    if op in ('f:tensor',):
        return [(t.args[0], False, True)] if t.args and isinstance(
            t.args[0], T) else []
    if op in CUT:
        return [(t.args[0], False, True)]
    if op in ('f:to', 'astype', 'f:as_tensor', 'f:type', 'conv'):
        if integer(t):
            return []
        return [(c, True, True) for c in children(t)]
    if op == 'bin':
        if t.args[0] in ('//', '%', '<<', '>>', '&', '|', '^'):
            return []
        return [(c, True, True) for c in t.args[1:]]
    if op == 'index':
        return [(t.args[0], True, True)]
    if op == 'setitem':
        return [(t.args[0], True, True), (t.args[-1], True, True)]
    if op == 'phi':
        return [(c, True, True) for c in t.args[1:]]
    if op == 'f:where' and len(t.args) == 3:
        return [(c, True, True) for c in t.args[1:]]
    return [(c, True, op in DIFF) for c in children(t)]


def live(t):
    """(symbols on differentiable paths, cut nodes reachable by known
    differentiable paths)"""
    best, cuts, order = {}, set(), []
    stack = [(t, True)]
    while stack:
        x, known = stack.pop()
        if best.get(x, -1) >= known:
            continue
        best[x] = known
        for c, d, k in paths(x):
            if not isinstance(c, T):
                continue
            if not d:
                if known:
                    cuts.add(x)
                continue
            stack.append((c, known and k))
    return best, cuts


def names(best, known=False):
    return {x.args[0][5:] for x, k in best.items() if x.op == 'sym' and
            isinstance(x.args[0], str) and x.args[0].startswith('self.') and
            (k or not known)}


def trainable(I, m):
    """{registered name: 'param' | 'fixed' | 'buffer' | None}"""
    o = I.obj(m)
    out = {}
    for k, v in o.data.items():
        if not (isinstance(k, str) and k.startswith('%reg:')):
            continue
        nm = k[5:]
        kind = cval(v)
        if kind == 'param':
            x = I.reduce(o.data[nm])
            for y in walk(x):
                if y.op == 'f:Parameter':
                    g = dict(y.kw).get('requires_grad')
                    if g is not None:
                        g = I.reduce(g)
                        kind = 'param' if g is TRUE else 'fixed' if \
                            g is FALSE else None
                    break
            for e, p in walk_events(I.st.trace):
                if e.kind == 'setattr' and e.name == 'requires_grad' and \
                        len(e.args) > 1 and norm.strip(I.reduce(
                            e.args[0])) is norm.strip(x):
                    g = I.reduce(e.args[1])
                    if conds_of(p) and not all(
                            I.reduce(c) is (TRUE if w else FALSE)
                            for c, w in conds_of(p)):
                        kind = None
                    else:
                        kind = 'param' if g is TRUE else 'fixed' if \
                            g is FALSE else None
        out[nm] = kind
    return out


def run(prog, rep, thorough):
    for name in TRAIN:
        for given, over, tag in c13.configs(prog, name, thorough):
            t = '%s[%s]' % (name, tag)
            with rep.guard(t):
                model(prog, rep, name, given, over, t)
    losses(prog, rep)
    tools(prog, rep)


def tensors(best, known=False):
    return {x for x, k in best.items() if x.op == 'sym' and
            x.args[1] == 'tensor' and (k or not known)}


class Silent(c13.Notes):
    def saw(self, I):
        pass

    def count(self, *a):
        pass

    def guard(self, name):
        import contextlib
        return contextlib.suppress(Exception)


def tools(prog, rep):
    """interactions, propagators, measurements: all arguments their
    definitions depend on differentiably"""
    function = spec.function

    def look(prog, _, target, reference, cases, what=None, hooks=None,
             real=None, shapes=None):
        tm, tn = target
        if tn.startswith('generate_'):
            return
        f, g = prog.func(tm, tn), spec.ref(prog, *reference)
        for tag, mk_ in cases:
            t = '%s[%s]' % (tn, tag)
            with rep.guard(t):
                I, got = spec.call(prog, f, mk_, shapes or {}, hooks)
                J, want = spec.call(prog, g, mk_, shapes or {}, hooks)
                rep.saw(I)
                if got is None or want is None:
                    rep.und(t, 'no result')
                    continue
                best, cuts = live(got)
                want = tensors(live(want)[0], True)
                cut = [(c, tensors(live(c.args[0])[0], True) & want)
                       for c in sorted(cuts, key=lambda x: x.n)
                       if c.op != 'f:setdata']
                cut = [(c, l) for c, l in cut if l]
                lost = want - tensors(best)
                if cut:
                    rep.bad('gradient-cut:%s:%s' % (tn, show(
                        sorted(cut[0][1], key=show)[0])), loc(cut[0][0]),
                        '%s: a value computed from %s is used after %s: its '
                        'part of the gradient is lost' % (t, ', '.join(sorted(
                            show(x) for x in cut[0][1])), cut[0][0].op[2:]))
                elif lost and not any(x.op == 'unknown' for x in best):
                    rep.bad('no-gradient:%s:%s' % (tn, show(
                        sorted(lost, key=show)[0])), where(f), '%s: no '
                        'differentiable path leads from the result to %s' % (
                            t, ', '.join(sorted(show(x) for x in lost))))
                elif lost:
                    rep.und(t, show(got, 3))
                else:
                    rep.ok(t)
    spec.function = look
    try:
        for c in (c09, c11, c12):
            c.run(prog, Silent(), False)
    finally:
        spec.function = function


def model(prog, rep, name, given, over, tag):
    cls = M.model_class(prog, name)
    ctor = method(prog, cls, '__init__')
    kinds = {}

    def keep(I, m):
        kinds.update(trainable(I, m))
    I, m = make(prog, name, given, over, keep)
    if m is None:
        return rep.und(tag, 'the constructor raises')
    want = set(TRAIN[name])
    if name == 'RPI' and over.get('weight_matrix') is not TRUE:
        want.discard('weights')
    ab = {k for k in kinds}
    for nm, k in sorted(kinds.items()):
        t = '%s %s' % (tag, nm)
        if k is None:
            rep.und(t, 'requires_grad unknown')
        elif (k == 'param') == (nm in want):
            rep.ok(t, k)
        elif nm in want:
            rep.bad('not-trainable:%s.%s' % (name, nm), where(ctor),
                    '%s: %s is %s: it is never optimized' % (
                        tag, nm, 'a buffer' if k == 'buffer' else
                        'created without gradient'))
        elif nm in ('qe_mask', 'weights') or k == 'param':
            rep.bad('trainable:%s.%s' % (name, nm), where(ctor),
                    '%s: %s is optimized, although it must keep the value '
                    'it was given' % (tag, nm))
    for nm in sorted(want - ab):
        if nm in ('probe', 'obj', 'background') or nm in given:
            rep.bad('not-trainable:%s.%s' % (name, nm), where(ctor),
                    '%s: %s is no parameter of the model' % (tag, nm))
    for c, mkargs in c13.cases(name, 'forward'):
        if c == 'single' and not tag.endswith('fields]'):
            continue
        t2 = '%s %s' % (tag, c)
        I, m = make(prog, name, given, over)
        f = method(prog, cls, 'forward')
        got = c13.result(I, FuncVal(f), m, mkargs)
        rep.saw(I)
        if got is None:
            rep.und(t2, 'no result')
            continue
        best, cuts = live(got)
        have = names(best)
        train = {k for k, v in kinds.items() if v == 'param'} & want
        hit = False
        for cut in sorted(cuts, key=lambda x: x.n):
            b2, _ = live(cut.args[0])
            lost = names(b2, True) & train
            if lost and cut.op != 'f:setdata':
                hit = True
                rep.bad('gradient-cut:%s:%s' % (name, '+'.join(sorted(lost))),
                        loc(cut), '%s: a value computed from %s is used '
                        'after %s: its part of the gradient is lost' % (
                            t2, ', '.join(sorted(lost)), cut.op[2:]))
        for nm in sorted(train):
            if nm in have:
                rep.ok('%s gradient of %s' % (t2, nm))
            elif hit:
                continue
            elif any(x.op == 'unknown' for x in best) or got.op == 'undef':
                rep.und('%s gradient of %s' % (t2, nm), show(got, 3))
            else:
                rep.bad('no-gradient:%s.%s' % (name, nm), where(f), '%s: no '
                        'differentiable path leads from the simulated '
                        'pattern to %s' % (t2, nm))


def make(prog, name, given, over, look=None):
    """c13.make, with a look at the model before its values are arbitrary"""
    if look is None:
        return c13.make(prog, name, given, over)
    build = M.build

    def spy(I, *a, **k):
        m, kw = build(I, *a, **k)
        if I.st is not None:
            look(I, m)
        return m, kw
    M.build = spy
    try:
        return c13.make(prog, name, given, over)
    finally:
        M.build = build


def losses(prog, rep):
    mod = prog.modules['cdtools.tools.losses.losses']
    for fn in ('amplitude_mse', 'intensity_mse', 'poisson_nll'):
        f = mod.funcs.get(fn)
        if f is None:
            raise AnalysisError('loss %s is missing' % fn)
        for mask in (False, True):
            for o in ({}, {'use_sum': TRUE}, {'use_sum': FALSE},
                      {'subtract_min': TRUE}):
                if not set(o) <= set(fparams(f)):
                    continue
                t = '%s[%s%s]' % (fn, ', '.join(o), ' mask' if mask else '')
                with rep.guard(t):
                    I = M.interp(prog)
                    i, s, k = (sym('self.' + x, 'tensor') for x in (
                        'intensities', 'sim_intensities', 'mask'))
                    for x in (i, s, k):
                        I.shapes[x] = tup(M.L_, M.H_, M.W_)
                    got = I.run(FuncVal(f), (i, s), dict(
                        o, **({'mask': k} if mask else {})))
                    rep.saw(I)
                    got = I.reduce(deep(I, I.freeze(I.reduce(got))))
                    best, cuts = live(got)
                    for cut in cuts:
                        b2, _ = live(cut.args[0])
                        if 'sim_intensities' in names(b2, True):
                            rep.bad('gradient-cut:' + fn, loc(cut), '%s: the '
                                    'simulated intensities are used after '
                                    '%s' % (t, cut.op[2:]))
                            break
                    else:
                        if 'sim_intensities' in names(best):
                            rep.ok(t)
                        else:
                            rep.bad('no-gradient:' + fn, where(f), '%s: the '
                                    'loss has no gradient with respect to '
                                    'the simulation' % t)
