"""C04: the gradient of a minibatch is that of all its exposures, once."""
from .recon import *
from . import models as M

RULE = ('effect sequence of the closure handed to the optimizer: one '
        'zero_grad first, gradient contributions equal to the sum over a '
        'partition of the minibatch of loss(patterns, forward(inputs)), plus '
        'the regulariser once; returned and recorded losses are that sum; '
        'every loss a model can select is additive over exposures')


def contributions(I, tr):
    """[(loops, conds, node)] for every backward call in the trace."""
    out = []
    for e, path in walk_events(tr):
        if e.kind == 'call' and e.name == 'backward':
            out.append((loops_of(path), conds_of(path), e, e.args[0]))
    return out


def run(prog, rep, thorough):
    for mask in (True, 'none', False):
        for nrm in (True, 'none', False):
            for reg in ('factor', 'nofactor', 'noattr'):
                for stop in (False, True):
                    with rep.guard('epoch'):
                        epoch(prog, rep, mask, nrm, reg, stop)
    with rep.guard('model losses'):
        losses(prog, rep)


def epoch(prog, rep, mask, nrm, reg, stop):
    s = Setup(prog, mask=mask, norm=nrm, reg=reg != 'noattr')
    I = s.I
    cw = sym('calculation_width', 'int')
    factor = sym('regularization_factor', 'list')
    kw = {'calculation_width': cw}
    if stop:
        kw['stop_event'] = sym('stop_event', 'obj')
    if reg != 'nofactor':
        kw['regularization_factor'] = factor
    if stop:
        # the branch taken when nobody asked to stop
        def is_set(I_, *a):
            return FALSE
    v = s.call('run_epoch', **kw)
    f = s.meth('run_epoch')
    w = where(f)
    rep.saw(I)
    tag = '[mask %s, normalizer %s, regularizer %s%s]' % (
        mask, nrm, reg, ', stop event' if stop else '')
    if I.st is None:
        rep.bad('epoch-raises', w, 'run_epoch always raises ' + tag)
        return
    tr = I.st.trace
    el = mk('elem', (s.loader,))
    IN, PAT = mk('index', (el, const(0))), mk('index', (el, const(1)))
    batch = (IN, PAT)
    stopsym = kw.get('stop_event')

    def about_stop(c):
        return stopsym is not None and any(x is stopsym for x in walk(c))

    # ---- exactly one optimizer step per minibatch, unconditional
    steps = [(e, p) for e, p in walk_events(tr) if e.kind == 'step' and
             not any(x.kind == 'step' for x, _ in p)]
    if not steps:
        if any(e.kind == 'call' and e.name == '.step' and
               e.args and e.args[0] is s.opt for e, p in walk_events(tr)):
            rep.und('optimizer step ' + tag, 'step without a closure')
        else:
            rep.bad('no-optimizer-step', w, 'no optimizer step is taken')
        return
    if len(steps) > 1:
        alts = [conds_of(p) for e, p in steps]
        if all(alts):
            rep.und('one step ' + tag, 'several alternative steps')
            return
        rep.bad('several-optimizer-steps', w, '%d optimizer steps are taken '
                'per minibatch' % len(steps))
        return
    st, path = steps[0]
    lp = [e for e in loops_of(path)]
    if not lp or lp[0].args[0] is not s.loader:
        if not lp:
            rep.bad('step-outside-minibatch-loop', w, 'the optimizer step is '
                    'not taken per minibatch')
        else:
            rep.und('minibatch loop ' + tag, show(lp[0].args[0], 4))
        return
    if len(lp) > 1:
        rep.bad('step-inside-chunk-loop', where(st.func, st.node),
                'the optimizer steps once per piece of a minibatch')
        return
    cds = [c for c in conds_of(path) if not about_stop(c[0])]
    if cds and batch_cond(cds, el):
        rep.bad('step-conditional', where(st.func, st.node),
                'minibatches are skipped when %s' % ' and '.join(
                    ('not ' if p else '') + show(c, 5) for c, p in cds))
        return
    if cds:
        rep.und('step ' + tag, 'conditional step')
        return
    rep.ok('one optimizer step per minibatch ' + tag)
    clo = st.blocks[0] if st.blocks else []
    for e, p in walk_events(clo):
        if e.kind in ('call', 'step') and e.name and \
                e.name.endswith('.step') and e.args and e.args[0] is s.opt:
            rep.bad('step-inside-closure', where(e.func, e.node), 'a further '
                    'optimizer step is taken while the gradient of the '
                    'minibatch is being accumulated')
            return
    # ---- gradients cleared once, before anything is accumulated
    order = []
    for e, p in walk_events(clo):
        if e.kind == 'call' and e.name and e.name.endswith('zero_grad'):
            order.append(('zero', e, p))
        elif e.kind == 'setattr' and e.name == 'grad':
            order.append(('zero', e, p))
        elif e.kind == 'call' and e.name == 'backward':
            order.append(('back', e, p))
    z = [o for o in order if o[0] == 'zero']
    backs = [o for o in order if o[0] == 'back']
    zo = [(e, p) for e, p in walk_events(tr) if e.kind == 'call' and
          e.name and e.name.endswith('zero_grad') and
          not any(x is st for x, _ in p)]
    if not z:
        if any(e.kind == 'call' and e.name == 'autograd.grad'
               for e, p in walk_events(clo)):
            rep.und('zero_grad ' + tag, 'explicit gradients')
        else:
            rep.bad('gradients-not-cleared', where(f, st.node),
                    'the closure given to the optimizer does not clear the '
                    'gradients of the previous evaluation')
    else:
        k = order.index(z[0])
        zl = [o for o in z if loops_of(o[2])]
        zc = [o for o in z if conds_of(o[2])]
        after = [o for o in z if any(order.index(b) < order.index(o)
                                     for b in backs)]
        if zl and z[0][1].kind == 'call':
            rep.bad('gradients-cleared-per-chunk',
                    where(zl[0][1].func, zl[0][1].node),
                    'the gradients are cleared inside the loop over pieces: '
                    'only the last piece contributes')
        elif after:
            rep.bad('gradients-cleared-after-backward',
                    where(after[0][1].func, after[0][1].node),
                    'gradients are cleared after they were accumulated')
        elif zc and len(zc) == len(z):
            rep.bad('gradients-cleared-conditionally',
                    where(zc[0][1].func, zc[0][1].node),
                    'gradients are only cleared when %s' %
                    show(conds_of(zc[0][2])[0][0], 5))
        else:
            rep.ok('gradients cleared first ' + tag)
    # ---- gradient contributions
    data, regs, other = [], [], []
    for o, e, p in backs:
        a = deep(I, e.args[0])
        for atom, coef in norm.lin(a).items():
            if atom is None:
                continue
            loops = loops_of(p)
            while atom.op == 'loopsum':
                loops = loops + [atom.args[0]]
                atom = atom.args[1]
            item = (atom, coef, loops, [
                c for c in conds_of(p) if not about_stop(c[0])], e)
            has = lambda x: any(y is x for y in walk(atom))
            if has(s.loss):
                data.append(item)
            elif has(s.regfn):
                regs.append(item)
            else:
                other.append(item)
    if not data:
        if other:
            rep.und('gradient ' + tag, show(other[0][0], 6))
        else:
            rep.bad('no-data-gradient', where(f, st.node), 'the loss of the '
                    'patterns is never back-propagated')
        return
    if len(data) > 1:
        if len({x[0] for x in data}) == 1 and not any(
                x[3] for x in data):
            rep.bad('loss-backpropagated-twice', where(data[1][4].func,
                                                       data[1][4].node),
                    'the same loss is back-propagated more than once')
        else:
            rep.und('gradient ' + tag, 'several contributions')
        return
    atom, coef, loops, cds, e = data[0]
    we = where(e.func, e.node)
    if coef != 1:
        rep.bad('loss-scaled', we, 'the back-propagated loss is scaled by %s'
                % coef)
    lossterm(I, rep, s, atom, loops, cds, we, IN, PAT, batch, cw, mask, tag,
             el)
    # ---- regulariser
    want = reg == 'factor'
    if want:
        if not regs:
            rep.bad('regularizer-dropped', where(f, st.node), 'a '
                    'regularization factor has no effect on the gradient')
        elif len(regs) == 1 and not regs[0][2] and regs[0][1] == 1:
            a = regs[0][0]
            if a.op == 'call' and a.args[0] is s.regfn and \
                    list(a.args[1:]) == [factor]:
                rep.ok('regularizer once ' + tag)
            else:
                rep.und('regularizer ' + tag, show(a, 6))
        elif len(regs) == 1 and regs[0][2]:
            rep.bad('regularizer-per-chunk', where(regs[0][4].func,
                                                   regs[0][4].node),
                    'the regulariser is added once per piece, so its weight '
                    'depends on the calculation width')
        elif len(regs) > 1:
            rep.bad('regularizer-repeated', where(regs[0][4].func,
                                                  regs[0][4].node),
                    'the regulariser is added more than once')
        else:
            rep.und('regularizer ' + tag, 'scaled')
    elif regs:
        rep.bad('regularizer-unrequested', where(regs[0][4].func,
                                                 regs[0][4].node),
                'a regulariser contributes although none was requested')
    else:
        rep.ok('no regularizer ' + tag)
    # ---- value returned by the closure and recorded loss
    recorded(I, rep, s, v, tr, st, atom, loops, tag, w, nrm)
    normalizer(I, rep, s, tr, st, PAT, mask, nrm, tag, w)


def batch_cond(cds, el):
    """A condition that depends on the minibatch or on counters."""
    for c, p in cds:
        if any(x is el or x.op in ('mu', 'loopval') for x in walk(c)):
            # emptiness tests are harmless
            if c.op in ('cmp', 'not', 'len') and any(
                    x.op == 'len' for x in walk(c)) and any(
                    is_const(x) and cval(x) == 0 for x in walk(c)):
                continue
            return True
    return False


def lossterm(I, rep, s, atom, loops, cds, we, IN, PAT, batch, cw, mask, tag,
             el):
    name = 'data gradient ' + tag
    if atom.op == 'phi':
        rep.und(name, 'loss is conditional: ' + show(atom, 6))
        return
    if atom.op != 'call' or atom.args[0] is not s.loss:
        if atom.op in ('f:detach', 'f:item', 'f:numpy', 'f:data'):
            rep.bad('loss-detached', we, 'the back-propagated loss is '
                    'detached from the model: %s' % show(atom, 5))
        elif atom.op in ('f:sqrt', 'f:abs', 'f:log', 'f:mean'):
            rep.bad('loss-transformed', we, 'the back-propagated value is %s '
                    'of the loss' % atom.op)
        elif atom.op == 'bin' and atom.args[0] in '*/' and any(
                x is not None and x.op in ('len', 'attr')
                for x in walk(atom)):
            rep.bad('loss-scaled', we, 'the back-propagated loss is rescaled:'
                    ' %s' % show(atom, 5))
        else:
            rep.und(name, show(atom, 6))
        return
    args = list(atom.args[1:])
    kws = dict(atom.kw)
    m = kws.get('mask')
    if len(args) == 3 and m is None:
        m = args.pop()
    if len(args) != 2:
        rep.und(name, show(atom, 6))
        return
    pats, sim = args
    if pats.op == 'sim' and sim.op != 'sim':
        rep.bad('loss-arguments-swapped', we, 'the loss is given the '
                'simulated patterns as the data')
        return
    if cds and batch_cond(cds, el):
        rep.bad('chunk-conditional', we, 'pieces of a minibatch are left out '
                'unless %s' % ' and '.join(show(c, 5) for c, p in cds))
        return
    if mask is True:
        if m is None or m is NONE:
            rep.bad('mask-not-applied', we, 'the mask of the model is not '
                    'given to the loss')
        elif m is s.mask:
            rep.ok('mask given to the loss ' + tag)
        else:
            rep.und('mask ' + tag, show(m, 5))
    elif m is None or m is NONE:
        rep.ok('no mask ' + tag)
    else:
        rep.und('mask ' + tag, show(m, 5))
    ro = [reordered(pats), reordered(sim)]
    for r_, what in zip(ro, ('patterns', 'inputs')):
        if r_ and r_[0] == 'cut':
            rep.bad('pieces-left-out', we, 'only the pieces %s of the %s are '
                    'used' % (r_[1], what))
            return
    if [r_ and r_[0] for r_ in ro].count('reversed') == 1:
        rep.bad('inputs-patterns-mismatch', we, 'inputs and patterns are '
                'paired in opposite orders')
        return
    st, key = partition(pats, PAT, batch, cw)
    if st == 'bad':
        rep.bad('patterns-not-partitioned', we, key)
        return
    if st == 'und':
        rep.und('patterns ' + tag, key)
        return
    if sim.op != 'sim' or len(sim.args) != 1:
        rep.und('simulation ' + tag, show(sim, 6))
        return
    i = sim.args[0]
    i = i.args[0] if i.op == 'splat' else i
    if i.op == 'index' and i.args[0].op in ('list', 'tuple') and \
            i.args[1].op == 'slice' and any(
                is_const(a) and cval(a) not in (None, 0)
                for a in i.args[1].args[:2]):
        rep.bad('inputs-subset', we, 'only the inputs %s are given to the '
                'model' % show(i.args[1]))
        return
    while i.op in ('list', 'tuple') and len(i.args) == 1 and \
            i.args[0].op == 'splice':
        i = i.args[0].args[0]
    if i is IN:
        ik, st2 = None, 'ok'
    elif i.op == 'comp' and len(i.args) == 2 and i.args[1] is IN:
        st2, ik = partition(i.args[0], mk('elem', (IN,)), batch, cw)
    elif i.op == 'index' and i.args[0] is IN and i.args[1].op == 'slice':
        rep.bad('inputs-subset', we, 'only some of the inputs are given to '
                'the model')
        return
    elif i.op == 'comp' and len(i.args) == 2 and i.args[1].op == 'index' \
            and i.args[1].args[0] is IN and i.args[1].args[1].op == 'slice':
        rep.bad('inputs-subset', we, 'only some of the inputs are given to '
                'the model')
        return
    else:
        rep.und('inputs ' + tag, show(i, 6))
        return
    if st2 == 'bad':
        rep.bad('inputs-not-partitioned', we, ik)
        return
    if st2 == 'und':
        rep.und('inputs ' + tag, ik)
        return
    if key is not ik:
        rep.bad('inputs-patterns-mismatch', we, 'inputs and patterns of a '
                'piece come from different pieces: %s and %s' % (
                    key and show(key, 6), ik and show(ik, 6)))
        return
    nl = len(loops)
    if key is None and nl:
        rep.bad('whole-minibatch-repeated', we, 'the whole minibatch is '
                'back-propagated once per piece')
        return
    if key is not None and nl != 1:
        if nl == 0:
            rep.bad('only-last-piece', we, 'only one piece of the minibatch '
                    'contributes to the gradient')
        else:
            rep.und('chunk loops ' + tag, '%d nested loops' % nl)
        return
    # no break/continue dropping pieces
    for lp in loops:
        if isinstance(lp, T):
            continue
        for e2, p2 in walk_events([lp]):
            if e2.kind in ('break',) and batch_cond(
                    conds_of(p2) or [(TRUE, True)], el):
                rep.bad('chunk-loop-left-early', where(e2.func, e2.node),
                        'the loop over pieces is left early when %s' %
                        [show(c, 5) for c, p in conds_of(p2)])
                return
    rep.ok(name, 'sum over %s' % (show(key, 4) if key is not None else
                                  'the whole minibatch'))


def recorded(I, rep, s, v, tr, st, atom, loops, tag, w, nrm):
    lv = loops[-1] if loops else None
    it = lv.args[0] if isinstance(lv, Ev) else lv
    g = norm.strip(deep(I, v))
    vals = [('returned', v)]
    for e, p in walk_events(tr):
        if e.kind == 'call' and e.name == '.append' and e.args and \
                e.args[0] is s.hist:
            vals.append(('recorded', e.args[1]))
    for label, x in vals:
        x = norm.strip(deep(I, x))
        want_norm = nrm is True
        y = x
        if want_norm:
            if y.op == 'phi':
                a = [z for z in y.args[1:] if any(
                    q is s.norm for q in walk(z))]
                if y.args[0].op in ('is', 'not') and len(a) >= 1:
                    y = a[0]
            if y.op == 'call' and y.args[0].op == 'attr' and \
                    y.args[0].args[0] is s.norm and \
                    y.args[0].args[1] == 'normalize_loss':
                y = y.args[1]
            elif not any(q.op == 'attr' and q.args[0] is s.norm
                         for q in walk(y)) and \
                    not any(q.op == 'unknown' for q in walk(y)):
                rep.bad('loss-not-normalised:' + label, w, 'the %s loss is '
                        'not normalised' % label)
                continue
            else:
                rep.und('%s loss %s' % (label, tag), show(y, 6))
                continue
        # y: sum over minibatches of what the step returned
        if y.op != 'loopsum' or y.args[0] is not s.loader:
            if y.op == 'stepped' or y.op == 'loopval' or \
                    y.op == 'phi' and any(a.op == 'stepped'
                                          for a in y.args):
                rep.bad('epoch-loss-last-minibatch:' + label, w,
                        'the %s loss is that of one minibatch only' % label)
            elif y.op == 'bin' and any(a.op == 'loopsum' for a in y.args[1:]
                                       if isinstance(a, T)):
                rep.bad('epoch-loss-rescaled:' + label, w, 'the %s loss is '
                        '%s' % (label, show(y, 4)))
            else:
                rep.und('%s loss %s' % (label, tag), show(y, 6))
            continue
        z = y.args[1]
        if z.op == 'stepped':
            z = z.args[1]
        elif z.op == 'bin' and any(a.op == 'stepped' for a in z.args[1:]):
            rep.bad('epoch-loss-rescaled:' + label, w, 'minibatch losses are '
                    'rescaled before they are added: %s' % show(z, 5))
            continue
        else:
            rep.und('%s loss %s' % (label, tag), show(z, 6))
            continue
        # z: the value returned by the closure
        full = mk('loopsum', (norm.strip(deep(I, it)), norm.strip(atom))) \
            if it is not None else norm.strip(atom)
        lz = norm.lin(z)
        if lz == {full: 1}:
            rep.ok('%s loss %s' % (label, tag), 'sum of all losses')
            continue
        if any(any(q is s.regfn for q in walk(k)) for k in lz
               if k is not None):
            rep.bad('regularizer-in-loss', w, 'the %s loss includes the '
                    'regulariser' % label)
        elif len(lz) == 1 and full in lz:
            rep.bad('minibatch-loss-scaled', w, 'the closure returns the '
                    'loss scaled by %s' % lz[full])
        elif z is norm.strip(atom) and it is not None or \
                z.op == 'loopval':
            rep.bad('minibatch-loss-last-piece', w, 'the closure returns the '
                    'loss of the last piece only')
        elif z is NONE:
            rep.bad('closure-returns-nothing', w, 'the closure does not '
                    'return the loss')
        else:
            rep.und('%s loss %s' % (label, tag), '%s / %s' % (
                show(z, 5), show(full, 5)))


def normalizer(I, rep, s, tr, st, PAT, mask, nrm, tag, w):
    if nrm is not True:
        return
    acc = [(e, p) for e, p in walk_events(tr) if e.kind == 'call' and
           e.name and e.name.endswith('accumulate') and
           e.args and e.args[0] is s.norm]
    if not acc:
        rep.bad('normalizer-not-accumulated', w, 'the loss normalizer never '
                'sees the patterns')
        return
    if len(acc) > 1:
        rep.und('normalizer ' + tag, 'several calls')
        return
    e, p = acc[0]
    we = where(e.func, e.node)
    lp = loops_of(p)
    if any(x is st for x, _ in p):
        rep.bad('normalizer-in-closure', we, 'the normalizer accumulates '
                'inside the closure, which an optimizer may evaluate several '
                'times per minibatch')
        return
    pats = deep(I, e.args[1]) if len(e.args) > 1 else NONE
    m = dict(e.kw).get('mask') if e.kw else None
    if m is None and len(e.args) > 2:
        m = e.args[2]
    if len(lp) != 1 or pats is not PAT:
        if len(lp) == 1 and pats.op == 'index' and pats.args[0] is PAT:
            rep.bad('normalizer-partial', we, 'the normalizer only sees %s' %
                    show(pats, 5))
        else:
            rep.und('normalizer ' + tag, show(pats, 5))
        return
    if mask is True and (m is None or m is NONE):
        rep.bad('normalizer-unmasked', we, 'the loss ignores masked pixels '
                'but its normalizer counts them')
        return
    rep.ok('normalizer accumulates each minibatch once ' + tag)


# ------------------------------------------------------------- the losses --
def reduce_of(x):
    """'sum' | 'mean' | None for a full reduction"""
    if x.op in ('f:sum', 'f:nansum', 'f:mean', 'f:nanmean', 'f:max',
                'f:min', 'f:median'):
        if dict(x.kw).get('dim') in (None, NONE) and len(x.args) == 1:
            return 'sum' if 'sum' in x.op else x.op[2:]
    return None


def additive(t):
    """('ok',) | ('bad', why) | ('und', why): t is a sum over exposures"""
    for atom, c in norm.lin(t).items():
        if atom is None:
            return 'bad', 'a constant is added for every piece'
        r = reduce_of(atom)
        if r == 'sum':
            inner = [x for x in walk(atom.args[0]) if reduce_of(x)]
            if inner:
                return 'und', show(inner[0], 4)
            continue
        if r is not None:
            return 'bad', 'the loss is a %s over the piece, so losses of ' \
                'pieces do not add up to the loss of the minibatch' % r
        if atom.op == 'bin' and atom.args[0] == '/':
            d = atom.args[2]
            if any(x.op in ('f:numel', 'len', 'shape') or
                   x.op == 'attr' and x.args[1] == 'shape'
                   for x in walk(d)):
                return 'bad', 'the loss is divided by a size that depends ' \
                    'on the piece'
        if atom.op in ('f:sqrt', 'f:log') and reduce_of(atom.args[0]):
            return 'bad', '%s of a sum is not additive' % atom.op[2:]
        return 'und', show(atom, 5)
    return 'ok', None


OPTIONS = ('amplitude mse', 'poisson nll', 'intensity mse')


def losses(prog, rep):
    for name in M.MODELS:
        cls = M.model_class(prog, name)
        names = M.params(cls, prog)
        for opt in (OPTIONS if 'loss' in names else (None,)):
            for masked in (False, True):
                tag = '%s %s%s' % (name, opt, ' masked' if masked else '')
                with rep.guard(tag):
                    I = M.interp(prog)
                    over = {'loss': const(opt)} if opt else {}
                    m, kw = M.build(I, prog, name,
                                    given=('weights', 'translation_offsets'),
                                    **over)
                    if I.st is None:
                        rep.und(tag, 'constructor not resolved')
                        continue
                    p, q = sym('patterns', 'tensor'), sym('sims', 'tensor')
                    mk_ = {'mask': sym('mask', 'tensor')} if masked else {}
                    lf = I.getattr(m, 'loss')
                    v = I.call(lf, (p, q), mk_, None, None)
                    rep.saw(I)
                    w = where(method(prog, cls, '__init__'))
                    if I.st is None:
                        rep.bad('loss-raises:%s' % tag, w, 'the loss raises')
                        continue
                    v = norm.strip(deep(I, v))
                    st, why = additive(v)
                    if st == 'ok':
                        rep.ok('additive loss: ' + tag, show(v, 4))
                    elif st == 'bad':
                        rep.bad('loss-not-additive:%s:%s' % (name, opt),
                                loc(v) if v.loc else w, why)
                    else:
                        rep.und('additive loss: ' + tag, why)
