"""C05: epochs, losses and histories stay in step."""
from .recon import *

RULE = ('value of the model after one epoch: history extended by exactly the '
        'epoch loss, epoch number equal to its length, report appended, '
        'scheduler stepped once with the loss; value sequence yielded by '
        'optimize: one per iteration, computed or replayed')


def run(prog, rep, thorough):
    hs = [(), (sym('loss0', 'float'),)]
    if thorough:
        hs += [(sym('loss0', 'float'), sym('loss1', 'float'))]
    for hist in hs:
        for nrm in (True, 'none', False):
            for sched in (True, False):
                for reg in (True, False):
                    with rep.guard('epoch'):
                        epoch(prog, rep, hist, nrm, sched, reg)
    for thread in (True, False):
        for skip in (True, False):
            for hist in ((), (sym('loss0', 'float'), sym('loss1', 'float'))):
                with rep.guard('optimize'):
                    optimize(prog, rep, thread, skip, hist)


def epoch(prog, rep, hist, nrm, sched, reg):
    s = Setup(prog, norm=nrm, sched=sched, history=hist, reg=reg)
    I = s.I
    kw = {'calculation_width': sym('cw', 'int')}
    if reg:
        kw['regularization_factor'] = sym('factor', 'list')
    v = s.call('run_epoch', **kw)
    w = where(s.meth('run_epoch'))
    rep.saw(I)
    tag = '[%d earlier epochs, normalizer %s, %sscheduler]' % (
        len(hist), nrm, '' if sched else 'no ')
    if I.st is None:
        rep.bad('epoch-raises', w, 'run_epoch raises ' + tag)
        return
    g = lambda n: I.reduce(I.getattr(s.model, n))
    L = norm.strip(deep(I, v))
    if L is NONE:
        rep.bad('epoch-returns-nothing', w, 'run_epoch returns nothing')
        return
    h = ops.sequence(I, g('loss_history'))
    if h is None:
        rep.und('history ' + tag, show(deep(I, g('loss_history')), 5))
    else:
        h = [norm.strip(deep(I, x)) for x in h]
        n = len(hist)
        if len(h) != n + 1:
            rep.bad('history-length', w, 'an epoch adds %d entries to the '
                    'loss history instead of one' % (len(h) - n))
        elif any(x is not y for x, y in zip(h, hist)):
            rep.bad('history-rewritten', w, 'earlier entries of the loss '
                    'history change')
        elif h[-1] is L:
            rep.ok('one history entry, the returned loss ' + tag)
        elif any(x.op == 'unknown' for x in walk(h[-1])):
            rep.und('history entry ' + tag, show(h[-1], 5))
        else:
            rep.bad('history-entry', w, 'the loss history gets %s while the '
                    'epoch returns %s' % (show(h[-1], 5), show(L, 5)))
        e = norm.strip(deep(I, g('epoch')))
        if e.op == 'len':
            e2 = ops.sequence(I, e.args[0])
            e = const(len(e2)) if e2 is not None else e
        if is_const(e):
            if cval(e) == len(h):
                rep.ok('epoch number ' + tag)
            else:
                rep.bad('epoch-number', w, 'after %d epochs the epoch number '
                        'is %r' % (n + 1, cval(e)))
        elif e is s.epoch:
            rep.bad('epoch-number', w, 'the epoch number does not change')
        elif norm.ldiff(e, s.epoch) == {None: 1}:
            rep.ok('epoch number ' + tag, 'previous + 1')
        elif norm.ldiff(e, s.epoch).keys() <= {None}:
            rep.bad('epoch-number', w, 'the epoch number advances by %s' %
                    norm.ldiff(e, s.epoch))
        else:
            rep.und('epoch number ' + tag, show(e, 5))
    # scheduler
    sc = [(e, p) for e, p in walk_events(I.st.trace)
          if e.kind in ('call', 'step') and e.name and
          e.name.endswith('step') and e.args and e.args[0] is s.sched]
    if sched:
        if not sc:
            rep.bad('scheduler-not-stepped', w, 'the learning rate schedule '
                    'never sees the loss')
        elif len(sc) > 1 and not any(conds_of(p) for e, p in sc) or \
                loops_of(sc[0][1]):
            rep.bad('scheduler-stepped-often', where(sc[0][0].func,
                                                     sc[0][0].node),
                    'the learning rate schedule is stepped more than once '
                    'per epoch')
        elif len(sc) == 1:
            a = list(sc[0][0].args[1:]) + list(
                dict(sc[0][0].kw or {}).values())
            if len(a) >= 1 and norm.strip(deep(I, a[0])) is L:
                rep.ok('scheduler stepped once with the loss ' + tag)
            elif not a:
                rep.bad('scheduler-step-no-loss', where(
                    sc[0][0].func, sc[0][0].node), 'the plateau schedule is '
                    'stepped without the loss')
            elif any(x.op == 'unknown' for x in walk(a[0])):
                rep.und('scheduler ' + tag, show(a[0], 5))
            else:
                rep.bad('scheduler-wrong-loss', where(
                    sc[0][0].func, sc[0][0].node), 'the schedule is stepped '
                    'with %s, not the epoch loss' % show(a[0], 5))
        else:
            rep.und('scheduler ' + tag, 'several')
    # report
    tx = deep(I, g('training_history'))
    if tx is s.text:
        rep.bad('report-dropped', w, 'the training history gets no entry for '
                'the epoch')
    elif not any(x is s.text for x in walk(tx)):
        if any(x.op == 'unknown' for x in walk(tx)):
            rep.und('training history ' + tag, show(tx, 5))
        else:
            rep.bad('training-history-overwritten', w, 'the training history '
                    'of earlier epochs is lost')
    elif tx.op in ('fstr', 'bin', 'strjoin'):
        parts = list(tx.args)
        if parts[0] is s.text or tx.op == 'bin' and tx.args[1] is s.text:
            st = [norm.strip(x) for x in walk(tx)]
            nums = [cval(x) for x in st if is_const(x) and
                    type(cval(x)) is int]
            if L in st and h is not None and nums and len(h) not in nums:
                rep.bad('report-wrong-epoch', w, 'the text recorded for '
                        'epoch %d says %s' % (len(h), nums))
            elif L in st:
                rep.ok('report with the loss appended ' + tag)
            elif any(x.op in ('unknown', 'call') and x.op == 'call' and
                     'report' in show(x, 2) for x in st):
                rep.und('report ' + tag, 'opaque report')
            else:
                rep.bad('report-wrong-loss', w, 'the text recorded for the '
                        'epoch does not contain its loss')
        else:
            rep.und('training history ' + tag, show(tx, 5))
    t = I.hasattr(s.model, 'latest_iteration_time')
    if t is TRUE:
        rep.ok('iteration time recorded ' + tag)


def optimize(prog, rep, thread, skip, hist):
    def run_epoch(I, fv, args, kw, node, fr):
        v = mk('epoch_result', ())
        I.emit('call', 'run_epoch', args, kw, node, fr, v)
        return v

    def skipc(I, fv, args, kw, node, fr):
        return TRUE if skip else FALSE
    s = Setup(prog, hooks={('call', 'Reconstructor.run_epoch'): run_epoch,
                           ('call', 'CDIModel.skip_computation'): skipc},
              history=hist, loader=False)
    I = s.I
    it = sym('iterations', 'int')
    reg, cw, bs = sym('reg', 'list'), sym('cw', 'int'), sym('bs', 'int')
    s.call('optimize', it, thread=const(thread), regularization_factor=reg,
           calculation_width=cw, batch_size=bs)
    w = where(s.meth('optimize'))
    rep.saw(I)
    tag = '[%s, %s, %d earlier losses]' % (
        'thread' if thread else 'no thread',
        'skipping' if skip else 'computing', len(hist))
    if I.st is None:
        rep.bad('optimize-raises:%s%s' % ('thread' if thread else 'main',
                                          '-skipping' if skip else ''), w,
                'optimize raises ' + tag)
        return
    tr = I.st.trace
    # an attribute that no path ever defined
    for e, p in walk_events(tr):
        if e.kind == 'noattr' and e.args and e.args[0] in (s.rec, s.model):
            rep.bad('missing-attribute:%s' % e.name, where(e.func, e.node),
                    'attribute %s is read but never defined %s' % (
                        e.name, tag))
    ys = [(e, p) for e, p in walk_events(tr) if e.kind == 'yield']
    inl = [(e, p) for e, p in ys if loops_of(p)]
    if not ys:
        rep.bad('nothing-yielded', w, 'optimize yields nothing ' + tag)
        return
    outer = [e for e in tr if e.kind == 'loop']
    for e, p in inl:
        ls = loops_of(p)
        if len(ls) > 1:
            rep.und('yields ' + tag, 'nested loops')
            return
        r = ls[0].args[0]
        if r.op == 'range' and len(r.args) == 1 and r.args[0] is it:
            rep.ok('one pass per requested iteration ' + tag)
        elif r.op == 'range' and any(x is it for x in walk(r)):
            a = list(r.args)
            n = norm.ldiff(a[1], a[0]) if len(a) == 2 else norm.lin(a[0])
            if n == {it: 1}:
                rep.ok('one pass per requested iteration ' + tag)
            elif set(n) <= {it, None}:
                rep.bad('iteration-count', where(ls[0].func, ls[0].node),
                        'optimize runs %s iterations' % fmt(n))
            else:
                rep.und('iterations ' + tag, show(r, 4))
        else:
            rep.und('iterations ' + tag, show(r, 4))
    if len(ys) > 1 and not all(conds_of(p) for e, p in ys):
        rep.bad('several-yields', where(ys[1][0].func, ys[1][0].node),
                'more than one loss is yielded per iteration ' + tag)
        return
    # what is yielded
    for e, p in ys:
        y = norm.strip(deep(I, e.args[0]))
        we = where(e.func, e.node)
        if skip:
            want = hist[-1] if hist else None
            if want is None and y.op == 'const' and y.args[0] != y.args[0]:
                rep.ok('nan is replayed before any loss ' + tag)
            elif want is not None and y is want:
                rep.ok('the last loss is replayed ' + tag)
            elif y.op == 'unknown' or y.op == 'phi':
                rep.und('replayed loss ' + tag, show(y, 4))
            else:
                rep.bad('replayed-loss', we, 'a skipped iteration yields %s '
                        '%s' % (show(y, 4), tag))
        else:
            if thread:
                ok = y.op == 'call' and y.args[0].op == 'attr' and \
                    y.args[0].args[1] in ('get', 'get_nowait')
            else:
                ok = y.op == 'epoch_result'
            if ok:
                rep.ok('the result of the epoch is yielded ' + tag)
            elif is_const(y) or hist and y is hist[-1]:
                rep.bad('yielded-value', we, 'optimize yields %s instead of '
                        'the loss of the epoch it ran' % show(y, 4))
            else:
                rep.und('yielded value ' + tag, show(y, 4))
    # epochs run
    calls = [(dict(e.kw), e.args, p) for e, p in walk_events(tr)
             if e.kind == 'call' and e.name == 'run_epoch']
    if thread and not skip:
        tgt = thread_target(I, tr)
        if tgt is not None:
            I.st.trace = []
            I.run(tgt[0], tgt[1], tgt[2])
            if I.st is None:
                rep.und('epoch in thread ' + tag, 'target not resolved')
                return
            calls += [(dict(e.kw), e.args, p)
                      for e, p in walk_events(I.st.trace)
                      if e.kind == 'call' and e.name == 'run_epoch']
    if skip:
        if calls and not thread:
            rep.bad('epoch-run-while-skipping', w, 'an epoch is computed in '
                    'an iteration that should be skipped')
        else:
            rep.ok('no epoch is computed while skipping ' + tag)
        e = [(x, p) for x, p in walk_events(tr) if x.kind == 'setattr' and
             x.name == 'epoch' and x.args[0] is s.model]
        ok = [x for x, p in e if norm.ldiff(
            x.args[1], s.epoch) == {None: 1} or any(
                k is not None and k.op == 'mu' for k in norm.ldiff(
                    x.args[1], s.epoch)) or norm.lin(x.args[1]).get(
                        None) == 1]
        if len(e) == 1 and ok:
            rep.ok('a skipped iteration counts as an epoch ' + tag)
        elif not e:
            rep.bad('skipped-epoch-not-counted', w, 'the epoch number does '
                    'not advance in a skipped iteration ' + tag)
        else:
            rep.und('skipped epoch ' + tag, '%d writes' % len(e))
        if any(x.kind == 'call' and x.name == '.append' and
               x.args[0] is s.hist for x, p in walk_events(tr)):
            rep.bad('history-while-skipping', w, 'the loss history grows '
                    'while skipping')
    elif len(calls) == 1:
        kw, args, _ = calls[0]
        names = ['self', 'stop_event', 'regularization_factor',
                 'calculation_width']
        for n, a in zip(names, args):
            kw.setdefault(n, a)
        for n, want in (('regularization_factor', reg),
                        ('calculation_width', cw)):
            got = kw.get(n)
            if got is want:
                rep.ok('%s reaches the epoch %s' % (n, tag))
            elif got is None or is_const(got):
                rep.bad('epoch-option:%s' % n, w, '%s is not handed to the '
                        'epoch %s' % (n, tag))
            else:
                rep.und('%s %s' % (n, tag), show(got, 4))
    elif not calls:
        rep.bad('no-epoch-run', w, 'no epoch is computed ' + tag)
    else:
        rep.bad('several-epochs', w, '%d epochs are computed per iteration '
                % len(calls) + tag)


def thread_target(I, tr):
    for e, p in walk_events(tr):
        if e.kind == 'call' and e.name == 'threading.Thread':
            kw = dict(e.kw)
            t = kw.get('target')
            if t is None and len(e.args) > 1:
                t = e.args[1]
            if t is None:
                return None
            args = kw.get('args', NONE)
            a = ops.sequence(I, args) if args is not NONE else []
            kws = kw.get('kwargs')
            k2 = {}
            if kws is not None and kws.op == 'ref':
                k2 = {cval(k): v for k, v in I.obj(kws).data.items()}
            if t.op == 'func':
                return t.args[0], tuple(a or ()), k2
            if t.op in ('bound', 'boundmeth'):
                return t.args[1], (t.args[0],) + tuple(a or ()), k2
    return None
