"""C06: the worker thread is contained: failures, stops and results."""
import ast
from .recon import *
from .c05 import thread_target

RULE = ('protocol over the effect trace of the threaded optimisation loop: '
        'worker body covered by a catch-all that hands the exception object '
        'over; every exceptional exit of the main loop passes stop request '
        'and join; no model access or yield while the worker runs; the stop '
        'request is polled in every epoch and leaves it without bookkeeping')

BROAD = {'Exception', 'BaseException', None}


def names(t):
    """exception names of a handler type expression (AST)"""
    if t is None:
        return {None}
    if isinstance(t, ast.Tuple):
        out = set()
        for x in t.elts:
            out |= names(x)
        return out
    if isinstance(t, ast.Attribute):
        return {t.attr}
    if isinstance(t, ast.Name):
        return {t.id}
    return {'?'}


def mkrun(I, fv, args, kw, node, fr):
    v = mk('epoch_result', ())
    I.emit('call', 'run_epoch', args, kw, node, fr, v)
    return v


def run(prog, rep, thorough):
    with rep.guard('worker'):
        worker(prog, rep)
    for where_ in ('given', 'reg'):
        with rep.guard('polling'):
            polling(prog, rep, where_ == 'reg')


def is_meth(e, *ns):
    return e.kind == 'call' and e.name and e.name.lstrip('.') in ns


def worker(prog, rep):
    s = Setup(prog, hooks={
        ('call', 'Reconstructor.run_epoch'): mkrun,
        ('call', 'CDIModel.skip_computation'): lambda *a: FALSE})
    I = s.I
    I.noexc = False
    s.call('optimize', sym('iterations', 'int'), thread=TRUE)
    f = s.meth('optimize')
    w = where(f)
    rep.saw(I)
    if I.st is None:
        rep.bad('optimize-raises', w, 'optimize always raises')
        return
    raises = list(I.last_raises)
    tr = list(I.st.trace)
    tgt = thread_target(I, tr)
    if tgt is None:
        if not any(e.kind == 'call' and e.name and 'hread' in e.name
                   for e, p in walk_events(tr)):
            rep.bad('no-worker', w, 'no worker thread is created although '
                    'one is requested')
        else:
            rep.und('worker', 'target of the thread not resolved')
        return
    ths = [(e, p) for e, p in walk_events(tr)
           if e.kind == 'call' and e.name == 'threading.Thread']
    th = ths[0][0].value
    starts = [(e, p) for e, p in walk_events(tr) if is_meth(e, 'start') and
              e.args and e.args[0] is th]
    if len(starts) != 1 or not loops_of(starts[0][1]):
        if not starts:
            rep.bad('worker-not-started', w, 'the worker thread is never '
                    'started')
        else:
            rep.und('start', '%d start calls' % len(starts))
        return
    rep.ok('one worker per iteration')
    if len(ths) == 1 and not loops_of(ths[0][1]):
        rep.bad('worker-restarted', where(ths[0][0].func, ths[0][0].node),
                'one thread object is started again in every iteration')
    kw = dict(ths[0][0].kw)
    d = kw.get('daemon')
    dset = [e for e, p in walk_events(tr) if e.kind == 'setattr' and
            e.name == 'daemon' and e.args[0] is th]
    if d is TRUE or dset and dset[0].args[1] is TRUE:
        rep.ok('the worker cannot keep the process alive')
    elif d is None and not dset or d is FALSE:
        rep.bad('worker-not-daemon', where(ths[0][0].func, ths[0][0].node),
                'the worker thread keeps the process alive')
    main_side(prog, rep, s, I, f, w, tr, th, raises, starts[0])
    # ---- the worker body
    I.st.trace = []
    I.run(tgt[0], tgt[1], tgt[2])
    wr = list(I.last_raises)
    if I.st is None:
        rep.bad('worker-raises', where(tgt[0].func), 'the worker always '
                'raises')
        return
    wtr = I.st.trace
    ww = where(tgt[0].func)
    ep = [(e, p) for e, p in walk_events(wtr) if e.kind == 'call' and
          e.name == 'run_epoch']
    if len(ep) != 1 or loops_of(ep[0][1]):
        rep.bad('worker-epochs', ww, 'the worker runs %s epochs' % (
            'several' if ep else 'no'))
        return
    res = ep[0][0].value
    path = ep[0][1]
    ev = [e.value for e, p in walk_events(tr) if e.kind == 'call' and
          e.name == 'threading.Event']
    kw = dict(ep[0][0].kw)
    names_ = [a.arg for a in s.meth('run_epoch').node.args.args]
    k = names_.index('stop_event') if 'stop_event' in names_ else None
    given = kw.get('stop_event')
    if given is None and k is not None:
        for off in (k, k - 1):
            if 0 <= off < len(ep[0][0].args) and \
                    ep[0][0].args[0] is not s.rec or off == k and \
                    off < len(ep[0][0].args):
                given = ep[0][0].args[off]
                break
    pw = where(ep[0][0].func, ep[0][0].node)
    if ev and k is not None:
        if given is None and not any(a == '**' for a in kw):
            rep.bad('stop-not-passed', pw, 'the worker\'s epoch is not given '
                    'the stop request to watch')
        elif given is not None and norm.strip(deep(I, given)) is NONE:
            rep.bad('stop-not-passed', pw, 'the worker\'s epoch is not given '
                    'the stop request to watch')
        elif given is not None and any(norm.strip(deep(I, given)) is x
                                       for x in ev):
            rep.ok('the epoch watches the stop request')
        else:
            rep.und('stop request', show(given, 4) if given is not None
                    else 'not bound')
    tries = [x for x, i in path if x.kind in ('try', 'tryexit') and i != 'h']
    puts = [(e, p) for e, p in walk_events(wtr)
            if is_meth(e, 'put', 'put_nowait')]
    main = [(e, p) for e, p in puts if not any(i == 'h' for x, i in p)]
    hand = [(e, p) for e, p in puts if any(i == 'h' for x, i in p)]
    good = [(e, p) for e, p in main if norm.strip(deep(I, e.args[1])) is res
            or any(x is res for x in walk(deep(I, e.args[1])))]
    if len(main) == 1 and good:
        rep.ok('the result is handed over once')
    elif not good and main:
        rep.bad('worker-result', where(main[0][0].func, main[0][0].node),
                'the worker hands over %s instead of the loss' %
                show(deep(I, main[0][0].args[1]), 4))
    elif not main:
        if any(is_meth(e, 'append', 'setitem') for e, p in walk_events(wtr)) \
                or any(e.kind in ('mutate', 'setattr')
                       for e, p in walk_events(wtr)):
            rep.und('result handover', 'not through a queue')
        else:
            rep.bad('worker-result', ww, 'the result of the epoch is lost')
    elif len(main) > 1:
        if any(not conds_of(p) for e, p in main[1:]):
            rep.bad('worker-result-twice', where(main[1][0].func,
                                                 main[1][0].node),
                    'the worker hands over more than one result per epoch')
        else:
            rep.und('result handover', 'several')
    if not tries:
        rep.bad('worker-unprotected', where(ep[0][0].func, ep[0][0].node),
                'an exception in the epoch ends the worker without telling '
                'the caller, who waits for ever')
        return
    t = tries[-1]
    hs = []
    for x in tries:
        for h in (x.value or ()):
            hs.append(h)
    have = set()
    for h in hs:
        have |= names(h['type'])
    if not have & BROAD:
        rep.bad('worker-catches-too-little', where(t.func, t.node),
                'exceptions of the epoch other than %s are lost with the '
                'worker' % sorted(str(x) for x in have))
        return
    for h in hs:
        nm = names(h['type'])
        hp = [(e, p) for e, p in walk_events(list(h['trace'] or ()))
              if is_meth(e, 'put', 'put_nowait')]
        for x in h['exits']:
            hp += [(e, p) for e, p in walk_events(x[2])
                   if is_meth(e, 'put', 'put_nowait')]
        hn = h['node']
        hw = where(t.func, hn)
        if not hp:
            fin = [e for e, p in puts]
            if any(e.kind in ('mutate', 'setattr') for e, p in walk_events(
                    list(h['trace'] or ()))):
                rep.und('failure handover', 'not through a queue')
            elif fin and any(e is q for e, p in main for q in fin) and \
                    any(not any(x is t for x, i in p) for e, p in main):
                rep.und('failure handover', 'after the handler')
            else:
                rep.bad('worker-swallows', hw, 'the worker catches an '
                        'exception without handing it over')
            continue
        v = deep(I, hp[0][0].args[1])
        if v is h['exc'] or any(x is h['exc'] for x in walk(v)) and \
                v.op in ('tuple', 'list'):
            rep.ok('the exception object is handed over')
        elif any(x is h['exc'] for x in walk(v)):
            if v.op in ('conv', 'fstr', 'strmeth') or \
                    v.op == 'call' and 'format' in show(v, 3):
                rep.bad('worker-exception-as-text', hw, 'the caller gets a '
                        'text instead of the exception')
            else:
                rep.und('failure handover', show(v, 4))
        elif v.op == 'unknown':
            rep.und('failure handover', show(v, 4))
        else:
            rep.bad('worker-exception-lost', hw, 'the worker reports %s '
                    'instead of the exception' % show(v, 4))


def main_side(prog, rep, s, I, f, w, tr, th, raises, start):
    st, sp = start
    sw = where(st.func, st.node)
    # events after start on the same level
    seq = [(e, p) for e, p in walk_events(tr)]
    i0 = [k for k, (e, p) in enumerate(seq) if e is st][0]
    tries = [x for x, i in sp if x.kind in ('try', 'tryexit') and i != 'h']
    evs = None
    gets = [k for k, (e, p) in enumerate(seq) if is_meth(
        e, 'get', 'get_nowait') and k > i0 and not any(
            i == 'h' for x, i in p)]
    gets = [k for k in gets if 'queue' in show(seq[k][0].args[0], 4).lower()
            or 'Queue' in show(seq[k][0].args[0], 4)]
    # ---- waiting
    wait_end = None
    lastwait = None
    for k in range(i0 + 1, len(seq)):
        e, p = seq[k]
        if any(i == 'h' for x, i in p):
            continue
        if is_meth(e, 'join') and e.args and e.args[0] is th and not (
                len(e.args) > 1 or e.kw):
            wait_end = k if wait_end is None else wait_end
        if is_meth(e, 'is_alive') and e.args and e.args[0] is th and any(
                x.kind == 'loop' and any(
                    q is e.value for q in ([x.args[0]] if x.args else []))
                or x.kind == 'loop' and x.args and
                x.args[0].op == 'while' for x, i in p):
            lastwait = k
    if wait_end is None and lastwait is not None:
        wl = [x for x, i in seq[lastwait][1] if x.kind == 'loop'][-1]
        wait_end = max(k for k, (e, p) in enumerate(seq)
                       if e is wl or any(x is wl for x, i in p))
    if not gets:
        rep.und('result', 'no queue read')
    blocking = bool(gets) and is_meth(seq[gets[0]][0], 'get') and not (
        seq[gets[0]][0].kw or len(seq[gets[0]][0].args) > 1)
    if wait_end is None:
        if gets and blocking:
            wait_end = gets[0]
        elif gets:
            rep.bad('result-read-too-early', where(
                seq[gets[0]][0].func, seq[gets[0]][0].node), 'the result is '
                'read without waiting for the worker')
            return
        else:
            rep.und('waiting', 'not recognised')
            return
    if gets and gets[0] < wait_end and not blocking:
        rep.bad('result-read-too-early', where(
            seq[gets[0]][0].func, seq[gets[0]][0].node), 'the result is read '
            'before the worker has finished')
    else:
        rep.ok('the caller waits for the worker')
    # ---- nothing touches the model and nothing is yielded meanwhile
    roots = {s.model, s.rec, s.dataset, s.opt, s.sched, s.hist}
    bad = None
    for k in range(i0 + 1, wait_end):
        e, p = seq[k]
        if any(i == 'h' for x, i in p):
            continue
        if e.kind == 'yield':
            bad = e
            rep.bad('yield-while-running', where(e.func, e.node), 'control '
                    'returns to the caller while the worker is still '
                    'changing the model')
        elif e.kind in ('call', 'setattr', 'mutate', 'step') and any(
                isinstance(a, T) and root(a) in roots for a in e.args):
            bad = e
            rep.bad('model-used-while-running', where(e.func, e.node),
                    'the main thread uses %s while the worker is changing '
                    'the model' % show(e.args[0], 4))
    if bad is None:
        rep.ok('the main thread leaves the model alone while the worker runs')
    # ---- exceptional exits while the worker may run
    ev = None
    for e, p in seq:
        if e.kind == 'call' and e.name == 'threading.Event':
            ev = e.value
    cover = set()
    for t in tries:
        fin = t.node.finalbody if isinstance(t.node, ast.Try) else []
        if fin and any(isinstance(n, ast.Attribute) and n.attr == 'join'
                       for b in fin for n in ast.walk(b)):
            cover |= {'BaseException'}
        for h in (t.value or ()):
            cover |= names(h['type'])
            evs_ = [(e, p) for e, p in walk_events(list(h['trace'] or ()))]
            for x in h['exits']:
                evs_ += list(walk_events(x[2]))
            hw = where(t.func, h['node'])
            sets = [k for k, (e, p) in enumerate(evs_) if is_meth(e, 'set')]
            joins = [k for k, (e, p) in enumerate(evs_)
                     if is_meth(e, 'join') and e.args[0] is th]
            alive = [k for k, (e, p) in enumerate(evs_)
                     if is_meth(e, 'is_alive') and e.args[0] is th]
            if not sets:
                rep.bad('stop-not-requested', hw, 'the worker is not asked '
                        'to stop when the main loop is interrupted')
            elif ev is not None and evs_[sets[0]][0].args[0] is not ev:
                rep.und('stop request', show(evs_[sets[0]][0].args[0], 4))
            else:
                rep.ok('interrupting asks the worker to stop')
            if not joins and not alive:
                rep.bad('worker-not-joined', hw, 'the interrupted loop '
                        'returns while the worker may still be running')
            elif joins and (len(evs_[joins[0]][0].args) > 1 or
                            evs_[joins[0]][0].kw) and not alive:
                rep.bad('worker-join-timeout', hw, 'the interrupted loop '
                        'stops waiting for the worker after a timeout')
            elif joins and sets and joins[0] < sets[0]:
                rep.bad('join-before-stop', hw, 'the worker is waited for '
                        'before it is asked to stop')
            else:
                rep.ok('interrupting waits for the worker')
            if h['falls']:
                rep.bad('interrupt-swallowed', hw, 'the interruption is '
                        'swallowed and the loop goes on to wait for a result '
                        'that never comes')
            else:
                rv = [x[1] for x in h['exits'] if x[0] == 'raise']
                if rv and all(isinstance(v, T) and (v is h['exc'] or v is
                                                    const('reraise'))
                              for v in rv):
                    rep.ok('the interruption reaches the caller')
                elif any(x[0] in ('return', 'break', 'continue')
                         for x in h['exits']):
                    rep.bad('interrupt-swallowed', hw, 'the interruption is '
                            'swallowed')
                else:
                    rep.und('interruption', [str(x[:2]) for x in h['exits']])
    if not tries or not cover:
        rep.bad('interrupt-uncontained', sw, 'an interruption while waiting '
                'leaves the worker running')
    elif not cover & {None, 'BaseException'}:
        if 'KeyboardInterrupt' not in cover:
            rep.bad('interrupt-uncontained', sw, 'a keyboard interrupt while '
                    'waiting leaves the worker running')
        elif 'Exception' not in cover:
            rep.bad('failure-uncontained', sw, 'an exception other than a '
                    'keyboard interrupt while waiting (for example from a '
                    'figure\'s event handlers) leaves the worker running and '
                    'changing the model')
        else:
            rep.ok('every failure while waiting is contained')
    else:
        rep.ok('every failure while waiting is contained')
    # ---- a failure handed over is raised, a loss is yielded
    if gets:
        g = seq[gets[0]][0].value
        rr = [(v, g_) for v, st_, g_ in raises if v is g or v.op == 'index'
              and v.args[0] is g]
        ys = [(e, p) for e, p in seq if e.kind == 'yield' and any(
            x is g for x in walk(deep(I, e.args[0])))]
        if rr:
            gd = dict(rr[0][1])
            conds = {c: v for c, v in gd.items() if any(
                x is g for x in walk(c))}
            isin = [(c, v) for c, v in conds.items()
                    if c.op == 'isinstance']
            if isin:
                c, v = isin[0]
                cls = show(c.args[1], 3)
                if v and 'Exception' in cls and not any(
                        k in cls for k in ('RuntimeError', 'ValueError')):
                    rep.ok('a failure of the worker is raised in the caller')
                elif not v:
                    rep.bad('results-raised', w, 'losses are raised instead '
                            'of failures')
                else:
                    rep.bad('failure-not-raised', w, 'only failures of type '
                            '%s are raised in the caller' % cls)
            else:
                rep.und('failure in the caller', '%d guards' % len(conds))
        elif any(x is g for v, st_, g_ in raises for x in walk(v)):
            rep.und('failure in the caller', 'wrapped')
        else:
            rep.bad('failure-not-raised', w, 'an exception of the worker is '
                    'not raised in the caller')
        if ys:
            rep.ok('the worker\'s loss is yielded')
    # ---- each result is read exactly once
    if len(gets) > 1 and not all(conds_of(seq[k][1]) for k in gets):
        rep.bad('result-read-twice', where(seq[gets[1]][0].func,
                                           seq[gets[1]][0].node),
                'results are read more than once per epoch')


def root(a):
    while isinstance(a, T) and a.op in ('attr', 'index', 'elem'):
        a = a.args[0]
    return a


def polling(prog, rep, reg):
    s = Setup(prog, reg=reg)
    I = s.I
    stop = sym('stop_event', 'obj')
    s.assume_present(stop)
    I.st.pc[mk('is', (stop, NONE))] = False
    kw = {'stop_event': stop, 'calculation_width': sym('cw', 'int')}
    if reg:
        kw['regularization_factor'] = sym('factor', 'list')
    s.call('run_epoch', **kw)
    rep.saw(I)
    f = s.meth('run_epoch')
    w = where(f)
    raises = list(I.last_raises)
    if I.st is None:
        rep.bad('epoch-raises', w, 'run_epoch always raises')
        return
    tr = I.st.trace
    polls = [(e, p) for e, p in walk_events(tr)
             if is_meth(e, 'is_set') and e.args and e.args[0] is stop]
    if not polls:
        rep.bad('stop-not-polled', w, 'an epoch never looks at the stop '
                'request, so an interrupted caller waits for the whole epoch')
        return
    e, p = polls[0]
    inner = [x for x in loops_of(p)]
    if not inner:
        rep.bad('stop-polled-once', where(e.func, e.node), 'the stop request '
                'is only looked at outside the loop over minibatches')
        return
    left = [(v, g) for v, st, g in raises if any(
        any(x is e2.value for x in walk(c)) for c, b in g
        for e2, _ in polls)]
    if left:
        v, g = left[0]
        pol = [b for c, b in g if any(x is e2.value for x in walk(c)
                                      for e2, _ in polls)]
        c0 = [c for c, b in g if any(x is e2.value for x in walk(c)
                                     for e2, _ in polls)][0]
        positive = eval_cond(c0, {e2.value: True for e2, _ in polls},
                             {mk('is', (stop, NONE)): False})
        if positive is not None and positive != pol[0]:
            rep.bad('stop-inverted', where(e.func, e.node), 'the epoch is '
                    'left unless a stop was requested')
        else:
            rep.ok('a stop request leaves the epoch')
    else:
        brk = [x for x, q in walk_events(tr) if x.kind in
               ('break', 'return') and any(any(
                   y is e2.value for y in walk(c)) for c, b in conds_of(q)
                   for e2, _ in polls)]
        if brk:
            rep.bad('stopped-epoch-recorded', where(brk[0].func,
                                                    brk[0].node),
                    'after a stop request the incomplete epoch still takes '
                    'an optimizer step and is recorded')
        else:
            rep.bad('stop-ignored', where(e.func, e.node), 'a stop request '
                    'has no effect')


def eval_cond(c, env, env2):
    if c in env:
        return env[c]
    if c in env2:
        return env2[c]
    if c.op == 'not':
        r = eval_cond(c.args[0], env, env2)
        return None if r is None else not r
    if c.op == 'const':
        return bool(cval(c))
    if c.op == 'phi':
        q = eval_cond(c.args[0], env, env2)
        return None if q is None else eval_cond(c.args[1 if q else 2], env,
                                                env2)
    if c.op in ('and', 'or'):
        a = eval_cond(c.args[0], env, env2)
        b = eval_cond(c.args[1], env, env2)
        if a is None or b is None:
            return None
        return (a and b) if c.op == 'and' else (a or b)
    return None
