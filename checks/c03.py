"""C03: checkpoints resume the reconstruction exactly."""
from .util import *
from . import models as M, c02, recon
from vg.norm import strip

RULE = ('composition of save_checkpoint with load_checkpoint normalised to '
        'the identity on every tensor, history and optimizer state; the '
        'checkpoint protocol unrolled over job numbers and calls; effect '
        'trace of the saving context managers on every exit')


def run(prog, rep, thorough):
    for name in M.MODELS:
        for i, (given, over, loss, tag) in enumerate(c02.configs(
                prog, name, thorough)):
            for live in (True, False):
                if not live and not thorough and i:
                    continue
                t = '%s %s%s' % (name, tag, '' if live else ' no optimizer')
                with rep.guard(t):
                    roundtrip(prog, rep, name, given, over, loss, t, live)
    for name in M.MODELS if thorough else ('SimplePtycho', 'FancyPtycho'):
        for j in range(6 if thorough else 4):
            with rep.guard('protocol'):
                protocol(prog, rep, name, j)
    for name in M.MODELS:
        with rep.guard('unready'):
            unready(prog, rep, name)
        for fn in ('save_on_exit', 'save_on_exception'):
            with rep.guard(fn):
                exits(prog, rep, name, fn)
    for cls, mod in (('AdamReconstructor', 'adam'),
                     ('LBFGSReconstructor', 'lbfgs'),
                     ('SGDReconstructor', 'sgd')):
        for th in (TRUE, FALSE):
            with rep.guard('live ' + cls):
                live_optimizer(prog, rep, cls, mod, th)


class Store(object):
    """torch.save / torch.load as a map from file name to content"""

    def __init__(self, I):
        self.saved, self.loads, self.unread = {}, [], []
        I.hooks[('ext', 'torch.save')] = self.save
        I.hooks[('ext', 'torch.load')] = self.load

    def save(self, I, args, kw, node, fr):
        a = list(args)
        kw = dict(kw)
        obj = a[0] if a else kw.get('obj')
        path = a[1] if len(a) > 1 else kw.get('f')
        path = fname(I.reduce(path))
        self.saved[path] = (copy(I, obj), fr.func if fr else None, node)
        I.emit('call', 'torch.save', (path,), {}, node, fr, NONE)
        return NONE

    def load(self, I, args, kw, node, fr):
        path = fname(I.reduce(args[0] if args else dict(kw).get('f')))
        self.loads.append((path, fr.func if fr else None, node))
        I.emit('call', 'torch.load', (path,), {}, node, fr, NONE)
        if path in self.saved:
            return paste(I, self.saved[path][0])
        return I.unknown('torch.load', node, fr) if hasattr(I, 'unknown') \
            else mk('unknown', ('file content', path))


def fname(t):
    """the name of the file behind a file object"""
    t = norm.strip(t)
    for _ in range(9):
        if t.op in ('sym', 'const'):
            break
        k = show(t, 3)
        opened = [x for x in walk(t) if x.op in ('call', 'mcall',
                                                 'f:open') and
                  'open' in show(x, 3)]
        if not opened:
            break
        x = opened[-1]
        a = [y for y in x.args if isinstance(y, T)]
        a = [y for y in a if y.op not in ('func', 'ext')]
        if not a or a[0] is t:
            break
        t = a[0]
    return t


def copy(I, x):
    """The content of x now, as nested python data."""
    x = I.reduce(x)
    if x.op == 'ref':
        o = I.obj(x)
        if o.kind == 'dict':
            f = I.freeze(x)
            if f.op == 'dict':
                return ('dict', [(copy(I, k), copy(I, v)) for k, v in
                                 pairs(f)])
        if o.kind == 'list':
            f = I.freeze(x)
            if f.op == 'list':
                return ('list', [copy(I, v) for v in f.args])
    elif x.op == 'dict':
        return ('dict', [(copy(I, k), copy(I, v)) for k, v in pairs(x)])
    elif x.op == 'list':
        return ('list', [copy(I, v) for v in x.args])
    return ('v', x)


def pairs(f):
    return [(p.args[0], p.args[1]) if isinstance(p, T) else tuple(p)
            for p in f.args]


def paste(I, c):
    if c[0] == 'dict':
        return I.newdict([(paste(I, k), paste(I, v)) for k, v in c[1]])
    if c[0] == 'list':
        return I.newlist([paste(I, v) for v in c[1]])
    return c[1]


def saveargs(prog, I, name, given):
    if 'translations' in M.params(M.model_class(prog, name), prog) and \
            'translations' not in given:
        return (I.new('inst', prog.cls('cdtools.datasets.ptycho_2d_dataset',
                                       'Ptycho2DDataset'),
                      {'translations': sym('dataset.translations',
                                           'tensor')}),)
    sv = method(prog, M.model_class(prog, name), 'save_results')
    a = sv.node.args
    need = len(a.args) - 1 - len(a.defaults)
    if need:
        return (I.new('inst', prog.cls('cdtools.datasets.ptycho_2d_dataset',
                                       'Ptycho2DDataset'),
                      {'translations': sym('dataset.translations',
                                           'tensor')}),)
    return ()


def roundtrip(prog, rep, name, given, over, loss, tag, live):
    I, cls, m = c02.build(prog, name, given, over, loss)
    if I.st is None:
        rep.und(tag, 'constructor not resolved')
        return
    store = Store(I)
    c02.trained(I, m)
    o1, o2 = sym('optimizer1', 'obj'), sym('optimizer2', 'obj')
    for o in (o1, o2):
        I.learn(I.st, mk('is', (o, NONE)), False)
    if live:
        I.setobj(m, I.obj(m).put('current_optimizer', o1))
    before = dict(I.obj(m).data)
    sv = method(prog, cls, 'save_checkpoint')
    ld = method(prog, cls, 'load_checkpoint')
    w, wl = where(sv), where(ld)
    path = sym('checkpoint_file', 'str')
    I.learn(I.st, mk('is', (path, NONE)), False)
    args = saveargs(prog, I, name, given)
    I.run(FuncVal(sv), (m,) + args, {'checkpoint_file': path})
    rep.saw(I)
    if I.st is None:
        rep.bad('checkpoint-raises:' + name, w, 'saving a checkpoint of %s '
                'always raises' % tag)
        return
    if path not in store.saved:
        if store.saved:
            rep.bad('checkpoint-file:' + name, w, 'the checkpoint is saved '
                    'as %s instead of the file asked for' % show(
                        list(store.saved)[0], 4))
        else:
            rep.und(tag, 'checkpoint not written with torch.save')
        return
    # a second, freshly built instance, as the next job has
    kw2 = dict(over)
    m2 = rebuild_model(I, prog, name, given, over, loss)
    if I.st is None or m2 is None:
        rep.und(tag, 'second instance')
        return
    if live:
        I.setobj(m2, I.obj(m2).put('current_optimizer', o2))
    I.st.trace = []
    I.run(FuncVal(ld), (m2,), {'checkpoint_file': path})
    rep.saw(I)
    if I.st is None:
        rep.bad('load-raises:' + name, wl, 'loading the checkpoint of %s '
                'always raises' % tag)
        return
    if [x for x in store.loads if x[0] is not path]:
        rep.bad('checkpoint-file:load:' + name, wl, 'the checkpoint is read '
                'from %s instead of the file asked for' % show(
                    store.loads[0][0], 4))
        return
    after = I.obj(m2).data
    blind = any(e.kind == 'mutate' and e.name not in ('pop', 'setitem') or
                e.kind == 'setattr' and e.name == 'data'
                for e, p in walk_events(I.st.trace))
    regs = [k[5:] for k in before if isinstance(k, str) and
            k.startswith('%reg:')]
    for k in regs + ['loss_history', 'training_history', 'epoch']:
        if k not in after:
            rep.bad('not-restored:%s.%s' % (name, k), wl, '%s is missing '
                    'after loading the checkpoint (%s)' % (k, tag))
            continue
        s, g, e = c02.same(I, after[k], before[k])
        if s == 'same' or k == 'loss_history' and (
                c02.unlist(g) is c02.unlist(e) or c02.peel_list(g) is e):
            rep.ok('%s %s' % (k, tag))
        elif blind and k in regs:
            rep.und('%s %s' % (k, tag), 'written in place')
        elif s == 'diff' or not related(g, e) or \
                k == 'loss_history' and c02.wrong_part(g, e):
            rep.bad('not-restored:%s.%s' % (name, k), wl, 'after loading the '
                    'checkpoint %s is %s, it was %s (%s)' % (
                        k, show(g, 4), show(e, 4), tag))
        else:
            rep.und('%s %s' % (k, tag), '%s vs %s' % (show(g, 4),
                                                     show(e, 4)))
    calls = [(e, p) for e, p in walk_events(I.st.trace) if e.kind == 'call'
             and e.name and e.name.lstrip('.') == 'load_state_dict' and
             e.args and I.reduce(e.args[0]) is o2]
    if not live:
        rep.ok('no optimizer %s' % tag)
        return
    if not calls:
        rep.bad('optimizer-not-restored:' + name, wl, 'the state of the '
                'running optimizer is not loaded from the checkpoint')
        return
    free = [x for x in calls if not conds_of(x[1])]
    if not free:
        cs = [set(conds_of(p)) for e, p in calls]
        if len(cs) == 2 and {(c, not b) for c, b in cs[0]} == cs[1]:
            free = calls[:1]
        else:
            e, p = calls[0]
            c, b = conds_of(p)[-1]
            rep.bad('optimizer-conditionally-restored:' + name,
                    where(e.func, e.node), 'the state of the running '
                    'optimizer is only loaded from the checkpoint when %s%s'
                    % ('' if b else 'not ', show(deep(I, c), 5)))
            return
    e, p = free[0]
    v = strip(deep(I, e.args[1]))
    if any(x is o1 for x in walk(v)):
        if v.op == 'mcall' or v.op == 'call' or 'state_dict' in v.op:
            rep.ok('optimizer state %s' % tag)
        elif v.op == 'index' and 'state_dict' in show(v.args[0], 4):
            rep.bad('optimizer-not-restored:' + name, where(e.func, e.node),
                    'the running optimizer is given %s, a part of the saved '
                    'state' % show(v, 5))
        else:
            rep.und('optimizer state', show(v, 5))
    elif any(x.op == 'unknown' for x in walk(v)):
        rep.und('optimizer state', show(v, 5))
    else:
        rep.bad('optimizer-not-restored:' + name, where(e.func, e.node),
                'the running optimizer is given %s instead of the saved '
                'state' % show(v, 5))


def related(g, e):
    """g contains e, or something not understood"""
    return any(x is e or x.op == 'unknown' for x in walk(g)) or any(
        x in set(walk(g)) for x in walk(e) if x.op == 'sym')


def rebuild_model(I, prog, name, given, over, loss):
    J, cls, m = None, M.model_class(prog, name), None
    kw = dict(over)
    wm = kw.pop('%weights', None)
    if wm is not None:
        kw['weights'] = M.arg(I, 'weights', None, (M.N_, M.P_, M.P_))
    elif 'weights' in given:
        kw['weights'] = M.arg(I, 'weights')
    ps = M.params(cls, prog)
    kw = {k: v for k, v in kw.items() if k in ps}
    if loss is not None and 'loss' in ps:
        kw['loss'] = const(loss)
    m, _ = M.build(I, prog, name, given=tuple(
        g for g in given if g != 'weights'), **kw)
    return m


# ------------------------------------------------------------- protocol

def torch_events(I, tr):
    return [(e.name.split('.')[1], e.args[0], e, p)
            for e, p in walk_events(tr)
            if e.kind == 'call' and e.name in ('torch.save', 'torch.load')]


def protocol(prog, rep, name, job):
    """Job number `job`: the checkpoint calls it makes, in order."""
    I, cls, m = c02.build(prog, name, (), {}, None)
    store = Store(I)
    c02.trained(I, m)
    stem = sym('stem', 'str')
    use = method(prog, cls, 'use_checkpoints')
    cp = method(prog, cls, 'checkpoint')
    sk = method(prog, cls, 'skip_computation')
    w = where(cp)
    args = saveargs(prog, I, name, ())

    def skipping():
        v = I.run(FuncVal(sk), (m,), {})
        return I.reduce(v) if v is not None else None

    v = skipping()
    if v is FALSE:
        rep.ok('no skipping without checkpoints')
    elif v is TRUE:
        rep.bad('skips-without-checkpoints', where(sk), 'computations are '
                'skipped although checkpoints are not in use')
        return
    else:
        rep.und('skipping', show(v, 4) if v is not None else 'raises')
        return
    I.run(FuncVal(use), (m, const(job), stem), {})
    if I.st is None:
        rep.bad('use-checkpoints-raises', where(use), 'use_checkpoints '
                'always raises')
        return
    # what the earlier job leaves behind
    prev = {}
    if job:
        prev = files(prog, name, job - 1)
        if prev is None:
            rep.und('files of job %d' % (job - 1), 'not resolved')
            return
        for k, c in prev.items():
            store.saved[k] = (c, None, None)
    for call in range(job + 1):
        v = skipping()
        want = TRUE if call < job else FALSE
        what = 'job %d before its checkpoint call %d' % (job, call)
        if v is want:
            rep.ok('skipping ' + what)
        elif v is TRUE or v is FALSE:
            rep.bad('skip-protocol', where(sk), 'in %s, computations are %s' %
                    (what, 'skipped' if v is TRUE else 'not skipped, '
                     'although their result is in a later checkpoint'))
            return
        else:
            rep.und('skipping ' + what, show(v, 4) if v is not None
                    else 'raises')
            return
        I.st.trace = []
        I.run(FuncVal(cp), (m,) + args, {})
        rs = list(I.last_raises)
        last = I.st if I.st is not None else I.dead
        evs = torch_events(I, last.trace if last is not None else [])
        kinds = [e[0] for e in evs]
        what = 'call %d of checkpoint() in job %d' % (call, job)
        exited = I.st is None
        if call < job:
            if exited:
                rep.bad('checkpoint-exits-early', w, '%s ends the job '
                        'although it has not computed anything' % what)
                return
            want = ['load'] if call == job - 1 else []
        else:
            want = ['save']
        if kinds != want:
            if any(conds_of(e[3]) for e in evs):
                rep.und(what, 'conditional')
                return
            rep.bad('checkpoint-protocol', w, '%s %s, it has to %s' % (
                what, says(kinds), says(want)))
            return
        if want == ['load']:
            if evs[0][1] not in prev:
                if any(x.op == 'unknown' for x in walk(evs[0][1])):
                    rep.und(what, show(evs[0][1], 5))
                    return
                rep.bad('checkpoint-names', where(evs[0][2].func,
                                                  evs[0][2].node),
                        'job %d reads %s, job %d wrote %s' % (
                            job, show(evs[0][1], 6), job - 1,
                            ', '.join(show(k, 6) for k in prev)))
                return
            rep.ok('reads what the previous job wrote ' + what)
        if call == job:
            if not exited:
                rep.bad('checkpoint-does-not-exit', w, '%s saves the '
                        'checkpoint and goes on with the computation of the '
                        'next job' % what)
                return
            if not any('SystemExit' in show(r[0], 4) for r in rs):
                rep.bad('checkpoint-exit-kind', w, '%s does not leave with '
                        'SystemExit' % what)
                return
            if not any(x is stem for x in walk(evs[0][1])):
                rep.bad('checkpoint-names', where(evs[0][2].func,
                                                  evs[0][2].node),
                        'the file name %s ignores the file stem' % show(
                            evs[0][1], 5))
                return
            if evs[0][1] in prev:
                rep.bad('checkpoint-overwrites', where(
                    evs[0][2].func, evs[0][2].node), 'job %d overwrites the '
                    'checkpoint of job %d' % (job, job - 1))
                return
        rep.ok(what)
    rep.saw(I)


def says(k):
    return ' and '.join({'load': 'load', 'save': 'save'}[x]
                        for x in k) or 'do neither loading nor saving'


def files(prog, name, job):
    """file name -> content written by the given job"""
    I, cls, m = c02.build(prog, name, (), {}, None)
    store = Store(I)
    c02.trained(I, m)
    stem = sym('stem', 'str')
    I.run(FuncVal(method(prog, cls, 'use_checkpoints')),
          (m, const(job), stem), {})
    I.setobj(m, I.obj(m).put('current_checkpoint_id', const(job)))
    I.run(FuncVal(method(prog, cls, 'checkpoint')),
          (m,) + saveargs(prog, I, name, ()), {})
    return {k: v[0] for k, v in store.saved.items()} or None


def unready(prog, rep, name):
    I, cls, m = c02.build(prog, name, (), {}, None)
    store = Store(I)
    f = method(prog, cls, 'checkpoint')
    I.run(FuncVal(f), (m,) + saveargs(prog, I, name, ()), {})
    if I.st is None and not store.saved and not store.loads:
        rep.ok('checkpoint() needs use_checkpoints() ' + name)
    elif store.saved or store.loads or I.st is not None:
        rep.bad('checkpoint-unready', where(f), 'checkpoint() without '
                'use_checkpoints() goes on silently')


# ---------------------------------------------------- saving on the way out

def exits(prog, rep, name, fn):
    def save(I, fv, args, kw, node, fr):
        I.emit('call', 'save_to_h5', tuple(args[1:]), kw, node, fr, NONE)
        return NONE
    cls = M.model_class(prog, name)
    f = method(prog, cls, fn)
    w = where(f)
    for exc in ((False, True) if fn == 'save_on_exit' else (False,)):
        I, cls, m = c02.build(prog, name, (), {}, None)
        I.noexc = False
        I.hooks[('call', method(prog, cls, 'save_to_h5').qual)] = save
        I.st.trace = []
        fname, ename, extra = sym('filename', 'str'), \
            sym('exception_filename', 'str'), sym('extra', 'any')
        I.learn(I.st, mk('is', (ename, NONE)), False)
        kw = {'exception_filename': ename} if exc else {}
        I.run(FuncVal(f), (m, fname, extra), kw)
        rep.saw(I)
        st = I.st if I.st is not None else I.dead
        tr = st.trace
        ys = [(e, p) for e, p in walk_events(tr) if e.kind == 'yield']
        tag = '%s%s' % (fn, ' (own file)' if exc else '')
        if len(ys) != 1:
            rep.und(tag, '%d yields' % len(ys))
            return
        tries = [x for x, i in ys[0][1] if x.kind in ('try', 'tryexit') and
                 i != 'h']
        saves = [(e, p) for e, p in walk_events(tr) if e.kind == 'call' and
                 e.name == 'save_to_h5']
        want = ename if exc else fname
        if not tries:
            rep.bad('exit-unsaved:' + fn, w, 'an exception in the body '
                    'leaves %s without saving' % fn)
            continue
        t = tries[-1]
        hs = t.value or ()
        fin = [(e, p) for e, p in saves if not any(i == 'h' for x, i in p)]
        types = set()
        for h in hs:
            types |= names(h['type'])
        finals = finally_saves(t, saves)
        if not hs and not finals:
            rep.bad('exit-unsaved:' + fn, w, 'an exception in the body '
                    'leaves %s without saving' % fn)
            continue
        if hs and not types & {None, 'BaseException'} and not finals:
            rep.bad('exit-unsaved:' + fn, where(t.func, hs[0]['node']),
                    '%s does not save on exceptions other than %s' % (
                        fn, sorted(str(x) for x in types)))
            continue
        for h in hs:
            hp = [(e, p) for e, p in walk_events(list(h['trace'] or ()))
                  if e.kind == 'call' and e.name == 'save_to_h5']
            for x in h['exits']:
                hp += [(e, p) for e, p in walk_events(x[2]) if
                       e.kind == 'call' and e.name == 'save_to_h5']
            hw = where(t.func, h['node'])
            if not hp and not finals:
                rep.bad('exit-unsaved:' + fn, hw, '%s leaves with the '
                        'exception without saving' % fn)
                continue
            if any(p and conds_of(p) for e, p in hp) and len(hp) == 1:
                rep.und(tag, 'conditional save')
            for e, p in hp:
                check_save(rep, I, e, want, fname, extra, tag, fn)
            if h['falls'] or any(x[0] != 'raise' for x in h['exits']):
                rep.bad('exit-swallows:' + fn, hw, '%s swallows the '
                        'exception' % fn)
            elif h['exits']:
                reraise = all(is_reraise(x[1], h) for x in h['exits'])
                if reraise:
                    rep.ok('%s re-raises' % tag)
                else:
                    rep.und(tag, 'raises something else: %s' % show(
                        h['exits'][0][1], 4))
        if fn == 'save_on_exit':
            if not fin and I.st is not None:
                rep.bad('exit-unsaved:' + fn, w, 'save_on_exit does not save '
                        'when the body ends normally')
            for e, p in fin:
                check_save(rep, I, e, fname, fname, extra, tag, fn)
        elif fin:
            if all(not conds_of(p) for e, p in fin):
                rep.bad('exit-oversaves', where(fin[0][0].func,
                                                fin[0][0].node),
                        'save_on_exception saves although nothing failed')
            else:
                rep.und(tag, 'conditional save')
        else:
            rep.ok('%s does not save on success' % fn)


def finally_saves(t, saves):
    """saves in the finally block of try event t"""
    out = []
    for e, p in saves:
        for x, i in p:
            if x is t and i not in (0, 'h'):
                out.append((e, p))
    return out


def is_reraise(v, h):
    if v is None:
        return True
    e = h.get('exc')
    return e is None or v is e or any(x is e for x in walk(v)) if \
        isinstance(v, T) else True


def names(t):
    from .c06 import names as n
    return n(t)


def check_save(rep, I, e, want, fname, extra, tag, fn):
    a = [norm.strip(deep(I, x)) for x in e.args]
    w = where(e.func, e.node)
    if not a:
        rep.und(tag, 'save without positional file name')
        return
    g = a[0]
    if g.op in ('phi', 'ite'):
        rep.und(tag, show(g, 4))
        return
    if g is want:
        rep.ok('%s saves under %s' % (tag, show(want)))
    elif g.op in ('sym', 'const'):
        rep.bad('exit-wrong-file:' + fn, w, '%s saves under %s instead of '
                '%s' % (tag, show(g), show(want)))
    else:
        rep.und(tag, show(g, 5))
    if any(x is extra for y in a[1:] for x in walk(y)):
        rep.ok('%s passes the arguments on' % tag)
    elif len(a) == 1:
        rep.bad('exit-loses-arguments:' + fn, w, '%s does not pass the '
                'arguments of save_results on' % fn)
    else:
        rep.und(tag, 'arguments')


# --------------------------------------------------------- live optimizer

def live_optimizer(prog, rep, cls, mod, th):
    seen = []
    holder = {}

    def epoch(I, fv, args, kw, node, fr):
        m = holder['s'].model
        v = I.obj(m).data.get('current_optimizer')
        r = I.obj(holder['s'].rec).data.get('optimizer')
        seen.append((v, r, fr.func if fr else None, node))
        x = mk('epoch_result', ())
        I.emit('call', 'run_epoch', args, kw, node, fr, x)
        return x

    def skip(I, fv, args, kw, node, fr):
        m = holder['s'].model
        v = I.obj(m).data.get('current_optimizer')
        r = I.obj(holder['s'].rec).data.get('optimizer')
        seen.append((v, r, fr.func if fr else None, node))
        return sym('skipping', 'bool')
    s = recon.Setup(prog, cls=cls, mod='cdtools.reconstructors.' + mod,
                    hooks={('call', 'Reconstructor.run_epoch'): epoch,
                           ('call', 'CDIModel.skip_computation'): skip,
                           ('call', 'Reconstructor.setup_dataloader'):
                           lambda *a: NONE})
    holder['s'] = s
    if 'custom_data_loader' in [a.arg for a in
                                s.meth('optimize').node.args.args]:
        pass
    r = s.call('optimize', sym('iterations', 'int'), thread=th)
    r = s.I.reduce(r) if s.I.st is not None else NONE
    if r.op == 'gen':
        s.I.run(r.args[0], r.args[1:], dict(r.kw))
    rep.saw(s.I)
    f = s.prog.find_method(s.prog.cls(recon.BASE, 'Reconstructor'),
                           'optimize')
    w = where(f)
    tag = '%s thread=%s' % (cls, cval(th))
    if s.I.st is None:
        rep.und(tag, 'optimize not resolved')
        return
    if not seen:
        rep.und(tag, 'no epoch reached')
        return
    bad = False
    for v, r, fn, node in seen:
        if v is None or v is NONE:
            rep.bad('optimizer-not-exposed', w, 'while %s runs, the model '
                    'does not know its optimizer, so a checkpoint misses '
                    'the optimizer state' % tag)
            return
        v, r = s.I.reduce(v), s.I.reduce(r)
        if v is not r and not (v.op in ('phi', 'ite') or r.op in (
                'phi', 'ite')):
            rep.bad('optimizer-not-exposed', w, 'while %s runs, the model is '
                    'given %s instead of the optimizer of the run' % (
                        tag, show(v, 4)))
            return
        if v is not r:
            bad = True
    if bad:
        rep.und(tag, 'optimizer')
    else:
        rep.ok('optimizer exposed ' + tag)
    e = s.I.obj(s.model).data.get('current_optimizer')
    e = s.I.reduce(e) if e is not None else None
    if e is NONE or e is None:
        rep.ok('optimizer dropped ' + tag)
    elif e is s.I.reduce(s.I.obj(s.rec).data.get('optimizer')):
        rep.bad('optimizer-kept', w, 'after %s ends the model still holds '
                'its optimizer, so a later checkpoint or load uses it' % tag)
    else:
        rep.und('optimizer dropped ' + tag, show(e, 4))
