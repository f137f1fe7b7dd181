"""C07: every option of an optimization reaches what it controls."""
import ast
import os
from .recon import *
from .c05 import thread_target
from vg.loader import Module

RULE = ('value flow of every parameter of the optimization routines, in each '
        'entry point and threading mode, to its sink: learning rate and '
        'optimizer settings in every parameter group, dataset, subset, batch '
        'size and shuffling in the data loader, schedule, regularization and '
        'calculation width in the epoch')

R = 'cdtools.reconstructors.'
KINDS = {'Adam': ('AdamReconstructor', R + 'adam', 'Adam_optimize'),
         'LBFGS': ('LBFGSReconstructor', R + 'lbfgs', 'LBFGS_optimize'),
         'SGD': ('SGDReconstructor', R + 'sgd', 'SGD_optimize')}
GROUP = ('betas', 'amsgrad', 'momentum', 'dampening', 'weight_decay',
         'nesterov', 'history_size', 'line_search_fn')
TYPES = {'lr': 'float', 'betas': 'tuple', 'amsgrad': 'bool',
         'momentum': 'float', 'dampening': 'float', 'weight_decay': 'float',
         'nesterov': 'bool', 'history_size': 'int', 'line_search_fn': 'str',
         'batch_size': 'int', 'shuffle': 'bool', 'calculation_width': 'int',
         'regularization_factor': 'list', 'custom_data_loader': 'obj'}
NAMES = ('probe', 'obj', 'background')


def run(prog, rep, thorough):
    stub = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
        __file__))), 'vg', 'stubs.py')
    prog.modules['vg_stubs'] = Module('vg_stubs', stub)
    for kind in KINDS:
        for entry in ('model', 'rec'):
            for thread in (TRUE, FALSE):
                for given in (True, False):
                    tag = '%s %s thread=%s %s' % (
                        kind, entry, cval(thread),
                        'all options' if given else 'defaults')
                    with rep.guard(tag):
                        one(prog, rep, kind, entry, thread, given, tag)
                if thread is TRUE and not thorough:
                    continue
                for var in ('batch_size', 'subset-int', 'subset-list',
                            'schedule', 'custom', 'factors',
                            'unknown-factor', 'retune', 'retune-none',
                            'reuse'):
                    tag = '%s %s thread=%s %s' % (kind, entry, cval(thread),
                                                  var)
                    with rep.guard(tag):
                        one(prog, rep, kind, entry, thread, True, tag, var)


class Run(object):
    """One abstract run up to its epochs"""

    def __init__(self, prog, rep, kind):
        self.prog, self.rep = prog, rep
        self.cls = prog.cls(KINDS[kind][1], KINDS[kind][0])
        self.epochs, self.warned, self.optim = [], [], []
        h = {('call', 'Reconstructor.run_epoch'): self.epoch,
             ('call', 'CDIModel.skip_computation'): lambda *a: FALSE,
             ('module', 'named_parameters'): self.named,
             ('module', 'parameters'): self.plain,
             ('ext', 'warnings.warn'): self.warn,
             ('ext', 'torch.utils.data.DataLoader'): self.loader,
             ('ext', 'torch.utils.data.dataloader.DataLoader'): self.loader,
             ('ext', 'torch.utils.data.Subset'): self.subset,
             ('ext', 'torch.utils.data.dataset.Subset'): self.subset,
             ('ext', 'torch.optim.lr_scheduler.ReduceLROnPlateau'):
             self.sched}
        for o in ('Adam', 'SGD', 'LBFGS'):
            for m in ('torch.optim.', 'torch.optim.%s.' % o.lower()):
                h[('ext', m + o)] = self.optimizer(o)
        I = self.I = Interp(prog, h)
        I.noexc = True
        mc = prog.cls('cdtools.models.base', 'CDIModel')
        self.model = I.new('inst', mc, {
            'loss_history': sym('loss_history', 'list'),
            'epoch': sym('epoch', 'int'),
            'training_history': sym('training_history', 'str')})
        self.dataset = sym('dataset', 'obj')
        I.learn(I.st, mk('is', (self.dataset, NONE)), False)
        self.params = {n: sym('param.' + n, 'tensor') for n in NAMES}

    # ---- stand-ins for torch
    def named(self, I, b, o, args, kw, node, fr):
        return I.newlist([mk('tuple', (const(n), p))
                          for n, p in self.params.items()])

    def plain(self, I, b, o, args, kw, node, fr):
        return I.newlist(list(self.params.values()))

    def warn(self, I, args, kw, node, fr):
        self.warned.append((fr.func if fr else None, node))
        I.emit('call', 'warnings.warn', args, kw, node, fr, NONE)
        return NONE

    def optimizer(self, name):
        def hook(I, args, kw, node, fr):
            kw = dict(kw)
            groups = args[0] if args else kw.pop('params', None)
            g = ops.sequence(I, I.reduce(groups))
            if g is None:
                groups = mk('unknown', ('parameter groups',))
            elif g and I.obj(I.reduce(g[0])) is not None and \
                    I.obj(I.reduce(g[0])).kind == 'dict':
                groups = I.newlist(g)
            else:
                groups = I.newlist([I.newdict([(const('params'),
                                                I.newlist(g))])])
            ref = I.new('inst', self.prog.cls('vg_stubs', 'Optimizer'),
                        {'param_groups': groups})
            for k, v in kw.items():
                for x in (ops.sequence(I, groups) or ()):
                    o = I.obj(I.reduce(x))
                    if const(k) not in o.data:
                        I.setobj(I.reduce(x), o.put(const(k), v))
            self.optim.append((ref, name, fr.func if fr else None, node))
            I.emit('call', 'optimizer', args, kw, node, fr, ref)
            return ref
        return hook

    def loader(self, I, args, kw, node, fr):
        a = dict(zip(('dataset', 'batch_size', 'shuffle', 'sampler',
                      'batch_sampler', 'num_workers', 'collate_fn',
                      'pin_memory', 'drop_last'), args))
        a.update(kw)
        return I.new('inst', self.prog.cls('vg_stubs', 'Loader'),
                     {k: I.reduce(v) for k, v in a.items()})

    def subset(self, I, args, kw, node, fr):
        a = dict(zip(('dataset', 'indices'), args))
        a.update(kw)
        return mk('subset', (I.reduce(a['dataset']), deep(I, a['indices'])))

    def sched(self, I, args, kw, node, fr):
        a = dict(kw)
        return I.new('inst', self.prog.cls('vg_stubs', 'Scheduler'),
                     {'optimizer': I.reduce(args[0] if args else
                                            a.get('optimizer'))})

    def epoch(self, I, fv, args, kw, node, fr):
        f = fv.func
        names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
        a = dict(zip(names, args))
        a.update(kw)
        rec = a.get('self', args[0] if args else None)
        d = f.node.args.defaults
        for n, x in zip(names[len(names) - len(d):], d):
            if n not in a:
                try:
                    a[n] = const(ast.literal_eval(x))
                except Exception:
                    pass
        o = I.obj(I.reduce(rec))
        snap = dict(args={k: I.reduce(v) for k, v in a.items()},
                    groups=None, where=where(fr.func, node) if fr else '?')
        for k in ('data_loader', 'scheduler', 'optimizer', 'model',
                  'dataset'):
            v = o.data.get(k)
            snap[k] = I.reduce(v) if v is not None else None
        l = snap['data_loader']
        lo = I.obj(l) if l is not None and l.op == 'ref' else None
        snap['loader'] = {k: deep(I, v) for k, v in lo.data.items()} \
            if lo is not None and lo.cls is not None and \
            lo.cls.name == 'Loader' else l
        s = snap['scheduler']
        so = I.obj(s) if s is not None and s.op == 'ref' else None
        snap['sched_opt'] = so.data.get('optimizer') if so is not None and \
            so.cls is not None and so.cls.name == 'Scheduler' else None
        oo = I.obj(snap['optimizer']) if snap['optimizer'] is not None and \
            snap['optimizer'].op == 'ref' else None
        if oo is not None:
            g = ops.sequence(I, I.reduce(oo.data.get('param_groups', NONE)))
            if g is not None:
                snap['groups'] = []
                for x in g:
                    x = I.reduce(x)
                    d = I.obj(x)
                    snap['groups'].append(
                        {cval(k): deep(I, v) for k, v in d.data.items()
                         if is_const(k)} if d is not None and
                        d.kind == 'dict' else None)
        self.epochs.append(snap)
        v = mk('epoch_result', ())
        I.emit('call', 'run_epoch', args, kw, node, fr, v)
        return v


def signature(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    out = {n: None for n in names + [x.arg for x in a.kwonlyargs]}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        out[n] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out[x.arg] = d
    return out


def literal(d):
    if d is None:
        return None
    try:
        v = ast.literal_eval(d)
    except Exception:
        return None
    if isinstance(v, (tuple, list)):
        return mk('tuple' if isinstance(v, tuple) else 'list',
                  tuple(const(x) for x in v))
    return const(v) if not isinstance(v, dict) else None


def one(prog, rep, kind, entry, thread, given, tag, var=None):
    r = Run(prog, rep, kind)
    I = r.I
    f = method(prog, r.cls, 'optimize')
    e = method(prog, prog.cls('cdtools.models.base', 'CDIModel'),
               KINDS[kind][2])
    first = e if entry == 'model' else f
    sig = dict(signature(first))
    ctor = signature(method(prog, r.cls, '__init__')) if entry == 'rec' else {}
    kw = {}
    if 'thread' in sig:
        kw['thread'] = thread
    w = where(first)
    opts = [n for n in sig if n in TYPES]
    if given:
        for n in opts:
            if n == 'custom_data_loader' and var != 'custom':
                continue
            x = sym('option.' + n, TYPES[n])
            I.learn(I.st, mk('is', (x, NONE)), False)
            kw[n] = x
    subset = NONE
    if var == 'subset-int':
        subset = sym('subset', 'int')
    elif var == 'subset-list':
        subset = sym('subset', 'list')
    if subset is not NONE:
        I.learn(I.st, mk('is', (subset, NONE)), False)
    if var == 'batch_size':
        if 'batch_size' not in sig:
            return
        kw['batch_size'] = NONE
    if var == 'custom' and 'custom_data_loader' not in sig:
        return
    schedule = None
    if 'schedule' in sig:
        schedule = TRUE if var == 'schedule' else FALSE
        kw['schedule'] = schedule
    elif var == 'schedule':
        return
    fac = {}
    has = 'lr_factors' in sig or 'lr_factors' in ctor
    if var in ('factors', 'unknown-factor', 'retune', 'retune-none', 'reuse'):
        if not has:
            return
        fac = {'probe': sym('factor.probe', 'float')}
        if var == 'unknown-factor':
            fac['prove'] = sym('factor.prove', 'float')
    fd = lambda d: I.newdict([(const(k), v) for k, v in d.items()])
    if var == 'retune-none':
        fac = {}
    if var in ('retune', 'retune-none'):
        # factors given to optimize replace those of the constructor
        if entry == 'model' or 'lr_factors' not in sig or \
                'lr_factors' not in ctor:
            return
    it = sym('iterations', 'int')
    if var == 'reuse' and entry == 'model':
        return
    ck = {}
    if entry == 'model':
        if 'subset' in sig and subset is not NONE:
            kw['subset'] = subset
        if fac:
            kw['lr_factors'] = fd(fac)
        g = I.run(FuncVal(e), (r.model, it, r.dataset), kw)
    else:
        if subset is not NONE:
            ck['subset'] = subset
        if var in ('retune', 'retune-none'):
            ck['lr_factors'] = fd({'obj': sym('factor.obj', 'float')})
            kw['lr_factors'] = fd(fac)
        elif fac:
            ck['lr_factors' if 'lr_factors' in ctor else 'x'] = fd(fac)
        rec = I.construct(r.cls, (r.model, r.dataset), ck)
        if I.st is None:
            rep.bad('ctor-raises:' + kind, where(method(
                prog, r.cls, '__init__')), 'creating the reconstructor '
                'always raises (%s)' % tag)
            return
        if var == 'reuse':
            # an earlier round with other options leaves no trace
            k0 = {n: sym('earlier.' + n, TYPES[n]) for n in opts
                  if n != 'custom_data_loader'}
            if 'schedule' in sig:
                k0['schedule'] = TRUE
            for x in k0.values():
                if x.op == 'sym':
                    I.learn(I.st, mk('is', (x, NONE)), False)
            k0['thread'] = thread
            g = I.run(FuncVal(f), (rec, it), k0)
            if I.st is None:
                rep.und(tag, 'the first round raises')
                return
            g = I.reduce(g)
            if g.op == 'gen':
                I.run(g.args[0], g.args[1:], dict(g.kw))
            if I.st is None:
                rep.und(tag, 'the first round raises')
                return
            del r.epochs[:]
            I.st.trace = []
        g = I.run(FuncVal(f), (rec, it), kw)
    rep.saw(I)
    if I.st is not None:
        g = I.reduce(g)
        if g.op == 'gen':
            I.run(g.args[0], g.args[1:], dict(g.kw))
            rep.saw(I)
    if I.st is None:
        rep.bad('optimize-raises:%s:%s' % (kind, entry), w,
                'the optimization always raises (%s)' % tag)
        return
    if var == 'unknown-factor':
        if r.warned:
            rep.ok('unknown factors are warned about ' + tag)
        else:
            rep.und('unknown factor ' + tag, 'no warning seen')
    if not r.epochs:
        tgt = thread_target(I, I.st.trace)
        if tgt is not None:
            I.run(tgt[0], tgt[1], tgt[2])
            rep.saw(I)
    if not r.epochs:
        rep.und(tag, 'no epoch reached')
        return
    exp = {}
    for n in opts:
        exp[n] = kw[n] if n in kw else literal(sig[n])
    for s in r.epochs[-1:]:
        judge(r, rep, kind, s, exp, fac, schedule, subset, tag, var, w)


def eq(I, g, x):
    g, x = norm.strip(g), norm.strip(x)
    if g is x:
        return True
    if is_const(g) and is_const(x):
        return cval(g) == cval(x) and type(cval(g)) is type(cval(x)) or \
            cval(g) == cval(x)
    return False


def judge(r, rep, kind, s, exp, fac, schedule, subset, tag, var, w):
    I = r.I

    def cmp(name, got, want, key, what):
        if want is None:
            return
        if got is None:
            rep.bad('option-lost:%s:%s' % (kind, key), w, '%s is not set, it '
                    'should be %s (%s)' % (what, show(want, 4), tag))
            return
        got = norm.strip(got)
        if eq(I, got, want) or norm.same_value(got, want)[0] == 'same':
            rep.ok('%s %s' % (what, tag))
        elif got.op == 'phi' and key not in (
                'betas', 'batch_size', 'history_size', 'calculation_width') \
                and any(x is want for x in walk(got.args[0])) \
                and all(b is want or is_const(b) or b.op in ('tuple', 'list')
                        for b in got.args[1:]) and not any(
                is_const(b) and not cval(b) for b in got.args[1:]):
            rep.bad('option-lost:%s:%s' % (kind, key), w, '%s is %s, it '
                    'should be %s whatever its value (%s)' % (
                        what, show(got, 4), show(want, 4), tag))
        elif any(x.op in ('unknown', 'phi', 'mu', 'call', 'mcall', 'undef')
                 for x in walk(got)):
            rep.und('%s %s' % (what, tag), show(got, 5))
        else:
            rep.bad('option-lost:%s:%s' % (kind, key), w, '%s is %s, it '
                    'should be %s (%s)' % (what, show(got, 4),
                                           show(want, 4), tag))

    for n in ('regularization_factor', 'calculation_width'):
        if n in exp:
            cmp(n, s['args'].get(n), exp[n], n, n + ' of the epoch')
    # ---- optimizer
    gs = s['groups']
    if gs is None or any(g is None for g in gs):
        rep.und('parameter groups ' + tag, 'not resolved')
    else:
        seen = []
        for g in gs:
            p = g.get('params')
            if p is not None and p.op in ('list', 'tuple'):
                seen += [norm.strip(x) for x in p.args]
            else:
                seen = None
                break
        if seen is None or any(x.op not in ('sym',) for x in seen):
            rep.und('parameters ' + tag, 'not resolved')
        else:
            miss = [n for n, p in r.params.items() if p not in seen]
            if miss:
                rep.bad('parameter-not-optimized:' + kind, where(
                    r.optim[-1][2], r.optim[-1][3]), 'the parameter %s is '
                    'not given to the optimizer' % miss[0])
            elif len(seen) != len(r.params):
                rep.bad('parameter-twice:' + kind, where(
                    r.optim[-1][2], r.optim[-1][3]), 'a parameter is given '
                    'to the optimizer twice')
            else:
                rep.ok('all parameters are optimized ' + tag)
        for g in gs:
            nm = cval(g['name']) if 'name' in g and is_const(g['name']) \
                else None
            p = g.get('params')
            if nm is not None and p is not None and len(p.args) == 1 and \
                    norm.strip(p.args[0]) is not r.params.get(nm) and \
                    norm.strip(p.args[0]).op == 'sym':
                rep.bad('group-name:' + kind, where(
                    r.optim[-1][2], r.optim[-1][3]), 'the group of %s is '
                    'called %s' % (show(p.args[0]), nm))
            for n in GROUP:
                if n in exp:
                    cmp(n, g.get(n), exp[n], n, '%s of the parameter group '
                        '%s' % (n, nm))
            if 'lr' in exp:
                want = exp['lr']
                if nm in fac:
                    got = g.get('lr')
                    d = product(got)
                    if d is None:
                        rep.und('lr ' + tag, show(got, 5)
                                if got is not None else 'unset')
                    elif d == tuple(sorted((exp['lr'].n, fac[nm].n))):
                        rep.ok('factor of %s %s' % (nm, tag))
                    else:
                        rep.bad('lr-factor:' + kind, w, 'the learning rate '
                                'of %s is %s, it should be the learning '
                                'rate times its factor (%s)' % (
                                    nm, show(got, 5), tag))
                else:
                    cmp('lr', g.get('lr'), want, 'lr', 'the learning rate '
                        'of %s' % nm)
    if r.optim and s['optimizer'] is not None:
        if r.optim[-1][0] is not s['optimizer']:
            rep.und('optimizer ' + tag, 'replaced')
        if r.optim[-1][1] != kind:
            rep.bad('optimizer-kind:' + kind, where(
                r.optim[-1][2], r.optim[-1][3]), 'the %s reconstruction '
                'uses %s' % (kind, r.optim[-1][1]))
    # ---- schedule
    sc = s['scheduler']
    if schedule is TRUE:
        if sc is None or sc is NONE:
            rep.bad('schedule-lost', w, 'schedule=True sets no scheduler '
                    '(%s)' % tag)
        elif s['sched_opt'] is None:
            rep.und('schedule ' + tag, show(sc, 4))
        elif s['sched_opt'] is s['optimizer']:
            rep.ok('schedule ' + tag)
        else:
            rep.bad('schedule-other', w, 'the scheduler is attached to %s'
                    % show(s['sched_opt'], 4))
    else:
        if sc is NONE:
            rep.ok('no schedule ' + tag)
        elif s['sched_opt'] is not None:
            rep.bad('schedule-unasked', w, 'a scheduler runs although none '
                    'was asked for (%s)' % tag)
        else:
            rep.und('schedule ' + tag, show(sc, 4) if sc is not None
                    else 'unset')
    # ---- data
    ld = s['loader']
    if var == 'custom':
        x = exp['custom_data_loader']
        if ld is x or s['data_loader'] is x:
            rep.ok('custom data loader ' + tag)
        elif isinstance(ld, dict):
            rep.bad('option-lost:%s:custom_data_loader' % kind, w, 'the '
                    'given data loader is not used')
        else:
            rep.und('data loader ' + tag, '?')
        return
    if not isinstance(ld, dict):
        rep.und('data loader ' + tag, show(ld, 4) if ld is not None else '?')
        return
    ds = ld.get('dataset')
    if subset is NONE:
        want = r.dataset
        good = ds is want
    else:
        good = ds is not None and ds.op == 'subset' and \
            ds.args[0] is r.dataset and (
                ds.args[1] is subset and var == 'subset-list' or
                var == 'subset-int' and ds.args[1].op in ('list', 'tuple')
                and len(ds.args[1].args) == 1 and
                ds.args[1].args[0] is subset or
                var == 'subset-list' and norm.strip(ds.args[1]) is subset)
    if good:
        rep.ok('dataset ' + tag)
    elif ds is None or any(x.op in ('unknown', 'phi', 'mu') for x in walk(ds)):
        rep.und('dataset ' + tag, show(ds, 5) if ds is not None else '?')
    else:
        rep.bad('subset:' + kind, w, 'the exposures come from %s (%s)' % (
            show(ds, 5), tag))
    b = ld.get('batch_size')
    if kind == 'LBFGS':
        if b is not None and b.op == 'len' and b.args[0] is ds:
            rep.ok('all exposures in one batch ' + tag)
        elif b is None or is_const(b):
            rep.bad('lbfgs-batch', w, 'LBFGS is not run on all exposures at '
                    'once but on batches of %s' % (
                        show(b) if b is not None else '1'))
        elif b.op == 'len' and b.args[0] is r.dataset:
            rep.ok('all exposures in one batch ' + tag)
        else:
            rep.und('batch ' + tag, show(b, 4))
    elif exp.get('batch_size') is NONE:
        if b is None or is_const(b) and cval(b) == 1:
            rep.ok('single exposures ' + tag)
        else:
            rep.bad('batch-none:' + kind, w, 'without a batch size batches '
                    'of %s are used' % show(b, 4))
    else:
        cmp('batch_size', b, exp.get('batch_size'), 'batch_size',
            'the batch size')
    want = exp.get('shuffle', TRUE)
    cmp('shuffle', ld.get('shuffle', FALSE), want, 'shuffle',
        'shuffling of the exposures')
    dl = ld.get('drop_last')
    if dl is None or dl is FALSE:
        rep.ok('no exposure dropped ' + tag)
    elif dl is TRUE:
        rep.bad('drop-last:' + kind, w, 'the last, incomplete, batch is '
                'dropped in every epoch')
    else:
        rep.und('drop_last ' + tag, show(dl, 4))


def product(t):
    """sorted ids of the two factors of a product of symbols"""
    t = norm.strip(t) if t is not None else None
    if t is None or any(x.op in ('phi', 'unknown', 'mu') for x in walk(t)):
        return None
    if t.op == 'bin' and t.args[0] == '*' or t.op in ('f:mul',
                                                     'f:multiply'):
        a = [norm.strip(x) for x in t.args if isinstance(x, T)]
        if len(a) == 2:
            return tuple(sorted(x.n for x in a))
    return (t.n,)

