"""C20: reading does not write."""
from .util import *
from . import c08, c09, c10, c11, c12, c13, c14, c17, c18, c19, models as M, \
    spec
from vg import ops
from vg.interp import basicindex
from vg.loader import AnalysisError

RULE = ('every in-place operation reached from a tool, a read-only method of '
        'a model or dataset, or a constructor from a dataset is resolved to '
        'the storage it writes to, through views, conversions that share '
        'memory and helper functions; storage of an argument, of the '
        'dataset, or of an attribute of the model is a violation')
# operations whose result shares the memory of their first argument
VIEWS = {'f:' + x for x in (
    'T', 'transpose', 'permute', 'unsqueeze', 'squeeze', 'reshape', 'view',
    'ravel', 'flatten', 'detach', 'data', 'numpy', 'as_tensor', 'from_numpy',
    'asarray', 'real', 'imag', 'swapaxes', 'moveaxis', 'expand', 'diagonal',
    'cpu', 'contiguous', 'view_as_real', 'view_as_complex', 'atleast_1d',
    'atleast_2d', 'expand_as', 'broadcast_to', 'movedim', 'to', 'narrow',
    'select', 'setdata', 'requires_grad', 'ravel', 'mT', 'H')}
STRIDED = {'f:' + x for x in (
    'T', 'transpose', 'permute', 'swapaxes', 'moveaxis', 'expand', 'movedim',
    'diagonal', 'real', 'imag', 'expand_as', 'broadcast_to', 'narrow',
    'select', 'mT', 'H')}
ARRAY = ('tensor', 'ndarray', 'param')
# the functions that change their argument as documented
INPLACE = set()


class Store:
    """storage that belongs to somebody else"""

    def __init__(self, I, mine, base=()):
        self.I, self.mine, self.base = I, mine, set(base)

    def root(self, x, depth=0):
        """the part of it x certainly shares, or None"""
        I = self.I
        x = I.reduce(x)
        if depth > 30:
            return None
        if x in self.base:
            return x
        if x.op == 'sym':
            return x if x.args[1] in ARRAY and self.mine(x) else None
        if x.op == 'f:reshape' and self.strided(x.args[0]):
            return None
        if x.op in VIEWS and x.args:
            return self.root(x.args[0], depth + 1)
        if x.op == 'index' and len(x.args) == 2 and basicindex(x.args[1]):
            return self.root(x.args[0], depth + 1)
        if x.op == 'attr' and x.args[0].op == 'sym' and self.mine(x.args[0]):
            return x if ops.typeof(I, x) in ARRAY else None
        if x.op == 'setitem':
            return self.root(x.args[0], depth + 1)
        if x.op == 'f:ndarray' and dict(x.kw).get('%alias') is TRUE:
            return self.root(x.args[0], depth + 1)
        if x.op == 'loopval' and isinstance(x.args[3], T) and self.root(
                x.args[3], depth + 1) is None:
            return None
        if x.op in ('mu', 'loopval') and len(x.args) > 2 and isinstance(
                x.args[2], T):
            return self.root(x.args[2], depth + 1)
        if x.op == 'phi':
            return self.root(x.args[1], depth + 1) or \
                self.root(x.args[2], depth + 1)
        return None

    def strided(self, x):
        """x may not be contiguous: reshape may copy it"""
        x = self.I.reduce(x)
        while isinstance(x, T) and x.args and (x.op in VIEWS or x.op in (
                'index', 'setitem')):
            if x.op in STRIDED or x.op == 'index':
                return True
            x = self.I.reduce(x.args[0])
        return False


def writes(I, trace):
    """(event, target) of the in-place operations"""
    for e, _ in walk_events(trace):
        if e.kind == 'mutate' and e.args and isinstance(e.args[0], T):
            yield e, e.args[0]


def judge(rep, I, S, trace, t, key, f, lists=()):
    n = 0
    for e, x in writes(I, trace):
        n += 1
        y = I.reduce(x)
        if y.op == 'ref':
            if y in lists:
                rep.bad('writes:%s' % key, at(e, f), '%s: %s changes a list '
                        'or dictionary it is given' % (t, name(e)))
                return
            continue
        r = S.root(y)
        if r is not None:
            rep.bad('writes:%s:%s' % (key, show(r, 2)), at(e, f),
                    '%s: %s changes %s in place' % (t, name(e), show(r, 2)))
            return
    rep.ok(t, '%d in-place operations' % n)


def name(e):
    return str(e.name)


def at(e, f):
    fn = e.func or f
    nd = getattr(e, 'node', None)
    return fn.where(nd) if nd is not None else where(fn)


# what only reads the model
READ = ('interaction', 'forward', 'forward_propagator', 'backward_propagator',
        'measurement', 'loss', 'regularizer', 'corrected_translations',
        'save_results', 'get_probe_intensities', 'get_rhos',
        'sim_to_dataset', 'get_detector_geometry')


def run(prog, rep, thorough):
    tools(prog, rep)
    for name in c14.TRAIN:
        for given, over, tag in c13.configs(prog, name, thorough):
            with rep.guard('%s[%s]' % (name, tag)):
                model(prog, rep, name, given, over, tag)
    for name in c14.TRAIN:
        with rep.guard(name + ' plots'):
            plots(prog, rep, name)
        with rep.guard(name + '.from_dataset'):
            from_dataset(prog, rep, name)
    dataset(prog, rep)


def mcases(name, meth):
    if meth in ('get_rhos', 'get_probe_intensities', 'get_detector_geometry'):
        return [('', lambda I: ((), {}))]
    if meth == 'sim_to_dataset':
        return [('', lambda I: ((tup(c13.IX, c13.TR),), {}))]
    if meth == 'save_results':
        return c13.cases(name, 'corrected_translations')
    return c13.cases(name, meth)


def model(prog, rep, name, given, over, tag):
    cls = M.model_class(prog, name)
    for meth in READ:
        f = prog.find_method(cls, meth)
        if f is None or f.cls.name == 'CDIModel' and meth in (
                'interaction', 'measurement', 'forward_propagator',
                'backward_propagator', 'loss'):
            continue
        for c, mkargs in mcases(name, meth):
            t = '%s.%s[%s%s]' % (name, meth, tag, c and ', ' + c)
            with rep.guard(t):
                I, m = c13.make(prog, name, given, over)
                if m is None:
                    continue
                before = dict(I.obj(m).data)
                base = {v for k, v in values(I, before) if ops.typeof(
                    I, v) in ARRAY}
                a, k = mkargs(I)
                n = len(I.st.trace)
                st = I.st
                got = I.run(FuncVal(f), (m,) + tuple(a), dict(k))
                rep.saw(I)
                if I.st is None:
                    rep.ok(t, 'always raises')
                    continue
                key = '%s.%s' % (f.cls.name, meth)
                after = I.obj(m).data
                ch = [x for x, v in before.items() if isinstance(x, str) and
                      not x.startswith('%') and isinstance(v, T) and
                      isinstance(after.get(x), T) and
                      I.reduce(after[x]) is not I.reduce(v)]
                if ch:
                    rep.bad('sets:%s:%s' % (key, ch[0]), where(f),
                            '%s: the attribute %s is changed' % (t, ch[0]))
                    continue
                judge(rep, I, Store(I, lambda s: True, base),
                      I.st.trace[n:], t, key, f)


def plots(prog, rep, name):
    """the plots of a model"""
    cls = M.model_class(prog, name)

    def each(I, v, pre):
        for it in I.obj(I.reduce(v)).data['items']:
            d = {cval(k): I.reduce(x) for k, x in I.obj(
                I.reduce(it)).data.items() if isinstance(k, T)}
            if 'plots' in d:
                yield from each(I, d['plots'], cval(d['title']) + ': ')
            else:
                yield pre + str(cval(d['title'], '')), d['plot_func']
    for given, over, tag in c13.configs(prog, name, False):
        I, m = c13.make(prog, name, given, over)
        for attr in ('plot_panel_list', 'plot_list'):
            v = I.getattr(m, attr) if prog.find_classattr(
                cls, attr) else None
            if v is None or I.reduce(v).op != 'ref':
                continue
            start = I.st
            for title, fn in list(each(I, v, '')):
                t = '%s.%s[%s] %s' % (name, attr, tag, title)
                with rep.guard(t):
                    I.st = start.fork()
                    before = dict(I.obj(m).data)
                    base = {x for k, x in values(I, before) if ops.typeof(
                        I, x) in ARRAY}
                    n = len(I.st.trace)
                    I.call(fn, (m, sym('fig', 'fig')), {})
                    rep.saw(I)
                    if I.st is None:
                        rep.ok(t, 'always raises')
                        continue
                    judge(rep, I, Store(I, lambda s: True, base),
                          I.st.trace[n:], t, '%s:%s' % (name, title),
                          method(prog, cls, '__init__'))
            I.st = start


def values(I, d):
    for k, v in d.items():
        if isinstance(k, str) and not k.startswith('%') and isinstance(v, T):
            v = I.reduce(v)
            if v.op not in ('ref', 'const', 'tuple', 'func', 'class'):
                yield k, v


def from_dataset(prog, rep, name):
    cls = M.model_class(prog, name)
    f = prog.find_method(cls, 'from_dataset')
    for absent in ((), ('mask',), ('background',), ('intensities',),
                   ('qe_mask',)):
        t = '%s.from_dataset%s' % (name, ''.join(
            ' without ' + x for x in absent))
        with rep.guard(t):
            I = M.interp(prog)
            ds, F = c08.dataset(I, prog, absent)
            kw = c08.required(I, name, fparams(f)[2:])
            I.setobj(ds, I.obj(ds).put('get_as_args', tup(
                mk('tuple', ()), I.newdict([(const('device'), sym(
                    'device', 'str'))]))))
            before = state(I, ds)
            n = len(I.st.trace)
            I.run(FuncVal(f), (mk('class', (cls,)), ds), dict(kw))
            rep.saw(I)
            if I.st is None:
                rep.ok(t, 'always raises')
                continue
            untouched(rep, I, ds, before, t, name + '.from_dataset', f, n,
                      [x for x in kw.values() if x.op == 'ref'])


def state(I, ds):
    return {k: I.reduce(deep(I, I.freeze(I.reduce(v))))
            for k, v in I.obj(ds).data.items() if isinstance(k, str) and
            not k.startswith('%') and isinstance(v, T)}


def untouched(rep, I, ds, before, t, key, f, n, lists=()):
    ch = [x for x, v in state(I, ds).items() if v is not before.get(x)]
    if ch:
        rep.bad('sets:%s:%s' % (key, ch[0]), where(f),
                '%s: the attribute %s of the dataset is changed' % (t, ch[0]))
        return
    judge(rep, I, Store(I, lambda s: True), I.st.trace[n:], t, key, f, lists)


def dataset(prog, rep):
    dc = prog.cls('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset')
    for meth, args in (('__len__', ()), ('_load', (sym('i', 'int'),)),
                       ('_load', (sym('ix', 'tensor'),)),
                       ('__getitem__', (sym('i', 'int'),)),
                       ('__getitem__', (sym('ix', 'tensor'),)),
                       ('to_cxi', (sym('filename', 'str'),)),
                       ('to_cxi', (sym('file', 'h5'),)),
                       ('inspect', ()), ('plot_mean_pattern', ()),
                       ('split', ()), ('plot_mean_pattern', (
                           sym('offset', 'float'),))):
        f = prog.find_method(dc, meth)
        if f is None:
            raise AnalysisError('Ptycho2DDataset.%s is missing' % meth)
        for absent in ((), ('mask',), ('background',), ('intensities',)):
            t = 'dataset.%s(%s)%s' % (meth, ', '.join(map(show, args)), ''.join(
                ' without ' + x for x in absent))
            with rep.guard(t):
                I = M.interp(prog)
                ds, F = c08.dataset(I, prog, absent)
                before = state(I, ds)
                n = len(I.st.trace)
                I.run(FuncVal(f), (ds,) + args, {})
                rep.saw(I)
                if I.st is None:
                    rep.ok(t, 'always raises')
                    continue
                untouched(rep, I, ds, before, t, 'Ptycho2DDataset.' + meth, f,
                          n)


def tools(prog, rep):
    function = spec.function

    def look(prog, _, target, reference, cases, what=None, hooks=None,
             real=None, shapes=None):
        tm, tn = target
        f = prog.func(tm, tn)
        for tag, mk_ in cases:
            t = '%s[%s]' % (tn, tag)
            with rep.guard(t):
                given = []

                def make(I):
                    a, k = mk_(I)
                    for x in list(a) + list(dict(k).values()):
                        x = I.reduce(x) if isinstance(x, T) else None
                        if x is not None and x.op == 'ref':
                            o = I.obj(x)
                            if o.kind in ('list', 'dict'):
                                given.append(x)
                    del I.st.trace[:]
                    return a, k
                I, got = spec.call(prog, f, make, shapes or {}, None)
                rep.saw(I)
                if I.st is None:
                    rep.ok(t, 'always raises')
                    continue
                judge(rep, I, Store(I, lambda s: True), I.st.trace, t, tn, f,
                      given)
    spec.function = look
    try:
        for c in (c09, c10, c11, c12, c17, c18, c19):
            c.run(prog, c14.Silent(), False)
    finally:
        spec.function = function
