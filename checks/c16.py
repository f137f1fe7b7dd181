"""C16: everything works on whichever device it is on."""
from .util import *

from . import c09, c11, c12, c13, c14, models as M, spec

RULE = ('each value on the forward path, in the losses, tools and results is '
        'given the device it lives on (moved along with the model or its '
        'arguments, the CPU, a numpy array, a plain number); an operation '
        'that mixes the first with the others, or reads a value that may be '
        'on an accelerator as a numpy array, is a violation')

X, C, N, S, U = 'moved', 'cpu', 'numpy', 'number', 'unknown'
SCALAR = {'cmp', 'not', 'and', 'or', 'is', 'in', 'isinstance', 'attr',
          'f:len', 'f:isinstance', 'f:hasattr', 'f:dim', 'f:numel',
          'f:shape', 'f:size', 'f:item', 'f:tolist', 'f:ndim', 'ext',
          'class', 'func', 'slice', 'f:range', 'range', 'f:int'}
NEW = {'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'eye', 'rand',
       'randn', 'randint', 'randperm', 'tril', 'hann_window', 'fftfreq',
       'normal', 'logspace', 'tensor', 'as_tensor', 'identity',
       'random_normal', 'mgrid', 'ogrid', 'meshgrid'}


def lib(t):
    for k, v in t.kw:
        if k == '%lib':
            return v if isinstance(v, str) else str(v)
    return None


class Devices:
    def __init__(self, I, sym_dev):
        self.I, self.sym_dev = I, sym_dev
        self.memo, self.faults = {}, []
        self.unk = set()

    def fault(self, t, why):
        self.faults.append((t, why))

    def device_of(self, d):
        """what a device= argument stands for"""
        d = self.I.reduce(d) if isinstance(d, T) else d
        if not isinstance(d, T):
            return U
        if d is NONE:
            return None
        if d.op == 'attr' and d.args[1] == 'device':
            return self(d.args[0])
        if d.op == 'sym' and d.args[1] == 'device':
            return X
        if is_const(d) and isinstance(cval(d), str):
            return C if cval(d).startswith('cpu') else X
        if d.op in ('f:device', 'new:torch.device') and d.args:
            return self.device_of(d.args[0])
        if d.op == 'phi':
            v = {self.device_of(x) for x in d.args[1:]} - {None}
            return v.pop() if len(v) == 1 else U
        return U

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = U
        v = self.memo[t] = self.calc(t)
        return v

    def join(self, t, parts, numpy_ok=True):
        """an operation on all of the parts at once"""
        ds = [self(p) for p in parts]
        s = set(ds)
        if X in s and C in s:
            self.fault(t, 'mixes %s with %s' % (
                show(parts[ds.index(X)], 2), show(parts[ds.index(C)], 3)))
        if U in s:
            return X if X in s else U
        for d in (X, C, N):
            if d in s:
                return d
        return S

    def calc(self, t):
        op = t.op
        if op == 'sym':
            return self.sym_dev(t)
        if op == 'const' or op in SCALAR or op == 'ref':
            return S
        if op in ('undef', 'unknown'):
            return U
        kw = dict(t.kw)
        short = op.split('.')[-1] if op.startswith('new:') else \
            op[2:] if op.startswith('f:') else op
        kids = [c for c in children(t) if isinstance(c, T)]
        if op.startswith('new:'):
            if 'torch' in op:
                d = self.device_of(kw['device']) if 'device' in kw else None
                if d is None and op.endswith('_like'):
                    return self(t.args[0])
                if d is None:
                    sh = t.args[0] if t.args else None
                    if sh is not None and sh.op in ('list', 'tuple') and \
                            not sh.args:
                        return S
                    return C
                return d
            return N
        if op in ('f:to', 'f:type', 'astype'):
            if 'device' in kw:
                d = self.device_of(kw['device'])
                return self(t.args[0]) if d is None else d
            for a in t.args[1:]:
                if isinstance(a, T):
                    if a.op == 'attr' and a.args[1] == 'device' or \
                            a.op == 'sym' and a.args[1] == 'device' or \
                            is_const(a) and isinstance(cval(a), str):
                        return self.device_of(a)
            return self(t.args[0])
        if op == 'f:cpu':
            self(t.args[0])
            return C
        if op == 'f:cuda':
            return X
        if op in ('f:as_tensor', 'f:tensor', 'f:from_numpy'):
            d = self.device_of(kw['device']) if 'device' in kw else None
            if d is not None:
                return d
            a = self(t.args[0])
            if a is N:
                return C
            if a is S and t.args[0].op in ('list', 'tuple', 'comp'):
                return C
            return a
        if op == 'f:numpy':
            if self(t.args[0]) is X:
                self.fault(t, 'converts %s to numpy without moving it to the '
                           'CPU' % show(t.args[0], 3))
            return N
        if op == 'f:ndarray':
            if any(self(x) is X for x in kids):
                self.fault(t, 'converts %s to numpy without moving it to the '
                           'CPU' % show(t.args[0], 3))
            return N
        if op == 'index':
            a = self(t.args[0])
            for i in t.args[1:]:
                if self(i) is X and a is C:
                    self.fault(t, 'indexes %s, which is on the CPU, with %s'
                               % (show(t.args[0], 3), show(i, 3)))
            return a
        if op in ('setitem', 'splice'):
            for i in t.args[1:]:
                self(i)
            return self(t.args[0])
        if op in ('phi', 'ite'):
            v = {self(x) for x in t.args[1:]} - {S}
            return v.pop() if len(v) == 1 else U if v else S
        if op in ('tuple', 'list', 'dict', 'set', 'slice'):
            v = {self(x) for x in kids} - {S}
            return X if X in v else v.pop() if len(v) == 1 else U if v else S
        if op.startswith('f:') or op in ('bin', 'neg', 'invert', 'abs',
                                         'conv', 'pow'):
            if lib(t) == 'np' and any(self(x) is X for x in kids):
                self.fault(t, 'numpy.%s reads %s' % (short, show(
                    [x for x in kids if self(x) is X][0], 3)))
                return N
            return self.join(t, kids)
        self.unk.add(op)
        return self.join(t, kids)


def run(prog, rep, thorough):
    for name in c14.TRAIN:
        for given, over, tag in c13.configs(prog, name, thorough):
            t = '%s[%s]' % (name, tag)
            with rep.guard(t):
                model(prog, rep, name, given, over, t)
    losses(prog, rep)
    tools(prog, rep)
    plots(prog, rep)


def moved(s):
    if s.args[1] == 'tensor':
        return X
    if s.args[1] == 'ndarray':
        return N
    return S if s.args[1] in ('int', 'float', 'bool', 'str', 'complex') \
        else U


def judge(rep, I, got, want, t, key, f):
    D = Devices(I, moved)
    d = D(got)
    for x, why in D.faults:
        rep.bad('device:' + key, loc(x), '%s: %s' % (t, why))
    if D.faults or d is want:
        rep.ok(t)
    elif d is C or d is N:
        rep.bad('result:' + key, where(f), '%s: the result is on the CPU, '
                'wherever the arguments are' % t)
    else:
        rep.und(t, '%s %s %s' % (d, sorted(D.unk), show(got, 4)))


def losses(prog, rep):
    mod = prog.modules['cdtools.tools.losses.losses']
    for fn in ('amplitude_mse', 'intensity_mse', 'poisson_nll'):
        f = mod.funcs.get(fn)
        if f is None:
            raise AnalysisError('loss %s is missing' % fn)
        for mask in (False, True):
            for o in ({}, {'use_sum': TRUE}, {'use_sum': FALSE},
                      {'subtract_min': TRUE}):
                if not set(o) <= set(c14.fparams(f)):
                    continue
                t = '%s[%s%s]' % (fn, ', '.join(o), ' mask' if mask else '')
                with rep.guard(t):
                    I = M.interp(prog)
                    i, s, k = (sym(x, 'tensor') for x in (
                        'intensities', 'sim_intensities', 'mask'))
                    for x in (i, s, k):
                        I.shapes[x] = tup(M.L_, M.H_, M.W_)
                    got = I.run(FuncVal(f), (i, s), dict(
                        o, **({'mask': k} if mask else {})))
                    rep.saw(I)
                    judge(rep, I, I.reduce(deep(I, I.freeze(I.reduce(
                        got)))), X, t, fn, f)


def tools(prog, rep):
    function = spec.function

    def look(prog, _, target, reference, cases, what=None, hooks=None,
             real=None, shapes=None):
        tm, tn = target
        if tn.startswith('generate_'):
            return
        f = prog.func(tm, tn)
        for tag, mk_ in cases:
            t = '%s[%s]' % (tn, tag)
            with rep.guard(t):
                I, got = spec.call(prog, f, mk_, shapes or {}, hooks)
                rep.saw(I)
                if got is None:
                    rep.und(t, 'always raises')
                else:
                    judge(rep, I, got, X, t, tn, f)
    spec.function = look
    try:
        for c in (c09, c11, c12):
            c.run(prog, c14.Silent(), False)
    finally:
        spec.function = function


SINKS = ('imshow', 'plot', 'scatter', 'set_data', 'semilogy', 'set_clim')
PLOTS = ('plot_real', 'plot_imag', 'plot_amplitude', 'plot_phase',
         'plot_colorized', 'plot_translations', 'plot_nanomap')


def plots(prog, rep):
    mod = prog.modules['cdtools.tools.plotting.plotting']
    for fn in PLOTS:
        f = mod.funcs.get(fn)
        if f is None:
            raise AnalysisError('%s is missing' % fn)
        t = fn
        with rep.guard(t):
            I = M.interp(prog)
            im = sym('im', 'tensor')
            I.shapes[im] = tup(M.N_, M.H_, M.W_) if 'image' in c14.fparams(
                f) or 'im' in c14.fparams(f) else tup(M.N_, 3)
            args = (im,)
            if 'values' in c14.fparams(f):
                v = sym('values', 'tensor')
                I.shapes[v] = tup(M.N_)
                args += (v,)
            kw = {}
            if 'basis' in c14.fparams(f):
                b = sym('basis', 'tensor')
                I.shapes[b] = tup(3, 2)
                I.learn(I.st, mk('is', (b, NONE)), False)
                kw['basis'] = b
            I.run(FuncVal(f), args, kw)
            rep.saw(I)
            D = Devices(I, moved)
            n = 0
            for e, _ in walk_events(I.st.trace):
                for a in list(e.args) + list(e.kw.values()):
                    if not isinstance(a, T):
                        continue
                    d = D(I.reduce(deep(I, I.freeze(I.reduce(a)))))
                    n += 1
                    if d is X and str(e.name).split('.')[-1] in SINKS:
                        D.fault(a, '%s is handed %s' % (e.name, show(a, 3)))
            for x, why in D.faults:
                rep.bad('device:' + fn, where(f), '%s: %s' % (t, why))
            if not D.faults:
                rep.ok(t, '%d values' % n)


METHODS = {
    'forward': X, 'backward_propagator': X, 'regularizer': X,
    'corrected_translations': X, 'save_results': N, 'center_probes': None,
    'tidy_probes': None, 'get_probe_intensities': N, 'sim_to_dataset': None,
    'prep_object': None, 'get_rhos': None, 'uniform_init': None,
    'random_init': None,
}


def cases(name, meth):
    if meth in ('save_results',):
        return c13.cases(name, 'corrected_translations')
    if meth in ('center_probes', 'tidy_probes', 'get_probe_intensities'):
        return [('', lambda I: ((), {}))]
    if meth.endswith('_init'):
        return [('', lambda I: ((), {}))]
    if meth == 'sim_to_dataset':
        return [('', lambda I: ((tup(c13.IX, c13.TR),), {})),
                ('chunks', lambda I: ((tup(c13.IX, c13.TR),), {
                    'calculation_width': sym('calculation_width', 'int')}))]
    return c13.cases(name, meth)


def model(prog, rep, name, given, over, tag):
    cls = M.model_class(prog, name)
    kinds, plain = {}, {}

    def keep(I, m):
        kinds.update(c14.trainable(I, m))
        D = Devices(I, moved)
        for k, v in I.obj(m).data.items():
            if isinstance(v, T) and isinstance(k, str) and k not in kinds \
                    and not k.startswith('%'):
                v = I.reduce(deep(I, I.freeze(I.reduce(v))))
                d = D(v)
                sh = ops.shapeof(I, v)
                if d in (X, C) and sh is not None and sh.args:
                    plain[k] = sh
    I, m = c14.make(prog, name, given, over, keep)

    def dev(s):
        n = str(s.args[0])
        if s.args[1] == 'tensor':
            if n.startswith('self.'):
                return X if n[5:] in kinds else C
            return C if n.startswith('dataset') else X
        if s.args[1] == 'ndarray':
            return N
        return S if s.args[1] in ('int', 'float', 'bool', 'str',
                                  'complex') else U
    for meth, want in METHODS.items():
        f = prog.find_method(cls, meth)
        if f is None:
            continue
        for c, mkargs in cases(name, meth):
            t2 = '%s %s%s' % (tag, meth, c and ' ' + c)
            with rep.guard(t2):
                one(prog, rep, name, given, over, f, mkargs, dev, want, t2,
                    meth, kinds, plain)


def one(prog, rep, name, given, over, f, mkargs, dev, want, t, meth, kinds, plain):
    I, m = c13.make(prog, name, given, over)
    for k, sh in plain.items():   # left behind when the model is moved
        v = I.obj(m).data[k] = sym('self.' + k, 'tensor')
        I.shapes[v] = sh
    before = dict(I.obj(m).data)
    start = len(I.st.trace)
    got = c13.result(I, FuncVal(f), m, mkargs)
    rep.saw(I)
    if got is None:
        return rep.ok(t, 'always raises') if meth != 'forward' else \
            rep.und(t, 'always raises')
    D = Devices(I, dev)
    parts = [x for a in got.args for x in a[1:]] if got.op == 'dict' \
        else (got,)
    for x in parts:
        d = D(x)
    if got.op == 'ref' and I.obj(got) is not None and not isinstance(
            I.obj(got).data, list):
        for k, v in I.obj(got).data.items():
            if isinstance(v, T):
                D(I.reduce(deep(I, I.freeze(I.reduce(v)))))
    for e, _ in walk_events(I.st.trace[start:]):
        for a in e.args:
            if isinstance(a, T):
                D(I.reduce(deep(I, I.freeze(I.reduce(a)))))
    o = I.obj(m)
    for k in sorted(kinds):
        v = o.data.get(k)
        if v is not None and v is not before.get(k):
            e = D(I.reduce(deep(I, I.freeze(I.reduce(v)))))
            if e is C:
                rep.bad('left:%s.%s' % (name, meth), where(f), '%s: %s is '
                        'left on the CPU: %s' % (t, k, show(v, 4)))
            elif e is not X:
                rep.und('%s %s' % (t, k), '%s %s' % (e, show(v, 6)))
    for x, why in D.faults:
        rep.bad('device:%s.%s' % (name, meth), loc(x), '%s: %s' % (t, why))
    if want is None or d is want or d is S:
        rep.ok(t)
    else:
        rep.und(t, '%s %s %s' % (d, sorted(D.unk), show(got, 8)))
