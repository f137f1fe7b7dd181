"""How an expression scales with its inputs.

Multiplying some inputs with powers of a positive number multiplies the
expected result with a power of it (as units do).  A result that scales in
another way, or which adds quantities that scale differently, is not the
expected one, whatever else it is made of.

The degree of an expression is a linear form in the (unknown) weights of its
inputs.  Sums give equations between degrees.  Equations of the expected
expression, and everything that is not understood (its inputs get the weight
zero), restrict the scalings that are considered."""
from fractions import Fraction

from .terms import T, mk, const, is_const, cval, children, walk, show

ARRAY = ('tensor', 'ndarray', 'param', 'float', 'complex')
ANY = None
SAME = {'f:' + x for x in (
    'abs', 'conj', 'real', 'imag', 'sum', 'mean', 'nansum', 'max', 'min',
    'amax', 'amin', 'median', 'norm', 'linalg.norm', 'std', 'fft2', 'ifft2',
    'fftn', 'ifftn', 'fft', 'ifft', 'fftshift', 'ifftshift', 'reshape',
    'flatten', 'ravel', 'unsqueeze', 'squeeze', 'transpose', 'permute',
    'swapaxes', 'moveaxis', 'T', 'roll', 'flip', 'repeat', 'tile', 'expand',
    'broadcast_to', 'expand_as', 'clone', 'copy', 'detach', 'cpu', 'numpy',
    'to', 'float', 'double', 'data', 'contiguous', 'as_tensor', 'ndarray',
    'trace', 'diag', 'diagonal', 'cumsum', 'masked_select', 'diff', 'split',
    'unbind', 'F.avg_pool2d', 'F.max_pool2d', 'setdata', 'Parameter',
    'requires_grad', 'sqrt!', 'nn.functional.pad', 'take', 'sort',
    'view_as_real', 'view_as_complex', 'complex')} | {
        'index', 'select', 'comp', 'splice', 'maprows', 'minpool',
        'filtered'}
UNIT = {'f:' + x for x in (
    'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'arcsin', 'arccos',
    'arctan', 'sinc', 'acos', 'asin', 'atan', 'tanh', 'sinh', 'cosh',
    'erf', 'sigmoid', 'special.sinc')}
FREEOF = {'f:angle', 'f:sign', 'f:argmax', 'f:argmin', 'f:argsort',
          'f:isnan', 'f:isfinite'}
BOTH = {'f:minimum', 'f:maximum', 'f:hypot', 'f:linspace', 'list', 'tuple',
        'f:stack', 'f:cat', 'f:clamp'}
PRODUCT = {'f:cross', 'f:dot', 'f:outer', 'f:tensordot', 'matprod',
           'f:matmul', 'f:kron'}
INVERSE = {'f:inverse', 'f:pinverse'}
PLAIN = {'f:arange', 'f:eye', 'new:torch.ones', 'new:torch.ones_like',
         'new:torch.arange', 'new:torch.eye', 'ext', 'f:numel', 'range'}
ZERO = {'new:torch.zeros', 'new:torch.zeros_like', 'f:zeros',
        'f:zeros_like'}


def comb(a, b, k=1):
    r = dict(a)
    for x, v in b.items():
        r[x] = r.get(x, 0) + k * v
        if not r[x]:
            del r[x]
    return r


def owner(t):
    """an object found from an input"""
    while t.op == 'attr':
        t = t.args[0]
    return t.op == 'sym'


class Degree:
    def __init__(self, I):
        self.I, self.eqs, self.hard, self.memo = I, [], [], {}
        self.owners = set()     # objects whose parts are not scaled

    def type(self, t):
        if t.op == 'sym':
            return t.args[1]
        from . import ops
        return ops.typeof(self.I, t) if self.I is not None else None

    def leaf(self, t):
        """a quantity that can be scaled"""
        if t.op == 'sym':
            return t.args[1] in ARRAY
        return t.op == 'attr' and t.args[0].op == 'sym' and \
            self.type(t) in ARRAY

    def freeze(self, t):
        """t must not change: its inputs are not scaled"""
        if not isinstance(t, T):
            return
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            if self.leaf(x) or x.op == 'mu':
                self.hard.append(({x: Fraction(1)}, None))
            if x.op == 'sym' or owner(x):
                self.owners.add(x)
            else:
                todo.extend(children(x))

    def rest(self, t, n=1):
        for a in t.args[n:]:
            self.freeze(a)
        for _, v in t.kw:
            self.freeze(v)

    def same(self, forms, why, hard):
        forms = [f for f in forms if f is not ANY]
        for f in forms[1:]:
            d = comb(f, forms[0], -1)
            if d:
                (self.hard if hard else self.eqs).append((d, why))
        return forms[0] if forms else ANY

    def form(self, t):
        if t not in self.memo:
            self.memo[t] = {}
            self.memo[t] = self._form(t)
        return self.memo[t]

    def _form(self, t):
        op = t.op
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float, complex)) and not isinstance(
                    v, bool) and v == 0:
                return ANY
            return {}
        if self.leaf(t):
            return {t: Fraction(1)}
        if op in ('sym', 'attr', 'class', 'func'):
            self.freeze(t)
            return {}
        if op == 'poly':
            big = max(abs(cval(m.args[0])) for m in t.args)
            return self.same([self.form(m) for m in t.args if abs(
                cval(m.args[0])) > 1e-9 * big], t, False)
        if op == 'mono':
            r = {}
            for x, e in zip(t.args[1::2], t.args[2::2]):
                p, q = cval(e)
                f = self.form(x)
                if f is ANY:
                    return ANY
                r = comb(r, f, Fraction(p, q))
            return r
        if op == 'f:masked_fill':
            kw = dict(t.kw)
            v = kw.get('value', t.args[2] if len(t.args) > 2 else None)
            self.freeze(kw.get('mask', t.args[1] if len(t.args) > 1
                               else None))
            return self.same([self.form(t.args[0])] + (
                [self.form(v)] if isinstance(v, T) else []), t, True)
        if op == 'index' and t.args[0].op == 'f:linalg.svd' and is_const(
                t.args[1]):
            f = self.form(t.args[0].args[0])
            return f if cval(t.args[1]) == 1 else {}
        if op == 'f:meshgrid' and is_const(t.args[-1]):
            return self.form(t.args[cval(t.args[-1])])
        if op == 'f:fftfreq':
            d = dict(t.kw).get('d', t.args[1] if len(t.args) > 1 else None)
            f = self.form(d) if isinstance(d, T) else {}
            self.freeze(t.args[0])
            return ANY if f is ANY else comb({}, f, -1)
        if op == 'elem':
            if t.args[0].op in ('sym', 'comp', 'list', 'tuple'):
                return self.form(t.args[0])
            self.freeze(t.args[0])
            return {}
        if op == 'comp' and len(t.args) > 2:
            self.rest(t, 0)
            return {}
        if op == 'filtered':
            self.freeze(t.args[0])
            return self.form(t.args[1])
        if op in SAME and t.args and isinstance(t.args[0], T):
            f = self.form(t.args[0])
            self.rest(t)
            return f
        if op == 'astype':
            if any(is_const(a) and isinstance(cval(a), str) and (
                    'bool' in cval(a) or 'int' in cval(a)) for a in
                   t.args[1:]):
                self.rest(t, 0)
                return {}
            return self.form(t.args[0])
        if op in UNIT:
            self.same([{}, self.form(t.args[0])], t, 'log' in op)
            self.rest(t)
            return {}
        if op in FREEOF:
            self.form(t.args[0])
            self.rest(t)
            return {}
        if op == 'f:arctan2':
            self.same([self.form(a) for a in t.args], t, True)
            return {}
        if op == 'cmp':
            self.same([self.form(a) for a in t.args if isinstance(a, T)], t,
                      True)
            return {}
        if op in BOTH:
            f = [self.form(a) for a in t.args if isinstance(a, T)]
            for k, v in t.kw:
                if op == 'f:clamp' and isinstance(v, T):
                    f.append(self.form(v))
                else:
                    self.freeze(v)
            if op == 'f:linspace':
                f = [self.form(a) for a in t.args[:2]]
                for a in t.args[2:]:
                    self.freeze(a)
            return self.same(f, t, True)
        if op in PRODUCT and len(t.args) >= 2:
            r = {}
            n = len(t.args) if op == 'matprod' else 2
            for a in t.args[:n]:
                f = self.form(a)
                if f is ANY:
                    return ANY
                r = comb(r, f)
            self.rest(t, n)
            return r
        if op in INVERSE:
            f = self.form(t.args[0])
            self.rest(t)
            return ANY if f is ANY else comb({}, f, -1)
        if op in ZERO:
            return ANY
        if op in PLAIN:
            self.rest(t, 0)
            return {}
        if op == 'phi' or op == 'f:where' and len(t.args) == 3:
            self.freeze(t.args[0])
            return self.same([self.form(a) for a in t.args[1:]], t, True)
        if op == 'setitem':
            self.freeze(t.args[1])
            return self.same([self.form(t.args[0]), self.form(t.args[2])],
                             t, True)
        if op == 'mu':
            self.freeze(t.args[0])
            return {t: Fraction(1)}
        if op == 'loopval' and isinstance(t.args[2], T) and isinstance(
                t.args[3], T):
            m = {mk('mu', t.args[:3]): Fraction(1)}
            self.freeze(t.args[0])
            self.same([m, self.form(t.args[2])], t, True)
            self.same([m, self.form(t.args[3])], t, True)
            return m
        if op == 'loopsum':
            self.freeze(t.args[0])
            return self.form(t.args[1])
        self.freeze(t)
        return {}


class Space:
    """linear equations in the weights, in echelon form"""

    def __init__(self):
        self.rows = {}

    def reduce(self, f):
        f = dict(f)
        while True:
            for x in sorted(f, key=lambda y: y.n):
                if x in self.rows:
                    f = comb(f, self.rows[x], -f[x])
                    break
            else:
                return f

    def add(self, f):
        f = self.reduce(f)
        if not f:
            return
        p = min(f, key=lambda y: y.n)
        k = f[p]
        f = {x: v / k for x, v in f.items()}
        for q in list(self.rows):
            r = self.rows[q]
            if p in r:
                self.rows[q] = comb(r, f, -r[p])
        self.rows[p] = f


def text(f):
    return ', '.join('%s^%s' % (show(x, 3), v) for x, v in sorted(
        f.items(), key=lambda p: p[0].n)[:4])


def mismatch(I, got, want):
    """how got scales differently from want, or None"""
    if any(x.op in ('ref', 'unknown', 'undef', 'call') for t in (got, want)
           for x in walk(t)):
        return None
    g, w = Degree(I), Degree(I)
    try:
        fg, fw = g.form(got), w.form(want)
    except (RecursionError, IndexError, KeyError, TypeError):
        return None
    if fg is ANY or fw is ANY:
        return None
    s = Space()
    for d, _ in w.eqs + w.hard + g.hard:
        s.add(d)
    for x in set(g.memo) | set(w.memo):
        if x.op == 'attr' and x.args[0] in g.owners | w.owners:
            s.add({x: Fraction(1)})
    for d, t in g.eqs:
        r = s.reduce(d)
        if r:
            return 'the scaling of the inputs is not consistent in %s' % \
                show(t, 4)
    r = s.reduce(comb(fg, fw, -1))
    if r:
        return 'the result scales wrongly with its inputs: there is an ' \
            'extra factor like %s' % text(r)
    return None
