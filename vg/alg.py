"""Algebraic normal forms.

poly(t) writes an element-wise expression as a sum of monomials: a dict
{monomial: coefficient}, a monomial being a frozenset of (atom, exponent) with
rational exponents.  Atoms are opaque nodes whose own arguments are in normal
form.  Equal normal forms are equal expressions (up to floating point
rounding); two different normal forms over the same opaque values are
different expressions, because those values vary independently.
"""
from fractions import Fraction
from itertools import permutations, product

from .terms import (T, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval,
                    walk, subst,
                    rebuild, show, children)
from .norm import strip
from . import scale

LIMIT = 200
ONE = frozenset()
HALF = Fraction(1, 2)


class TooBig(Exception):
    pass


def _num(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool)


CONSTS = {'math.pi': 3.141592653589793, 'numpy.pi': 3.141592653589793,
          'torch.pi': 3.141592653589793, 'scipy.pi': 3.141592653589793,
          'numpy.e': 2.718281828459045, 'math.e': 2.718281828459045}


def coef(v):
    if isinstance(v, complex) and v.imag == 0:
        v = v.real
    if isinstance(v, complex):
        return complex(rnd(v.real), rnd(v.imag))
    return rnd(v)


def rnd(v):
    return float('%.9g' % v)


ZEROS = {'new:torch.zeros', 'new:torch.zeros_like'}


def lnot(c):
    if is_const(c):
        return const(not cval(c))
    return c.args[0] if c.op == 'not' else mk('not', (c,))


class Alg(object):
    def __init__(self, real=None, extra=None, newaxis=True, I=None):
        """real(atom): the atom is known to be real."""
        self.memo = {}
        self._real = real
        self.extra = extra
        self.newaxis = newaxis
        self.I = I
        self._rank = {}

    # ------------------------------------------------------------- building
    def poly(self, t):
        p = self.memo.get(t)
        if p is None:
            p = self._poly(t)
            p = self.clean(p)
            self.memo[t] = p
        return p

    def clean(self, p):
        out = {}
        for m, c in p.items():
            c = coef(c)
            if c != 0:
                out[m] = c
        if len(out) > 1:
            z = [m for m in out if any(x.op in ZEROS and e > 0
                                       for x, e in m)]
            if len(z) < len(out):
                for m in z:
                    del out[m]
        return self.pythagoras(out)

    def pythagoras(self, p):
        """real(x)^2 + imag(x)^2 -> |x|^2"""
        for m in list(p):
            if m not in p:
                continue
            for a, e in m:
                if a.op == 'f:real' and e == 2:
                    im = mk('f:imag', a.args)
                    m2 = frozenset((m - {(a, e)}) | {(im, Fraction(2))})
                    if m2 in p and p[m2] == p[m]:
                        c = p.pop(m)
                        p.pop(m2)
                        n = self.mulmono(m - {(a, e)}, frozenset(
                            {(mk('f:abs', a.args), Fraction(2))}))
                        p[n] = p.get(n, 0) + c
                        return self.pythagoras(p)
        return p

    def atom(self, t, e=1):
        return {frozenset({(t, Fraction(e))}): 1.0}

    def add(self, a, b, s=1):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + s * c
        return {m: c for m, c in out.items() if coef(c) != 0}

    def mulmono(self, a, b):
        d = {}
        for x, e in list(a) + list(b):
            d[x] = d.get(x, 0) + e
        # x * conj(x) -> |x|^2
        for x in list(d):
            if x.op == 'f:conj' and x.args[0] in d:
                y = x.args[0]
                k = min(d[x], d[y])
                if k > 0:
                    z = mk('f:abs', (y,))
                    d[x] -= k
                    d[y] -= k
                    d[z] = d.get(z, 0) + 2 * k
        # exp(a) * exp(b) -> exp(a + b)
        ex = [x for x in d if x.op == 'f:exp' and d[x] != 0]
        if len(ex) > 1 or ex and d[ex[0]] != 1:
            p = {}
            for x in ex:
                p = self.add(p, self.scale(self.poly(x.args[0]),
                                           float(d.pop(x))))
            p = self.clean(p)
            if p:
                z = mk('f:exp', (self.term(p),))
                d[z] = d.get(z, 0) + 1
        # vectors written out are multiplied element by element
        vec = [x for x in d if x.op in ('tuple', 'list') and d[x] != 0]
        if (len(vec) > 1 or vec and d[vec[0]] != 1) and \
                len({len(x.args) for x in vec}) == 1 and all(
                    self.scalar(y) for x in vec for y in x.args):
            out = []
            for i in range(len(vec[0].args)):
                p = {ONE: 1.0}
                for x in vec:
                    p = self.mul(p, self.power(self.poly(x.args[i]), d[x]))
                out.append(self.term(self.clean(p)))
            for x in vec:
                del d[x]
            z = mk('list', tuple(out))
            d[z] = d.get(z, 0) + 1
        return frozenset((x, e) for x, e in d.items() if e != 0)

    def scale(self, p, k):
        return {m: c * k for m, c in p.items()}

    def mul(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise TooBig()
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mulmono(m, n)
                sq = self.realsquare(k)
                if sq is not None:
                    r = self.mul({k - {sq}: c * d}, self.power(
                        self.poly(sq[0].args[0]), sq[1]))
                    for k, v in r.items():
                        out[k] = out.get(k, 0) + v
                    continue
                out[k] = out.get(k, 0) + c * d
        return self.clean(out)

    def realsquare(self, m):
        """a factor |x|^2n of a real x"""
        for x, e in m:
            if x.op == 'f:abs' and e.denominator == 1 and e % 2 == 0 and \
                    self.isreal(x.args[0]):
                return x, e
        return None

    def power(self, p, e):
        e = Fraction(e).limit_denominator(1000)
        if e == 1:
            return p
        if e == 0:
            return {ONE: 1.0}
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if not isinstance(c, complex) and (c > 0 or e.denominator == 1):
                for x, k in m:
                    if x.op == 'f:abs' and k * e >= 2 and \
                            (k * e) % 2 == 0 and x.args[0].op == 'poly' and \
                            self.isreal(x.args[0]):
                        rest = {frozenset((y, j) for y, j in m
                                          if y is not x): c}
                        return self.mul(self.power(rest, e), self.power(
                            self.poly(x.args[0]), k * e))
                out = {ONE: c ** float(e) if e.denominator != 1
                       else c ** int(e)}
                base = frozenset((x, k * e) for x, k in m)
                # even roots of even powers: |x|
                fix = []
                for x, k in m:
                    if k * e == 1 and k == 2 and not self.nonneg(x):
                        fix.append((mk('f:abs', (x,)), Fraction(1)))
                    else:
                        fix.append((x, k * e))
                r = {ONE: 1.0}
                for x, k in fix:
                    r = self.mul(r, {self.mulmono(
                        frozenset({(x, k)}), ONE): 1.0})
                return self.mul(out, r)
            if isinstance(c, complex) and e.denominator == 1:
                return self.mul({ONE: c ** int(e)},
                                {frozenset((x, k * e) for x, k in m): 1.0})
        if e.denominator == 1 and 0 < e <= 4:
            r = p
            for _ in range(int(e) - 1):
                r = self.mul(r, p)
            return r
        # pull the common factor of a sum out, so k(a+b) and ka+kb agree
        q, m, c = self.content(p)
        base = self.atom(self.term(q), e)
        if m or c != 1:
            return self.mul(self.power({m: c}, e), base)
        return base

    def content(self, p):
        """p = c * m * q"""
        ms = list(p)
        com = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            com = {x: min(e, d[x]) if (e > 0) == (d[x] > 0) and e > 0 else
                   max(e, d[x]) for x, e in com.items() if x in d and
                   (e > 0) == (d[x] > 0)}
        m = frozenset((x, e) for x, e in com.items())
        inv = frozenset((x, -e) for x, e in com.items())
        lead = min(p, key=self.order)
        c = p[lead]
        if isinstance(c, complex):
            c = 1.0
        elif c < 0:
            c = abs(c)
        return {self.mulmono(k, inv): coef(v / c) for k, v in p.items()}, \
            m, c

    def order(self, m):
        return (len(m), sorted((x.n, e) for x, e in m))

    def term(self, p):
        """A canonical node for a polynomial."""
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1:
                (x, e), = m
                if e == 1:
                    return x
            if not m:
                return const(c)
        if not p:
            return const(0.0)
        items = []
        for m in sorted(p, key=self.order):
            items.append(mk('mono', (const(p[m]),) + tuple(
                y for x, e in sorted(m, key=lambda q: (q[0].n, q[1]))
                for y in (x, const((e.numerator, e.denominator))))))
        z = mk('poly', tuple(items))
        self.memo.setdefault(z, p)
        return z

    # ----------------------------------------------------------- properties
    def nonneg(self, x):
        if x.op in ('f:abs', 'f:norm'):
            return True
        if x.op in ('f:exp', 'f:sqrt'):
            return self.isreal(x)
        if x.op in ('f:sum', 'f:mean') and x.args:
            return self.nonnegpoly(self.poly(x.args[0]))
        if x.op == 'poly':
            return self.nonnegpoly(self.poly(x))
        return False

    def nonnegpoly(self, p):
        return all(not isinstance(c, complex) and c >= 0 and all(
            self.nonneg(x) or e.denominator == 1 and e % 2 == 0 and
            self.isreal(x) for x, e in m) for m, c in p.items())

    def isreal(self, x):
        if self._real is not None and self._real(x):
            return True
        if x.op in ('f:abs', 'f:real', 'f:imag', 'f:angle'):
            return True
        if is_const(x):
            return not isinstance(cval(x), complex)
        if x.op in ('f:exp', 'f:cos', 'f:sin', 'f:sqrt', 'f:norm', 'f:sum',
                    'f:mean') and x.args:
            return self.realpoly(self.poly(x.args[0]))
        if x.op == 'poly':
            return self.realpoly(self.poly(x))
        if x.op in ('f:fftfreq', 'new:torch.arange', 'quasi', 'cmp',
                    'new:torch.zeros', 'new:torch.ones', 'new:torch.eye'):
            return True
        if x.op in REALKEEP and x.args:
            return all(self.realpoly(self.poly(y)) for y in x.args
                       if isinstance(y, T))
        if x.op == 'phi':
            return all(self.realpoly(self.poly(y)) for y in x.args[1:])
        if x.op in ('select', 'index', 'f:unsqueeze', 'f:clamp', 'f:sign',
                    'f:F.avg_pool2d', 'f:F.pad', 'f:fftshift',
                    'f:ifftshift') and x.args:
            return self.realpoly(self.poly(x.args[0]))
        return False

    def maybecomplex(self, x):
        """x is not provably real, and depends on a complex quantity"""
        if self.isreal(x):
            return False
        if x.op in ('f:fft', 'f:ifft', 'f:fft2', 'f:ifft2') and not any(
                y.op in ('f:fft', 'f:ifft', 'f:fft2', 'f:ifft2')
                for z in x.args for y in walk(z)):
            return True
        return self._real is None or any(
            y.op == 'sym' and not self._real(y) or
            is_const(y) and isinstance(cval(y), complex) for y in walk(x))

    def realpoly(self, p):
        return all(not isinstance(c, complex) and all(
            self.isreal(x) for x, e in m) for m, c in p.items())

    def phase(self, p):
        """without a common positive factor"""
        if not p:
            return p
        ms = sorted(p, key=self.order)
        d = [dict(m) for m in ms]
        for x, e in ms[0]:
            if all(q.get(x) == e for q in d) and (
                    self.nonneg(x) or e.denominator == 1 and e % 2 == 0 and
                    self.isreal(x)):
                for q in d:
                    del q[x]
        c = abs(p[ms[0]])
        return {frozenset(q.items()): p[m] / c for q, m in zip(d, ms)}

    def conj(self, p):
        out = {}
        for m, c in p.items():
            k = ONE
            for x, e in m:
                if self.isreal(x):
                    y = x
                elif x.op == 'f:exp':
                    y = mk('f:exp', (self.term(self.conj(self.poly(
                        x.args[0]))),))
                elif x.op == 'f:conj':
                    y = x.args[0]
                else:
                    y = mk('f:conj', (x,))
                k = self.mulmono(k, frozenset({(y, e)}))
            c = c.conjugate() if isinstance(c, complex) else c
            out[k] = out.get(k, 0) + c
        return self.clean(out)

    # ------------------------------------------------------------- recursion
    def _poly(self, t):
        if t.op == 'poly':
            out = {}
            for m in t.args:
                q = {ONE: cval(m.args[0])}
                for x, e in zip(m.args[1::2], m.args[2::2]):
                    q = self.mul(q, self.power(self.poly(x),
                                               Fraction(*cval(e))))
                out = self.add(out, q)
            return out
        if self.extra is not None:
            r = self.extra(t)
            if r is not None:
                return self.poly(r)
        if is_const(t):
            v = cval(t)
            if _num(v):
                return {ONE: coef(v)} if v else {}
            if v is True:
                return {ONE: 1.0}
            if v is False:
                return {}
            return self.atom(t)
        op = t.op
        if op == 'bin' and t.args[0] in ('//', '%') and \
                t.args[1] is t.args[2]:
            return {ONE: 1.0} if t.args[0] == '//' else {}
        if op == 'bin' and t.args[0] == '//' and is_const(t.args[2]) and \
                type(cval(t.args[2])) is int and cval(t.args[2]) > 0:
            m = t.args[1]
            if m.op in ('f:maximum', 'f:minimum') and len(m.args) == 2 and \
                    not m.kw:
                return self.poly(mk(m.op, tuple(mk('bin', (
                    '//', x, t.args[2])) for x in m.args)))
        if op in ('f:maximum', 'f:minimum') and len(t.args) == 2 and \
                not t.kw:
            v = [self.poly(x) for x in t.args]
            if all(set(x) <= {ONE} for x in v):
                v = [x.get(ONE, 0) for x in v]
                if all(isinstance(x, (int, float)) for x in v):
                    v = max(v) if op == 'f:maximum' else min(v)
                    return {ONE: v} if v else {}
        if op in ('bin', 'conv', 'f:floor', 'neg') and any(
                x.op == 'conv' or x.op == 'f:floor' or x.op == 'bin' and
                x.args[0] in ('//', '%') for x in walk(t)):
            q = self.quasi(t)
            if q is not None:
                return q
        if op == 'conv' and t.args[0] == 'int' and len(t.args) == 2 and \
                t.args[1].op == 'sym' and t.args[1].args[1] == 'int':
            return self.poly(t.args[1])
        if op == 'ext' and t.args[0] in CONSTS:
            return {ONE: coef(CONSTS[t.args[0]])}
        if op == 'neg':
            return self.scale(self.poly(t.args[0]), -1)
        try:
            if op == 'bin':
                o = t.args[0]
                a = self.poly(t.args[1])
                b = self.poly(t.args[2])
                if o == '+':
                    return self.add(a, b)
                if o == '-':
                    return self.add(a, b, -1)
                if o == '*':
                    return self.mul(a, b)
                if o == '/':
                    if not b:
                        raise TooBig()
                    return self.mul(a, self.power(b, -1))
                if o == '**':
                    if set(b) <= {ONE} and not isinstance(
                            b.get(ONE, 0.0), complex):
                        return self.power(a, b.get(ONE, 0.0))
            if op == 'f:pow' and len(t.args) == 2:
                b = self.poly(t.args[1])
                if set(b) <= {ONE} and not isinstance(b.get(ONE, 0.0),
                                                      complex):
                    return self.power(self.poly(t.args[0]), b.get(ONE, 0.0))
            if op == 'f:sqrt' and len(t.args) == 1:
                return self.power(self.poly(t.args[0]), HALF)
            if op == 'f:rsqrt':
                return self.power(self.poly(t.args[0]), -HALF)
            if op == 'f:square':
                return self.power(self.poly(t.args[0]), 2)
            if op == 'f:reciprocal':
                return self.power(self.poly(t.args[0]), -1)
            if op in ('f:multiply', 'f:mul') and len(t.args) == 2:
                return self.mul(self.poly(t.args[0]), self.poly(t.args[1]))
            if op in ('f:divide', 'f:div', 'f:true_divide') and \
                    len(t.args) == 2 and not t.kw:
                return self.mul(self.poly(t.args[0]), self.power(
                    self.poly(t.args[1]), -1))
            if op in ('f:add', 'f:subtract', 'f:sub') and \
                    len(t.args) == 2 and not [k for k, _ in t.kw
                                              if k != '%lib']:
                return self.add(self.poly(t.args[0]), self.poly(t.args[1]),
                                1 if op == 'f:add' else -1)
            if op in ('f:neg', 'f:negative'):
                return self.scale(self.poly(t.args[0]), -1)
            if op in ('f:conj', 'f:conjugate'):
                return self.conj(self.poly(t.args[0]))
            if op in ('f:abs', 'f:absolute') and len(t.args) == 1:
                return self.absv(self.poly(t.args[0]))
            if op == 'f:real':
                p = self.poly(t.args[0])
                if self.realpoly(p):
                    return p
            if op == 'f:angle' and len(t.args) == 1 and not t.kw:
                p = self.phase(self.poly(t.args[0]))
                return self.atom(mk('f:angle', (self.term(p),)))
            if op == 'f:exp':
                p = self.poly(t.args[0])
                if not p:
                    return {ONE: 1.0}
                return self.atom(mk('f:exp', (self.term(p),)))
        except (TooBig, OverflowError, ZeroDivisionError):
            return self.atom(t)
        if self.newaxis and op == 'index' and len(t.args) == 2 and \
                t.args[1].op == 'tuple' and t.args[1].args and all(
                i is NONE or is_const(i) and cval(i) is Ellipsis or
                i.op == 'slice' and all(j is NONE for j in i.args)
                for i in t.args[1].args):
            return self.poly(t.args[0])
        if op == 'setitem' and len(t.args) == 3 and is_const(t.args[1]):
            x, k = strip(t.args[0]), cval(t.args[1])
            if x.op in ('list', 'tuple') and isinstance(k, int) and \
                    not isinstance(k, bool) and \
                    -len(x.args) <= k < len(x.args) and \
                    not any(i.op == 'splice' for i in x.args):
                it = list(x.args)
                it[k] = t.args[2]
                return self.poly(mk('list', tuple(it)))
        if op == 'comp' and len(t.args) == 2 and t.args[1].op == 'range':
            r = self.counted(*t.args)
            if r is not None:
                return self.poly(r)
        if op == 'loopval':
            r = maprows(t)
            if r is not None:
                return self.poly(r)
        if op == 'setitem' and len(t.args) == 3 and is_const(t.args[2]) and (
                t.args[1].op == 'slice' and all(
                    x is NONE for x in t.args[1].args) or
                is_const(t.args[1]) and cval(t.args[1]) is Ellipsis):
            return self.poly(t.args[2])
        if op == 'setitem' and len(t.args) == 3 and t.args[0].op in ZEROS:
            # scaling what is put into zeros scales it all
            f, q = self.scalars(self.poly(t.args[2]))
            if f != {ONE: 1.0}:
                return self.mul(f, self.poly(mk('setitem', (
                    t.args[0], t.args[1], self.term(q)))))
        if op == 'index' and self.I is not None and \
                t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and \
                is_const(t.args[1]) and type(cval(t.args[1])) is int:
            from . import ops
            s = ops.shapeof(self.I, t.args[0].args[0])
            k = cval(t.args[1])
            if s is not None and -len(s.args) <= k < len(s.args) and \
                    s.args[k] is not t:
                return self.poly(s.args[k])
            b = self.term(self.poly(t.args[0].args[0]))
            if b is not t.args[0].args[0]:
                return self.poly(mk('index', (mk('attr', (b, 'shape')),
                                              t.args[1])))
        if op == 'index' and is_const(t.args[1]) and \
                type(cval(t.args[1])) is int:
            x = self.entry(t.args[0], cval(t.args[1]))
            if x is not None and x is not t:
                return self.poly(x)
        if op == 'attr' and t.args[1] == 'shape' and self.I is not None:
            from . import ops
            s = ops.shapeof(self.I, t.args[0])
            if s is not None and not any(x is t for x in walk(s)):
                return self.poly(s)
            b = t.args[0]
            while b.args and (b.op in ops.SHAPE_KEEP or
                              b.op in ops.SHAPE_KEEP2):
                b = b.args[0]
            if b is not t.args[0]:
                return self.poly(mk('attr', (b, 'shape')))
        if op in ('phi', 'mu', 'unknown', 'sym', 'attr', 'ref', 'ext'):
            if op == 'phi':
                c, x, y = self.cond(t.args[0], t.args[1], t.args[2])
                if is_const(c) and isinstance(cval(c), bool):
                    return self.poly(x if cval(c) else y)
                a, b = self.poly(x), self.poly(y)
                if not b and a and c.op == 'sym' and c.args[1] in (
                        'int', 'float') and a == self.poly(c):
                    return a        # c if c else 0
                if a == b:
                    return a
                return self.atom(mk('phi', (c, self.term(a), self.term(b))))
            return self.atom(t)
        return self.call(t)

    # ------------------------------------------- integer parts of dimensions
    def quasi(self, t):
        """Integer arithmetic (+ - and // %% by constants) over whole
        numbers, as a linear part and a function of the residues: a form in
        which equal functions are equal.  None if t is something else."""
        xs, ks = [], set()
        for x in walk(t):
            if x.op == 'sym':
                if x.args[1] != 'int':
                    return None
                if x not in xs:
                    xs.append(x)
            elif x.op == 'bin':
                if x.args[0] in ('//', '%', '/'):
                    k = x.args[2]
                    if not is_const(k) or not isinstance(
                            cval(k), (int, float)) or cval(k) < 1 or \
                            cval(k) != int(cval(k)):
                        return None
                    ks.add(int(cval(k)))
                elif x.args[0] not in ('+', '-', '*'):
                    return None
            elif x.op == 'conv':
                if x.args[0] not in ('int', 'float'):
                    return None
            elif x.op not in ('neg', 'f:floor') and not (
                    is_const(x) and (_num(cval(x)) or True)):
                return None
        m = 1
        for k in ks:
            m *= k
        if not xs or m == 1 or m > 16 or m ** len(xs) > 1024:
            return None
        table, slope = {}, None
        for r in product(range(m), repeat=len(xs)):
            v = linres(t, dict(zip(xs, r)), m)
            if v is None:
                return None
            sl = tuple(v.get(x, Fraction(0)) / m for x in xs)
            if slope is None:
                slope = sl
            if sl != slope:
                return None
            table[r] = v.get(None, Fraction(0)) - sum(
                a * b for a, b in zip(sl, r))
        c0 = table[(0,) * len(xs)]
        table = {r: v - c0 for r, v in table.items()}
        out = {frozenset({(x, Fraction(1))}): float(a)
               for x, a in zip(xs, slope) if a}
        if c0:
            out[ONE] = float(c0)
        # the symbols and the period that matter
        dep = []
        for i, x in enumerate(xs):
            d = [k for k in range(1, m + 1) if m % k == 0 and all(
                v == table[r[:i] + (r[i] % k,) + r[i + 1:]]
                for r, v in table.items())][0]
            if d > 1:
                dep.append((x, i, d))
        if not dep:
            return out
        dep.sort(key=lambda d: str(d[0].args))
        vals = []
        for r in product(*[range(d) for _, _, d in dep]):
            full = [0] * len(xs)
            for (x, i, d), q in zip(dep, r):
                full[i] = q
            vals.append(table[tuple(full)])
        f = [v for v in vals if v][0]
        q = mk('quasi', tuple(x for x, _, _ in dep) + (
            const(str([d for _, _, d in dep]) + str([str(v / f)
                                                     for v in vals])),))
        out[frozenset({(q, Fraction(1))})] = float(f)
        return out

    def canonargs(self, t):
        def go(a):
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            if isinstance(a, T):
                if a.op == 'list' and a.args and all(
                        is_const(x) and _num(cval(x)) for x in a.args):
                    return mk('list', tuple(const(
                        coef(cval(x)) if isinstance(cval(x), complex) else
                        float(cval(x))) for x in a.args))
                if a.op in ('tuple', 'list', 'slice'):
                    return mk(a.op, tuple(go(x) for x in a.args))
                if is_const(a) and not _num(cval(a)):
                    return a
                if is_const(a) and isinstance(cval(a), int):
                    return a
                if a.op in ('dict', 'func', 'class', 'ref', 'lambda'):
                    return a
                return self.term(self.poly(a))
            return a
        return mk(t.op, tuple(go(a) for a in t.args),
                  tuple((k, go(v)) for k, v in t.kw
                        if k not in ('%lib', 'dtype', 'device')))

    def absv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            out = {ONE: float(abs(c))}
            for x, e in m:
                if x.op == 'f:exp':
                    q = self.poly(x.args[0])
                    re = {k: v.real if isinstance(v, complex) else v
                          for k, v in q.items()}
                    if all(self.isreal(a) for k in q for a, _ in k):
                        re = self.clean(re)
                        if re:
                            out = self.mul(out, self.atom(mk(
                                'f:exp', (self.term(re),)), e))
                        continue
                if x.op == 'f:conj':
                    x = x.args[0]
                if self.nonneg(x) or x.op in ('f:norm',):
                    out = self.mul(out, self.atom(x, e))
                elif e.denominator == 1 and e % 2 == 0 and self.isreal(x):
                    out = self.mul(out, self.atom(x, e))
                else:
                    out = self.mul(out, self.atom(mk('f:abs', (x,)), e))
            return out
        if not p or self.nonnegpoly(p):
            return p
        return self.atom(mk('f:abs', (self.term(p),)))

    def counted(self, body, it):
        """A comprehension over a range as one over the number of its
        elements."""
        a = it.args
        lo, hi, st = (const(0), a[0], const(1)) if len(a) == 1 else \
            (a + (const(1),))[:3]
        p = self.add(self.poly(hi), self.poly(lo), -1)
        s = self.poly(st)
        if p == s:
            n = const(1)
        elif s == {ONE: 1.0}:
            n = self.ceiling(self.term(p))
        else:
            n = mk('ceildiv', (self.term(p), self.term(s)))
        e = mk('elem', (it,))
        new = mk('range', (n,))
        f = mk('elem', (new,))
        if is_const(n) and cval(n) == 1:
            f = const(0)
        f = self.term(self.add(self.poly(lo), self.mul(s, self.poly(f))))
        if new is it or any(x.op == 'elem' and x is not e and
                            x.args[0] is it for x in walk(body)):
            return None
        return mk('comp', (subst(body, {e: f}), new))

    def ceiling(self, n):
        """the quotients that are rounded up in one form"""
        if n.op == 'conv' and n.args[0] == 'int' and len(n.args) == 2 and \
                n.args[1].op == 'f:ceil':
            n = n.args[1]
        if n.op == 'f:ceil' and len(n.args) == 1 and not n.kw:
            p = self.poly(n.args[0])
            if len(p) == 1:
                (m, c), = p.items()
                den = [x for x, e in m if e == -1]
                if len(den) == 1 and c > 0:
                    return mk('ceildiv', (self.term(self.mul(p, self.poly(
                        den[0]))), den[0]))
            return n
        p = self.poly(n)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1:
                (x, e), = m
                if e == 1 and x.op == 'bin' and x.args[0] == '//':
                    a, b = self.poly(x.args[1]), self.poly(x.args[2])
                    if c == -1:
                        return mk('ceildiv', (self.term(self.scale(a, -1)),
                                              self.term(b)))
                    q = self.add(self.add(a, b, -1), {ONE: 1.0})
                    if c == 1 and len(q) < len(a):
                        return mk('ceildiv', (self.term(q), self.term(b)))
        return n

    def reshape(self, op, x, kw):
        """Arrays cut along the first axis and put together again, and
        repeated changes of shape; None if it stays as it is."""
        if op != 'f:reshape':
            cut = 'f:split' if op == 'f:stack' else 'f:unbind'
            if x.op != cut or not x.args or not self.first(kw, None) or \
                    not self.first(dict(x.kw), x.args[0]):
                return None
            s = self.shape(x.args[0])
            k = dict(x.kw).get('size')
            if s is None or cut == 'f:split' and (
                    k is None or k.op in ('list', 'tuple')):
                return None
            s = (const(-1), k) + s[1:] if k is not None else \
                (const(-1),) + s[2:]
            return mk('f:reshape', (x.args[0],), (('shape', mk('tuple', s)),))
        s = kw.get('shape')
        if set(kw) != {'shape'} or s is None or s.op not in ('tuple', 'list'):
            return None
        s = [self.term(self.poly(z)) for z in s.args]
        y = x
        while y.op == 'f:reshape' and len(y.args) == 1 and set(
                dict(y.kw)) == {'shape'}:
            y = y.args[0]
        old = self.shape(y)
        if old is not None:
            old = [self.term(self.poly(z)) for z in old]
            free = [i for i, z in enumerate(s) if is_const(z) and
                    cval(z) == -1]
            if len(free) == 1:
                p = {ONE: 1.0}
                for z in old:
                    p = self.mul(p, self.poly(z))
                for z in s:
                    if not (is_const(z) and cval(z) == -1):
                        q = self.poly(z)
                        if len(q) != 1:
                            break
                        p = self.mul(p, self.power(q, -1))
                else:
                    p = self.clean(p)
                    if all(e > 0 for m in p for _, e in m):
                        s[free[0]] = self.term(p)
            if all(a is b for a, b in zip(s, old)) and len(s) == len(old):
                return y
        new = mk('f:reshape', (y,), (('shape', mk('tuple', tuple(s))),))
        return None if new is mk('f:reshape', (x,), tuple(
            kw.items())) else new

    def first(self, kw, x):
        """is it the first axis?"""
        if set(kw) - {'dim', 'size', 'axis'}:
            return False
        d = kw.get('dim', kw.get('axis', const(0)))
        if not is_const(d):
            return False
        if cval(d) == 0:
            return True
        s = self.shape(x) if x is not None else None
        return s is not None and cval(d) == -len(s)

    def reorders(self, t):
        """does the transposition change the order of the elements?"""
        d = [cval(dict(t.kw).get(k, NONE)) for k in ('dim0', 'dim1')]
        s = dict(t.args[0].kw).get('shape')
        if s is None or s.op != 'tuple' or any(
                type(k) is not int or not -len(s.args) <= k < len(s.args)
                for k in d):
            return False
        d = [k % len(s.args) for k in d]
        # sizes of unknown arrays are larger than one
        return d[0] != d[1] and all(
            not is_const(s.args[k]) or cval(s.args[k]) in (-1,) or
            cval(s.args[k]) > 1 for k in d)

    def shape(self, x):
        from . import ops
        s = ops.shapeof(self.I, x) if self.I is not None else None
        return s.args if s is not None and s.op == 'tuple' else None

    def cond(self, c, x, y):
        """a branch condition in one polarity"""
        c = self.logic(c)
        if c.op == 'not':
            c, x, y = c.args[0], y, x
        return c, x, y

    def logic(self, c):
        """a condition in terms of <, ==, and, not"""
        if is_const(c):
            try:
                return const(bool(cval(c)))
            except Exception:
                return c
        if c.op == 'not':
            return lnot(self.logic(c.args[0]))
        if c.op in ('and', 'or'):
            it = []
            for x in c.args:
                x = self.logic(x)
                if c.op == 'or':
                    x = lnot(x)
                it += x.args if x.op == 'and' else [x]
            if any(is_const(x) and not cval(x) for x in it):
                r = const(False)
            else:
                it = sorted({x for x in it if not is_const(x)},
                            key=lambda x: x.n)
                r = const(True) if not it else it[0] if len(it) == 1 else \
                    mk('and', tuple(it))
            return lnot(r) if c.op == 'or' else r
        if c.op == 'cmp' and len(c.args) == 3:
            o, a, b = c.args
            if o == '<' and is_const(b) and \
                    not cval(b) and self.nonneg(a):
                return FALSE
            pa, pb = self.poly(a), self.poly(b)
            a, b = self.term(pa), self.term(pb)
            neg = False
            if o == '>':
                o, a, b = '<', b, a
            elif o == '<=':
                o, a, b, neg = '<', b, a, True
            elif o == '>=':
                o, neg = '<', True
            elif o == '!=':
                o, neg = '==', True
            if o in ('<', '=='):
                d = self.add(self.poly(a), self.poly(b), -1)
                if set(d) <= {ONE} and not any(x.op == 'nan' for x in (
                        a, b)) and not isinstance(d.get(ONE, 0), complex):
                    v = d.get(ONE, 0)
                    if v != 0 or all(self.scalar(x) for x in (a, b)) or \
                            is_const(a):
                        r = v < 0 if o == '<' else v == 0
                        return const(bool(r) != neg)
                sg = self.sign(d)
                if sg:
                    return const((sg < 0 if o == '<' else False) != neg)
            if o == '==' and b.n < a.n:
                a, b = b, a
            r = mk('cmp', (o, a, b))
            return lnot(r) if neg else r
        if c.op == 'in':
            return self.canonargs(c)
        return c

    def widens(self, t):
        """is something certainly added by this padding?"""
        p = dict(t.kw).get('pad')
        return p is not None and p.op in ('list', 'tuple') and any(
            self.sign(self.poly(x)) > 0 for x in p.args)

    def sign(self, p):
        """the sign of a sum of lengths of arrays (which are not empty)"""
        if self.I is None or not p:
            return 0
        s = set()
        for m, c in p.items():
            if not isinstance(c, (int, float)) or any(
                    x not in self.lengths() for x, e in m):
                return 0
            s.add(c > 0)
        if s == {True}:
            return 1
        return -1 if s == {False} else 0

    def lengths(self):
        if '_lengths' not in self.__dict__:
            self._lengths = {x for v in self.I.shapes.values()
                             for x in walk(v) if x.op == 'sym' and
                             x.args[1] == 'int'}
        return self._lengths

    def nonneg(self, t):
        """certainly not negative"""
        if is_const(t):
            v = cval(t)
            return isinstance(v, (int, float)) and v >= 0
        if self.I is None:
            return False
        t = strip(t)
        if t.op == 'sym':
            return t in self.lengths() or \
                t in self.I.__dict__.get('nonnegative', ())
        if t.op == 'bin' and t.args[0] in ('+', '*', '//', '/'):
            return all(self.nonneg(x) for x in t.args[1:])
        if t.op == 'phi':
            return all(self.nonneg(x) for x in t.args[1:])
        if t.op in ('f:minimum', 'f:maximum', 'f:min', 'f:max'):
            return not t.kw and all(self.nonneg(x) for x in t.args)
        if t.op == 'index' and t.args[0].op == 'attr' and \
                t.args[0].args[1] == 'shape':
            return is_const(t.args[1])
        return False

    # ---------------------------------------------------------- known calls
    def rank(self, t):
        if t in self._rank:
            return self._rank[t]
        r = None
        if self.I is not None:
            from . import ops
            r = ops.rankof(self.I, t)
        if r is None and t.op == 'poly':
            rs = [0 if self.scalar(x) else self.rank(x)
                  for x in atoms(self.poly(t))]
            r = max(rs) if rs and None not in rs else None
        elif r is None and t.op in REDUCE and len(t.args) == 1 and \
                not dict(t.kw).get('keepdim'):
            d = dict(t.kw).get('dim')
            k = self.rank(t.args[0])
            if d is None or d is NONE:
                r = 0
            elif k is not None and t.op in ('f:sum', 'f:mean'):
                r = k - (len(d.args) if d.op in ('tuple', 'list') else 1)
        elif r is None and t.op == 'bin' and t.args[0] in ('//', '%'):
            rs = [0 if self.scalar(x) else self.rank(x) for x in t.args[1:]]
            r = max(rs) if None not in rs else None
        elif r is None and t.op in ('index', 'f:cross', 'f:tensordot') and \
                any(isinstance(x, T) and x.op == 'poly' for x in t.args):
            rs = [self.rank(x) for x in t.args[:2]]
            if t.op == 'f:cross':
                r = rs[0]
            elif t.op == 'f:tensordot' and None not in rs and is_const(
                    dict(t.kw).get('dims', NONE)) and cval(
                        dict(t.kw)['dims']) == 1:
                r = rs[0] + rs[1] - 2
        self._rank[t] = r
        return r

    def call(self, t):
        op = t.op
        kw = {k: v for k, v in t.kw
              if k not in ('%lib', 'dtype', 'device')}
        args = list(t.args)
        rk = self.rank(args[0]) if args and isinstance(args[0], T) else None
        if op == 'conv' and len(args) == 2 and args[0] in ('int', 'float') \
                and args[1].op == 'sym' and args[1].args[1] in (
                    args[0], 'int', 'float'):
            if args[0] == 'float' or args[1].args[1] == 'int':
                return self.poly(args[1])
        if op in SAMEFN:
            op = SAMEFN[op]
        if op.startswith('new:numpy.'):
            op = 'new:torch.' + op[10:]
        if op in ('new:torch.zeros', 'new:torch.ones') and args:
            d = list(args[0].args) if args[0].op in ('tuple', 'list') else \
                args if len(args) > 1 or self.rank(args[0]) == 0 else None
            if d and not any(x.op == 'splice' for x in d):
                args = [mk('list', tuple(d))]
        if op == 'f:complex' and len(args) == 2 and not kw and \
                not args[1].op.startswith('new:'):
            return self.add(self.poly(args[0]), self.mul(
                {ONE: 1j}, self.poly(args[1])))
        if op in ('f:mgrid', 'f:meshgrid'):
            r = self.grid(op, args, kw)
            if r is not None:
                return r
        if op == 'f:stack' and len(args) == 1 and args[0].op in (
                'list', 'tuple') and ('dim' not in kw or is_const(
                    kw['dim']) and cval(kw['dim']) in (0, -1)) and \
                args[0].args and all(
                    x.op != 'splice' and (self.rank(x) == 0 or self.scalar(
                        self.term(self.poly(x)))) for x in args[0].args):
            return self.poly(mk('list', args[0].args))
        if op in ('f:stack', 'f:cat', 'f:reshape') and len(args) == 1:
            r = self.reshape(op, args[0], kw)
            if r is not None:
                return self.poly(r)
        if op == 'f:unsqueeze' and len(args) == 1 and 'dim' in kw and \
                rk is not None and is_const(kw['dim']) and isinstance(
                    cval(kw['dim']), int):
            k = cval(kw['dim'])
            return self.poly(mk('index', (args[0], mk('tuple', (
                mk('slice', (NONE,) * 3),) * (
                    k + (rk + 1 if k < 0 else 0)) + (NONE,)))))
        if op == 'f:F.mse_loss' and len(args) == 2 and not kw:
            d = self.add(self.poly(args[0]), self.poly(args[1]), -1)
            return self.mean(self.mul(d, d))
        if op == 'f:mean' and not kw and not args[0].op.endswith('.arange'):
            return self.mean(self.poly(args[0]))
        if op in ('f:T', 'f:t', 'f:mT') and len(args) == 1:
            return self.transpose(args[0], rk)
        if op == 'f:transpose' and len(args) == 1:
            d = [kw.get('dim0'), kw.get('dim1')]
            if all(x is not None and is_const(x) for x in d) and (
                    {cval(x) for x in d} in ({0, 1}, {-1, -2}, {0, -1},
                                             {1, -2}) and rk in (2, None)):
                return self.transpose(args[0], rk)
        if op in ('f:mm', 'f:matmul', '@') or op == 'bin' and \
                args[0] == '@':
            ab = args[1:] if op == 'bin' else args
            if len(ab) == 2:
                return self.matmul(ab[0], ab[1])
        if op in FFT and len(args) == 1:
            kw.setdefault('norm', const('backward'))
            if kw['norm'] is NONE:
                kw['norm'] = const('backward')
            if op.endswith('n'):
                d = kw.get('dim')
                if d is not None and self.dims(d, rk) == (-2, -1):
                    op = op[:-1] + '2'
            if op.endswith('2'):
                kw.setdefault('dim', mk('tuple', (const(-2), const(-1))))
        if op in ('f:fftshift', 'f:ifftshift') and rk == 2 and \
                'dim' not in kw:
            kw['dim'] = mk('tuple', (const(-2), const(-1)))
        if 'dim' in kw:
            d = self.dims(kw['dim'], rk)
            if d is not None:
                kw['dim'] = mk('tuple', tuple(const(x) for x in d)) \
                    if len(d) > 1 else const(d[0])
        if op == 'f:norm' and len(args) == 1 and set(kw) <= {'dim'}:
            a2 = self.power(self.absv(self.poly(args[0])), 2)
            return self.power(self.poly(mk('f:sum', (self.term(a2),), tuple(
                kw.items()))), HALF)
        if op == 'f:complex' and len(args) == 2 and not kw and \
                args[1].op in (
                    'new:torch.zeros_like', 'new:numpy.zeros_like'):
            return self.poly(mk('f:complex', (args[0],)))
        if op in ('f:real', 'f:abs') and len(args) == 1 and not kw:
            x = self.term(self.poly(args[0]))
            if x.op == 'f:complex' and len(x.args) == 1:
                return self.poly(x.args[0]) if op == 'f:real' else \
                    self.absv(self.poly(x.args[0]))
        if op == 'f:fftfreq' and len(args) == 2 and not kw:
            return self.mul(self.poly(mk(op, args[:1])), self.power(
                self.poly(args[1]), -1))
        if op in ('f:max', 'f:mean') and len(args) == 1 and not kw and \
                args[0].op in ('new:torch.arange', 'new:numpy.arange') and \
                len(args[0].args) == 1:
            p = self.add(self.poly(args[0].args[0]), {ONE: 1.0}, -1)
            return p if op == 'f:max' else self.scale(p, .5)
        if op in BILINEAR and len(args) == 2:
            fac, new = {ONE: 1.0}, []
            for x in args:
                f, q = self.scalars(self.poly(x))
                fac = self.mul(fac, f)
                new.append(self.term(q))
            if op == 'f:dot':
                new.sort(key=lambda x: x.n)
            if op == 'f:cross' and show(new[0], 14) > show(new[1], 14):
                new, fac = new[::-1], self.scale(fac, -1)
            y = self.canonargs(mk(op, tuple(new), tuple(sorted(kw.items()))))
            return self.mul(fac, self.atom(y))
        if op == 'f:sign' and len(args) == 1 and not kw:
            p = self.poly(args[0])
            if len(p) > 1:
                f, q = self.scalars(p)
                p = self.mul(f, self.atom(self.term(q)))
            if len(p) == 1:
                (m, c), = p.items()
                m = frozenset((x, e) for x, e in m if not self.positive(x))
                if m and not isinstance(c, complex):
                    return {frozenset({(mk(op, (self.term({m: 1.0}),)),
                                        Fraction(1))}): 1.0 if c > 0
                            else -1.0}
        if op in ('f:minimum', 'f:maximum') and len(args) == 2 and not kw:
            v = [self.poly(x) for x in args]
            same = {k: c for k, c in v[0].items() if v[1].get(k) == c and
                    k != ONE}
            if same and all(len(x) > len(same) for x in v):
                v = [self.add(x, same, -1) for x in v]
                return self.add(same, self.poly(mk(op, tuple(
                    self.term(x) for x in v))), 1)
            args = sorted((self.term(x) for x in v), key=lambda x: x.n)
        if op == 'f:unsqueeze' and len(args) == 2 and rk is not None and \
                is_const(args[1]) and isinstance(cval(args[1]), int):
            k = cval(args[1]) + (rk + 1 if cval(args[1]) < 0 else 0)
            return self.poly(mk('index', (args[0], mk('tuple', (
                mk('slice', (NONE,) * 3),) * k + (NONE,)))))
        if op == 'f:masked_select' and len(args) == 1 and 'mask' in kw:
            return self.select(self.poly(args[0]), kw['mask'])
        if op == 'index' and len(args) == 2:
            if maskkey(args[1]):
                return self.select(self.poly(args[0]), args[1])
            ix = self.newaxes(args[0], args[1], rk)
            if ix is None:
                return self.poly(args[0])
            args[1] = ix
        if op == 'index' and len(args) == 2 and is_const(args[1]) and \
                isinstance(cval(args[1]), int):
            x, k = strip(args[0]), cval(args[1])
            if x.op in ('f:ravel', 'f:flatten') and k in (0, -1) and \
                    len(x.args) == 1 and self.rank(x.args[0]) == 0:
                return self.poly(x.args[0])
            if x.op in ('list', 'tuple') and not any(
                    i.op == 'splice' for i in x.args) and \
                    -len(x.args) <= k < len(x.args):
                return self.poly(x.args[k])
        if op == 'list' and args:
            t = self.canonargs(mk('list', tuple(args)))
            if all(is_const(x) and _num(cval(x)) for x in t.args):
                t = mk('list', tuple(const(float(cval(x))) for x in t.args
                                     if not isinstance(cval(x), complex)))
                if len(t.args) == len(args):
                    return self.atom(t)
        if op == 'index' and len(args) == 2 and args[1].op == 'tuple' and \
                args[0].op == 'index' and is_const(args[0].args[1]):
            # x[i][j, k] -> x[i, j, k]
            args = [args[0].args[0], mk('tuple', (args[0].args[1],) +
                                        args[1].args)]
        for k, d in KWDEF.get(op, {}).items():
            v = kw.get(k)
            if v is not None and is_const(v) and cval(v) == d and \
                    type(cval(v)) is type(d):
                del kw[k]
        if op in ('f:sum', 'f:mean', 'f:nansum') and len(args) == 1 and \
                kw.get('dim', NONE) is not NONE and 'keepdim' not in kw:
            n = self.rank(args[0])
            if n and axes(kw['dim'], n) == axes(None, n):
                del kw['dim']
        t2 = mk(op, tuple(args), tuple(sorted(kw.items())))
        if op in LINEAR and args and isinstance(args[0], T):
            p = self.poly(args[0])
            fac, q = self.scalars(p, op in ('f:real', 'f:imag'))
            if fac != {ONE: 1.0}:
                t3 = mk(op, (self.term(q),) + tuple(args[1:]),
                        tuple(sorted(kw.items())))
                return self.mul(fac, self.atom(self.canonargs(t3)))
        return self.atom(self.canonargs(t2))

    def entry(self, x, k):
        """entry k of a vector of known length"""
        if x.op in ('list', 'tuple'):
            return x.args[k] if -len(x.args) <= k < len(x.args) and not any(
                y.op == 'splice' for y in x.args) else None
        if x.op == 'f:stack' and len(x.args) == 1 and set(dict(x.kw)) <= {
                'dim'}:
            p = self.poly(x)
            y = self.term(p)
            return self.entry(y, k) if y.op == 'list' else None
        if x.op == 'neg':
            y = self.item(x.args[0], k)
            return mk('neg', (y,)) if y is not None else None
        if x.op == 'bin' and x.args[0] in ('+', '-', '*', '/', '//', '%'):
            out = [self.item(y, k) for y in x.args[1:]]
            return mk('bin', (x.args[0],) + tuple(out)) \
                if None not in out else None
        if x.op == 'poly':
            p = {}
            for m, c in self.poly(x).items():
                q = {ONE: c}
                for y, e in m:
                    z = self.item(y, k)
                    if z is None or isinstance(e, T):
                        return None
                    q = self.mul(q, self.power(self.poly(z), e))
                p = self.add(p, q)
            return self.term(p)
        return None

    def item(self, y, k):
        if self.scalar(y):
            return y
        z = self.entry(y, k)
        return mk('index', (y, const(k))) if z is None and \
            self.rank(y) == 1 else z

    def grid(self, op, args, kw):
        """coordinates: the axes which are not varied only matter for their
        length; a grid is linear in the axis it varies along"""
        k = args[-1]
        if not is_const(k) or not isinstance(cval(k), int):
            return None
        k = cval(k)
        if op == 'f:mgrid':
            ax = []
            for s in args[0].args:
                if s.op != 'slice' or s.args[2] is not NONE or not (
                        s.args[0] is NONE or is_const(s.args[0]) and
                        cval(s.args[0]) == 0):
                    return None
                ax.append(mk('new:torch.arange', (s.args[1],)))
        else:
            ax = list(args[:-1])
            ix = kw.get('indexing')
            ix = cval(ix) if ix is not None and is_const(ix) else 'ij'
            if ix == 'xy' and len(ax) == 2:
                ax, k = ax[::-1], 1 - k
            elif ix != 'ij':
                return None
        if not 0 <= k < len(ax):
            return None
        flat, fac = {}, {ONE: 1.0}
        for n, a in enumerate(ax):
            p = self.poly(a)
            rest = {m: c for m, c in p.items()
                    if not all(self.scalar(x) for x, e in m)}
            if not rest or len(rest) != len(p) and any(
                    isinstance(c, complex) for c in p.values()):
                ax[n] = self.term(p)
                continue
            f, q = self.scalars(rest)
            ax[n] = self.term(q)
            if n == k:
                fac = f
                flat = {m: c for m, c in p.items() if m not in rest}
        return self.add(flat, self.mul(fac, self.atom(mk(
            'f:meshgrid', tuple(ax) + (const(k),),
            (('indexing', const('ij')),)))))

    def positive(self, x):
        """not negative, and zero only where everything is undefined"""
        if x.op in ('f:abs', 'f:norm'):
            return True
        if x.op == 'f:exp':
            return self.isreal(x)
        if x.op in ('f:sum', 'f:mean'):
            p = self.poly(x.args[0])
            return all(not isinstance(c, complex) and c > 0 and all(
                self.positive(y) for y, e in m) for m, c in p.items())
        return False

    def scalar(self, x):
        if x.op == 'sym' and x.args[1] in ('int', 'float') or is_const(x):
            return True
        if x.op == 'poly':
            return all(self.scalar(y) for y in atoms(self.poly(x)))
        if x.op in ('quasi', 'f:dot') or x.op == 'index' and \
                x.args[0].op == 'attr' and x.args[0].args[1] == 'shape':
            return True
        if x.op in ('phi', 'cmp') and all(self.scalar(y)
                                          for y in x.args[1:]):
            return True
        if x.op in ('f:abs', 'f:exp', 'f:conj', 'f:real', 'f:imag',
                    'f:sign', 'f:angle', 'f:sin', 'f:cos', 'f:log',
                    'f:sqrt') and len(x.args) == 1:
            return self.scalar(x.args[0])
        return self.rank(x) == 0

    def scalars(self, p, realonly=False):
        """p = (factor without axes) * q"""
        if not p or set(p) == {ONE}:
            return {ONE: 1.0}, p
        if len(p) == 1:
            (m, c), = p.items()
            s = frozenset((x, e) for x, e in m if self.scalar(x) and not (
                realonly and not self.isreal(x)))
            if s == m:
                s = ONE
            if realonly and isinstance(c, complex):
                return {s: 1.0}, {m - s: c}
            return {s: c}, {m - s: 1.0}
        q, m, c = self.content(p)
        s = frozenset((x, e) for x, e in m if self.scalar(x) and not (
            realonly and not self.isreal(x)))
        lead = q[min(q, key=self.order)]
        if isinstance(lead, complex):
            return {ONE: 1.0}, p
        if lead < 0:
            q, c = self.scale(q, -1), -c
        return {s: c}, self.mul(q, {m - s: 1.0})

    def mean(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {frozenset({(mk('f:mean', (self.term({m: 1.0}),)),
                                Fraction(1))}): c}
        return self.atom(mk('f:mean', (self.term(p),)))

    def dims(self, d, rk):
        it = [d] if is_const(d) else list(d.args) if d.op in (
            'tuple', 'list') else None
        if it is None or not it or not all(is_const(x) and isinstance(
                cval(x), int) for x in it):
            return None
        v = [cval(x) for x in it]
        if rk is not None:
            v = [x - rk if x >= 0 else x for x in v]
        return tuple(sorted(v))

    def select(self, p, m):
        """boolean selection commutes with element-wise operations"""
        m = nobool(m)
        memo = {}

        def atom(x):
            if x in memo:
                return memo[x]
            if x.op in ELEMENT and x.args and all(
                    isinstance(a, T) for a in x.args):
                y = mk(x.op, tuple(self.term(go(self.poly(a)))
                                   for a in x.args), x.kw)
                r = self.poly(y)
            elif x.op == 'poly':
                r = {frozenset({(self.term(go(self.poly(x))),
                                 Fraction(1))}): 1.0}
            elif self.rank(x) == 0 or x.op == 'sym' and x.args[1] in (
                    'float', 'int', 'bool'):
                r = self.atom(x)
            else:
                r = self.atom(mk('select', (x, self.term(self.poly(m)))))
            memo[x] = r
            return r

        def go(q):
            out = {}
            for mono, c in q.items():
                k = {ONE: c}
                for x, e in mono:
                    k = self.mul(k, self.power(atom(x), e))
                out = self.add(out, k)
            return self.clean(out)
        return go(p)

    def transpose(self, x, rk):
        p = self.poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1:
                (a, e), = m
                if e == 1:
                    if a.op == 'f:T':
                        return {frozenset({(a.args[0], Fraction(1))}): c}
                    if a.op == 'matprod':
                        return {frozenset({(mk('matprod', tuple(
                            self.term(self.transpose(y, 2))
                            for y in a.args[::-1])), Fraction(1))}): c}
                    if a.op in ('f:pinverse', 'f:inverse'):
                        y = mk(a.op, (self.term(self.transpose(
                            a.args[0], 2)),))
                        return {frozenset({(y, Fraction(1))}): c}
            return {frozenset({(mk('f:T', (self.term({m: 1.0}),)),
                                Fraction(1))}): c}
        return self.atom(mk('f:T', (self.term(p),)))

    def matmul(self, a, b):
        out, fac = [], {ONE: 1.0}
        for x in (a, b):
            f, q = self.scalars(self.poly(x))
            fac = self.mul(fac, f)
            y = self.term(q)
            out += list(y.args) if y.op == 'matprod' else [y]
        return self.mul(fac, self.atom(mk('matprod', tuple(out))))

    def newaxes(self, x, ix, rk):
        """An index in one form; None if it selects everything."""
        items = list(ix.args) if ix.op == 'tuple' else [ix]

        def full(i):
            return i.op == 'slice' and all(
                j is NONE or is_const(j) and cval(j) == 1 and k == 2
                for k, j in enumerate(i.args))

        def ell(i):
            return is_const(i) and cval(i) is Ellipsis
        if any(x.op == 'splice' for x in items):
            return ix
        if rk is not None and any(ell(i) for i in items):
            used = sum(1 for i in items if not (i is NONE or ell(i)))
            k = [n for n, i in enumerate(items) if ell(i)][0]
            if used <= rk:
                items[k:k + 1] = [mk('slice', (NONE,) * 3)] * (rk - used)
        items = [mk('slice', (NONE,) * 3) if full(i) else i for i in items]
        if self.I is not None and all(
                i.op == 'slice' or is_const(i) and type(cval(i)) is int
                for i in items) and any(upto(i) for i in items):
            from . import ops
            s = ops.shapeof(self.I, x)
            if s is not None and s.op == 'tuple' and not any(
                    i.op == 'splice' for i in s.args):
                items = [mk('slice', (NONE,) * 3) if upto(i) and is_const(d)
                         and type(cval(d)) is int and cval(d) <= upto(i)
                         else i for i, d in zip(items, s.args)] + items[
                             len(s.args):]
        while items and items[-1].op == 'slice' and full(items[-1]) and \
                not any(ell(i) for i in items):
            items.pop()
        while items and items[0] is NONE:
            items.pop(0)
        if not any(i is NONE for i in items) and items and ell(items[0]) and \
                all(full(i) or ell(i) for i in items):
            items = []
        if not items or len(items) == 1 and ell(items[0]):
            return None
        return items[0] if len(items) == 1 and items[0] is not NONE else \
            mk('tuple', tuple(items))


SAMEFN = {'f:nansum': 'f:sum', 'f:linalg.pinv': 'f:pinverse', 'f:linalg.inv': 'f:inverse',
          'f:linalg.pinverse': 'f:pinverse', 'f:inv': 'f:inverse',
          'f:pinv': 'f:pinverse', 'f:special.xlogy': 'f:xlogy',
          'f:special.sinc': 'f:sinc', 'f:linalg.norm': 'f:norm',
          'f:ger': 'f:outer', 'f:F.relu': 'f:relu',
          'f:linalg.matmul': 'f:matmul', 'f:concat': 'f:cat',
          'f:concatenate': 'f:cat', 'f:linalg.cross': 'f:cross'}
REDUCE = {'f:sum', 'f:mean', 'f:max', 'f:min', 'f:prod', 'f:norm',
          'f:nansum', 'f:median', 'f:argmax', 'f:argmin'}
REALKEEP = {'f:cross', 'f:dot', 'f:outer', 'f:tensordot', 'matprod', 'f:T',
            'f:pinverse', 'f:inverse', 'list', 'f:stack', 'f:cat',
            'new:torch.zeros_like', 'new:torch.ones_like', 'f:max', 'f:min',
            'f:sinc', 'f:log', 'f:round', 'f:floor', 'f:minimum',
            'f:maximum', 'f:median', 'f:flip', 'f:roll', 'tuple', 'setitem',
            'f:meshgrid', 'f:linspace', 'f:reshape', 'f:squeeze',
            'f:permute', 'f:matmul', 'f:expand', 'f:view', 'f:broadcast_to',
            'f:swapaxes', 'f:diag', 'f:trace', 'f:prod', 'f:arccos',
            'f:arcsin', 'f:arctan', 'f:arctan2', 'f:ceil', 'f:cumsum'}
BILINEAR = {'f:cross', 'f:dot', 'f:outer', 'f:tensordot'}
FFT = {'f:fft2', 'f:ifft2', 'f:fftn', 'f:ifftn', 'f:fft', 'f:ifft'}
LINEAR = FFT | {'f:fftshift', 'f:ifftshift', 'f:sum', 'f:F.pad', 'index',
                'f:roll', 'f:flip', 'f:real', 'f:imag', 'f:unsqueeze',
                'f:squeeze', 'f:nansum', 'select', 'f:diag', 'f:trace',
                'f:permute', 'f:reshape', 'f:F.avg_pool2d', 'f:cumsum',
                'f:transpose'}
ELEMENT = {'f:sqrt', 'f:exp', 'f:log', 'f:abs', 'f:xlogy', 'f:real',
           'f:imag', 'f:conj', 'f:sign', 'f:angle', 'cmp', 'f:sin', 'f:cos',
           'f:round', 'f:floor', 'invert'}


def linres(t, res, m):
    """t with every symbol x replaced by m*x + res[x]: a linear form
    {x: coefficient, None: constant}, or None."""
    if is_const(t):
        v = cval(t)
        return {None: Fraction(v).limit_denominator(10 ** 6)} \
            if isinstance(v, (int, float)) and not isinstance(v, bool) \
            else None
    if t.op == 'sym':
        return {t: Fraction(m), None: Fraction(res[t])}
    a = linres(t.args[-1] if t.op in ('conv', 'neg', 'f:floor')
               else t.args[1], res, m)
    if a is None:
        return None
    if t.op == 'neg':
        return {k: -v for k, v in a.items()}
    if t.op in ('f:floor', 'conv'):
        if t.op == 'conv' and t.args[0] == 'float':
            return a
        if any(v.denominator != 1 for k, v in a.items() if k is not None):
            return None
        c = a.get(None, Fraction(0))
        if t.op == 'conv' and (c < 0 or any(
                v < 0 for k, v in a.items())) and c.denominator != 1:
            return None          # int() rounds towards zero
        a[None] = Fraction(c.numerator // c.denominator)
        return a
    b = linres(t.args[2], res, m)
    if b is None:
        return None
    o = t.args[0]
    if o in '+-':
        return {k: a.get(k, Fraction(0)) + (1 if o == '+' else -1) *
                b.get(k, Fraction(0)) for k in set(a) | set(b)}
    if o == '*':
        for p, q in ((a, b), (b, a)):
            if all(k is None or not v for k, v in q.items()):
                return {k: v * q.get(None, Fraction(0))
                        for k, v in p.items()}
        return None
    n = b[None]
    if o == '/':
        return {k: v / n for k, v in a.items()}
    if any((v / n).denominator != 1 for k, v in a.items() if k is not None):
        return None
    c = a.get(None, Fraction(0))
    fl = (c / n).numerator // (c / n).denominator
    if o == '//':
        out = {k: v / n for k, v in a.items() if k is not None}
        out[None] = Fraction(fl)
        return out
    return {None: c - n * fl}


def nobool(m):
    m = strip(m)
    while m.op in ('f:to', 'astype', 'f:bool') and m.args and \
            isinstance(m.args[0], T):
        m = strip(m.args[0])
    return m


def maskkey(i):
    """is the index certainly a boolean mask?"""
    if i.op == 'sym':
        return 'mask' in str(i.args[0])
    if i.op in ('f:to', 'f:astype') and any(
            isinstance(a, T) and a.op == 'ext' and
            a.args[0].endswith('.bool') for a in list(i.args) + [
                v for _, v in i.kw]):
        return True
    return i.op in ('f:bool', 'invert') or i.op == 'cmp'


FREE = ('sym', 'attr')


def maprows(t):
    """for k in range(n): x[k] = f(x[k])  ->  maprows(x, n, f(x[k]))"""
    it, name, init, v = t.args
    mu = mk('mu', (it, name, init))
    k = mk('elem', (it,))
    if it.op not in ('range', 'f:range') or v.op != 'setitem' or \
            v.args[0] is not mu or v.args[1] is not k:
        return None
    row = mk('index', (mu, k))

    body = subst(v.args[2], {row: mk('index', (init, k))})
    if any(x is mu for x in walk(body)):
        return None
    return mk('maprows', (init, it, body))


def otherrow(t):
    """the one row every row is computed from"""
    if t.op == 'fold':
        v, mu = t.args[2], mk('acc', (t.args[1],))
    else:
        it, name, init, v = t.args
        mu = mk('mu', (it, name, init))
    if v.op != 'setitem' or v.args[0] is not mu or v.args[1].op != 'elem':
        return None
    used = set()
    body = rebuild(v.args[2], lambda z: used.add(z.args[1]) or const(0)
                   if z.op == 'index' and z.args[0] is mu and
                   is_const(z.args[1]) else const(1) if z.op == 'index' and
                   z.args[0] is mu and z.args[1] is v.args[1] else z)
    return list(used)[0] if len(used) == 1 and not any(
        z is mu for z in walk(body)) else None


def fold(t):
    """x = init; for e in it: x = f(x, e), where no other variable is
    carried along: the name of the variable does not matter"""
    it, name, init, v = t.args
    mus = {x for x in walk(v) if x.op == 'mu'}
    if init is UNDEF or mus != {mk('mu', (it, name, init))} or any(
            x.op in ('loopval', 'fold', 'unknown') for x in walk(v)):
        return None
    return mk('fold', (it, init, subst(v, {list(mus)[0]: mk(
        'acc', (init,))})))


def rows(t):
    """maprows everywhere"""
    def f(x):
        r = maprows(x) or fold(x) if x.op == 'loopval' else None
        return x if r is None else r
    return rebuild(t, f) if any(x.op == 'loopval' for x in walk(t)) else t


def atoms(p):
    return {x for m in p for x, e in m}


def vague(t):
    return any(x.op in ('unknown', 'mu', 'undef', 'call', 'gen', 'lambda',
                        'reduce') for x in walk(t))


def compare(got, want, real=None, extra=None, newaxis=True, I=None):
    """'same' | 'diff' | 'unknown', and both normal forms."""
    A = Alg(real, extra, newaxis, I)
    s, d, g, w = decide(A, got, want)
    return s, g, w


def aligned(g, w):
    """g with its loop variables named like those of w"""
    names = []
    for t in (g, w):
        n = []
        for x in walk(t):
            if x.op in ('mu', 'loopval') and x.args[1] not in n:
                n.append(x.args[1])
        names.append(n)
    a = [x for x in names[0] if x not in names[1]]
    b = [x for x in names[1] if x not in names[0]]
    if len(a) != len(b) or not a:
        return g
    k = dict(zip(a, b))
    return rebuild(g, lambda x: mk(x.op, (x.args[0], k.get(
        x.args[1], x.args[1])) + x.args[2:], x.kw) if x.op in (
            'mu', 'loopval') else x)


def decide(A, got, want):
    """('same' | 'diff' | 'unknown', what differs, both normal forms)"""
    g, w = strip(got), strip(want)
    g = aligned(g, w)
    if g is w:
        return 'same', None, g, w
    p, q = A.poly(g), A.poly(w)
    tp, tq = A.term(p), A.term(q)
    if p == q or tp is tq or close(p, q):
        return 'same', None, tp, tq
    d = differ(A, tp, tq) or edited(A, tp, tq) or bounded(A, tp, tq) or \
        bounded(A, tq, tp) or substituted(A, tp, tq) or unused(A, g, tq) \
        or swapped(A, g, w) or reduced_first(A, g, w) \
        or assigned(A, g, w) or columns(A, tp, tq) \
        or scale.mismatch(A.I, tp, tq)
    if not d and zerodiv(g) and not zerodiv(w):
        d = 'the result is divided by zero'
    return ('diff' if d else 'unknown'), d, tp, tq


def zerodiv(x):
    return x.op == 'bin' and x.args[0] == '/' and is_const(x.args[2]) and \
        isinstance(cval(x.args[2]), (int, float)) and cval(x.args[2]) == 0


def unused(A, g, w):
    """an input the result should depend on"""
    if any(x.op in ('unknown', 'ref') for x in walk(g)):
        return None
    lengths = {x for v in (A.I.shapes.values() if A.I is not None else ())
               for x in walk(v) if x.op == 'sym'}
    s = needs(w) - set(walk(g)) - lengths
    return 'the result does not depend on %s' % ', '.join(
        sorted(show(x) for x in s)) if s else None


SHIFTS = {'f:fftshift': 'f:ifftshift', 'f:ifftshift': 'f:fftshift'}


def assigned(A, g, w):
    """other values in the same places, in the same loop"""
    def only(x):
        p = A.poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if near(c, 1) and len(m) == 1:
                (y, e), = m
                return y if e == 1 else x
        return x
    a, b = only(g), only(w)
    if a.op != 'loopval' or b.op != 'loopval' or a.args[:3] != b.args[:3]:
        return None
    a, b = a.args[3], b.args[3]
    if a.op != 'setitem' or b.op != 'setitem' or a.args[:2] != b.args[:2]:
        return None
    if any(z.op in ('mu', 'unknown') for x in (a, b) for z in walk(x.args[2])):
        return None
    d = decide(A, a.args[2], b.args[2])
    return d[1] + ' (assigned in a loop)' if d[0] == 'diff' else None


def reduced_first(A, g, w):
    """the absolute value of a sum instead of the sum of absolute values"""
    for a, b, how in ((g, w, 'after'), (w, g, 'before')):
        out = {}
        for x in walk(a):
            if x.op == 'f:abs' and isinstance(x.args[0], T) and \
                    x.args[0].op in ('f:sum', 'f:mean', 'f:nanmean',
                                     'f:nansum'):
                y = x.args[0]
                z = y.args[0]
                if not isinstance(z, T) or z.op != 'sym' or z.args[0].split(
                        '.')[-1] not in ('probe', 'obj', 'weights'):
                    continue    # complex numbers
                if len(y.args) == 1:
                    out[x] = mk(y.op, (mk('f:abs', y.args),), y.kw)
        if out and A.poly(rebuild(a, lambda x: out.get(x, x))) == A.poly(b):
            return 'the absolute value is taken %s the reduction' % how
    return None


def swapped(A, g, w):
    """fftshift and ifftshift exchanged around something that depends on the
    positions: other positions for odd sizes"""
    def place(x):
        return x.op in ('setitem', 'index') and any(
            y.op == 'slice' and any(z is not NONE for z in y.args)
            for y in walk(x.args[1]))
    tops = [x for x in walk(g) if x.op in SHIFTS and any(
        place(y) and any(SHIFTS.get(z.op) and z.op != x.op
                         for z in walk(y.args[0])) for y in walk(x.args[0]))]
    if not tops or any(x.op in ('unknown', 'ref') for x in walk(g)):
        return None
    h = rebuild(g, lambda x: mk(SHIFTS[x.op], x.args, x.kw)
                if x.op in SHIFTS else x)
    return 'fftshift and ifftshift are exchanged' if A.poly(h) == A.poly(w) \
        else None


def columns(A, got, want):
    """one treats the columns of a matrix separately, the other one has the
    inverse of the matrix, which couples them"""
    for x in needs(want) if A.I is not None else ():
        s = A.I.shapes.get(x)
        if s is None or len(s.args) != 2 or cval(s.args[1]) == 1 or not any(
                y.op in ('f:pinverse', 'f:inverse') and x in walk(y)
                for y in walk(want)):
            continue

        def apart(y):
            if y is x or x not in set(walk(y)):
                return True
            if y.op in ('f:sum', 'f:mean', 'f:norm'):
                return dict(y.kw).get('dim') is const(-2) and \
                    apart(y.args[0])
            return (y.op in ELEMENT or y.op in ('poly', 'mono')) and all(
                apart(z) for z in children(y))
        if apart(got):
            return 'the columns of %s are treated separately' % show(x)
    return None


EXCL = [{'f:tool.far_field', 'f:tool.inverse_far_field'},
        {'f:fftshift', 'f:ifftshift'}, {'f:fft2', 'f:ifft2'},
        {'f:sum', 'f:mean', 'f:max', 'f:min', 'f:prod', 'f:median'},
        {'f:sin', 'f:cos'}, {'f:real', 'f:imag', 'f:abs', 'f:angle'},
        {'f:floor', 'f:ceil', 'f:round', 'f:trunc'},
        {'f:inverse', 'f:T'}, {'f:pinverse', 'f:T'},
        {'f:minimum', 'f:maximum'},
        {'new:torch.zeros', 'new:torch.ones', 'new:torch.eye'},
        {'new:torch.zeros_like', 'new:torch.ones_like'},
        {'f:exp', 'f:log', 'f:sqrt'},
        {'f:F.avg_pool2d', 'index', 'f:F.max_pool2d', 'f:F.interpolate',
         'f:sum', 'minpool'}]
MOVES = {'f:fftshift', 'f:ifftshift', 'f:fft2', 'f:ifft2', 'f:sum', 'f:flip',
         'f:T', 'f:conj', 'f:exp', 'f:sqrt', 'f:angle', 'f:floor', 'f:round',
         'f:ceil', 'f:log', 'f:inverse', 'f:pinverse', 'f:roll', 'invert',
         'f:cumsum', 'f:sign', 'f:clamp', 'f:F.avg_pool2d', 'f:F.pad',
         'f:mean', 'f:max', 'f:min', 'f:real', 'f:imag', 'f:transpose',
         'f:sinc', 'f:abs', 'select', 'f:tool.far_field',
         'f:tool.inverse_far_field'}
# functions whose result depends on every argument
INJECT = MOVES | {'f:ndimage.binary_dilation', 'f:split', 'f:unbind', 'f:trace', 'f:histogram', 'f:interp',
                  'index', 'maprows', 'matprod', 'f:abs', 'f:stack', 'f:cat', 'select',
                  'f:xlogy', 'tuple', 'list', 'slice', 'cmp', 'not', 'comp',
                  'splice', 'zip', 'f:tensordot', 'f:norm', 'f:cross',
                  'f:outer', 'f:dot', 'f:unsqueeze', 'f:masked_select',
                  'f:meshgrid', 'f:arange', 'f:fftfreq', 'f:complex',
                  'setitem', 'dict', 'pair', 'f:nansum', 'f:prod',
                  'f:median', 'f:where', 'f:arctan2', 'f:permute',
                  'f:moveaxis', 'f:repeat', 'f:numel', 'f:var', 'f:std',
                  'f:reshape', 'f:linspace', 'f:eye', 'f:diag',
                  'f:minimum', 'f:maximum', 'f:F.grid_sample', 'f:F.pad',
                  'f:F.avg_pool2d', 'f:F.max_pool2d', 'minpool',
                  'astype', 'elem', 'conv', 'f:nn.functional.pad',
                  'f:sin', 'f:cos', 'f:fft', 'f:ifft', 'range', 'fold',
                  'f:histogram', 'f:minimize', 'f:linalg.svdvals',
                  'f:linalg.svd', 'f:linalg.qr', 'f:linalg.eigh'}
# and those whose result depends on them in general
DEPENDS = INJECT | {'bin', 'f:argmax', 'f:argmin', 'neg', 'new:torch.zeros',
                    'new:torch.ones', 'new:torch.arange'}


def differ(A, a, b, depth=0):
    """A description of a definite difference of two normal forms, or
    None."""
    if a is b or depth > 40:
        return None
    memo = A.__dict__.setdefault('_differ', {})
    if (a, b) not in memo:
        memo[a, b] = None
        memo[a, b] = _differ(A, a, b, depth)
    return memo[a, b]


def _differ(A, a, b, depth):
    pa, pb = A.poly(a), A.poly(b)
    ba, bb = basis(pa), basis(pb)
    for u, q, how in ((a, pb, 'extra'), (b, pa, 'missing')):
        z = u.args[0] if u.op == 'f:abs' else u
        if z.op == 'f:tool.inverse_far_field' and \
                z.args[0].op == 'index' and \
                z.args[0].args[0].op == 'f:tool.far_field' and A.poly(
                    z.args[0].args[0].args[0]) == q:
            return 'the crop in Fourier space is ' + how
    if len(pa) == 1 and len(pb) == 1:
        (ma, ca), = pa.items()
        (mb, cb), = pb.items()
        d = dmono(A, ma, ca, mb, cb, depth)
        if d:
            return d
    la = [m for m in pa if m not in pb or not near(pa[m], pb[m])]
    lb = [m for m in pb if m not in pa or not near(pa[m], pb[m])]
    if len(la) == 1 and len(lb) == 1:
        d = dmono(A, la[0], pa[la[0]], lb[0], pb[lb[0]], depth)
        if d:
            return d
    for p, q, how in ((pa, bb, 0), (pb, ba, 1)):
        if len(p) == 1 and all(x.op in (
                'new:torch.ones_like', 'new:torch.zeros_like',
                'new:torch.zeros', 'new:torch.ones') for m in p
                for x, e in m) and q and not any(
                    vague(x) or x.op in ('phi', 'basis') and not x.args or
                    x.op.startswith('new:') for x in q) and any(
                        z.op == 'sym' for x in q for z in walk(x)):
            return ('a constant instead of %s' if not how else
                    '%s instead of a constant') % show(b if not how else a, 4)
    if len(pa) == len(pb) == len(la) > 1 and set(pa) == set(pb):
        k = {round(complex(pa[m] / pb[m]).real, 9) + 1j * round(complex(
            pa[m] / pb[m]).imag, 9) for m in pa}
        if len(k) == 1 and not any(vague(x) for x in ba):
            return 'the factor %s instead of 1' % (list(k)[0],)
    left = la or lb
    if not (la and lb) and len(left) == 1 and not any(
            vague(x) or x.op == 'phi' for x, _ in left[0]):
        p = pa if la else pb
        return 'the term %s is %s' % (show(A.term({left[0]: p[left[0]]}), 5),
                                      'extra' if la else 'missing')
    if len(la) == len(lb) and 2 <= len(la) <= 4:
        # the same difference in every term
        for perm in permutations(lb):
            ds = set()
            for m, n in zip(la, perm):
                d = dmono(A, m, pa[m], n, pb[n], depth)
                ds.add(root(d))
                if d is None or len(ds) > 1:
                    break
            else:
                if len(ds) == 1:
                    return list(ds)[0]
    if not any(vague(x) or x.op == 'phi' for x in ba | bb) and \
            ba <= bb | {x for x in ba if x.op in FREE} and (
                len(pa) != 1 or len(pb) != 1 or ba or bb):
        if pa == pb or close(pa, pb):
            return None
        if any(z in ba and z not in bb for x in bb - ba if x.op not in FREE
               for z in walk(x)):
            return None
        return '%s instead of %s' % (show(a, 6), show(b, 6))
    if A.conj(pa) == pb:
        return 'the complex conjugate is taken'
    if depth < 3:
        for p, q in ((pa, pb), (pb, pa)):
            if len(p) == 1 and any(x.op == 'f:abs' or e.denominator == 2
                                   for m in p for x, e in m) and \
                    any(len(basis(A.atom(x))) > 1 for m in p
                        for x, e in m):
                try:
                    u, v = A.power(pa, 2), A.power(pb, 2)
                except TooBig:
                    return None
                if u != v and not close(u, v):
                    return differ(A, A.term(u), A.term(v), depth + 10)
    return None


def edited(A, a, b):
    """One operation that, removed from one side, makes both equal; or a
    condition under which they definitely differ."""
    for x, y, how in ((a, b, 'extra'), (b, a, 'missing')):
        seen = 0
        for u in walk(x):
            if u.op in MOVES and u.op not in ('select', 'f:F.pad') and \
                    u.args or u.op == 'f:F.pad' and A.widens(u) and \
                    u.args and isinstance(u.args[0], T):
                seen += 1
                if seen > 30:
                    break
                v = u.args[0]
                if u.op in ('f:abs', 'f:conj', 'f:real') and \
                        not A.maybecomplex(v):
                    continue
                z = rebuild(x, lambda n: v if n is u else n)
                p, q = A.poly(z), A.poly(y)
                if p == q or close(p, q):
                    return '%s is %s' % (u.op, how)
            elif u.op == 'index' and len(u.args) == 2 and any(
                    z.op == 'slice' and is_const(z.args[2]) and
                    cval(z.args[2]) == -1 for z in (
                        u.args[1].args if u.args[1].op == 'tuple' else
                        [u.args[1]])) and not any(
                            z.op == 'sym' for z in walk(u.args[1])):
                z = rebuild(x, lambda n: n.args[0] if n is u else n)
                p, q = A.poly(z), A.poly(y)
                if p == q or close(p, q):
                    return 'the reversal of an axis is %s' % how
    seen = set()
    for x, y in ((a, b), (b, a)):
        for u in walk(x):
            if u.op != 'phi':
                continue
            for c in conditions(u.args[0]):
                if c not in seen and len(seen) < 20:
                    seen.add(c)
                    d = decided(A, a, b, c)
                    if d:
                        return d
    return None


def conditions(c):
    """the comparisons a condition is made of"""
    if c.op in ('and', 'or', 'not'):
        return [z for y in c.args for z in conditions(y)]
    if c.op != 'cmp' or not any(z.op == 'sym' for z in c.args[1:]) or not (
            any(is_const(z) for z in c.args[1:]) or c.args[0] in (
                '<', '<=', '>', '>=', '==') and c.args[1] is not c.args[2] and
            all(z.op == 'sym' for z in c.args[1:])):
        return []
    return [c]


def decided(A, a, b, c):
    """do a and b definitely differ if c holds, or if it does not?"""
    for i in (1, 2):
        x, y = [A.term(A.poly(subst(n, {c: const(i == 1)}))) for n in (a, b)]
        if x is a and y is b:
            continue
        if c.args[0] == '==' and i == 1 and all(
                z.op == 'sym' for z in c.args[1:]):
            x, y = [A.term(A.poly(subst(n, {
                c.args[1]: c.args[2]}))) for n in (x, y)]
        vs = {z for z in walk(c) if z.op == 'sym'}
        if any(z.op == 'phi' and vs & set(walk(z.args[0]))
               for n in (x, y) for z in walk(n)):
            continue
        d = differ(A, x, y) or edited(A, x, y) or substituted(A, x, y)
        if d:
            return '%s (if %s is %s)' % (d, show(c, 5), i == 1)
    return None


def bounded(A, a, b):
    """A value that is limited to a maximum, and one that exceeds it."""
    p, q = A.poly(a), A.poly(b)
    if a.op != 'f:clamp' or len(q) != 2 or not (q.get(ONE, 0) and
                                                not isinstance(q[ONE],
                                                               complex) and
                                                q[ONE] > 0):
        return None
    m = [m for m in q if m != ONE][0]
    if q[m] != 1 or len(m) != 1:
        return None
    (x, e), = m
    while x.op == 'index':
        x = x.args[0]
    if e == 1 and x.op == 'f:clamp' and dict(x.kw).get('max') is \
            dict(a.kw).get('max') is not None:
        return 'the limit %s is exceeded' % show(dict(a.kw)['max'], 3)
    return None


def substituted(A, a, b):
    """a is b with some values replaced, in corresponding places, by others
    that definitely differ."""
    budget = [4000]
    memo = {}

    def pairs(x, y):
        if x is y:
            return frozenset()
        if (x, y) in memo:
            return memo[x, y]
        memo[x, y] = None
        r = pairs_(x, y)
        if r is None:
            d = leaf(x, y)
            if d:
                r = frozenset({(x, y, d == 2 and d is not True)})
        elif any(p[2] for p in clean(r)):
            r = clean(r)
            if x.op in INSENSITIVE or x.op.startswith('f:tool.'):
                r = None
            elif x.op in MIXING:
                r = frozenset((u, v, False) for u, v, k in r)
        memo[x, y] = r
        return r

    def leaf(x, y):
        # two values that differ in themselves
        if not isinstance(x, T) or not isinstance(y, T) or vague(x) or \
                vague(y) or budget[0] < 0:
            return False
        d = differ(A, x, y)
        return bool(d) and (not scaling(d) or 2)

    def pairs_(x, y):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        if not isinstance(x, T) or not isinstance(y, T):
            return frozenset() if x == y else None
        if x.op == 'poly' and y.op == 'poly':
            p, q = A.poly(x), A.poly(y)
            la = sorted((m for m in p if m not in q), key=A.order)
            lb = sorted((m for m in q if m not in p), key=A.order)
            if len(la) != len(lb) or len(la) > 6:
                return None
            out = frozenset()
            for m in p:
                if m in q and not near(p[m], q[m]):
                    k = p[m] / q[m]
                    out |= {(const(round(k.real, 9) + 1j * round(
                        k.imag, 9) if isinstance(k, complex) else
                        round(k, 9)), const(1.0), True)}
            def term(m, n):
                if near(p[m], q[n]):
                    return mono(m, n)
                if not near(abs(p[m]), abs(q[n])):
                    return None
                # phase factors are moved out of linear functions
                r = mono(m, n)
                return r if r and not any(z[2] for z in r) else None
            z = best(la, lb, term)
            if z is None:
                return None
            if len(la) < len(p) and not out:
                # not a common factor of all terms
                z = frozenset((u, v, False) for u, v, k in z)
            return z | out
        if is_const(x) and is_const(y):
            if is_num(x) != is_num(y) or type(cval(x)) is not type(cval(y)):
                return None
            return frozenset({(x, y, False)})
        if x.op == 'sym' and y.op == 'sym':
            return frozenset({(x, y, False)})
        if x.op != y.op or len(x.args) != len(y.args) or \
                {k for k, _ in x.kw} != {k for k, _ in y.kw} or vague(x):
            return None
        if x.op == 'slice' and any(
                isinstance(u, T) and isinstance(v, T) and
                (u is NONE) != (v is NONE) for u, v in zip(x.args, y.args)):
            # an open end may be the same place as the given one
            return None
        out = frozenset()
        ky = dict(y.kw)
        for u, v in list(zip(x.args, y.args)) + [(v, ky[k])
                                                 for k, v in x.kw]:
            if u is v:
                continue
            if x.op == 'dict' and isinstance(u, tuple) and isinstance(
                    v, tuple) and u[0] == v[0]:
                u, v = u[1], v[1]
            r = pairs(u, v) if isinstance(u, T) and isinstance(v, T) else \
                frozenset() if u == v else None
            if r is None:
                return None
            out |= r
        return out

    def mono(m, n):
        la = sorted((x for x in m if x not in n), key=lambda q: q[0].n)
        lb = sorted((x for x in n if x not in m), key=lambda q: q[0].n)
        if len(la) != len(lb) or len(la) > 6:
            return None
        return best(la, lb, factor, True)

    def factor(u, v):
        if u[1] == v[1]:
            return pairs(u[0], v[0])
        d = dmono(A, frozenset({u}), 1.0, frozenset({v}), 1.0, 0)
        return d and frozenset({(A.term({frozenset({u}): 1.0}), A.term(
            {frozenset({v}): 1.0}), scaling(d))})

    def best(la, lb, f, multiplicative=False):
        found = None
        for perm in permutations(lb):
            out = frozenset()
            for u, v in zip(la, perm):
                r = f(u, v)
                if r is None or r is False or multiplicative and any(
                        p[2] and p in out for p in r):
                    break
                out |= r
            else:
                if found is None or len(out) < len(found):
                    found = out
        return found
    r = pairs(a, b)
    r = r and clean(r)
    if not r or len(r) > 3:
        return None
    g, w, k = sorted(r, key=lambda q: (q[0].n, q[1].n))[0]
    if len(r) > 1 and any(q[2] for q in r):
        return None
    return (None if g.op in FREE or is_const(g) else differ(A, g, w)) or \
        '%s instead of %s' % (show(g), show(w))


def scaling(d):
    # the rest may be insensitive to it
    return d.startswith(('the factor', 'the complex')) or \
        ' to the power ' in d


def clean(r):
    """A difference that is seen where it is not just a factor."""
    sure = {q[:2] for q in r if not q[2]}
    return frozenset(q for q in r if not q[2] or q[:2] not in sure)


INSENSITIVE = {'f:angle', 'f:abs', 'f:argmax', 'f:argmin', 'cmp', 'f:sign',
               'f:linalg.svd', 'f:linalg.qr', 'f:linalg.eigh', 'f:argsort'}
MIXING = {'f:exp', 'f:acos', 'f:asin', 'f:atan', 'f:arccos', 'f:arcsin',
          'f:arctan', 'f:log', 'f:tanh', 'f:sin', 'f:cos', 'f:sinc', 'slice', 'range', 'f:arange',
          'new:torch.arange'}


def root(d):
    return d.split(' (in ')[0] if d else d


def near(x, y):
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y))


CHAIN = {'f:fft2', 'f:ifft2', 'f:fftn', 'f:ifftn', 'f:fftshift',
         'f:ifftshift'}
ONE1 = Fraction(1)


def full(A, y):
    """y is an array that varies along its last two axes"""
    from .ops import shapeof
    s = shapeof(A.I, y) if A.I is not None and y.op == 'sym' else None
    return s is not None and s.op == 'tuple' and len(s.args) >= 2 and \
        not any(is_const(x) for x in s.args[-2:])


def pushed(A, x, y):
    """the transform of the product with y"""
    z, path, n = x, [], 0
    while z.op in CHAIN and z.args and isinstance(z.args[0], T):
        n += z.op not in ('f:fftshift', 'f:ifftshift')
        path.append(z)
        z = z.args[0]
    if not n:
        return None
    z = A.term(A.mul(A.poly(z), A.atom(y)))
    for q in reversed(path):
        z = mk(q.op, (z,) + q.args[1:], q.kw)
    return A.poly(z)


def dmono(A, ma, ca, mb, cb, depth):
    ra, rb = dict(ma), dict(mb)
    for x in list(ra):
        if ra.get(x) == rb.get(x):
            del ra[x], rb[x]
    if not ra and not rb:
        if near(ca, cb):
            return None
        return 'the factor %s instead of %s' % (ca, cb)
    for u, v in ((ra, rb), (rb, ra)):
        if any(x.op == 'f:abs' and x.args[0] in v and
               not A.maybecomplex(x.args[0]) for x in u):
            return None
    for u, v, how in ((ra, rb, 'outside instead of inside'),
                      (rb, ra, 'inside instead of outside')):
        if len(u) == 2 and len(v) == 1 and near(ca, cb) and \
                set(u.values()) | set(v.values()) == {1}:
            (w, _), = v.items()
            for x in u:
                y, = [z for z in u if z is not x]
                if x.op in CHAIN and full(A, y) and \
                        pushed(A, x, y) == {frozenset({(w, ONE1)}): 1.0}:
                    return 'the factor %s is %s of the Fourier transform' % (
                        show(y, 4), how)
    for u, v, how in ((ra, rb, 'extra'), (rb, ra, 'missing')):
        if len(u) == 1 and near(ca, cb) and len(v) > 1 and all(
                z.op == 'sym' for z in v):
            (x, e), = u.items()
            n, z = 0, x
            while e == 1 and z.op in CHAIN and z.args and \
                    isinstance(z.args[0], T):
                n += z.op not in ('f:fftshift', 'f:ifftshift')
                z = z.args[0]
            if n == 1 and A.poly(z) == {frozenset(v.items()): 1.0}:
                return 'the Fourier transform of %s is %s' % (show(z, 4), how)
    if len(ra) == 1 and len(rb) == 1:
        (x, e), = ra.items()
        (y, f), = rb.items()
        for (u, p), (v, q) in (((x, e), (y, f)), ((y, f), (x, e))):
            # |sum x| instead of sum |x|
            if u.op == 'f:abs' and u.args and u.args[0].op in ('f:sum', 'f:mean') and \
                    v.op == u.args[0].op and v.kw == u.args[0].kw and q == 1:
                inner = A.power(A.absv(A.poly(u.args[0].args[0])), p)
                if inner == A.poly(v.args[0]):
                    return 'the modulus is taken %s the sum' % (
                        'after' if u is x else 'before')
        for (u, p), (v, q), how in (((x, e), (y, f), 'after'),
                                    ((y, f), (x, e), 'before')):
            if u.op == v.op and u.op in ('f:sum', 'f:mean') and u.kw == v.kw \
                    and u.args[1:] == v.args[1:] and abs(p) > abs(q) and \
                    p / q > 0 and not vague(u):
                w = A.poly(u.args[0])
                if w and not set(w) == {ONE} and A.power(
                        w, p / q) == A.poly(v.args[0]):
                    return 'the power is taken %s the sum' % how
        if x is y:
            return None if any(z.op in ('unknown', 'undef', 'gen')
                               for z in walk(x)) else '%s to the power %s instead of %s' \
                % (show(x, 4), e, f)
        if e == f and near(ca, cb):
            return dopaque(A, x, y, depth)
        if e == f == 1 and x.op == y.op and x.op in LINEAR and \
                x.args[1:] == y.args[1:] and x.kw == y.kw:
            return differ(A, A.term(A.scale(A.poly(x.args[0]), ca)),
                          A.term(A.scale(A.poly(y.args[0]), cb)), depth + 1)
        return ratio(ra, rb) if e == f else None
    if 2 <= len(ra) == len(rb) <= 3 and near(abs(ca), abs(cb)):
        # the same difference in several factors; phase factors are moved
        # out of linear functions
        xs = list(ra.items())
        for perm in permutations(rb.items()):
            ds = [e == f and x.op == y.op and dopaque(A, x, y, depth)
                  for (x, e), (y, f) in zip(xs, perm)]
            if all(ds) and (near(ca, cb) or not any(scaling(d) for d in ds)) \
                    and (len({root(d) for d in ds}) == 1 or all(
                    ' instead of ' in d and not d.startswith('the factor')
                    for d in ds)):
                return ds[0]
        return None
    d = ratio(ra, rb)
    if d:
        return d
    if not ra or not rb:
        left = ra or rb
        if near(ca, cb) and not any(vague(x) or x.op == 'phi'
                                    for x in left):
            return 'the factor %s is %s' % (
                ' '.join(show(x, 4) for x in left),
                'extra' if ra else 'missing')
    return None


def ratio(ra, rb):
    """an input the quotient depends on"""
    left = list(ra) + list(rb)
    if 1 < len(left) < 6 and not any(vague(x) or x.op == 'phi'
                                     for x in left) and all(
            x.op in ('f:histogram', 'f:sum', 'f:mean', 'index', 'f:abs')
            for x in left):
        for x in left:
            u = needs(x)
            for y in left:
                if y is not x:
                    u = u - {z for z in walk(y) if z.op == 'sym'}
            if u:
                return 'the factor %s is %s' % (
                    show(x, 4), 'extra' if x in ra else 'missing')
    return None


def padded(x):
    """an array set into zeros"""
    return x.op == 'setitem' and x.args[0].op == 'new:torch.zeros' and any(
        z.op == 'slice' for z in (x.args[1].args if x.args[1].op == 'tuple'
                                  else (x.args[1],)))


def fullfft(x):
    """the transform of such an array"""
    n = 0
    while x.op in ('f:fftshift', 'f:ifftshift') or x.op in FFT:
        n += x.op in FFT
        x = x.args[0]
    return n == 1 and padded(x)


def dopaque(A, x, y, depth):
    if x is y:
        return None
    if x.op == 'poly' or y.op == 'poly':
        if x.op in ('poly',) + FREE and y.op in ('poly',) + FREE:
            return differ(A, x, y, depth + 1)
        return None
    if is_const(x) and is_const(y):
        u, v = cval(x), cval(y)
        if _num(u) and _num(v) and near(u, v):
            return None
        return '%r instead of %r' % (u, v)
    for u, v in ((x, y), (y, x)):
        if u is NONE and v.op in ('f:abs', 'poly', 'list', 'cmp', 'setitem',
                                  'maprows', 'matprod') and not vague(v):
            return '%s instead of %s' % (show(x, 4), show(y, 4))
    if x.op in FREE and y.op in FREE:
        if 'attr' in (x.op, y.op):
            return None
        return '%s instead of %s' % (show(x), show(y))
    if x.op != y.op:
        for u, v in ((x, y), (y, x)):
            if padded(u) and fullfft(v) and not vague(u) and not vague(v):
                return 'an array padded with zeros instead of its transform' \
                    if u is x else 'a transform of an array padded with ' \
                    'zeros instead of that array'
        for u, v in ((x, y), (y, x)):
            if u.op in ('loopval', 'fold') and v.op == 'maprows':
                r = otherrow(u)
                if r is not None:
                    return 'row %s instead of each row' % show(r)
        if vague(x) or vague(y):
            return None
        for s in EXCL:
            if x.op in s and y.op in s:
                if x.args and y.args and x.args[0] is y.args[0] or \
                        not x.args and not y.args and x.kw == y.kw:
                    return '%s instead of %s' % (x.op, y.op)
        for u, v, how in ((x, y, 'extra'), (y, x, 'missing')):
            if u.op in MOVES and u.args and isinstance(u.args[0], T) and \
                    u.args[0] is v and not (u.op in ('f:abs', 'f:conj',
                                                     'f:real') and
                                            not A.maybecomplex(v)):
                return '%s is %s' % (u.op, how)
        for u, v, how in ((x, y, 'extra'), (y, x, 'missing')):
            n, z = 0, u
            while z is not v and z.op in MOVES and z.args and isinstance(
                    z.args[0], T):
                n += {'f:fft2': 1, 'f:ifft2': -1}.get(z.op, 0)
                z = z.args[0]
            if z is v and n:
                return 'the Fourier transform is ' + how
            if u.op.startswith('f:tool.') and not vague(v):
                s = needs(u) - {z for z in walk(v) if z.op == 'sym'}
                if s:
                    return '%s is not used' % show(sorted(
                        s, key=lambda z: z.n)[0]) if u is y else \
                        '%s is used' % show(sorted(s, key=lambda z: z.n)[0])
        for u, v in ((x, y), (y, x)):
            if v.op == 'tuple' and len(v.args) > 1 and \
                    v.args[-1].op == 'splice' and v.args[-1].args[0] is u \
                    and all(z.op == 'slice' and all(k is NONE for k in z.args)
                            for z in v.args[:-1]):
                return 'the slices apply to other axes'
        for u, v, how in ((x, y, 'missing'), (y, x, 'extra')):
            if v.op == 'index' and v.args[0] is u and len(v.args) == 2:
                k = v.args[1]
                k = k.args if k.op == 'tuple' else (k,)
                if is_num(k[0]) and len(k) == 1 or any(
                        z.op == 'slice' and any(e.op == 'sym' for e in z.args)
                        for z in k):
                    return 'the selection [%s] is %s' % (
                        show(v.args[1], 4), how)
        for u, v in ((x, y), (y, x)):
            if u.op == 'sym' and not any(z is u for z in walk(v)) and \
                    not any(z.op == 'phi' for z in walk(v)):
                return '%s instead of %s' % (show(x, 4), show(y, 4))
        return None
    if x.op == 'phi':
        if x.args[0] is y.args[0]:
            for i in (1, 2):
                d = differ(A, x.args[i], y.args[i], depth + 1)
                if d:
                    return d
            return None
        if x.args[1] is y.args[1] and x.args[2] is y.args[2]:
            d = dopaque(A, x.args[0], y.args[0], depth + 1)
            return d and 'condition: ' + d
        return None
    if x.op == 'quasi':
        return '%s instead of %s' % (show(x, 4), show(y, 4))
    if x.op == 'bin' and x.args[0] == y.args[0] and x.args[0] in (
            '//', '%') and x.args[2] is y.args[2]:
        p = A.add(A.poly(x.args[1]), A.poly(y.args[1]), -1)
        m = x.args[2]
        if not p or any(vague(z) or z.op == 'phi' or
                        any(z is k for k, _ in n)
                        for z in atoms(A.poly(m)) | {m} for n in p) or any(
                            vague(z) for z in atoms(p)) or set(p) == {ONE}:
            return None
        return differ(A, x.args[1], y.args[1], depth + 1)
    if x.op == 'bin' and x.args[0] == y.args[0] and x.args[0] in (
            '//', '%') and x.args[1] is y.args[1] and not is_const(
                x.args[1]) and not vague(x.args[1]) and x.args[2].op == \
            y.args[2].op == 'sym':
        return dopaque(A, x.args[2], y.args[2], depth + 1)
    if x.op == 'f:reshape' and x.kw == y.kw:
        for u, v in ((x, y), (y, x)):
            # the axes are exchanged before the elements are counted
            z = u.args[0]
            if z.op == 'f:transpose' and len(z.args) == 1 and \
                    A.reorders(z) and z.args[0].op == 'f:reshape' and (
                        z.args[0].args[0] is v.args[0]):
                return 'the elements are in another order'
    if x.op not in INJECT:
        return None
    if x.op == 'index' and x.args[0] is y.args[0] and len(x.args) == \
            len(y.args) == 2 and not vague(x):
        u, v = [z.args[1].args if z.args[1].op == 'tuple' else (z.args[1],)
                for z in (x, y)]
        u, v = [list(z) + [mk('slice', (NONE,) * 3)] * (
            len(w) - len(z)) for z, w in ((u, v), (v, u))]
        from . import ops
        s = ops.shapeof(A.I, x.args[0]) if A.I is not None else None
        if s is not None and s.op == 'tuple' and len(s.args) >= len(u) and \
                all(z.op == 'slice' or is_const(z) and type(cval(z)) is int
                    for z in u + v):
            for i, j, d in zip(u, v, s.args):
                if (upto(i) and full(j) or upto(j) and full(i)) and not (
                        is_const(d) and cval(d) <= (upto(i) or upto(j))):
                    return '[%s] instead of [%s]' % (show(x.args[1]),
                                                     show(y.args[1]))
        for u, v in ((x.args[1], y.args[1]), (y.args[1], x.args[1])):
            if v.op == 'tuple' and len(v.args) > 1 and is_const(u) and \
                    is_const(v.args[-1]) and all(
                        type(cval(z)) is int for z in (u, v.args[-1])) and \
                    all(z.op == 'slice' and all(k is NONE for k in z.args)
                        for z in v.args[:-1]):
                return '[%s] instead of [%s]' % (show(x.args[1]),
                                                 show(y.args[1]))
    if x.op == 'slice':
        u, v = [[const(z) for z in (0, None, 1)] for _ in (x, y)]
        for k, z in ((u, x), (v, y)):
            for i in range(3):
                if z.args[i] is not NONE:
                    k[i] = z.args[i]
        if upto(x) and full(y) or upto(y) and full(x):
            return None         # unless the axis is known to be longer
        if u != v and all(map(is_const, u + v)):
            return '%s instead of %s' % (show(x), show(y))
    if x.op == 'comp' and x.args[1] is not y.args[1] and len(x.args) == \
            len(y.args) == 2 and x.args[1].op == y.args[1].op == 'range':
        k = {mk('elem', (x.args[1],)): mk('elem', (y.args[1],))}
        if A.term(A.poly(subst(x.args[0], k))) is y.args[0]:
            return dopaque(A, x.args[1], y.args[1], depth + 1)
    for u, v in ((x, y), (y, x)):
        if u.op == 'range' and len(u.args) == len(v.args) == 1 and \
                v.args[0].op == 'ceildiv' and v.args[0].args[1].op == 'sym':
            n, w = v.args[0].args
            p = A.poly(u.args[0])
            if len(p) == 1 and any(
                    z.op == 'bin' and z.args[0] == '//' and
                    z.args[1] is n and z.args[2] is w for z in walk(
                        u.args[0])) and not any(
                            z.op in ('phi', 'ceildiv') or z.op == 'bin' and
                            z.args[1] is not n or vague(z)
                            for z in walk(u.args[0])):
                return 'the number of pieces is rounded down'
    if x.op == 'maprows':
        for u, v in ((x, y), (y, x)):
            z = u.args[0]
            while z.op == 'maprows':
                if z is v:
                    return 'the loop is repeated more often' if u is x else \
                        'the loop is repeated less often'
                z = z.args[0]
        if x.args[1] is not y.args[1]:
            k = {mk('elem', (x.args[1],)): mk('elem', (y.args[1],))}
            if x.args[0] is y.args[0] and A.term(A.poly(subst(
                    x.args[2], k))) is A.term(A.poly(y.args[2])):
                return dopaque(A, *[mk('range', z.args if len(z.args) > 1 else
                                       (const(0),) + z.args)
                                    for z in (x.args[1], y.args[1])],
                               depth + 1)
    if x.op == 'tuple' and len(x.args) != len(y.args) and not any(
            z.op in ('splice', 'slice', 'tuple', 'phi') or z is NONE or
            is_const(z) and cval(z) is Ellipsis or vague(z)
            for z in x.args + y.args) and any(
                z.op == 'sym' and z.args[1] == 'int'
                for z in x.args + y.args):
        return '%s instead of %s' % (show(x), show(y))
    if x.op == 'tuple' and len(x.args) != len(y.args):
        u, v = sorted((x, y), key=lambda z: len(z.args))
        n = len(v.args) - len(u.args)
        if v.args[n:] == u.args and not any(
                is_const(z) and cval(z) is Ellipsis for z in v.args) and all(
                z.op == 'slice' and all(k is NONE for k in z.args)
                for z in v.args[:n]):
            return 'the slices apply to other axes'
    kx, ky = dict(x.kw), dict(y.kw)
    for k, d in KWDEF.get(x.op, {}).items():
        kx.setdefault(k, const(d))
        ky.setdefault(k, const(d))
    if x.op in ('f:sum', 'f:mean', 'f:nansum') and x.args == y.args and \
            len(x.args) == 1 and not vague(x) and (
                NONE in (kx.get('dim'), ky.get('dim'))):
        n = A.rank(x.args[0])
        d = [axes(k.get('dim'), n) for k in (kx, ky)]
        if n and None not in d and d[0] != d[1]:
            return 'over the axes %s instead of %s' % tuple(
                sorted(k) for k in d)
    if len(x.args) != len(y.args) or set(kx) != set(ky):
        if x.op == 'matprod' and not vague(x) and not vague(y) and \
                set(kx) == set(ky):
            s, l = sorted((x, y), key=lambda z: len(z.args))
            it = iter(l.args)
            if len(l.args) == len(s.args) + 1 and all(
                    any(a is b for b in it) for a in s.args):
                return 'a factor of the matrix product is %s' % (
                    'extra' if l is x else 'missing')
        return None
    if x.op == 'matprod' and sorted(x.args, key=id) == sorted(y.args, key=id):
        return 'the order of the matrix product'
    diffs = []
    for p, q in list(zip(x.args, y.args)) + [(kx[k], ky[k]) for k in kx]:
        if p is q:
            continue
        if not isinstance(p, T) or not isinstance(q, T):
            if p != q:
                diffs.append('%r instead of %r' % (p, q))
            continue
        d = differ(A, p, q, depth + 1)
        if d is None and (p.op in ('tuple', 'list', 'slice') or
                          is_const(p) and not _num(cval(p))) and \
                not is_num(p) and not is_num(q):
            d = dopaque(A, p, q, depth + 1)
        if d is None and x.op in ('tuple', 'list', 'slice'):
            d = renamed(A, p, q)
            if d:
                # one component that differs is enough
                return '%s (in %s)' % (d, x.op)
        if d is None:
            return None
        diffs.append(d)
    if diffs and (len({root(d) for d in diffs}) == 1 or x.op in (
            'tuple', 'list', 'slice', 'dict', 'pair')):
        return '%s (in %s)' % (diffs[0], x.op) if '(in' not in diffs[0] \
            else diffs[0]
    return None


def full(i):
    return i.op == 'slice' and all(j is NONE for j in i.args)


def upto(i):
    """n in the slice :n"""
    if i.op != 'slice' or i.args[2] is not NONE or not is_const(i.args[1]) \
            or not (i.args[0] is NONE or is_const(i.args[0]) and
                    cval(i.args[0]) == 0):
        return None
    n = cval(i.args[1])
    return n if type(n) is int and n > 0 else None


def renamed(A, a, b):
    """An integer that is computed in the same way from another one."""
    if not all(intlike(x) for x in (a, b)):
        return None
    sa, sb = [{z for z in walk(x) if z.op == 'sym'} for x in (a, b)]
    for x, y, u, v in ((a, b, sa, sb), (b, a, sb, sa)):
        if len(v - u) == 1:
            s, = v - u
            for r in sorted(u, key=lambda z: z.n):
                if A.term(A.poly(subst(y, {s: r}))) is x:
                    return '%s instead of %s' % ((show(r), show(s))
                                                 if x is a else
                                                 (show(s), show(r)))
    return None


def intlike(x):
    return isinstance(x, T) and any(z.op == 'sym' for z in walk(x)) and all(
        z.op in ('poly', 'mono', 'bin', 'quasi') or is_const(z) or
        z.op == 'sym' and z.args[1] == 'int' for z in walk(x))


def axes(d, n):
    if n is None:
        return None
    if d is None or d is NONE:
        return frozenset(range(-n, 0))
    d = d.args if d.op in ('tuple', 'list') else (d,)
    if not all(is_num(x) and -n <= cval(x) < n for x in d):
        return None
    return frozenset(int(cval(x)) - (n if cval(x) >= 0 else 0) for x in d)


def needs(t):
    """symbols the value certainly depends on"""
    out = set()

    def go(x):
        if x.op == 'sym':
            out.add(x)
        elif x.op in DEPENDS or x.op in INJECT or x.op in ('poly', 'mono'):
            for y in children(x):
                go(y)
    go(t)
    return out


def is_num(t):
    return is_const(t) and _num(cval(t))


KWDEF = {'f:F.pad': {'value': 0, 'mode': 'constant'},
         'f:histogram': {'weights': None, 'range': None},
         'f:F.avg_pool2d': {'divisor_override': None, 'stride': None},
         'f:F.max_pool2d': {'stride': None},
         'f:sum': {'dim': None, 'keepdim': False},
         'f:mean': {'dim': None, 'keepdim': False},
         'f:norm': {'dim': None},
         'f:clamp': {'min': None, 'max': None},
         'f:stack': {'dim': 0}, 'f:cat': {'dim': 0}}


def basis(p):
    """the independently varying values a normal form is made of: atoms, and
    the bases of sums inside powers"""
    out = set()

    def go(x):
        if x.op == 'poly':
            for m in x.args:
                for y in m.args[1::2]:
                    go(y)
        elif x.op == 'quasi':
            out.update(x.args[:-1])
        elif x.op in ('f:abs', 'f:conj', 'f:real', 'f:imag', 'f:exp') and \
                x.args and isinstance(x.args[0], T):
            out.add(mk('basis', (x.op,)))
            go(x.args[0])
        else:
            out.add(x)
    for a in atoms(p):
        go(a)
    return out


def close(p, q):
    if set(p) != set(q):
        return False
    return all(near(p[m], q[m]) for m in p)
