"""Comparison of a function of the package with a reference implementation.

The reference (a short function in /verif/spec, written from the
documentation) and the function are interpreted with the same symbolic
arguments.  Their results are brought into algebraic normal form
(vg/alg.py).  Equal normal forms discharge the obligation.  Normal forms
that differ in a known operation, operand or constant while everything around
is equal are a violation; anything else is undecided."""
import os

from .util import *
from . import models as M
from vg import alg
from vg.alg import Alg
from vg.loader import Module, AnalysisError
from vg.norm import strip

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'spec')


def module(prog, name):
    n = 'spec.' + name
    if n not in prog.modules:
        prog.modules[n] = Module(n, os.path.join(HERE, name + '.py'))
    return prog.modules[n]


def ref(prog, mod, name):
    return module(prog, mod).funcs[name]


def call(prog, f, make, shapes, hooks=None, recv=None):
    """(I, result or None if it always raises)"""
    I = M.interp(prog, hooks)
    for x, s in shapes.items():
        I.shapes[x] = s if isinstance(s, T) else tup(*s)
    args, kw = make(I)
    r = I.run(FuncVal(f), tuple(args), dict(kw))
    if I.st is None:
        return I, None
    return I, alg.rows(I.reduce(deep(I, I.freeze(I.reduce(r)))))


def parts(a, b):
    """Pairs of corresponding values, or None if the structure differs."""
    if a.op == b.op == 'dict':
        x, y = dict(a.args), dict(b.args)
        if set(y) - set(x):
            return None
        out = []
        for k in y:
            p = parts(x[k], y[k])
            if p is None:
                return None
            out += p
        return out
    if a.op in ('tuple', 'list') and b.op in ('tuple', 'list'):
        if any(x.op == 'splice' for x in a.args + b.args):
            return [(a, b)]
        if len(a.args) != len(b.args):
            return None
        out = []
        for x, y in zip(a.args, b.args):
            p = parts(x, y)
            if p is None:
                return None
            out += p
        return out
    return [(a, b)]


def compare(rep, I, got, want, key, w, tag, what, real=None):
    if want is None or got is None:
        if got is None and want is None:
            rep.ok(tag)
        elif got is None:
            rep.bad('raises:' + key, w, '%s always raises an exception' % tag)
        else:
            rep.und(tag, 'the reference raises')
        return
    ps = parts(got, want)
    if ps is None:
        rep.bad('structure:' + key, w, '%s: %s returns %d values' % (
            tag, what, len(got.args)))
        return
    A = Alg(real=real, newaxis=False, I=I)
    c = conflict(A, I, got)
    if c and not conflict(A, I, want):
        rep.bad('shapes:' + key, w, '%s: in %s, arrays of the shapes %s and '
                '%s are combined' % (tag, what, show(c[0]), show(c[1])))
        return
    for a, b in ps:
        m = misshaped(A, I, a, b)
        if m:
            rep.bad('shape:' + key, w, '%s: the shape of %s is %s instead of '
                    '%s' % (tag, what, show(m[0]), show(m[1])))
            continue
        k = [ops.typeof(I, x) for x in (a, b)]
        if k in (['tensor', 'ndarray'], ['ndarray', 'tensor']):
            rep.bad('kind:' + key, w, '%s: %s is a %s instead of a %s' % (
                tag, what, *['PyTorch tensor' if x == 'tensor' else
                             'NumPy array' for x in k]))
            continue
        s, d, g, r = alg.decide(A, a, b)
        if s == 'same':
            rep.ok(tag)
        elif s == 'diff' and not lenient(a, b, real, I):
            rep.bad('formula:' + key, w, '%s: in %s, %s' % (tag, what, d))
        else:
            rep.und(tag, '%s vs %s' % (show(g, 5), show(r, 5)))
            if os.environ.get('VG_SPEC'):
                explain(A, a, b)


def conflict(A, I, t):
    """Two arrays combined element-wise whose shapes do not fit."""
    from vg.ops import shapeof
    for x in walk(t):
        if x.op != 'bin' or x.args[0] not in ('+', '-', '*', '/'):
            continue
        s, u = shapeof(I, x.args[1]), shapeof(I, x.args[2])
        if s is None or u is None or s.op != 'tuple' or u.op != 'tuple':
            continue
        for a, b in zip(s.args[::-1], u.args[::-1]):
            if a is b or any(is_const(y) and cval(y) == 1 for y in (a, b)):
                continue
            if plain(a) and plain(b) and alg.decide(A, a, b)[0] == 'diff':
                return s, u
    return None


def plain(y):
    return all(z.op == 'sym' and z.args[1] == 'int' or is_const(z) or
               z.op in ('bin', 'neg', 'poly') for z in walk(y))


def misshaped(A, I, a, b):
    from vg.ops import shapeof
    s, u = shapeof(I, a), shapeof(I, b)
    if s is None or u is None or s.op != 'tuple' or u.op != 'tuple' or any(
            x.op == 'splice' for x in s.args + u.args):
        return None
    if len(s.args) != len(u.args) or any(
            plain(x) and plain(y) and alg.decide(A, x, y)[0] == 'diff'
            for x, y in zip(s.args, u.args)):
        return s, u
    return None


def lenient(a, b, real, I):
    """equal up to where axes are inserted"""
    return alg.decide(Alg(real=real, newaxis=True, I=I), a, b)[0] == 'same' \
        and False


def explain(A, a, b):
    """smallest differing subterms (for debugging)"""
    g, w = A.term(A.poly(strip(a))), A.term(A.poly(strip(b)))
    sg, sw = set(walk(g)), set(walk(w))
    for n, x, other in (('got', g, sw), ('want', w, sg)):
        for y in walk(x):
            if y not in other and all(
                    c in other for c in __import__(
                        'vg.terms', fromlist=['children']).children(y)):
                print('      only in %s: %s' % (n, show(y, 8)[:400]))


def function(prog, rep, target, reference, cases, what=None, hooks=None,
             real=None, shapes=None):
    """Compare over all cases: [(tag, make(I) -> (args, kw))]"""
    tm, tn = target
    f = prog.func(tm, tn)
    g = ref(prog, *reference)
    for tag, make in cases:
        t = '%s[%s]' % (tn, tag)
        with rep.guard(t):
            I, got = call(prog, f, make, shapes or {}, hooks)
            rep.saw(I)
            _, want = call(prog, g, make, shapes or {}, hooks)
            compare(rep, I, got, want, tn, where(f), t,
                    what or tn, real)
