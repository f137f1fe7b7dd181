"""Shared set-up for the property checks."""
from vg.terms import *
from vg.terms import T
from vg.interp import Interp, FuncVal, phi, Ev, HObj
from vg.loader import AnalysisError, own_nodes
from vg import norm, ops


def method(prog, cls, name):
    m = prog.find_method(cls, name)
    if m is None:
        raise AnalysisError('method %s.%s is missing' % (cls.name, name))
    return m


def where(func, node=None):
    return func.where(node) if func is not None else '?'


def tup(*consts):
    return mk('tuple', tuple(const(c) if not isinstance(c, T) else c
                             for c in consts))


def walk_events(trace, path=()):
    """(event, path of enclosing events) in order, into nested blocks."""
    for e in trace:
        yield e, path
        for i, b in enumerate(e.blocks):
            if not b:
                continue
            if isinstance(b, list) and b and isinstance(b[0], list):
                for bb in b:
                    yield from walk_events(bb, path + ((e, i),))
            elif isinstance(b, list):
                yield from walk_events(b, path + ((e, i),))
        if e.kind in ('try', 'tryexit') and e.value:
            for hb in e.value:
                if hb['trace']:
                    yield from walk_events(hb['trace'], path + ((e, 'h'),))
                for x in hb['exits']:
                    yield from walk_events(x[2], path + ((e, 'h'),))


def loc(t):
    """file:line where the node was first built, if known."""
    for x in walk(t):
        if x.loc is not None and x.loc[0] is not None:
            f, n = x.loc
            return f.where(n)
    return '?'


def deep(I, t):
    """Replace every heap list/dict/set inside t by its contents."""
    from vg.terms import rebuild

    def f(x):
        if x.op == 'ref':
            o = I.obj(x)
            if o is not None and o.kind in ('list', 'set', 'dict'):
                y = I.freeze(x)
                if y is not x:
                    return rebuild(y, f)
        if x.op in ('list', 'tuple') and any(
                a.op == 'splice' and a.args[0].op in ('list', 'tuple')
                for a in x.args if isinstance(a, T)):
            return f(mk(x.op, tuple(z for a in x.args for z in (
                a.args[0].args if a.op == 'splice' and
                a.args[0].op in ('list', 'tuple') else (a,)))))
        return x
    return rebuild(t, f)


def loops_of(path):
    return [e for e, i in path if e.kind == 'loop']


def conds_of(path):
    """[(condition term, polarity)] of the enclosing branches."""
    return [(e.args[0], i == 0) for e, i in path if e.kind == 'if']


def bind(f, args, kw, skip=0):
    """{parameter: term} of a call, without the defaults."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][skip:]
    out = dict(zip(names, args))
    out.update(kw)
    return out


def default(f, name):
    """The literal default of a parameter as a constant, or None."""
    import ast
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):],
                 a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)
              if v is not None})
    if name not in d:
        return None
    try:
        return const(ast.literal_eval(d[name]))
    except Exception:
        return None


def fparams(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
