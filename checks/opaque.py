"""Package tools as uninterpreted functions.

Checks of code that calls the tools of the package compare the calls, not
what is computed inside (that is decided separately, C09-C12).  Arguments are
bound to the parameter names, so that the way a call is written does not
matter.  Uninterpreted functions are only used to establish equality, or for
differences in an argument of otherwise identical calls."""
import ast

from .util import *
from vg import alg

INTER = 'cdtools.tools.interactions.interactions'
PROP = 'cdtools.tools.propagators.propagators'
MEAS = 'cdtools.tools.measurements.measurements'
LOSS = 'cdtools.tools.losses.losses'


def bcast(I, env, x, k, tail):
    """shape of x without its last k axes, followed by tail"""
    s = ops.shapeof(I, x)
    if s is None or s.op != 'tuple':
        return None
    return mk('tuple', s.args[:len(s.args) - k] + tail)


def pixels(I, env, names):
    return bcast(I, env, env[names[1]], 1, (const(2),))


def project(I, env, names):
    return [bcast(I, env, env[names[1]], 1, (const(2),)),
            bcast(I, env, env[names[1]], 1, (const(1),))]


def exit_waves(I, env, names):
    p, tr = ops.shapeof(I, env['probe']), ops.shapeof(I, env['translations'])
    if p is None or tr is None or p.op != 'tuple' or tr.op != 'tuple':
        return None
    base = 3 if cval(env.get('multiple_modes')) else 2
    lead = tr.args[:-1]
    return mk('tuple', lead + p.args[len(p.args) - base:])


def same(I, env, names):
    return ops.shapeof(I, env[names[0]])


TOOLS = {
    (INTER, 'translations_to_pixel'): pixels,
    (INTER, 'pixel_to_translations'): None,
    (INTER, 'project_translations_to_sample'): project,
    (INTER, 'ptycho_2D_round'): exit_waves,
    (INTER, 'ptycho_2D_sinc'): exit_waves,
    (INTER, 'RPI_interaction'): None,
    (PROP, 'high_NA_far_field'): same,
    (MEAS, 'intensity'): None,
    (MEAS, 'quadratic_background'): None,
    (LOSS, 'amplitude_mse'): None,
    (LOSS, 'intensity_mse'): None,
    (LOSS, 'poisson_nll'): None,
}
LIN1 = {'pixel_to_translations', 'high_NA_far_field', 'far_field',
        'inverse_far_field'}
LIN2 = {'ptycho_2D_round', 'ptycho_2D_sinc', 'RPI_interaction'}


def hooks(prog, tools=TOOLS):
    out = {}
    for (m, n), shape in tools.items():
        mod = prog.modules.get(m)
        f = mod.funcs.get(n) if mod else None
        if f is not None:
            out['call', f.qual] = hook(n, shape)
    return out


def used(prog, func, seen=()):
    """parameters a function uses other than to hand them to a package
    function that does not use them"""
    key = ('used', func.qual)
    memo = prog.__dict__.setdefault('_used', {})
    if key in memo:
        return memo[key]
    if func.qual in seen:
        return set()
    skip = set()
    for c in ast.walk(func.node):
        if not isinstance(c, ast.Call) or not isinstance(
                c.func, (ast.Name, ast.Attribute)):
            continue
        g = callee(prog, func, c.func)
        if g is None or g.node.args.vararg or g.node.args.kwarg or \
                any(isinstance(x, ast.Starred) for x in c.args):
            continue
        inner = used(prog, g, seen + (func.qual,))
        ga = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        for n, v in list(zip(ga, c.args)) + [(k.arg, k.value)
                                             for k in c.keywords]:
            if isinstance(v, ast.Name) and n is not None and \
                    n not in inner:
                skip.add(id(v))
    memo[key] = {x.id for x in ast.walk(func.node)
                 if isinstance(x, ast.Name) and id(x) not in skip}
    return memo[key]


def callee(prog, func, node):
    path = []
    while isinstance(node, ast.Attribute):
        path.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    r = prog.lookup(func.mod.name, node.id)
    for n in reversed(path):
        if not r or r[0] != 'module':
            return None
        r = prog.lookup(r[1].name, n)
    return r[1] if r and r[0] == 'func' else None


def hook(name, shape):
    op = 'f:tool.' + name
    alg.INJECT.add(op)

    def h(I, fv, args, kw, node, fr):
        func = fv.func
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if '**' in kw or any(isinstance(x, T) and x.op == 'splat'
                             for x in args):
            return None
        nf = I.newframe(func, None)
        I.bind(nf, func, args, kw, node)
        env = {k: I.reduce(deep(I, I.freeze(I.reduce(v))))
               for k, v in I.st.frames[nf.fid].items()}
        if a.kwarg and a.kwarg.arg in env and not env[a.kwarg.arg].args:
            del env[a.kwarg.arg]
        for k, v in list(env.items()):
            if v.op == 'func':
                env[k] = sym('function ' + v.args[0].func.qual, 'func')
            if v.op == 'missing':
                return None
        seen = used(I.prog, func)
        env = {k: v for k, v in env.items() if k in seen}
        n = 2 if name in LIN2 else 1 if name in LIN1 else 0
        if name == 'pixel_to_translations':
            first = [names[1]]
        else:
            first = names[:n]
        ops.TOOLSHAPES[op] = shape, names, first
        t = mk(op, tuple(env[x] for x in first), tuple(sorted(
            (k, v) for k, v in env.items() if k not in first)))
        s = shape(I, env, names) if shape else None
        if isinstance(s, list):
            out = []
            for i, x in enumerate(s):
                y = mk('index', (t, const(i)))
                if x is not None:
                    I.shapes[y] = x
                out.append(y)
            return mk('tuple', tuple(out))
        if s is not None:
            I.shapes[t] = s
        return t
    if name in LIN1:
        alg.LINEAR.add(op)
    if name in LIN2:
        alg.BILINEAR.add(op)
    return h
