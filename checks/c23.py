"""C23: what the plots show."""
import os

from .util import *
from . import c08, c13, c21, models as M, opaque, spec
from vg import ops, alg
from vg.alg import Alg
from vg.interp import lnot
from vg.loader import AnalysisError

RULE = ('each plotting function is interpreted on symbolic data; the values '
        'that reach matplotlib (images, points, color limits, axis limits, '
        'transformations, labels) are compared with a reference written '
        'from the documentation')
MOD = 'cdtools.tools.plotting.plotting'
KINDS = ('plot_real', 'plot_imag', 'plot_amplitude', 'plot_phase')

# what a matplotlib call shows: (name, positional parameters)
CALLS = {
    '.imshow': ('X', 'cmap', 'norm'),
    'matplotlib.pyplot.imshow': ('X', 'cmap', 'norm'),
    '.plot': ('x', 'y'),
    '.semilogy': ('y',),
    '.scatter': ('x', 'y', 's', 'c'),
    '.set_data': ('data',),
    '.set_clim': ('vmin', 'vmax'),
    '.set_xlabel': ('label',),
    '.set_ylabel': ('label',),
    '.set_title': ('label',),
    '.set_label': ('label',),
    '.set_xlim': ('left', 'right'),
    '.set_ylim': ('left', 'right'),
    '.on_changed': ('func',),
    '.set_val': ('val',),
    'matplotlib.widgets.Slider': ('ax', 'label', 'valmin', 'valmax',
                                  'valinit'),
    '.mpl_connect': ('event', 'func'),
    'matplotlib.transforms.Affine2D.from_values': tuple('abcdef'),
}


def shown(I, trace=None):
    """[(name, {parameter: value}, event)] of the calls in the trace"""
    out = []
    for e, path in walk_events(I.st.trace if trace is None else trace):
        if e.kind != 'call' or e.name not in CALLS:
            continue
        names = CALLS[e.name]
        args = e.args[1:] if e.name.startswith('.') else e.args
        d = {k: v for k, v in zip(names, args)}
        d.update(e.kw)
        d = {k: I.reduce(v) if I.reduce(v).op == 'func' else
             I.reduce(deep(I, I.freeze(I.reduce(v)))) for k, v in d.items()}
        if '.set_xlim' == e.name or '.set_ylim' == e.name:
            if 'right' not in d and d['left'].op in ('list', 'tuple'):
                d = dict(zip(('left', 'right'), d['left'].args))
        out.append((e.name, d, e, path))
    return out


def compare(prog, rep, I, e, got, want, key, tag, what, labels=()):
    if want is None:
        return
    w = e.where
    A = Alg(newaxis=False, I=I)
    got, want = given(got), given(want)
    s, d, g, r = alg.decide(A, got, want)
    if s == 'unknown':
        d = system(A, got, want)
        s = 'diff' if d else s
    if s == 'same':
        rep.ok('%s %s' % (tag, what))
    elif s == 'diff':
        rep.bad(key, w, '%s: in %s, %s' % (tag, what, d))
    else:
        rep.und('%s %s' % (tag, what), '%s vs %s' % (show(g, 6), show(r, 6)))
        if os.environ.get('VG_SPEC'):
            spec.explain(A, got, want)


def system(A, got, want):
    """an element of the solution of another system of equations"""
    def parts(x):
        path = []
        while x.op == 'index':
            path.append(x.args[1])
            x = x.args[0]
        return (path, x.args, x.kw) if x.op == 'f:linalg.lstsq' else None
    g, w = parts(alg.strip(got)), parts(alg.strip(want))
    if not g or not w or g[0] != w[0] or len(g[1]) != 2 or len(w[1]) != 2:
        return None
    z = [alg.decide(A, a, b)[:2] for a, b in zip(g[1], w[1])]
    if [s for s, d in z].count('same') != 1:
        return None     # both may be scaled
    return ' '.join(d for s, d in z if s == 'diff') or None


alg.INJECT.add('f:tool.get_image')


def given(v):
    """the images of different exposures are different"""
    return subst(v, {x: mk('f:tool.get_image', x.args[1:])
                     for x in walk(v) if x.op == 'call' and
                     x.args[0].op == 'sym'})


def label(rep, e, got, want, key, tag, what):
    """the unit, or the axis, named in a label"""
    if not is_const(got) or not isinstance(cval(got), str) or \
            not is_const(want):
        rep.und('%s %s' % (tag, what), show(got, 3))
        return
    unit = cval(want)[cval(want).index('('):]
    if unit in cval(got):
        rep.ok('%s %s' % (tag, what))
    else:
        rep.bad(key, e.where, '%s: the %s is %r, not in %s' % (
            tag, what, cval(got), unit))


def run(prog, rep, thorough):
    with rep.guard('images'):
        images(prog, rep)
    with rep.guard('units'):
        units(prog, rep)
    with rep.guard('colors'):
        colors(prog, rep)
    with rep.guard('colorized'):
        colorized(prog, rep)
    with rep.guard('lists'):
        lists(prog, rep)
    with rep.guard('comparison'):
        comparison(prog, rep)
    with rep.guard('gating'):
        gating(prog, rep)
    with rep.guard('browser'):
        browser(prog, rep)
    with rep.guard('points'):
        points(prog, rep)
    with rep.guard('keys'):
        keys(prog, rep)
    with rep.guard('texts'):
        texts(prog, rep)


def func(prog, name):
    f = prog.modules[MOD].funcs.get(name)
    if f is None:
        raise AnalysisError('%s is missing' % name)
    return f


def reference(prog, I, name, *args, **kw):
    r = I.run(FuncVal(spec.ref(prog, 'plots', name)), tuple(args), kw)
    if I.st is None:
        raise AnalysisError('the reference %s raises' % name)
    return I.reduce(deep(I, I.freeze(I.reduce(r))))


def picture(I, rank, name='im'):
    im = sym(name, 'tensor')
    I.shapes[im] = tup(*[sym('L%d' % k, 'int') for k in range(rank - 2)] +
                       [M.H_, M.W_])
    b = sym('basis', 'tensor')
    I.shapes[b] = tup(3, 2)
    v = sym('view_basis', 'tensor')
    I.shapes[v] = tup(3, 2)
    return im, b, v


def images(prog, rep):
    lim = sym('vmin', 'float'), sym('vmax', 'float')
    for kind in KINDS:
        f = func(prog, kind)
        for rank in (2, 3, 4):
            for opt, given in (('pixels', {}), ('basis', {}),
                               ('view', {}), ('limits', {}),
                               ('cyclic', {'cmap': const('cyclic')})):
                if opt == 'cyclic' and kind != 'plot_phase':
                    continue
                tag = '%s[%d axes, %s]' % (kind, rank, opt)
                with rep.guard(tag):
                    one(prog, rep, f, kind, rank, opt, given, lim, tag)


def entries(d):
    return {cval(k) if isinstance(k, T) else k: v for k, v in d.args}


FIELDS = {'.imshow': {'X': 'data', 'vmin': 'vmin', 'vmax': 'vmax',
                      'extent': 'extent'},
          '.set_data': {'data': 'data'},
          '.set_clim': {'vmin': 'vmin', 'vmax': 'vmax'},
          '.set_xlim': {'left': 0, 'right': 1},
          '.set_ylim': {'left': 0, 'right': 1},
          'matplotlib.transforms.Affine2D.from_values': {
              k: k for k in 'abcdef'},
          '.plot': {'x': 'x', 'y': 'y'}, '.semilogy': {'y': 'y'},
          '.scatter': {'x': 'x', 'y': 'y', 'c': 'values'}}
NAMES = {'X': 'the image', 'data': 'the updated image',
         'vmin': 'the lower limit of the colors',
         'vmax': 'the upper limit of the colors',
         'x': 'the x positions', 'y': 'the y positions',
         'c': 'the colors of the points'}
LIMIT = {'.set_xlim': 'xlim', '.set_ylim': 'ylim'}


def judge(prog, rep, I, events, refs, fname, tag):
    """Every value that reaches matplotlib against one of the references."""
    A = Alg(newaxis=False, I=I)
    seen = set()
    for name, d, e, path in events:
        seen.add(name)
        if name in ('.set_xlabel', '.set_ylabel'):
            k = 'xlabel' if name == '.set_xlabel' else 'ylabel'
            if k in refs[0]:
                label(rep, e, d.get('label', NONE), refs[0][k],
                      'label:' + fname, tag, 'label of the %s axis' % k[0])
            continue
        for par, fld in FIELDS.get(name, {}).items():
            got = d.get(par, NONE)
            want = []
            for r in refs:
                if name in LIMIT:
                    v = r.get(LIMIT[name])
                    if v is not None:
                        want.append(v.args[fld])
                elif fld in r:
                    want.append(r[fld])
            if not want:
                continue
            what = NAMES.get(par) or '%s of %s' % (par, name)
            z = [alg.decide(A, got, w)[0] for w in want]
            if 'same' in z:
                rep.ok('%s %s' % (tag, what))
                continue
            if 'unknown' in z:
                want = [want[z.index('unknown')]]
            compare(prog, rep, I, e, got, want[0], 'shows:%s' % fname, tag,
                    what)
    return seen


def one(prog, rep, f, kind, rank, opt, given, lim, tag):
    I = M.interp(prog)
    im, b, v = picture(I, rank)
    fig = sym('fig', 'obj')
    I.st.pc[mk('is', (fig, NONE))] = False
    kw = dict(given, fig=fig)
    ref = {}
    if opt in ('basis', 'view'):
        kw['units'] = ref['units'] = const('nm')
        kw['basis'] = ref['basis'] = b
    if opt == 'view':
        kw['view_basis'] = ref['view_basis'] = v
    if opt == 'limits':
        kw['vmin'], kw['vmax'] = lim
        for x in lim:
            I.st.pc[mk('is', (x, NONE))] = False
        ref['limits'] = tup(*lim)
    if opt == 'cyclic':
        ref['limits'] = tup(mk('neg', (mk('ext', ('numpy.pi',)),)), mk(
            'ext', ('numpy.pi',)))
    I.run(FuncVal(f), (im,), dict(kw))
    if I.st is None:
        rep.bad('raises:' + kind, where(f), '%s always raises' % tag)
        return
    rep.saw(I)
    ev = shown(I)
    if opt in ('limits', 'cyclic'):
        rescaled(rep, I, kind, tag)
    zero = tup(*[0] * (rank - 2))
    refs = []
    for index in (zero, mk('attr', (fig, 'plot_idx'))):
        refs.append(entries(reference(prog, I, 'image', const(kind), im,
                                      index, **ref)))
    judge(prog, rep, I, ev, refs, kind, tag)
    if 'basis' in kw:
        used(rep, I, ev, kind, tag)


def used(rep, I, ev, kind, tag):
    """the transformation is that of the image"""
    made = [e for n, d, e, p in ev if n.endswith('Affine2D.from_values')]
    if not made:
        return
    for e, p in walk_events(I.st.trace):
        if any(e is x for x in made):
            continue
        for a in tuple(e.args) + tuple(e.kw.values()) + (e.value,):
            if isinstance(a, T) and any(
                    x.op == 'call' and is_from_values(x)
                    for x in walk(I.reduce(deep(I, I.freeze(a))))) and \
                    e.kind != 'return':
                rep.ok(tag + ' the image is transformed')
                return
    rep.bad('shows:' + kind, made[0].where, '%s: the transformation to the '
            'coordinates of the plot is not given to the image' % tag)


def is_from_values(x):
    return 'from_values' in str(x.args[0])


def rescaled(rep, I, kind, tag):
    """an image which is updated keeps the limits that were asked for"""
    ev = list(walk_events(I.st.trace))
    for i, (e, path) in enumerate(ev):
        if e.kind != 'call' or e.name != '.autoscale':
            continue
        if any(x.kind == 'call' and x.name == '.set_clim' and
               p == path[:len(p)] for x, p in ev[i + 1:]):
            rep.ok('%s limits after an update' % tag)
        else:
            rep.bad('limits:' + kind, e.where, '%s: the limits of the colors '
                    'that were asked for are lost when the image is updated'
                    % tag)


UNITS = ('m', 'cm', 'mm', 'um', '$\\mu$m', 'nm', 'A', 'pm', 'UM')


def units(prog, rep):
    f = func(prog, 'get_units_factor')
    for u in UNITS:
        t = 'get_units_factor(%r)' % u
        with rep.guard(t):
            I = M.interp(prog)
            got = I.run(FuncVal(f), (const(u),), {})
            rep.saw(I)
            I2 = M.interp(prog)
            want = reference(prog, I2, 'units_factor', const(u))
            if I.st is None:
                rep.bad('raises:units', where(f), '%s raises' % t)
                continue
            spec.compare(rep, I, I.reduce(got), want, 'units', where(f), t,
                         'the factor')


def final(I, r):
    return I.reduce(deep(I, I.freeze(I.reduce(r))))


def colors(prog, rep):
    f = func(prog, 'colorize')
    for use in (True, False):
        for scaling in (None, 'numpy.sqrt'):
            t = 'colorize[use_cmocean=%s, amplitude_scaling=%s]' % (
                use, scaling)
            with rep.guard(t):
                I = M.interp(prog)
                z = sym('z', 'ndarray')
                I.shapes[z] = tup(M.H_, M.W_)
                table = sym('color map', 'ndarray')
                kw = {'use_cmocean': const(use)}
                ref = {}
                if scaling:
                    kw['amplitude_scaling'] = mk('ext', (scaling,))
                    ref['scaling'] = mk('ext', (scaling,))
                r = I.run(FuncVal(f), (z,), kw)
                rep.saw(I)
                if I.st is None:
                    rep.bad('raises:colorize', where(f), '%s raises' % t)
                    continue
                got = final(I, r)
                got = subst(got, {x: table for x in walk(got)
                                  if x.op == 'f:ndarray' and x.args and
                                  x.args[0].op == 'unknown'})
                want = reference(prog, I, 'colors' if use else 'colors_hsv',
                                 z, *([table] if use else []), **ref)
                spec.compare(rep, I, got, want, 'colors', where(f), t,
                             'the color')


def colorized(prog, rep):
    f = func(prog, 'plot_colorized')
    pi = mk('ext', ('numpy.pi',))
    for rank in (2, 3):
        for scaling in (None, 'numpy.sqrt'):
            t = 'plot_colorized[%d axes, amplitude_scaling=%s]' % (
                rank, scaling)
            with rep.guard(t):
                tool = {(MOD, 'colorize'): None}
                I = M.interp(prog, opaque.hooks(prog, tool))
                im, b, v = picture(I, rank)
                fig = sym('fig', 'obj')
                I.st.pc[mk('is', (fig, NONE))] = False
                kw = {'fig': fig, 'basis': b, 'units': const('nm')}
                if scaling:
                    kw['amplitude_scaling'] = mk('ext', (scaling,))
                I.run(FuncVal(f), (im,), dict(kw))
                if I.st is None:
                    rep.bad('raises:plot_colorized', where(f),
                            '%s always raises' % t)
                    continue
                rep.saw(I)
                ev = shown(I)
                refs = []
                for index in (tup(*[0] * (rank - 2)),
                              mk('attr', (fig, 'plot_idx'))):
                    r = entries(reference(
                        prog, I, 'image', const('complex'), im, index, basis=b,
                        units=const('nm'), limits=tup(mk('neg', (pi,)), pi)))
                    refs.append(r)
                bar = reference(prog, I, 'colorbar')
                out = []
                for name, d, e, path in ev:
                    if name in ('.imshow', '.set_data'):
                        k = 'X' if name == '.imshow' else 'data'
                        x = d.get(k, NONE)
                        if x.op == 'f:tool.colorize':
                            a = dict(x.kw)
                            # the color bar has the colors of the image
                            s = a.get('amplitude_scaling')
                            ok = s is kw.get('amplitude_scaling', s)
                            if not ok and s.op in ('ext', 'func'):
                                rep.bad('shows:plot_colorized', e.where,
                                        '%s: the amplitude scaling is not '
                                        'used' % t)
                            z = a.get('z', NONE)
                            if im not in set(walk(z)):
                                compare(prog, rep, I, e, z, bar,
                                        'shows:plot_colorized', t,
                                        'the colors of the color bar')
                                if d.get('origin') is not const('lower'):
                                    rep.bad('shows:plot_colorized', e.where,
                                            '%s: the phases run downwards on '
                                            'the color bar' % t)
                                compare(prog, rep, I, e, ends(d.get(
                                    'extent', NONE)), reference(
                                        prog, I, 'colorbar_extent'),
                                    'shows:plot_colorized', t,
                                    'the extent of the color bar')
                                continue
                            d = dict(d, **{k: z})
                    out.append((name, d, e, path))
                judge(prog, rep, I, out, refs, 'plot_colorized', t)


def ends(v):
    """the first and the last number of a linspace"""
    out = {}
    for x in walk(v):
        if x.op == 'index' and isinstance(x.args[0], T) and \
                x.args[0].op in (
                    'new:torch.linspace', 'new:numpy.linspace') and \
                cval(x.args[1]) in (0, -1):
            out[x] = x.args[0].args[-cval(x.args[1])]
    return subst(v, out)


def points(prog, rep):
    for unit in ('nm', 'um'):
        for lines in (True, False):
            f = func(prog, 'plot_translations')
            t = 'plot_translations[units=%s, lines=%s]' % (unit, lines)
            with rep.guard(t):
                I = M.interp(prog)
                fig, tr, vals = cloud(I)
                scatter(prog, rep, I, f, (tr,), {
                    'fig': fig, 'units': const(unit),
                    'lines': const(lines)}, t, [dict(entries(reference(
                        prog, I, 'positions', tr, const(unit))),
                        xlabel=const('X (%s)' % unit),
                        ylabel=const('Y (%s)' % unit))], '.plot')
        for conv in ('probe', 'object', 'Probe'):
            sign = 1 if conv.lower() == 'probe' else -1
            f = func(prog, 'plot_nanomap')
            t = 'plot_nanomap[units=%s, convention=%s]' % (unit, conv)
            with rep.guard(t):
                I = M.interp(prog)
                fig, tr, vals = cloud(I)
                scatter(prog, rep, I, f, (tr, vals), {
                    'fig': fig, 'units': const(unit),
                    'convention': const(conv)}, t, [dict(entries(reference(
                        prog, I, 'nanomap', tr, vals, const(unit),
                        const(sign))),
                        xlabel=const('x (%s)' % unit),
                        ylabel=const('y (%s)' % unit))], '.scatter')
            f = func(prog, 'plot_nanomap_with_images')
            for basis in (False, True):
                t = 'plot_nanomap_with_images[units=%s, convention=%s, ' \
                    'basis=%s]' % (unit, conv, basis)
                with rep.guard(t):
                    I = M.interp(prog)
                    fig, tr, vals = cloud(I)
                    get = sym('get_image', 'func')
                    kw = {'fig': fig, 'nanomap_units': const(unit),
                          'values': vals, 'convention': const(conv)}
                    if basis:
                        kw['basis'] = sym('basis', 'tensor')
                        I.shapes[kw['basis']] = tup(3, 2)
                        kw['image_units'] = const('mm')
                    ref = dict(entries(reference(
                        prog, I, 'nanomap', tr, vals, const(unit),
                        const(sign))), data=reference(
                            prog, I, 'frame', get, const(0)))
                    if basis:
                        ref['extent'] = reference(
                            prog, I, 'extent', get, kw['basis'],
                            const('mm'))
                    ev = scatter(prog, rep, I, f, (tr, get), kw, t, [ref],
                                 '.scatter')
                    moved(prog, rep, I, f, ev, get, t)


def cloud(I):
    fig = sym('fig', 'obj')
    I.st.pc[mk('is', (fig, NONE))] = False
    tr = sym('translations', 'tensor')
    I.shapes[tr] = tup(M.N_, 3)
    vals = sym('values', 'tensor')
    I.shapes[vals] = tup(M.N_)
    return fig, tr, vals


def scatter(prog, rep, I, f, args, kw, t, refs, need):
    before = len(I.st.trace)
    I.run(FuncVal(f), args, kw)
    if I.st is None:
        rep.bad('raises:' + f.name, where(f), '%s always raises' % t)
        return
    rep.saw(I)
    ev = [(n, {k: first(v) for k, v in d.items()}, e, p)
          for n, d, e, p in shown(I, I.st.trace[before:])]
    seen = judge(prog, rep, I, ev, refs, f.name, t)
    if need not in seen:
        rep.und(t, 'no call of %s' % need)
    return ev


def first(v):
    """with the first of several images selected"""
    return subst(v, {x: TRUE if x.op == 'hasattr' else const(0)
                     for x in walk(v) if x.op in ('hasattr', 'attr') and
                     x.args[1] == 'image_idx'})


def moved(prog, rep, I, f, ev, get, t):
    """the image after the slider moved to another exposure"""
    i = sym('moved to', 'float')
    for name, d, e, path in ev or ():
        if name != '.on_changed' or d['func'].op != 'func':
            continue
        before = len(I.st.trace)
        I.call(d['func'], (i,), {}, None, None)
        if I.st is None:
            rep.bad('raises:' + f.name, e.where, '%s: moving the slider '
                    'raises' % t)
            return
        want = reference(prog, I, 'moved', get, i)
        for n, d2, e2, p in shown(I, I.st.trace[before:]):
            if n == '.set_data':
                compare(prog, rep, I, e2, first(d2['data']), want,
                        'shows:' + f.name, t, 'the image after a move of the '
                        'slider')


MODELS = {'FancyPtycho': 'fancy', 'MultislicePtycho': 'multislice',
          'Bragg2DPtycho': 'bragg', 'RPI': 'rpi', 'SimplePtycho': 'simple'}
PLOTS = KINDS + ('plot_colorized', 'plot_translations', 'plot_nanomap',
                 'plot_nanomap_with_images')


HISTORY = sym('loss history', 'list')


def plot_hooks(prog, record):
    """the plotting functions, decided above, as calls"""
    out = {}

    def hook(name, func):
        def h(I, fv, args, kw, node, fr):
            nf = I.newframe(func, None)
            I.bind(nf, func, args, kw, node)
            env = {}
            for k, v in I.st.frames[nf.fid].items():
                v = I.reduce(v)
                env[k] = v if v.op == 'func' else I.reduce(
                    deep(I, I.freeze(v)))
            k = func.node.args.kwarg
            if k is not None and k.arg in env:
                env.update(mapping(I, env.pop(k.arg)))
            record.append((name, env, node))
            return sym('figure', 'obj')
        return h
    for name in PLOTS:
        f = func(prog, name)
        out['call', f.qual] = hook(name, f)
    return out


def lists(prog, rep):
    for name, ref in MODELS.items():
        ps = M.params(M.model_class(prog, name), prog)
        for opt in ('', 'exponentiate_obj', 'fourier_probe',
                    'weight matrices', 'weight matrices, fourier_probe'):
            if opt and not all(o in ps or o == 'weight matrices' and
                               'weights' in ps for o in opt.split(', ')):
                continue
            if name == 'Bragg2DPtycho' and 'weight' in opt:
                continue
            over = {b: FALSE for b in c13.BOOLS[name] if b in ps}
            if 'units' in ps:
                over['units'] = sym('units', 'str')
            for o in opt.split(', '):
                if o == 'weight matrices':
                    over['%weights'] = TRUE
                elif o:
                    over[o] = TRUE
            with rep.guard('%s[%s]' % (name, opt)):
                model_plots(prog, rep, name, ref, over, opt)


def setup(prog, name, over):
    record = []
    tools = dict(c21.TOOLS)
    tools[c21.ANA, 'calc_mode_power_fractions'] = None
    hooks = opaque.hooks(prog, tools)
    hooks.update(plot_hooks(prog, record))
    opts = tuple(o for o in c13.OPTS if o in M.params(
        M.model_class(prog, name), prog) and not (
            o == 'weights' and '%weights' in over))
    I, m = c13.make(prog, name, opts, over, hooks)
    if m is None:
        raise AnalysisError('%s.__init__ always raises' % name)
    if '%weights' in over:
        I.shapes[sym('self.weights', 'tensor')] = tup(
            M.N_, sym('L', 'int'), M.P_)
    if name == 'RPI':
        I.shapes[sym('self.obj', 'tensor')] = tup(
            sym('K', 'int'), M.HO, M.WO)
    return I, m, record


def model_plots(prog, rep, name, ref, over, opt):
    I, m, record = setup(prog, name, over)
    entries_ = []
    for attr in ('plot_panel_list', 'plot_list'):
        v = I.getattr(m, attr)
        v = I.reduce(v) if v is not None else NONE
        for d in items(I, v):
            e = mapping(I, d)
            if 'plots' in e:
                for s in items(I, e['plots']):
                    entries_.append(mapping(I, s))
            else:
                entries_.append(e)
    if not entries_:
        raise AnalysisError('%s lists no plots' % name)
    for e in entries_:
        if 'title' not in e or 'plot_func' not in e or \
                not is_const(e['title']):
            rep.und('%s[%s]' % (name, opt), 'a plot without a title')
            continue
        title = cval(e['title'])
        t = '%s[%s]: %r' % (name, opt, title)
        with rep.guard(t):
            one_plot(prog, rep, name, ref, over, e, title, t)


def items(I, v):
    v = I.reduce(v)
    if v.op == 'ref':
        v = I.reduce(I.freeze(v))
    return [I.reduce(x) for x in v.args] if v.op in ('list', 'tuple') else []


def mapping(I, v):
    v = I.reduce(v)
    if v.op == 'ref':
        v = I.reduce(I.freeze(v))
    if v.op != 'dict':
        return {}
    return {cval(k) if isinstance(k, T) else k: I.reduce(x)
            for k, x in v.args}


def one_plot(prog, rep, name, ref, over, e, title, t):
    # a fresh model: what one plot does must not reach the others
    I, m, record = setup(prog, name, over)
    w = where_of(prog, name, e['plot_func'])
    fig = sym('fig', 'obj')
    I.st.pc[mk('is', (fig, NONE))] = False
    shown_ = TRUE
    if 'condition' in e and e['condition'] is not NONE:
        shown_ = I.reduce(I.call(e['condition'], (m,), {}, None, None))
        if I.st is None:
            rep.bad('raises:' + title, w, '%s: the condition always raises'
                    % t)
            return
    if shown_ is FALSE:
        # compare when it is shown
        want = wanted(prog, I, ref, m, title)
        if want is None:
            rep.ok(t)
        elif want.get('when') is TRUE:
            rep.bad('shown:%s' % name, w, '%s: is never shown' % t)
        else:
            rep.ok(t)
        return
    del record[:]
    I.setobj(m, I.obj(m).put('loss_history', HISTORY))
    before = len(I.st.trace)
    I.call(e['plot_func'], (m, fig), {}, None, None)
    if I.st is None:
        rep.bad('raises:%s' % name, w, '%s: always raises' % t)
        return
    rep.saw(I)
    if not record:
        direct(prog, rep, I, ref, m, title, t, name, w,
               shown(I, I.st.trace[before:]))
        return
    kind, env, node = record[-1]
    key = title
    if kind == 'plot_nanomap_with_images' and not title:
        s = str(cval(env.get('image_title', NONE), ''))
        key = 'Per-Exposure Probe ' + (
            'Intensity' if 'Root' in s else 'Amplitudes'
            if 'Amplitude' in s else 'Phases')
    want = wanted(prog, I, ref, m, key)
    if not want:
        rep.und(t, 'no reference for this title')
        return
    when = I.reduce(I.boolify(want.pop('when')))
    shown_ = I.reduce(I.boolify(shown_))
    if is_const(when) and is_const(shown_):
        if bool(cval(when)) != bool(cval(shown_)):
            rep.bad('shown:%s' % name, w, '%s: is shown although it does '
                    'not apply' % t)
            return
        rep.ok('%s condition' % t)
    elif when is shown_:
        rep.ok('%s condition' % t)
    elif when is lnot(shown_):
        rep.bad('shown:%s' % name, w, '%s: is shown when it does not apply, '
                'and not when it does' % t)
        return
    else:
        rep.und('%s condition' % t, show(shown_, 5))
    k = want.pop('kind')
    if k != kind:
        if k in KINDS + ('plot_colorized',) and kind in KINDS + (
                'plot_colorized',):
            # the same component of the data, plotted in another way?
            if not settled(I, k, kind, env, prog):
                rep.bad('kind:%s' % name, w, '%s: drawn with %s' % (t, kind))
                return
        else:
            rep.und(t, 'drawn with %s' % kind)
            return
    if title == 'Corrected Translations' and kind == 'plot_translations':
        # the last ones drawn are the corrected ones
        pass
    mode = want.pop('mode', None)
    for par, v in want.items():
        got = env.get(par, NONE)
        if par in ('units', 'image_units', 'nanomap_units'):
            if par == 'units' and 'im' in want and want['basis'] is NONE:
                continue    # in pixels
            ok = unit(got) == unit(v)
            if is_const(got) and is_const(v) or got is v:
                if ok or got is v:
                    rep.ok('%s %s' % (t, par))
                else:
                    rep.bad('units:%s' % name, w, '%s: the %s are %s' % (
                        t, par, show(got)))
            elif is_const(got):
                rep.bad('units:%s' % name, w, '%s: the %s are always %s, '
                        'whatever the units of the model are' % (
                            t, par, show(got)))
            else:
                rep.und('%s %s' % (t, par), show(got))
            continue
        if got is NONE and v is not NONE:
            rep.bad('shows:%s' % name, w, '%s: plotted without the %s' % (
                t, par))
            continue
        if v is NONE and got is not NONE:
            rep.bad('shows:%s' % name, w, '%s: plotted with the %s %s' % (
                t, par, show(got, 4)))
            continue
        if v is NONE:
            rep.ok('%s %s' % (t, par))
            continue
        spec.compare(rep, I, got, v, 'shows:%s' % name, w, t, 'the ' + par)
    if mode is not None:
        i = sym('exposure', 'int')
        got = I.call(env['get_image_func'], (i,), {}, None, None)
        if I.st is None:
            rep.bad('raises:%s' % name, w, '%s: always raises' % t)
            return
        got = final(I, got)
        r = reference(prog, I, 'exposure', m, mode, i)
        spec.compare(rep, I, got, r, 'shows:%s' % name, w, t,
                     'the illumination of an exposure')


def unit(v):
    if not is_const(v):
        return v
    return {'$\\mu$m': 'um'}.get(cval(v), str(cval(v)).lower())


def settled(I, want, got, env, prog):
    if 'plot_colorized' in (want, got):
        return False
    a = reference(prog, I, 'component', const(want), env['im'])
    b = reference(prog, I, 'component', const(got), env['im'])
    return alg.decide(Alg(newaxis=False, I=I), b, a)[0] != 'diff'


def wanted(prog, I, ref, m, title):
    r = I.run(FuncVal(spec.ref(prog, 'plots', ref)), (m, const(title)), {})
    if I.st is None:
        raise AnalysisError('the reference of %r raises' % title)
    r = I.reduce(r)
    if r is NONE:
        return None
    out = {cval(k) if isinstance(k, T) else k: final(I, v)
           for k, v in mapping(I, r).items()}
    out['kind'] = cval(out['kind'])
    return out


def where_of(prog, name, f):
    if f.op == 'func':
        return where(f.args[0].func)
    return name


def direct(prog, rep, I, ref, m, title, t, name, w, events):
    """a plot which a model draws without the plotting functions"""
    if title == 'Loss History':
        want, calls, par = HISTORY, ('.semilogy',), 'y'
    else:
        want = reference(prog, I, ref, m, const(title))
        calls, par = ('.imshow', 'matplotlib.pyplot.imshow'), 'X'
    if want is NONE:
        rep.und(t, 'no reference for this title')
        return
    found = False
    for n, d, e, path in events:
        if n not in calls:
            continue
        found = True
        got = d.get(par, NONE)
        if want is HISTORY and got.op == 'index' and got.args[0] is HISTORY:
            rep.bad('shows:%s' % name, w, '%s: only a part of the history' % t)
            continue
        s, x, g, r = alg.decide(Alg(newaxis=False, I=I), got, want)
        if s == 'same':
            rep.ok(t)
        elif s == 'diff':
            rep.bad('shows:%s' % name, w, '%s: %s' % (t, x))
        else:
            rep.und(t, '%s vs %s' % (show(g, 8), show(r, 8)))
    if not found:
        rep.und(t, 'no call of a plotting function')


PANELS = ('Simulated', 'Measured', 'Difference')


def comparison(prog, rep):
    """CDIModel.compare"""
    cls = prog.cls('cdtools.models.base', 'CDIModel')
    f = method(prog, cls, 'compare')
    for name in ('SimplePtycho', 'FancyPtycho', 'RPI'):
        for log in (False, True):
            t = 'compare[%s, logarithmic=%s]' % (name, log)
            with rep.guard(t):
                compared(prog, rep, f, name, log, t)


def compared(prog, rep, f, name, log, t):
    ps = M.params(M.model_class(prog, name), prog)
    I, m, record = setup(prog, name, {
        b: FALSE for b in c13.BOOLS[name] if b in ps})
    cls = prog.cls('cdtools.models.base', 'CDIModel')

    def forward(I, fv, args, kw, node, fr):
        if kw or len(args) != 3:
            return None
        r = mk('f:tool.forward', tuple(I.reduce(deep(I, I.freeze(
            I.reduce(a)))) for a in args[1:]))
        I.shapes[r] = tup(M.H_, M.W_) if name == 'RPI' else tup(
            sym('shots', 'int'), M.H_, M.W_)
        return r
    I.hooks['call', method(prog, cls, 'forward').qual] = forward
    d = c08.dataset(I, prog)[0]
    before = len(I.st.trace)
    I.run(FuncVal(f), (m, d), {'logarithmic': const(log)})
    if I.st is None:
        rep.bad('raises:compare', where(f), '%s: always raises' % t)
        return
    rep.saw(I)
    judge_panels(prog, rep, I, m, d, I.st.trace[before:], const(0), log, t)
    i = sym('moved to', 'float')
    ev = shown(I, I.st.trace[before:])
    for n, dd, e, path in ev:
        if n == '.mpl_connect' and dd['func'].op == 'func' and \
                dd.get('event') is const('key_press_event'):
            canvas = I.reduce(e.args[0])
            if canvas.op != 'attr':
                break
            after = ops.binop(I, '+', I.getattr(
                canvas.args[0], 'pattern_idx'), const(1))
            press = sym('event', 'obj')
            at, state = len(I.st.trace), I.st
            I.st.pc[ops.compare(I, 'Eq', I.getattr(press, 'key'),
                                const('up'))] = False
            I.st.pc[ops.compare(I, 'Eq', I.getattr(press, 'button'),
                                const('up'))] = False
            I.st.pc[ops.compare(I, 'Eq', I.getattr(press, 'key'),
                                const('down'))] = True
            I.call(dd['func'], (press,), {}, None, None)
            if I.st is not None:
                judge_panels(prog, rep, I, m, d, I.st.trace[at:], after, log,
                             t + ' after the down key')
            I.st = state
            break
    if any(e.kind == 'call' and e.name == 'matplotlib.widgets.Slider'
           for e, p in walk_events(I.st.trace[before:])) and not any(
            n == '.on_changed' for n, *r in ev):
        rep.bad('shows:compare', where(f), '%s: moving the slider has no '
                'effect' % t)
        return
    for n, dd, e, path in ev:
        if n == '.on_changed' and dd['func'].op == 'func':
            before = len(I.st.trace)
            I.call(dd['func'], (i,), {}, None, None)
            if I.st is None:
                rep.bad('raises:compare', e.where, '%s: moving the slider '
                        'raises' % t)
                return
            judge_panels(prog, rep, I, m, d, I.st.trace[before:], i, log,
                         t + ' after a move of the slider')
            break


def judge_panels(prog, rep, I, m, d, trace, i, log, t):
    want = reference(prog, I, 'compared', m, d, i, const(log))
    for n, p, e, path in shown(I, trace):
        if n not in ('.imshow', '.set_data'):
            continue
        k = [cval(x.args[1]) for x in walk(e.args[0]) if x.op == 'index' and
             is_const(x.args[1]) and cval(x.args[1]) in (0, 1, 2)]
        if not k:
            rep.und(t, 'image on an unknown panel')
            continue
        k = k[0]
        spec.compare(rep, I, p.get('X', p.get('data', NONE)), want.args[k],
                     'shows:compare', e.where, t, 'the image %r (%s)' % (
                         PANELS[k], n))


def browser(prog, rep):
    """Ptycho2DDataset.inspect"""
    cls = prog.cls('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset')
    f = method(prog, cls, 'inspect')
    for log in (True, False):
        t = 'Ptycho2DDataset.inspect[logarithmic=%s]' % log
        with rep.guard(t):
            record = []
            tools = {(c21.ANA, 'calc_spectral_info'): None}
            hooks = opaque.hooks(prog, tools)
            hooks.update(plot_hooks(prog, record))
            I = M.interp(prog, hooks)
            d = c08.dataset(I, prog)[0]
            off = sym('log_offset', 'float')
            I.run(FuncVal(f), (d,), {
                'logarithmic': const(log), 'log_offset': off,
                'units': sym('units', 'str'), 'plot_mean_pattern': TRUE,
                'plot_mask': TRUE})
            if I.st is None:
                rep.bad('raises:inspect', where(f), '%s: always raises' % t)
                continue
            rep.saw(I)
            w = where(f)
            for kind, env, node in list(record):
                if kind == 'plot_nanomap_with_images':
                    i = sym('exposure', 'int')
                    got = final(I, I.call(env['get_image_func'], (i,), {},
                                          None, None))
                    spec.compare(rep, I, got, reference(
                        prog, I, 'pattern', d, i, const(log), off),
                        'shows:inspect', w, t, 'the pattern')
                    spec.compare(rep, I, env['values'], reference(
                        prog, I, 'integrated', d), 'shows:inspect', w, t,
                        'the map of the intensities')
                    spec.compare(rep, I, env['translations'], final(
                        I, I.getattr(d, 'translations')),
                        'shows:inspect', w, t, 'the positions')
                    if env.get('nanomap_units') is sym('units', 'str'):
                        rep.ok(t + ' units')
                    elif is_const(env.get('nanomap_units', NONE)):
                        rep.bad('units:inspect', w, '%s: the units are '
                                'always %s' % (t, show(
                                    env.get('nanomap_units', NONE))))
                elif kind in KINDS:
                    im = env['im']
                    if any(x.op == 'f:tool.calc_spectral_info'
                           for x in walk(im)):
                        spec.compare(rep, I, im, reference(
                            prog, I, 'mean_pattern', d, off),
                            'shows:inspect', w, t, 'the mean pattern')
                    else:
                        spec.compare(rep, I, im, final(I, I.getattr(
                            d, 'mask')), 'shows:inspect', w, t, 'the mask')


LEVEL = 2


def gating(prog, rep):
    """which plots CDIModel.inspect draws"""
    n = 0
    for panel in (False, True):
        for mode in (False, True):
            for level in (None, 0, 1, 2, 3):
                for cond in (None, 'holds', 'fails', 'holds_for',
                             'fails_for'):
                    for state in ('first', 'closed', 'open', 'replot'):
                        t = 'inspect[%s, panel_plot_mode=%s, plot_level=%s, ' \
                            'condition=%s, %s]' % (
                                'panel' if panel else 'single', mode, level,
                                cond, state)
                        with rep.guard(t):
                            gate(prog, rep, panel, mode, level, cond, state,
                                 False, t)
        for mode in (False, True):
            t = 'inspect[%s, panel_plot_mode=%s, plot needs the dataset]' % (
                'panel' if panel else 'single', mode)
            with rep.guard(t):
                gate(prog, rep, panel, mode, 1, None, 'first', True, t)
    for soon in (True, False):
        t = 'inspect[min_interval, %s]' % ('too soon' if soon else 'later')
        with rep.guard(t):
            gate(prog, rep, False, False, 1, None, 'open', False, t, soon)


def gate(prog, rep, panel, mode, level, cond, state, needs, t, soon=None,
         maximum=LEVEL):
    drawn, opened, unsure, known, swapped = [], [], [], set(), []
    title = 'Panel' if panel and mode else 'Plot'

    def draw(I, fv, args, kw, node, fr):
        if needs != (len(args) + len(kw) == 3):
            return I.throw('TypeError', node, fr)
        if set(I.st.pc) - known:
            unsure.append(True)
        drawn.append(tuple(I.reduce(a) for a in args[1:]))
        if args[0] is not m or args[1] is dataset:
            swapped.append('the plot')
        return sym('figure', 'obj')

    def exists(I, args, kw, node, fr):
        return const((state == 'open') == (
            cval(I.reduce(args[0])) == title))

    def figure(I, args, kw, node, fr):
        opened.append(cval(I.reduce(args[0])) if args else None)
        return None
    dataset = sym('dataset', 'obj')

    def asked(I, fv, args, kw, node, fr):
        if len(args) + len(kw) != 1 + fv.func.name.endswith('_for'):
            return I.throw('TypeError', node, fr)
        if args and (args[0] is not m or len(args) == 2 and
                     args[1] is not dataset):
            swapped.append('the condition')
        return None
    f = spec.ref(prog, 'plots', 'plot_with' if needs else 'plot')
    I, m = c13.make(prog, 'SimplePtycho', (), {}, {
        ('call', f.qual): draw,
        ('call', 'holds_for'): asked, ('call', 'fails_for'): asked,
        ('call', 'holds'): asked, ('call', 'fails'): asked,
        ('ext', 'matplotlib.pyplot.fignum_exists'): exists,
        ('ext', 'matplotlib.pyplot.figure'): figure,
        ('ext', 'matplotlib.get_backend'):
            lambda I, args, kw, node, fr: const('agg')})

    def mapping_(**kw):
        return I.newdict([(const(k), v) for k, v in kw.items()])
    plot = dict(title=const('Plot'), plot_func=mk('func', (FuncVal(f),)))
    outer = {}
    d = outer if panel else plot
    if level is not None:
        d['plot_level'] = const(level)
    if cond is not None:
        plot['condition'] = mk('func', (FuncVal(
            spec.ref(prog, 'plots', cond)),))
    if panel:
        plot['subplot'] = tup(0, 0)
        outer.update(title=const('Panel'), grid=tup(1, 1),
                     plots=I.newlist([mapping_(**plot)]))
    one = I.newlist([mapping_(**d)])
    none = I.newlist([])
    o = I.obj(m).put('plot_level', const(maximum))
    o = o.put('panel_plot_mode', const(mode))
    o = o.put('plot_panel_list', one if panel else none)
    o = o.put('plot_list', none if panel else one)
    last = sym('last time', 'float') if soon is None else const(1000.)
    o = o.put('last_inspected_time', NONE if state == 'first' else last)
    I.setobj(m, o)
    if soon is None:
        I.st.pc[mk('is', (last, NONE))] = False
    cls = prog.cls('cdtools.models.base', 'CDIModel')
    f = method(prog, cls, 'inspect')
    kw = {'replot_all': const(state == 'replot')}
    I.st.pc[mk('is', (dataset, NONE))] = False
    kw['dataset'] = dataset
    if soon is not None:
        # five seconds after the last inspection
        I.hooks['ext', 'time.time'] = lambda I, *a: const(1005.)
        kw['min_interval'] = const(6. if soon else 4.)
    known.update(I.st.pc)
    I.run(FuncVal(f), (m,), kw)
    if I.st is None:
        rep.bad('raises:inspect', where(f), '%s: always raises' % t)
        return
    rep.saw(I)
    if level in (None, 0) and maximum == LEVEL:
        # the level of a plot is 1 unless it is given
        gate(prog, rep, panel, mode, level, cond, state, needs, t + ', level '
             '0', soon, 0)
    want = (1 if level is None else level) <= maximum and cond not in (
        'fails', 'fails_for') and state != 'closed' and not soon
    if unsure:
        rep.und(t, 'whether the plot is drawn depends on a condition left '
                'open')
        return
    if bool(drawn) != want:
        rep.bad('gating', where(f), '%s: the plot is %sdrawn' % (
            t, '' if drawn else 'not '))
        return
    if swapped:
        rep.bad('gating', where(f), '%s: %s is called with other arguments '
                'than the model%s' % (t, swapped[0], ', the figure and the '
                                      'dataset' if needs else ''))
        return
    if want and (len(drawn) != 1 or needs and dataset not in drawn[0] or
                 title not in opened):
        rep.bad('gating', where(f), '%s: drawn %d times, on %s, with %s' % (
            t, len(drawn), opened, ', '.join(show(a) for a in drawn[0])))
        return
    o = I.obj(m).data
    if not soon and o.get('last_inspected_time', NONE) in (NONE, last):
        rep.bad('gating', where(f), '%s: the time of the inspection is not '
                'kept' % t)
        return
    figs = I.reduce(o.get('figs', NONE))
    if figs.op == 'ref':
        figs = I.reduce(I.freeze(figs))
    if want and (figs is NONE or figs.op == 'list' and not figs.args):
        rep.bad('gating', where(f), '%s: the figure is not kept, so that it '
                'does not stay interactive' % t)
        return
    rep.ok(t)


SIZES = (2, 1, 3)
AXES = 'first', 'second', 'third'


def keys(prog, rep):
    """the arrow keys and the sliders of images with additional axes"""
    for kind in KINDS:
        f = func(prog, kind)
        for a in range(SIZES[0]):
            for b in range(SIZES[2]):
                for key, step in (('up', -1), ('down', 1)):
                    t = '%s[key %s at %s]' % (kind, key, (a, 0, b))
                    with rep.guard(t):
                        interact(prog, rep, f, kind, (a, 0, b), t, key, step)
                t = '%s[slider at %s]' % (kind, (a, 0, b))
                with rep.guard(t):
                    interact(prog, rep, f, kind, (a, 0, b), t)


def stand_in(prog, I, name, *args):
    return I.construct(spec.module(prog, 'plots').classes[name], args, {})


def slider(x):
    """the axis that a slider belongs to, from its label"""
    for y in walk(x):
        if y.op == 'const' and y.args[0] in AXES:
            return AXES.index(y.args[0])


def interact(prog, rep, f, kind, at, t, key=None, step=0):
    def show_figure():
        I = M.interp(prog)
        im, _, _ = picture(I, 5)
        I.shapes[im] = tup(*[const(k) for k in SIZES], M.H_, M.W_)
        fig = stand_in(prog, I, 'Figure', sym('canvas', 'obj'), I.newlist([]))
        # the figure has shown this index before
        I.setobj(fig, I.obj(fig).put('plot_idx', I.newlist(
            [const(k) for k in at])))
        I.run(FuncVal(f), (im,), {
            'fig': fig, 'additional_axis_labels': tup(*AXES)})
        return I, im, fig
    I, im, fig = show_figure()
    if I.st is None:
        rep.bad('raises:' + kind, where(f), '%s: always raises' % t)
        return
    rep.saw(I)
    ev = shown(I)
    displayed(prog, rep, I, kind, im, ev, '.imshow', at, t, 'the image')
    for n, d, e, path in ev:
        if n == 'matplotlib.widgets.Slider' and not key:
            ranges(rep, I, kind, d, e, at, t)
    if key:
        for n, d, e, path in ev:
            if n == '.mpl_connect' and d['func'].op == 'func' and \
                    d.get('event') is const('key_press_event'):
                trigger(prog, rep, I, kind, im, fig, d['func'], (stand_in(
                    prog, I, 'Event', const(key), fig),), neighbour(
                        at, step), e, t)
                return
        if not any(x.name == '.mpl_connect' for x, p in walk_events(
                I.st.trace)):
            rep.bad('keys:plot_image', where(f), '%s: no key is connected'
                    % t)
        return
    done = set()
    for k in range(len([1 for n, *r in ev if n == '.on_changed'])):
        I, im, fig = show_figure()
        n, d, e, path = [x for x in shown(I) if x[0] == '.on_changed'][k]
        axis = slider(e.args[0])
        if axis is None or d['func'].op != 'func':
            rep.und(t, 'a slider of an unknown axis')
            continue
        done.add(axis)
        for v in range(SIZES[axis]):
            if v:
                I, im, fig = show_figure()
                n, d, e, path = [x for x in shown(I)
                                 if x[0] == '.on_changed'][k]
            new = list(at)
            new[axis] = v
            trigger(prog, rep, I, kind, im, fig, d['func'], (const(
                float(v)),), new, e, '%s, axis %d to %d' % (t, axis, v))
    if not done and any(x[0] == 'matplotlib.widgets.Slider' for x in ev):
        rep.bad('keys:plot_image', where(f), '%s: moving the sliders has no '
                'effect' % t)


def neighbour(at, step):
    n = at[0] * SIZES[2] + at[2] + step
    n %= SIZES[0] * SIZES[2]
    return n // SIZES[2], 0, n % SIZES[2]


def ranges(rep, I, kind, d, e, at, t):
    """the values a slider can take"""
    axis = slider(mk('tuple', (d['label'],)))
    if axis is None:
        return
    if SIZES[axis] == 1:
        rep.bad('slider:plot_image', e.where, '%s: an axis of length 1 has a '
                'slider' % t)
        return
    for par, want in (('valmin', 0), ('valmax', SIZES[axis] - 1),
                      ('valinit', at[axis])):
        got = d.get(par, NONE)
        what = '%s %s of the slider of axis %d' % (t, par, axis)
        if not is_const(got) or got is NONE:
            rep.und(what, show(got))
        elif cval(got) == want:
            rep.ok(what)
        else:
            rep.bad('slider:plot_image', e.where, '%s is %r, not %r' % (
                what, cval(got), want))


def displayed(prog, rep, I, kind, im, ev, call, index, t, what):
    want = reference(prog, I, 'at_index', const(kind), im, tup(*index))
    n = 0
    for name, d, e, path in ev:
        if name != call:
            continue
        n += 1
        compare(prog, rep, I, e, d.get('X', d.get('data', NONE)), want,
                'shows:' + kind, t, what)
    return n


def trigger(prog, rep, I, kind, im, fig, func, args, new, e, t):
    """what an action of the user changes"""
    before = len(I.st.trace)
    I.call(func, args, {}, None, None)
    if I.st is None:
        rep.bad('raises:' + kind, e.where, '%s: raises' % t)
        return
    ev = shown(I, I.st.trace[before:])
    if not displayed(prog, rep, I, kind, im, ev, '.set_data', new, t,
                     'the image at %s' % (tuple(new),)):
        if any(n == '.imshow' for n, *r in ev):
            displayed(prog, rep, I, kind, im, ev, '.imshow', new, t,
                      'the image at %s' % (tuple(new),))
        elif list(I.st.trace[before:]) == []:
            rep.bad('keys:plot_image', e.where, '%s: nothing changes' % t)
        else:
            rep.und(t, 'the image is not updated')
    for n, d, x, path in ev:
        axis = slider(x.args[0]) if n == '.set_val' else None
        if axis is None:
            continue
        what = '%s: the slider of axis %d' % (t, axis)
        if not is_const(d['val']):
            rep.und(what, show(d['val']))
        elif cval(d['val']) == new[axis]:
            rep.ok(what)
        else:
            rep.bad('slider:plot_image', x.where, '%s is set to %r, the '
                    'image shown is that of %d' % (
                        what, cval(d['val']), new[axis]))


# the options that are handed on to matplotlib
OPTIONS = [(k, ('cmap', 'title', 'cmap_label', 'interpolation'))
           for k in KINDS] + [
    ('plot_colorized', ('title', 'interpolation')),
    ('plot_translations', ('label', 'color', 'marker')),
    ('plot_nanomap', ('cmap', 'cmap_label')),
    ('plot_nanomap_with_images', ('cmap', 'image_title',
                                  'image_colorbar_title',
                                  'nanomap_colorbar_title'))]


def texts(prog, rep):
    """the labels and options the caller gives"""
    for name, options in OPTIONS:
        f = func(prog, name)
        with rep.guard(name + '[texts]'):
            I = M.interp(prog)
            fig, args = sym('fig', 'obj'), None
            I.st.pc[mk('is', (fig, NONE))] = False
            if name in KINDS + ('plot_colorized',):
                args = (picture(I, 2)[0],)
            else:
                fig, tr, vals = cloud(I)
                args = (tr,) if name == 'plot_translations' else (
                    tr, vals if name == 'plot_nanomap' else sym(
                        'get_image', 'func'))
            kw = {o: const('GIVEN %s.' % o) for o in options}
            kw['fig'] = fig
            if name == 'plot_nanomap_with_images':
                kw['values'] = vals
            I.run(FuncVal(f), args, kw)
            if I.st is None:
                rep.bad('raises:' + name, where(f), '%s always raises when '
                        '%s are given' % (name, ', '.join(options)))
                continue
            for o in options:
                t = '%s: the %s' % (name, o)
                z = [(e, a) for e, p in walk_events(I.st.trace)
                     for a in tuple(e.args) + tuple(e.kw.values())
                     if e.kind == 'call' and e.name.startswith(('.', 'mat'))
                     and isinstance(a, T) and any(
                         x.op == 'const' and isinstance(x.args[0], str) and
                         'GIVEN %s.' % o in x.args[0]
                         for x in walk(I.reduce(deep(I, I.freeze(a)))))]
                if not z:
                    rep.bad('ignored:' + name, where(f), '%s that is given '
                            'reaches no call of matplotlib' % t)
                else:
                    rep.ok(t)
