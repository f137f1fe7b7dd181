"""C02: a saved model is restored unchanged."""
from .util import *
from . import models as M
from vg.norm import strip

RULE = ('composition of save_results with from_results_dict, in memory and '
        'through the abstract HDF5 heap, normalised to the identity on every '
        'parameter, buffer, option and history of the model')

BOOLS = ('fourier_probe', 'simulate_probe_translation',
         'simulate_finite_pixels', 'exponentiate_obj', 'phase_only',
         'near_field', 'propagate_probe', 'correct_tilt', 'weight_matrix')
LOSSES = ('amplitude mse', 'poisson nll', 'intensity mse')
# not part of the saved model: presentation and per-epoch accumulators
SKIP = ('panel_plot_mode', 'plot_level', 'last_inspected_time', 'figs',
        'loss_normalizer', 'training', 'loss')
# attributes that are arguments of from_results_dict instead of saved state
PASSED = {'units': 'nm', 'obj_view_crop': 3}


def configs(prog, name, thorough):
    cls = M.model_class(prog, name)
    ps = [p for p in M.params(cls, prog) if p in M.ARGS]
    opt = [p for p in ps if p not in M.NEEDED and p not in BOOLS and p not in
           ('panel_plot_mode', 'plot_level', 'loss', 'units',
            'obj_view_crop')]
    opts = tuple(opt)
    bools = [p for p in ps if p in BOOLS]
    losses = LOSSES if 'loss' in ps else (None,)
    base = {b: FALSE for b in bools}
    yield opts, base, losses[0], 'all fields'
    for l in losses[1:]:
        yield opts, base, l, 'loss ' + l
    for b in bools:
        yield opts, dict(base, **{b: TRUE}), losses[0], b
    skip = set()
    for o in opts:
        yield tuple(x for x in opts if x != o), base, losses[0], 'no ' + o
    yield (), {}, losses[-1], 'defaults'
    for b in bools:
        yield (), {b: TRUE}, losses[0], b + ' only'
    if 'weights' in ps:
        yield opts, dict(base, **{'%weights': TRUE}), losses[0], \
            'weight matrices'
    if thorough:
        for o in opts:
            for b in bools:
                yield tuple(x for x in opts if x != o), \
                    dict(base, **{b: TRUE}), losses[0], 'no %s, %s' % (o, b)
                yield (o,), dict(base, **{b: TRUE}), losses[-1], \
                    'only %s, %s' % (o, b)


def run(prog, rep, thorough):
    for name in M.MODELS:
        for given, over, loss, tag in configs(prog, name, thorough):
            for leg in ('memory', 'h5'):
                t = '%s[%s, %s]' % (name, tag, leg)
                with rep.guard(t):
                    one(prog, rep, name, given, over, loss, t, leg)
    leaves_leg(prog, rep)
    with rep.guard('exits'):
        exits(prog, rep)


def trained(I, m):
    """Give every tensor of the model an arbitrary current value."""
    o = I.obj(m)
    orig = {}
    for k in list(o.data):
        if not (isinstance(k, str) and k.startswith('%reg:')):
            continue
        nm = k[5:]
        v = I.obj(m).data[nm]
        orig[nm] = v
        b = strip(v)
        while b.op in ('astype', 'conv'):
            b = b.args[0] if isinstance(b.args[0], T) else b.args[1]
        if is_const(b) and isinstance(cval(b), bool) or v is NONE:
            continue
        x = sym('current.' + nm, 'tensor')
        sh = ops.shapeof(I, v)
        if sh is not None:
            I.shapes[x] = sh
        I.setobj(m, I.obj(m).put(nm, x))
        I.st.pc[mk('is', (x, NONE))] = False
        orig[nm] = v
    h = I.newlist([sym('loss0', 'float'), sym('loss1', 'float')])
    n = I.obj(m).put('loss_history', h).put('epoch', sym('epoch', 'int')) \
        .put('training_history', sym('training_history', 'str'))
    I.setobj(m, n)
    return orig


def build(prog, name, given, over, loss):
    I = M.interp(prog)
    for nm in ('pixel_to_translations',):
        I.hooks[('call', nm)] = lambda I, fv, args, kw, node, fr: mk(
            'p2t', tuple(I.reduce(a) for a in args), tuple(
                sorted((k, I.reduce(v)) for k, v in kw.items())))
    kw = dict(over)
    wm = kw.pop('%weights', None)
    kw2 = {}
    for k in kw:
        kw2[k] = kw[k]
    if wm is not None:
        kw2['weights'] = M.arg(I, 'weights', None, (M.N_, M.P_, M.P_))
    elif 'weights' in given:
        kw2['weights'] = M.arg(I, 'weights')
    cls = M.model_class(prog, name)
    ps = M.params(cls, prog)
    kw2 = {k: v for k, v in kw2.items() if k in ps}
    if loss is not None and 'loss' in ps:
        kw2['loss'] = const(loss)
    m, _ = M.build(I, prog, name, given=tuple(
        g for g in given if g != 'weights'), **kw2)
    return I, cls, m


def same(I, a, b, scalars=True):
    """'same' | 'diff' | 'unknown'"""
    a, b = strip(deep(I, I.freeze(a))), strip(deep(I, I.freeze(b)))
    a, b = norm_bool(a), norm_bool(b)
    if a is b:
        return 'same', a, b
    if any(x.op == 'unknown' for x in walk(a)) or \
            any(x.op == 'unknown' for x in walk(b)):
        return 'unknown', a, b
    if is_const(a) and is_const(b):
        return ('same' if cval(a) == cval(b) else 'diff'), a, b
    s, g = norm.same_value(a, b)
    if s == 'same':
        return 'same', a, b
    if a is NONE or b is NONE:
        return 'diff', a, b
    if b.op == 'sym':
        return ('diff' if s == 'diff' else 'unknown'), a, b
    return 'unknown', a, b


def norm_bool(t):
    def f(x):
        if x.op == 'astype' and x.args[1].args[0] in ('bool', 'int') and \
                is_const(x.args[0]):
            return x.args[0]
        if x.op == 'conv' and x.args[0] in ('float', 'int', 'bool'):
            y = x.args[1]
            if y.op == 'astype':
                y = y.args[0]
            return norm_bool(y)
        return None
    from vg.terms import rebuild
    t = rebuild(t, lambda x: f(x) or x)
    if t.op == 'astype':
        t = t.args[0]
    return t


def one(prog, rep, name, given, over, loss, tag, leg):
    I, cls, m = build(prog, name, given, over, loss)
    if I.st is None:
        rep.und(tag, 'constructor not resolved')
        return
    orig = trained(I, m)
    before = dict(I.obj(m).data)
    sv = method(prog, cls, 'save_results')
    w = where(sv)
    args = ()
    if 'translations' in M.params(cls, prog) and 'translations' not in given:
        ds = I.new('inst', prog.cls('cdtools.datasets.ptycho_2d_dataset',
                                    'Ptycho2DDataset'),
                   {'translations': sym('dataset.translations', 'tensor')})
        args = (ds,)
    elif 'translations' not in M.params(cls, prog):
        args = ()
    rd = method(prog, cls, 'from_results_dict')
    kw = {}
    ps = [a.arg for a in rd.node.args.args]
    for k, v in PASSED.items():
        if k in ps:
            kw[k] = const(v)
    if leg == 'memory':
        I.noexc = True
        res = I.run(FuncVal(sv), (m,) + args, {})
        rep.saw(I)
        if I.st is None:
            rep.bad('save-raises:' + name + ':' + short(tag), w,
                    'save_results always raises for %s' % tag)
            return
        contents(I, rep, name, m, before, res, tag, w, args, given)
        aliases = None
        m2 = I.run(FuncVal(rd), (mk('class', (cls,)), res), kw)
    else:
        s5 = method(prog, cls, 'save_to_h5')
        I.run(FuncVal(s5), (m, sym('path', 'str')) + args, {})
        if I.st is None:
            if not args:
                rep.bad('save-raises:' + name + ':' + short(tag), w,
                        'save_to_h5 always raises for %s' % tag)
            return
        f5 = method(prog, cls, 'from_results_h5')
        m2 = I.run(FuncVal(f5), (mk('class', (cls,)), sym('path', 'str')),
                   kw)
    rep.saw(I)
    wr = where(rd)
    if I.st is None:
        rep.bad('load-raises:%s:%s' % (name, short(tag)), wr,
                'loading the saved results of %s always raises' % tag)
        return
    m2 = I.reduce(m2)
    if m2.op != 'ref' or I.obj(m2).kind != 'inst':
        rep.und(tag, 'restored model not resolved: ' + show(m2, 4))
        return
    if I.obj(m2).cls is not cls:
        rep.bad('model-class:' + name, wr, 'a %s is restored as %s' % (
            name, I.obj(m2).cls))
        return
    after = I.obj(m2).data
    names = [k for k in before if isinstance(k, str) and not
             k.startswith('%') and k not in SKIP and
             k not in ('units', 'obj_view_slice')]
    view(I, rep, name, before, after, kw, tag, wr)
    for k in names:
        b, a = before[k], after.get(k, UNDEF)
        reg = '%reg:' + k in before
        if a is UNDEF:
            if b is NONE or b is UNDEF:
                rep.ok('%s %s' % (k, tag))
            else:
                rep.bad('not-restored:%s.%s' % (name, k), wr, 'the restored '
                        'model has no %s [%s]' % (k, tag))
            continue
        if k == 'loss_history':
            st, g, e = same(I, a, b)
            if g.op == 'f:ndarray':
                st, g, e = same(I, g.args[0], b)
            g2 = unlist(g)
            if st == 'same' or g2 is unlist(e) or peel_list(g) is e:
                rep.ok('%s %s' % (k, tag))
            elif is_const(g) or g.op == 'list' and not g.args or \
                    wrong_part(g, e):
                rep.bad('not-restored:%s.%s' % (name, k), wr,
                        'the loss history is restored as %s' % show(g, 6))
            else:
                rep.und('%s %s' % (k, tag), '%s vs %s' % (show(g, 6),
                                                          show(e, 6)))
            continue
        st, g, e = same(I, a, b)
        if st == 'same':
            rep.ok('%s %s' % (k, tag))
        elif st == 'diff':
            rep.bad('not-restored:%s.%s' % (name, k), wr,
                    '%s is restored as %s [%s]' % (k, show(g, 6), tag))
        elif reg or k in ('epoch', 'training_history'):
            rep.und('%s %s' % (k, tag), '%s / %s' % (show(g, 6), show(e, 6)))
        elif g.op == 'ref' or e.op == 'ref':
            pass
        else:
            rep.und('%s %s' % (k, tag), '%s / %s' % (show(g, 6), show(e, 6)))
        # a parameter must stay a parameter
        r1, r2 = before.get('%reg:' + k), after.get('%reg:' + k)
        if r1 is not None and r2 is not None and r1 is not r2 and \
                is_const(r1) and is_const(r2):
            rep.bad('kind-changed:%s.%s' % (name, k), wr, '%s was a %s and is '
                    'restored as a %s' % (k, cval(r1), cval(r2)))
    # ---- loss function and its normalizer
    for k in ('loss', 'loss_normalizer'):
        if k not in before:
            continue
        b, a = before[k], I.reduce(after.get(k, UNDEF))
        if k == 'loss':
            if a is b:
                rep.ok('%s %s' % (k, tag))
            elif a.op in ('partial', 'func', 'bound') and b.op in (
                    'partial', 'func', 'bound'):
                rep.bad('not-restored:%s.loss' % name, wr, 'loss %s is '
                        'restored as %s' % (show(b, 4), show(a, 4)))
            else:
                rep.und('%s %s' % (k, tag), '%s / %s' % (show(a, 5),
                                                         show(b, 5)))
        else:
            ca = I.obj(a).cls if a.op == 'ref' else None
            cb = I.obj(b).cls if b.op == 'ref' else None
            if ca is not None and ca is cb:
                rep.ok('%s %s' % (k, tag))
            elif ca is not None and cb is not None:
                rep.bad('not-restored:%s.loss_normalizer' % name, wr,
                        '%s is restored as %s' % (cb, ca))
            else:
                rep.und('%s %s' % (k, tag), show(a, 4))


def view(I, rep, name, before, after, kw, tag, wr):
    """the options of loading itself"""
    got = {}
    for k in ('units', 'obj_view_slice'):
        v = after.get(k, UNDEF)
        if v is not UNDEF:
            got[k] = I.reduce(deep(I, I.freeze(I.reduce(v))))
    if 'units' in kw and 'units' in got:
        if got['units'] is kw['units']:
            rep.ok('units ' + tag)
        elif is_const(got['units']):
            rep.bad('option:%s.units' % name, wr, 'the model is loaded with '
                    'the units %s, not those asked for [%s]' % (
                        show(got['units']), tag))
        else:
            rep.und('units ' + tag, show(got['units']))
    if 'obj_view_crop' in kw and 'obj_view_slice' in got:
        n = cval(kw['obj_view_crop'])
        g = got['obj_view_slice']
        z = mk('slice', (const(n), const(-n), NONE))
        flat = [x for x in walk(g) if x.op == 'slice']
        if g is mk('tuple', (z, z)):
            rep.ok('obj_view_slice ' + tag)
        elif len(flat) == 2 and all(is_const(x) for y in flat
                                    for x in y.args) and any(
                                        y is not z for y in flat):
            rep.bad('option:%s.obj_view_crop' % name, wr, 'the model is '
                    'loaded with the view %s of the object, not cropped by '
                    '%d pixels [%s]' % (show(g), n, tag))
        else:
            rep.und('obj_view_slice ' + tag, show(g))


def short(tag):
    return tag[tag.index('[') + 1:].split(',')[0].rstrip(']').replace(' ',
                                                                      '_')


def unlist(g):
    while g.op in ('list', 'tuple') and len(g.args) == 1 and \
            g.args[0].op == 'splice':
        g = g.args[0].args[0]
    return g


def peel_list(g):
    """list(ndarray([..])) and the like"""
    g = unlist(g)
    while True:
        if g.op in ('f:ndarray', 'f:as_tensor', 'h5read', 'f:tolist') and \
                g.args:
            g = unlist(g.args[0])
        elif g.op == 'comp' and len(g.args) == 2 and g.args[0].op == 'elem' \
                and g.args[0].args[0] is g.args[1]:
            g = unlist(g.args[1])
        elif g.op == 'conv' and g.args[0] in ('list', 'tuple'):
            g = unlist(g.args[1])
        else:
            return g


def wrong_part(g, e):
    p = peel_list(g)
    if p.op == 'index' and peel_list(p.args[0]) is e:
        return True
    return p.op in ('list', 'tuple') and e.op == p.op and not any(
        x.op in ('splice', 'unknown', 'mu') for x in walk(p))


def contents(I, rep, name, m, before, res, tag, w, args, given):
    """The results dictionary holds the whole state and physical values."""
    res = I.reduce(res)
    o = I.obj(res) if res.op == 'ref' else None
    if o is None or o.kind != 'dict' or o.sym is not None:
        rep.und('results ' + tag, show(res, 4))
        return
    sd = I.reduce(o.data.get(const('state_dict'), UNDEF))
    so = I.obj(sd) if sd.op == 'ref' else None
    if so is None:
        rep.bad('no-state-dict:' + name, w, 'the results hold no state_dict')
        return

    def val(k):
        v = before.get(k, UNDEF)
        return None if v is UNDEF or v is NONE else v
    for k in before:
        if isinstance(k, str) and k.startswith('%reg:'):
            nm = k[5:]
            v = so.data.get(const(nm), UNDEF)
            if v is UNDEF:
                rep.bad('not-saved:%s.%s' % (name, nm), w, 'the saved state '
                        'lacks %s [%s]' % (nm, tag))
                continue
            if before[nm] is NONE:
                continue
            st, g, e = same(I, v, before[nm])
            if st == 'same':
                rep.ok('saved %s %s' % (nm, tag))
            elif st == 'diff':
                rep.bad('not-saved:%s.%s' % (name, nm), w, '%s is saved as '
                        '%s [%s]' % (nm, show(g, 5), tag))
            else:
                rep.und('saved %s %s' % (nm, tag), show(g, 5))
    # ---- the fields documented next to the state
    want = {}
    for k in ('obj_basis', 'probe_basis', 'wavelength', 'oversampling',
              'weights', 'obj', 'probe'):
        if val(k) is not None:
            want[k] = [before[k]]
    if val('probe_norm') is not None and val('probe') is not None:
        want['probe'] = [mk('bin', ('*', before['probe'],
                                    before['probe_norm'])),
                         mk('bin', ('*', before['probe_norm'],
                                    before['probe']))]
    if name == 'RPI':
        want['obj'] = [mk('index', (before['obj'], const(0)))]
    if val('background') is not None:
        want['background'] = [mk('bin', ('**', before['background'],
                                         const(2))),
                              mk('bin', ('*', before['background'],
                                         before['background'])),
                              mk('f:square', (before['background'],))]
    tr = None
    if args:
        tr = sym('dataset.translations', 'tensor')
    elif val('original_translations') is not None:
        tr = before['original_translations']
    if tr is not None:
        want['original_translations'] = [tr]
    for k, ws in want.items():
        v = o.data.get(const(k), UNDEF)
        if v is UNDEF:
            if name in M.PTYCHO and (k != 'weights' or
                                     name != 'SimplePtycho') or \
                    name == 'RPI' and k in ('obj', 'probe', 'background',
                                            'obj_basis', 'probe_basis'):
                rep.bad('field-missing:%s.%s' % (name, k), w, 'the results '
                        'lack %s [%s]' % (k, tag))
            continue
        g = norm_bool(strip(deep(I, I.freeze(v))))
        ws = [norm_bool(strip(deep(I, I.freeze(x)))) for x in ws]
        if any(g is x for x in ws):
            rep.ok('field %s %s' % (k, tag))
            continue
        base = {x for y in ws for x in walk(y) if x.op == 'sym' and
                str(x.args[0]).startswith(('current.', 'dataset.'))}
        got = {x for x in walk(g) if x.op == 'sym' and
               str(x.args[0]).startswith(('current.', 'dataset.'))}
        ci = lambda x: x.op == 'index' and is_const(x.args[1])
        if got == base and ci(g) and ci(ws[0]) and \
                g.args[0] is ws[0].args[0] or \
                got != base and not any(x.op == 'unknown' for x in walk(g)):
            rep.bad('field-wrong:%s.%s' % (name, k), w, 'results[%r] is %s, '
                    'not %s [%s]' % (k, show(g, 6), show(ws[0], 6), tag))
            continue
        p = norm.laurent(g, before[k]) if k in before else None
        q = norm.laurent(ws[0], before[k]) if k in before else None
        if p is not None and q is not None and p != q and all(
                isinstance(x, (int, float)) for x in p.values()):
            rep.bad('field-wrong:%s.%s' % (name, k), w, 'results[%r] is %s, '
                    'not %s [%s]' % (k, show(g, 6), show(ws[0], 6), tag))
        elif g.op == 'bin' and ws[0].op == 'bin' and g.args[0] != \
                ws[0].args[0] and set(g.args[1:]) == set(ws[0].args[1:]):
            rep.bad('field-wrong:%s.%s' % (name, k), w, 'results[%r] is %s, '
                    'not %s [%s]' % (k, show(g, 6), show(ws[0], 6), tag))
        else:
            rep.und('field %s %s' % (k, tag), show(g, 6))
    if tr is not None and name in M.PTYCHO:
        corrected(I, rep, name, before, o, tr, tag, w, val)
    lf = o.data.get(const('loss_history'))
    if lf is None:
        rep.bad('field-missing:%s.loss_history' % name, w, 'the results lack '
                'the loss history')


def corrected(I, rep, name, before, o, tr, tag, w, val):
    """Saved translations = nominal ones + the offsets, in length units."""
    v = o.data.get(const('translations'), UNDEF)
    if v is UNDEF:
        rep.bad('field-missing:%s.translations' % name, w, 'the results lack '
                'the translations')
        return
    g = strip(deep(I, I.freeze(v)))
    off, sc = val('translation_offsets'), val('translation_scale')
    ln = norm.lin(g)
    rest = {k: c for k, c in ln.items() if k is not strip(tr)}
    if ln.get(strip(tr)) != 1:
        if any(x.op == 'unknown' for x in walk(g)) or g.op == 'phi':
            rep.und('translations ' + tag, show(g, 5))
        else:
            rep.bad('translations-wrong:' + name, w, 'the saved translations '
                    'are %s' % show(g, 5))
        return
    if off is None:
        if not rest:
            rep.ok('translations ' + tag)
        else:
            rep.und('translations ' + tag, show(g, 5))
        return
    if not rest:
        rep.bad('offsets-ignored:' + name, w, 'the saved translations leave '
                'out the refined offsets')
        return
    if len(rest) != 1:
        rep.und('translations ' + tag, show(g, 5))
        return
    a, c = list(rest.items())[0]
    if a is None or a.op != 'p2t':
        rep.und('translations ' + tag, show(g, 5))
        return
    if c != 1:
        rep.bad('offsets-scaled:' + name, w, 'the offsets enter the saved '
                'translations with factor %s' % c)
        return
    bas, pix = a.args[:2] if len(a.args) > 1 else (None, None)
    if pix is None:
        rep.und('translations ' + tag, show(a, 5))
        return
    sc = strip(sc)
    if bas is not strip(before['obj_basis']):
        if bas is strip(before.get('probe_basis', NONE)):
            rep.bad('offsets-basis:' + name, w, 'the offsets, in object '
                    'pixels, are converted with the probe basis')
        else:
            rep.und('translations ' + tag, show(bas, 5))
        return
    pix = norm_bool(pix)
    sc = norm_bool(sc)
    ok = {mk('bin', ('*', off, sc)), mk('bin', ('*', sc, off))}
    if pix in ok:
        rep.ok('translations ' + tag)
    elif pix is off:
        rep.bad('offsets-unscaled:' + name, w, 'the offsets enter the saved '
                'translations without the translation scale')
    elif pix.op == 'bin' and pix.args[0] == '/':
        rep.bad('offsets-scaled:' + name, w, 'the saved offsets are %s' %
                show(pix, 5))
    else:
        rep.und('translations ' + tag, show(pix, 5))


def leaves_leg(prog, rep):
    """Every kind of leaf survives each leg on its own."""
    mod = 'cdtools.tools.data.data'
    kinds = [('array', 'ndarray'), ('tensor', 'tensor'), ('number', 'float'),
             ('count', 'int'), ('flag', 'bool'), ('text', 'str')]
    for leg in ('h5', 'numpy', 'torch'):
        with rep.guard('leaves ' + leg):
            I = M.interp(prog)
            leafs = {k: sym(k, ty) for k, ty in kinds}
            inner = I.newdict([(const(k), v) for k, v in leafs.items()])
            d = I.newdict([(const(k), v) for k, v in leafs.items()] +
                          [(const('nested'), inner)])
            if leg == 'h5':
                wf = prog.func(mod, 'nested_dict_to_h5')
                rf = prog.func(mod, 'h5_to_nested_dict')
                I.run(FuncVal(wf), (sym('path', 'str'), d), {})
                w = where(wf)
                if I.st is None:
                    rep.bad('h5-write-raises', w, 'writing always raises')
                    continue
                r = I.run(FuncVal(rf), (sym('path', 'str'),), {})
                w = where(rf)
            else:
                rf = prog.func(mod, 'nested_dict_to_' + leg)
                r = I.run(FuncVal(rf), (d,), {})
                w = where(rf)
            rep.saw(I)
            if I.st is None:
                rep.bad('%s-leg-raises' % leg, w, 'reading always raises')
                continue
            r = I.reduce(r)
            cmp_leaves(I, rep, r, leafs, leg, w, True)


def recast(x):
    """a conversion to one fixed number type"""
    if x.op in ('f:float', 'f:double', 'f:half', 'f:int', 'f:long', 'f:bool',
                'f:real', 'f:float32', 'f:float64', 'f:complex64'):
        return True
    if x.op in ('f:astype', 'f:to', 'f:as_tensor', 'f:ndarray', 'f:tensor'):
        d = [dict(x.kw).get('dtype')] + list(x.args[1:])
        return any(isinstance(y, T) and (
            norm.nonfloat_dtype(y) or y.op == 'ext' and norm.float_dtype(y)
            or is_const(y) and isinstance(cval(y), str) and cval(y) in
            norm.FLOATS) for y in d if y is not None)
    return False


def cmp_leaves(I, rep, r, leafs, leg, w, nested):
    o = I.obj(r) if r.op == 'ref' else None
    if o is None or o.kind != 'dict' or o.sym is not None:
        rep.und('leaves ' + leg, show(r, 4))
        return
    for k, v in leafs.items():
        g = o.data.get(const(k), UNDEF)
        nm = '%s leaf through %s%s' % (k, leg, '' if nested else ', nested')
        if g is UNDEF:
            rep.bad('leaf-lost:%s:%s' % (leg, k), w, nm + ' is lost')
            continue
        st, a, b = same(I, g, v)
        cast = [x for x in walk(deep(I, I.freeze(g))) if recast(x)] if \
            k in ('array', 'tensor') else []
        if cast:
            rep.bad('leaf-recast:%s:%s' % (leg, k), loc(cast[0]), nm +
                    ' is converted to %s whatever its type was' % show(
                        cast[0], 3))
        elif st == 'same':
            rep.ok(nm)
        elif st == 'diff':
            rep.bad('leaf-changed:%s:%s' % (leg, k), w, nm + ' becomes %s' %
                    show(a, 5))
        else:
            rep.und(nm, show(a, 6))
    if nested:
        n = o.data.get(const('nested'), UNDEF)
        n = I.reduce(n)
        if n is UNDEF:
            rep.bad('leaf-lost:%s:nested' % leg, w, 'nested entries are lost')
        else:
            cmp_leaves(I, rep, n, leafs, leg, w, False)


def exits(prog, rep):
    pass
