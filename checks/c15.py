"""C15: operations on a dataset keep its fields in step."""
from .util import *

from . import models as M, spec
from vg.terms import rebuild

RULE = ('each operation is interpreted on a dataset with arbitrary fields, '
        'with every field present and with each optional one absent; every '
        'field afterwards is compared with what the definition of the '
        'operation gives, and untouched fields with what they were')
MOD = 'cdtools.datasets.ptycho_2d_dataset'
N_, H_, W_ = M.N_, M.H_, M.W_
FIELDS = {'translations': (N_, 3), 'patterns': (N_, H_, W_),
          'mask': (H_, W_), 'background': (H_, W_), 'qe_mask': (H_, W_),
          'intensities': (N_,), 'wavelength': ()}
OPTIONAL = ('mask', 'background', 'qe_mask', 'intensities')


def fresh(prog, absent=(), hooks=None):
    I = M.interp(prog, hooks)
    cls = prog.cls(MOD, 'Ptycho2DDataset')
    at = {}
    for n, s in FIELDS.items():
        x = sym('dataset.' + n, 'tensor')
        I.shapes[x] = tup(*s)
        I.learn(I.st, mk('is', (x, NONE)), False)
        at[n] = NONE if n in absent else x
    g = {}
    for n, s in (('distance', ()), ('basis', (3, 2)), ('corner', (3,))):
        x = sym('detector_geometry.' + n, 'tensor')
        I.shapes[x] = tup(*s)
        I.learn(I.st, mk('is', (x, NONE)), False)
        if n not in absent:
            g[n] = x
    at['detector_geometry'] = I.newdict([(const(k), v) for k, v in g.items()])
    I.learn(I.st, mk('truth', (at['detector_geometry'],)), True)
    at['entry_info'] = NONE
    at['sample_info'] = NONE
    at['axes'] = NONE
    at['get_as_args'] = mk('tuple', (
        mk('tuple', ()), I.newdict([(const('device'), const('cpu'))])))
    return I, cls, I.new('inst', cls, at)


def field(I, d, n):
    o = I.obj(d)
    if n in ('basis', 'corner', 'distance'):
        g = I.reduce(o.data['detector_geometry'])
        go = I.obj(g)
        if go is None:
            return None
        v = go.data.get(const(n))
    else:
        v = o.data.get(n)
    return None if v is None else deep(I, I.freeze(I.reduce(v)))


ALL = list(FIELDS) + ['basis', 'corner', 'distance']


def run(prog, rep, thorough):
    cls = prog.cls(MOD, 'Ptycho2DDataset')
    for absent in [()] + [(o,) for o in OPTIONAL]:
        tag = ' without %s' % absent if absent else ''
        if 'mask' not in absent:
            shaped(prog, rep, cls, 'downsample', [
                ('', (), {}), ('factor', (sym('factor', 'int'),), {})],
                absent, tag)
        p = sym('pad', 'int')
        quad = tup(*[sym('pad%d' % i, 'int') for i in range(4)])
        pair = tup(*[sym('pad%d' % i, 'int') for i in range(2)])
        shaped(prog, rep, cls, 'pad', [
            ('int', (p,), {}), ('pair', (pair,), {}), ('four', (quad,), {}),
            ('value', (quad,), {'value': sym('value', 'float')}),
            ('live', (quad,), {'mask': FALSE}),
            ('masked', (quad,), {'mask': TRUE})], absent, tag)
    selecting(prog, rep, cls)
    split(prog, rep, cls)
    loading(prog, rep, cls)
    ctor(prog, rep, cls)


def sub(I, x):
    return deep(I, I.freeze(I.reduce(x)))


def boolnf(t):
    """A boolean array as (atoms, truth table over them)."""
    atoms = []

    def atom(x, pol):
        if x not in atoms:
            atoms.append(x)
        i = atoms.index(x)
        return lambda v: v[i] == pol

    def go(x):
        if x.op in ('f:as_tensor', 'f:clone', 'f:tensor', 'f:ndarray',
                    'f:detach', 'f:cpu', 'f:numpy', 'f:from_numpy'):
            return go(x.args[0])
        if x.op in ('f:astype', 'astype', 'f:to', 'f:bool'):
            if x.op == 'f:bool' or any(
                    isinstance(y, T) and y.op == 'ext' and
                    y.args[0].split('.')[-1].strip('_') == 'bool'
                    for y in list(x.args[1:]) + [v for _, v in x.kw]):
                return go(x.args[0])
        if x.op == 'not' or x.op == 'invert' or x.op == 'f:logical_not' or \
                x.op == 'f:invert' or x.op == 'f:bitwise_not':
            f = go(x.args[0])
            return lambda v: not f(v)
        a = None
        if x.op == 'bin' and x.args[0] in ('&', '|', '^', '*'):
            o, a = x.args[0], x.args[1:]
        elif x.op in ('f:logical_and', 'f:logical_or', 'f:logical_xor',
                      'f:bitwise_and', 'f:bitwise_or'):
            o = {'and': '&', 'or': '|', 'xor': '^'}[x.op.split('_')[1]]
            a = x.args
        if a is not None and len(a) == 2:
            f, g = go(a[0]), go(a[1])
            if o in '&*':
                return lambda v: f(v) and g(v)
            if o == '|':
                return lambda v: f(v) or g(v)
            return lambda v: f(v) != g(v)
        if x.op == 'cmp' and len(x.args) == 3:
            o, p, q = x.args
            if o in ('==', '!='):
                for u, c in ((p, q), (q, p)):
                    if is_const(c) and cval(c) in (0, 1, True, False):
                        f = go(u)
                        w = (o == '==') == bool(cval(c))
                        return lambda v: f(v) == w
                if str(p.n) > str(q.n):
                    p, q = q, p
                return atom(mk('cmp', ('==', p, q)), o == '==')
            p, q = ends(p), ends(q)
            if o in ('>', '>='):
                o, p, q = {'>': '<', '>=': '<='}[o], q, p
            # p <= q is not (q < p)
            if o == '<=':
                return atom(mk('cmp', ('<', q, p)), False)
            return atom(mk('cmp', ('<', p, q)), True)
        return atom(x, True)
    f = go(t)
    if len(atoms) > 10:
        return None
    order = sorted(range(len(atoms)), key=lambda i: show(atoms[i], 20))
    rows = []
    for k in range(1 << len(atoms)):
        v = [None] * len(atoms)
        for j, i in enumerate(order):
            v[i] = bool(k >> j & 1)
        rows.append(bool(f(v)))
    return tuple(atoms[i] for i in order), tuple(rows)


def ends(x):
    """smaller and larger of two values, however they are computed"""
    y = x
    while y.op in ('conv', 'f:as_tensor', 'f:tensor', 'f:float'):
        z = [a for a in y.args if isinstance(a, T)]
        if not z:
            return x
        y = z[0]
    if y.op == 'index' and len(y.args) == 2 and is_const(y.args[1]):
        b, i = y.args[0], cval(y.args[1])
        if b.op in ('list', 'tuple') and len(b.args) == 1 and \
                b.args[0].op == 'splice':
            b = b.args[0].args[0]
        if b.op in ('sorted', 'f:sorted', 'f:sort') and b.args[0].op in (
                'tuple', 'list') and len(b.args[0].args) == 2:
            n = 'least' if i in (0, -2) else 'largest'
            return mk(n, tuple(sorted(b.args[0].args, key=show)))
    if y.op in ('min', 'max', 'f:min', 'f:max', 'f:minimum', 'f:maximum'):
        a = y.args
        if len(a) == 1 and a[0].op in ('tuple', 'list'):
            a = a[0].args
        if len(a) == 2 and all(isinstance(z, T) for z in a):
            return mk('least' if 'min' in y.op else 'largest',
                      tuple(sorted(a, key=show)))
    return x


def picked(v, base):
    """the index by which v was taken from base, or None"""
    while v.op in ('f:clone', 'f:contiguous', 'f:as_tensor'):
        v = v.args[0]
    if v.op == 'index' and v.args[0] is base and len(v.args) == 2:
        i = v.args[1]
        if i.op == 'tuple' and len(i.args) >= 1 and all(
                (z.op == 'slice' and all(y is NONE for y in z.args)) or
                is_const(z) and cval(z) is Ellipsis for z in i.args[1:]):
            i = i.args[0]
        return i
    return None


PER_SHOT = ('patterns', 'translations', 'intensities')


def chosen(prog, rep, name, I, d, before, want, w, t):
    """patterns, translations, intensities keep the same, wanted exposures"""
    for n in PER_SHOT:
        got = field(I, d, n)
        if before[n] is NONE:
            if got is NONE:
                rep.ok('%s %s' % (t, n))
            else:
                rep.bad('presence:%s.%s' % (name, n), w, '%s: %s is %s' % (
                    t, n, show(got, 3)))
            continue
        if got is before[n]:
            rep.bad('not-updated:%s.%s' % (name, n), w, '%s: %s keeps all '
                    'exposures' % (t, n))
            continue
        i = picked(got, before[n])
        others = [x for x in PER_SHOT + ('mask', 'background') if x != n and
                  picked(got, before[x]) is not None]
        if i is None:
            if others:
                rep.bad('mixed-up:%s.%s' % (name, n), w, '%s: %s is taken '
                        'from %s' % (t, n, others[0]))
            else:
                rep.und('%s %s' % (t, n), show(got, 5))
            continue
        if want is None:
            continue
        if i.op == 'slice' or is_const(i):
            rep.bad('selection:%s.%s' % (name, n), w, '%s: %s keeps the '
                    'exposures %s, whichever were to be kept' % (
                        t, n, show(i, 6)))
            continue
        a, b = boolnf(i), boolnf(want)
        if a is None or a == b:
            rep.ok('%s %s' % (t, n))
        elif a[0] == b[0] or all(plain(x) for x in a[0]):
            rep.bad('selection:%s.%s' % (name, n), w, '%s: %s keeps the '
                    'exposures where %s' % (t, n, show(i, 9)))
        else:
            rep.und('%s %s' % (t, n), show(i, 7))
    for n in ALL:
        if n not in PER_SHOT:
            settle(rep, I, name, n, field(I, d, n), before[n], before[n], w,
                   t)


PLAIN = ('cmp', 'index', 'tuple', 'slice', 'const', 'sym', 'least',
         'largest', 'invert', 'not')


def plain(x):
    return all(y.op in PLAIN for y in walk(x))


def selecting(prog, rep, cls):
    m = sym('mask_remove', 'tensor')
    roi = tup(*[sym('roi%d' % i, 'float') for i in range(4)])
    for absent in [()] + [(o,) for o in OPTIONAL]:
        tag = ' without %s' % absent if absent else ''
        for name, arg in (('remove_translations_mask', m),
                          ('crop_translations', roi)):
            t = name + tag
            with rep.guard(t):
                f = method(prog, cls, name)
                I, _, d = fresh(prog, absent)
                I.shapes[m] = tup(N_)
                before = {n: field(I, d, n) for n in ALL}
                I.run(FuncVal(f), (d, arg), {})
                rep.saw(I)
                if I.st is None:
                    rep.bad('raises:' + name, where(f), t + ' always raises')
                    continue
                if arg is m:
                    want = mk('invert', (m,))
                else:
                    tr = before['translations']
                    full = mk('slice', (NONE, NONE, NONE))
                    want = None
                    for k in (0, 1):
                        x = mk('index', (tr, tup(full, k)))
                        e = tuple(sorted(arg.args[2 * k:2 * k + 2], key=show))
                        for c in (mk('cmp', ('<=', mk('least', e), x)),
                                  mk('cmp', ('<=', x, mk('largest', e)))):
                            want = c if want is None else mk('bin', (
                                '&', want, c))
                chosen(prog, rep, name, I, d, before, want, where(f), t)


def split(prog, rep, cls):
    f = method(prog, cls, 'split')
    w = where(f)
    for absent in [()] + [(o,) for o in OPTIONAL]:
        t = 'split' + (' without %s' % absent if absent else '')
        with rep.guard(t):
            I, _, d = fresh(prog, absent)
            before = {n: field(I, d, n) for n in ALL}
            r = I.reduce(I.run(FuncVal(f), (d,), {}))
            rep.saw(I)
            if I.st is None or r.op not in ('tuple', 'list', 'ref'):
                rep.und(t, 'no result')
                continue
            if r.op == 'ref':
                r = I.freeze(r)
            if len(r.args) != 2:
                rep.bad('structure:split', w, '%s: %d parts' % (
                    t, len(r.args)))
                continue
            sels = []
            for k, x in enumerate(r.args):
                if I.obj(x) is None:
                    rep.und(t, show(x, 3))
                    break
                i = picked(field(I, x, 'patterns'), before['patterns'])
                chosen(prog, rep, 'split', I, x, before, i, w,
                       '%s part %d' % (t, k + 1))
                sels.append(i)
                o = I.obj(x)
                g = I.reduce(o.data['detector_geometry'])
                if x is d or g is I.reduce(
                        I.obj(d).data['detector_geometry']):
                    rep.bad('shared:split', w, '%s: part %d shares %s with '
                            'the dataset it was split from' % (
                                t, k + 1, 'everything' if x is d else
                                'the detector geometry'))
                else:
                    rep.ok('%s part %d is independent' % (t, k + 1))
            for n in ALL:
                settle(rep, I, 'split', n, field(I, d, n), before[n],
                       before[n], w, t + ' (original)')
            if len(sels) != 2 or None in sels:
                rep.und(t + ' partition', 'selection unknown')
                continue
            a, b = boolnf(sels[0]), boolnf(mk('invert', (sels[1],)))
            if a == b:
                rep.ok(t + ' partition')
            elif a[0] == b[0]:
                rep.bad('partition:split', w, '%s: the parts keep %s and %s: '
                        'they do not partition the exposures' % (
                            t, show(sels[0], 4), show(sels[1], 4)))
            else:
                rep.und(t + ' partition', '%s / %s' % (
                    show(sels[0], 4), show(sels[1], 4)))
            covers(rep, I, a[0], w, t)


def covers(rep, I, atoms, w, t):
    """the fixed selection is repeated often enough, and cut to the number
    of exposures"""
    t += ' selection'
    for s in atoms:
        rnd = [x for x in walk(s) if 'rand' in x.op and x.op != 'sym' and
               not x.op.startswith('global:') or x.op == 'unknown']
        if rnd:
            rep.bad('not-reproducible:split', w, '%s: the selection depends '
                    'on %s' % (t, show(rnd[0], 3)))
            continue
        sl = [x for x in walk(s) if x.op == 'slice']
        reps = [x for x in walk(s) if x.op == 'bin' and x.args[0] == '*' and
                any(isglobal(y) for y in x.args[1:])]
        if len(sl) != 1 or len(reps) != 1:
            rep.und(t, show(s, 6))
            continue
        end = sl[0].args[1]
        k = [y for y in reps[0].args[1:] if not (
            isglobal(y))]
        if end is not N_ or sl[0].args[0] not in (NONE, const(0)):
            rep.bad('selection-length:split', w, '%s: the selection is cut '
                    'to %s for N exposures' % (t, show(sl[0], 4)))
            continue
        n = k[0] if k else None
        while n is not None and n.op == 'conv':
            n = [y for y in n.args if isinstance(y, T)][0]
        q = None
        if n is not None and n.op == 'f:ceil':
            q = n.args[0]
        if n is not None and n.op == 'neg':
            q = n.args[0]
        if q is not None:
            rep.ok(t)
        elif n is not None and floored(n):
            rep.bad('selection-length:split', w, '%s: the selection is '
                    'repeated %s times, which is too short' % (t, show(n, 5)))
        else:
            rep.und(t, show(s, 6))


def floored(n):
    """a number of repeats which is too small for some N"""
    if n.op in ('f:max', 'max', 'f:maximum'):
        v = n.args[0].args if len(n.args) == 1 else n.args
        return all(isinstance(y, T) and floored(y) for y in v)
    if n.op == 'f:floor' or n.op == 'conv':
        return any(isinstance(y, T) and (floored(y) or y.op == 'bin' and
                   y.args[0] == '/' and y.args[1] is N_) for y in n.args)
    return is_const(n) or n.op == 'bin' and n.args[0] == '//' and \
        n.args[1] is N_


def isglobal(y):
    return y.op in ('list', 'tuple', 'global') or y.op == 'sym' and str(
        y.args[0]).startswith('global:')


def loading(prog, rep, cls):
    base = prog.cls('cdtools.datasets.base', 'CDataset')
    f = method(prog, cls, '__getitem__')
    n = method(prog, cls, '__len__')
    w = where(f)
    with rep.guard('len'):
        I, _, d = fresh(prog)
        v = I.reduce(I.run(FuncVal(n), (d,), {}))
        rep.saw(I)
        if v is N_:
            rep.ok('len')
        elif is_const(v) or v in (H_, W_) or v.op == 'bin':
            rep.bad('len', where(n), 'len(dataset) is %s' % show(v))
        else:
            rep.und('len', show(v))
    dev, typ = sym('device', 'device'), sym('dtype', 'dtype')
    for how, a, k in (('', None, None), ('positional', (dev,), {}),
                      ('device', (), {'device': dev}),
                      ('dtype', (), {'dtype': typ}),
                      ('both', (dev,), {'dtype': typ})):
        for ix in (sym('index', 'int'), sym('index', 'tensor'),
                   mk('slice', (sym('a', 'int'), sym('b', 'int'), NONE))):
            t = 'dataset[%s] %s' % (show(ix), how and 'as ' + how)
            with rep.guard(t):
                I, _, d = fresh(prog)
                if a is not None:
                    I.run(FuncVal(method(prog, cls, 'get_as')), (d,) + a,
                          dict(k))
                r = sub(I, I.run(FuncVal(f), (d, ix), {}))
                rep.saw(I)
                if r.op not in ('tuple', 'list') or len(r.args) != 2:
                    rep.und(t, show(r, 4))
                    continue
                ins, outp = r.args
                if ins.op not in ('tuple', 'list') or len(ins.args) != 2:
                    rep.und(t, show(r, 4))
                    continue
                for what, v, b in (('inputs[1]', ins.args[1],
                                    'translations'),
                                   ('output', outp, 'patterns')):
                    s = norm.strip(v)
                    want = mk('index', (sym('dataset.' + b, 'tensor'), ix))
                    if s is want or picked(s, want.args[0]) is ix:
                        rep.ok('%s %s' % (t, what))
                    elif s.op in ('index', 'sym') and all(
                            y.op in PLAIN or y.op == 'bin'
                            for y in walk(s)):
                        rep.bad('loads:' + what, w, '%s: %s is %s' % (
                            t, what, show(s)))
                    else:
                        rep.und('%s %s' % (t, what), show(v, 5))
                    for x in [] if a is None else list(a) + list(k.values()):
                        if any(y is x for y in walk(v)):
                            rep.ok('%s %s is moved' % (t, what))
                        else:
                            rep.bad('not-moved:' + what, w, '%s: %s is not '
                                    'given as %s, which get_as asked for' % (
                                        t, what, show(x)))
                s = norm.strip(ins.args[0])
                if s is norm.strip(ix):
                    rep.ok(t + ' index')
                elif s.op in ('index', 'sym', 'const', 'bin'):
                    rep.bad('loads:index', w, '%s: the first input is %s' % (
                        t, show(s)))
                else:
                    rep.und(t + ' index', show(s))
    f = method(prog, cls, 'to')
    w = where(f)
    for how, a, k in (('device', (), {'device': dev}),
                      ('positional device', (dev,), {}),
                      ('dtype', (), {'dtype': typ}),
                      ('positional dtype', (mk('ext', (
                          'torch.float32',)),), {}),
                      ('both', (dev,), {'dtype': typ})):
        for absent in [()] + [(o,) for o in OPTIONAL[:3]]:
            t = 'to(%s)%s' % (how, ' without %s' % absent if absent else '')
            with rep.guard(t):
                I, _, d = fresh(prog, absent)
                I.run(FuncVal(f), (d,) + a, dict(k))
                rep.saw(I)
                if I.st is None:
                    rep.bad('raises:to', w, t + ' always raises')
                    continue
                for n in ('patterns', 'translations', 'mask', 'background',
                          'qe_mask'):
                    v = field(I, d, n)
                    if n in absent:
                        if v is NONE:
                            rep.ok('%s %s' % (t, n))
                        continue
                    if norm.strip(v) is not sym('dataset.' + n, 'tensor') \
                            and norm.strip(v).op in ('sym', 'const'):
                        rep.bad('to:' + n, w, '%s: %s becomes %s' % (
                            t, n, show(v, 3)))
                        continue
                    ask = list(a) + list(k.values())
                    if n == 'mask':
                        ask = [x for x in ask if x is dev]
                    miss = [x for x in ask if not any(
                        y is x for y in walk(v))]
                    if miss:
                        rep.bad('to:' + n, w, '%s: %s is not moved to %s' % (
                            t, n, show(miss[0])))
                    elif n == 'mask' and not boolean(v, a, k):
                        rep.bad('to:mask-type', w, '%s: the mask does not '
                                'stay boolean' % t)
                    else:
                        rep.ok('%s %s' % (t, n))


def boolean(v, a, k):
    """no dtype is applied, or a boolean one last"""
    if v.op in ('f:bool',):
        return True
    bad = [x for x in list(a) + list(k.values())
           if x.op == 'ext' or x.op == 'sym' and x.args[1] == 'dtype']
    if v.op in ('f:to', 'astype', 'f:type'):
        own = list(v.args[1:]) + [y for _, y in v.kw]
        if any(isinstance(y, T) and y.op == 'ext' and
               y.args[0].split('.')[-1].strip('_') == 'bool' or y == 'bool'
               or isinstance(y, T) and y.op == 'attr' and
               y.args[1] == 'dtype' for y in own):
            return True
        if any(y in bad for y in own):
            return False
        return boolean(v.args[0], a, k)
    return not any(y in bad for y in walk(v))


def ctor(prog, rep, cls):
    f = method(prog, cls, '__init__')
    w = where(f)
    for absent in [()] + [(o,) for o in OPTIONAL]:
        t = 'Ptycho2DDataset()%s' % (' without %s' % absent if absent else '')
        with rep.guard(t):
            I, kw, g, d = construct(prog, cls, absent)
            rep.saw(I)
            if I.st is None or I.obj(d) is None:
                rep.bad('raises:init', w, t + ' always raises')
                continue
            J, kw2, _, _ = construct(prog, cls, absent, False)
            names = ('translations', 'patterns', 'mask', 'qe_mask',
                     'background', 'intensities')
            r = J.run(FuncVal(spec.ref(prog, 'datasets', 'init')), tuple(
                kw2.get(n, NONE) for n in names), {})
            want = {cval(a): deep(J, J.freeze(J.reduce(b)))
                    for a, b in J.obj(J.reduce(r)).data.items()}
            for n in names:
                v = field(I, d, n)
                settle(rep, I, 'init', n, v, want[n], None, w, t)
                if n != 'mask' and v is not None and integral(v):
                    rep.bad('init-integer:' + n, w, '%s: %s is converted to '
                            'integers' % (t, n))
            for n in ('wavelength', 'distance', 'basis', 'corner'):
                v = field(I, d, n)
                x = kw[n] if n in kw else sym(
                    {'basis': 'det_basis'}.get(n, n), 'tensor')
                if v is not None and norm.strip(v) is x:
                    rep.ok('%s %s' % (t, n))
                elif v is None or v.op in ('sym', 'const'):
                    rep.bad('init:' + n, w, '%s: %s is %s' % (
                        t, n, 'lost' if v is None else show(v)))
                else:
                    rep.und('%s %s' % (t, n), show(v, 4))
            o = I.obj(d)
            for n in ('entry_info', 'sample_info', 'detector_geometry',
                      'axes'):
                v = I.reduce(o.data.get(n, UNDEF))
                if v is kw[n]:
                    rep.bad('init-shared:' + n, w, '%s: %s is the very object '
                            'the caller gave: changing one changes the other'
                            % (t, n))
                elif v.op == 'ref' and deep(I, I.freeze(v)) is deep(
                        I, I.freeze(kw[n])):
                    rep.ok('%s %s' % (t, n))
                elif is_const(v) or v.op == 'undef':
                    rep.bad('init:' + n, w, '%s: %s is %s' % (t, n, show(v)))
                else:
                    rep.und('%s %s' % (t, n), show(v, 4))


def integral(v):
    for x in walk(v):
        if x.op in ('f:as_tensor', 'f:tensor', 'f:to', 'f:ndarray',
                    'f:astype', 'astype', 'f:type'):
            for y in list(x.args[1:]) + [z for _, z in x.kw]:
                n = y.args[0] if isinstance(y, T) and y.op == 'ext' else y
                if isinstance(n, str) and n.split('.')[-1] in (
                        'int', 'int32', 'int64', 'long', 'bool', 'uint8',
                        'int16', 'short'):
                    return True
    return False


def construct(prog, cls, absent, run=True):
    I = M.interp(prog)
    g = M.geometry(I)
    kw = {}
    for n, s in FIELDS.items():
        if n in absent:
            continue
        x = sym(n, 'ndarray')
        I.shapes[x] = tup(*s)
        I.learn(I.st, mk('is', (x, NONE)), False)
        kw[n] = x
    kw['detector_geometry'] = g
    for n in ('entry_info', 'sample_info'):
        kw[n] = I.newdict([(const('k'), sym(n + '.k', 'str'))])
    kw['axes'] = I.newlist([const('x'), const('y')])
    d = I.construct(cls, (), kw) if run else None
    return I, kw, g, d


def shaped(prog, rep, cls, name, cases, absent, tag):
    f = method(prog, cls, name)
    g = spec.ref(prog, 'datasets', name)
    for c, args, kw in cases:
        t = '%s[%s]%s' % (name, c, tag)
        with rep.guard(t):
            I, _, d = fresh(prog, absent)
            before = {n: field(I, d, n) for n in ALL}
            I.run(FuncVal(f), (d,) + args, dict(kw))
            rep.saw(I)
            if I.st is None:
                rep.bad('raises:' + name, where(f), t + ' always raises')
                continue
            J, _, e = fresh(prog, absent)
            r = J.run(FuncVal(g), (e,) + args, dict(kw))
            want = dict(before)
            for k, v in J.obj(J.reduce(r)).data.items():
                want[cval(k)] = deep(J, J.freeze(J.reduce(v)))
            for n in ALL:
                settle(rep, I, name, n, field(I, d, n), want[n],
                       before[n], where(f), t)


POOL = ('f:F.avg_pool2d', 'f:F.max_pool2d', 'f:avg_pool2d', 'f:max_pool2d')


def lead(x):
    """(array, number of singleton axes put in front of it)"""
    n = 0
    while True:
        if x.op == 'f:unsqueeze':
            d = dict(x.kw).get('dim', x.args[1] if len(x.args) > 1 else None)
            if d is None or cval(d) != 0:
                return x, n
            x, n = x.args[0], n + 1
        elif x.op == 'index' and len(x.args) == 2:
            i = x.args[1].args if x.args[1].op == 'tuple' else (x.args[1],)
            full = [y for y in i if not (
                y is NONE or is_const(y) and cval(y) is Ellipsis or
                y.op == 'slice' and all(z is NONE for z in y.args))]
            k = 0
            while k < len(i) and i[k] is NONE:
                k += 1
            if full or not k or any(y is NONE for y in i[k:]):
                return x, n
            x, n = x.args[0], n + k
        else:
            return x, n


def untyped(x):
    while x.op in ('f:to', 'astype', 'f:bool', 'f:astype', 'f:float'):
        x = x.args[0]
    return x


def fills(x):
    """ways to fill in values under a mask"""
    if x.op in ('f:masked_fill', 'f:masked_fill_'):
        d = dict(x.kw)
        a = list(x.args[1:])
        m = d.get('mask', a[0] if a else None)
        v = d.get('value', a[-1] if a else None)
        if m is not None and v is not None:
            return mk('f:where', (m, v, x.args[0]))
    if x.op == 'setitem' and len(x.args) == 3 and x.args[1].op in (
            'f:isnan', 'f:any', 'invert', 'cmp'):
        return mk('f:where', (x.args[1], x.args[2], x.args[0]))
    if x.op == 'f:where' and len(x.args) == 3 and x.args[0].op in (
            'invert', 'f:logical_not'):
        return mk('f:where', (x.args[0].args[0], x.args[2], x.args[1]))
    if x.op in ('f:tensor', 'f:as_tensor', 'f:clone', 'f:detach',
                'f:from_numpy', 'f:ndarray', 'f:copy'):
        return x.args[0]
    if x.op == 'f:isnan' and x.args[0].op in ('f:sum', 'f:mean'):
        y = x.args[0]
        return fills(mk('f:any', (fills(mk('f:isnan', (y.args[0],))),), y.kw))
    if x.op in ('f:any', 'f:sum') and dict(x.kw).get('dim') is not None:
        d = dict(x.kw)['dim']
        if d.op == 'tuple' and len(d.args) == 1:
            return mk(x.op, x.args, tuple((k, d.args[0] if k == 'dim' else v)
                                          for k, v in x.kw))
    if x.op in ('invert', 'f:logical_not', 'not'):
        m = untyped(x.args[0])
        if m.op in POOL and 'max' in m.op:
            y = m.args[0]
            if y.op in ('f:to', 'astype', 'f:float', 'f:int'):
                y = y.args[0]
            if y.op == 'bin' and y.args[0] == '-' and is_const(y.args[1]) \
                    and cval(y.args[1]) == 1:
                return mk('minpool', (untyped(y.args[2]),), m.kw)
            if y.op in ('invert', 'f:logical_not'):
                return mk('minpool', (untyped(y.args[0]),), m.kw)
    if x.op in ('f:to', 'astype', 'f:bool') and untyped(x).op in (
            'f:F.max_pool2d', 'minpool', 'f:max_pool2d'):
        m = untyped(x)
        return mk(m.op, (untyped(m.args[0]),) + m.args[1:], m.kw)
    if x.op == 'f:isnan' and x.args[0].op == 'f:where':
        c, u, v = x.args[0].args
        if is_const(u) and c.op == 'f:isnan' and c.args[0] is v:
            return FALSE
    if x.op in ('f:any', 'f:where') and x.args[0] is FALSE:
        return x.args[-1]
    if x.op == 'f:where' and x.args[0].op == 'f:zeros_like':
        return x.args[-1]
    if x.op == 'f:to' or x.op == 'astype':
        if x.args[0].op.startswith('new:') and 'bool' in show(x):
            return x.args[0]
    return x


def pools(t):
    """pooling acts on the last two axes: singleton axes put in front for
    the call and taken away afterwards do not matter"""
    def f(x):
        if x.op == 'index' and len(x.args) == 2 and x.args[0].op in POOL:
            p = x.args[0]
            i = x.args[1].args if x.args[1].op == 'tuple' else (x.args[1],)
            if all(is_const(y) and cval(y) == 0 for y in i):
                a, n = lead(p.args[0])
                if n == len(i):
                    return mk(p.op, (a,) + p.args[1:], p.kw)
        if x.op == 'index' and x.args[0].op == 'index' and \
                len(x.args) == len(x.args[0].args) == 2:
            a, b = x.args[0].args[1], x.args[1]
            if is_const(a) and is_const(b) and cval(a) == cval(b) == 0:
                return f(mk('index', (x.args[0].args[0], mk('tuple', (
                    a, b)))))
        if x.op == 'f:squeeze' and x.args[0].op in POOL:
            p = x.args[0]
            a, n = lead(p.args[0])
            if n:
                return mk(p.op, (a,) + p.args[1:], p.kw)
        return fills(x)
    return rebuild(t, f)


def settle(rep, I, name, n, got, want, before, w, t):
    tt = '%s %s' % (t, n)
    if got is None or want is None:
        if got is want:
            rep.ok(tt)
        else:
            rep.und(tt, 'missing')
        return
    if (got is NONE) != (want is NONE):
        if is_const(got) or got.op in ('sym', 'bin') or \
                got.op.startswith('f:'):
            rep.bad('presence:%s.%s' % (name, n), w, '%s: %s is %s' % (
                t, n, show(got, 3)))
        else:
            rep.und(tt, show(got, 4))
        return
    if got is before and want is not before:
        rep.bad('not-updated:%s.%s' % (name, n), w, '%s: %s is left as it '
                'was' % (t, n))
        return
    if want is before and got is not before and norm.strip(got) is \
            norm.strip(want):
        rep.ok(tt)
        return
    g, x = pools(got), pools(want)
    if norm.strip(g).op == 'sym' and norm.strip(x) is not norm.strip(g):
        return rep.bad('formula:%s.%s' % (name, n), w, '%s: %s is %s instead '
                       'of %s' % (t, n, show(g), show(x, 6)))
    for y in walk(x):
        if y.op == 'sym' and n != y.args[0] and picks(g, y) and \
                not picks(x, y):
            return rep.bad('formula:%s.%s' % (name, n), w, '%s: %s looks at '
                           'only one of the %s: %s' % (t, n, y.args[0],
                                                       show(g, 6)))
    spec.compare(rep, I, g, x, '%s.%s' % (name, n), w, tt, '%s of %s' % (
        n, name))


def picks(t, s):
    """every value of s that t reads is one constant entry of it"""
    n = []

    def go(x):
        if x is s:
            n.append(False)
        elif x.op == 'index' and len(x.args) == 2 and x.args[0] is s and \
                is_const(x.args[1]) and isinstance(cval(x.args[1]), int):
            n.append(True)
        else:
            for y in x.args:
                if isinstance(y, T):
                    go(y)
            for _, y in x.kw:
                if isinstance(y, T):
                    go(y)
    go(t)
    return bool(n) and all(n)
