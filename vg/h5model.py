"""Abstract HDF5 file: a heap dict path -> stored term."""
from .terms import T, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval, \
    unknown, sym


def norm(path):
    return '/'.join(p for p in path.split('/') if p)


def newfile(I, name):
    d = I.new('dict', data={}, info={'h5': name})
    return mk('h5', (d, ''))


def _join(I, b, i):
    base = b.args[1]
    i = I.reduce(i)
    if is_const(i) and isinstance(cval(i), str):
        p = cval(i)
        if p.startswith('/'):
            return norm(p)
        return norm(base + '/' + p)
    if i.op == 'fstr' and all(is_const(x) for x in i.args):
        return norm(base + '/' + ''.join(str(cval(x)) for x in i.args))
    return None


def resolve(I, b, path, depth=0):
    """Follow soft links along the path."""
    o = I.obj(b.args[0])
    parts = path.split('/')
    cur = ''
    for k, p in enumerate(parts):
        cur = norm(cur + '/' + p)
        v = o.data.get(const(cur))
        if v is not None and v.op == 'h5link' and depth < 5:
            rest = '/'.join(parts[k + 1:])
            return resolve(I, b, norm(v.args[0] + '/' + rest), depth + 1)
    return cur


def exists(I, b, path):
    """Condition term for path being present."""
    o = I.obj(b.args[0])
    path = resolve(I, b, path)
    out = FALSE
    from .interp import lor
    for k, v in o.data.items():
        if not isinstance(k, T) or not is_const(k):
            continue
        p = cval(k)
        if '@' in p:
            continue
        if p == path or p.startswith(path + '/'):
            out = lor(out, I._defd(v))
    return out


def has(I, b, i):
    if b.op == 'sym':
        return mk('h5has', (b, i))
    p = _join(I, b, i)
    if p is None:
        return mk('h5has', (b, i))
    return exists(I, b, p)


def getitem(I, b, i, node=None, fr=None):
    from .interp import phi
    if b.op == 'sym':
        return mk('index', (b, i))
    if b.op == 'h5attrs':
        o = I.obj(b.args[0])
        v = o.data.get(const('%s@%s' % (b.args[1], cval(I.reduce(i)))))
        if v is None or I.reduce(v) is UNDEF:
            return I.throw('KeyError', node, fr)
        return _drop_undef(I.reduce(v))
    if b.op == 'h5val':
        i = I.reduce(i)
        if i.op == 'tuple' and not i.args or \
                i.op == 'slice' and all(x is NONE for x in i.args) or \
                is_const(i) and cval(i) is Ellipsis:
            return mk('h5read', (b.args[1],)) if True else None
        return mk('index', (mk('h5read', (b.args[1],)), i))
    p = _join(I, b, i)
    ii = I.reduce(i)
    if p is None and ii.op == 'phi' and node is not None:
        box = [None, None]

        def one(k):
            def f():
                box[k] = getitem(I, b, ii.args[1 + k], node, fr)
            return f
        I.branch(ii.args[0], one(0), one(1), node, fr)
        if I.st is None:
            return UNDEF
        a, c = box[0] or UNDEF, box[1] or UNDEF
        return I.reduce(phi(ii.args[0], a, c))
    if p is None:
        I.emit('h5get?', None, (b, i), (), node, fr)
        return unknown('h5 dynamic path')
    p = resolve(I, b, p)
    o = I.obj(b.args[0])
    v = o.data.get(const(p))
    if v is not None:
        v = I.reduce(v)
        v = _drop_undef(v)
    if v is None or v is UNDEF:
        e = exists(I, b, p)
        if is_const(e) and not cval(e):
            I.emit('h5missing', p, (b, i), (), node, fr)
            return I.throw('KeyError', node, fr)
        return mk('h5', (b.args[0], p))
    if v.op == 'h5group':
        return mk('h5', (b.args[0], p))
    return mk('h5val', (b.args[0], v, p))


def _drop_undef(v):
    from .interp import phi
    if v.op == 'phi':
        a, b = _drop_undef(v.args[1]), _drop_undef(v.args[2])
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return phi(v.args[0], a, b)
    return v


def attr_has(I, b, a):
    o = I.obj(b.args[0])
    k = cval(I.reduce(a))
    v = o.data.get(const('%s@%s' % (b.args[1], k)))
    if v is None:
        return FALSE
    return I._defd(v)


def put(I, b, p, v, node, fr):
    o = I.obj(b.args[0])
    I.emit('h5write', p, (b, v), (), node, fr)
    I.setobj(b.args[0], o.put(const(p), v))


def setitem(I, b, i, v, node, fr):
    if b.op == 'sym':
        I.emit('h5write', None, (b, i, v), (), node, fr)
        return
    if b.op == 'h5attrs':
        d, p = b.args
        o = I.obj(d)
        k = I.reduce(i)
        I.setobj(d, o.put(const(p + '@' + str(cval(k))), I.freeze(v)))
        return
    p = _join(I, b, i)
    v = I.reduce(v)
    if p is None:
        o = I.obj(b.args[0])
        I.setobj(b.args[0], o.put(('dyn', b.args[1], I.reduce(i)),
                                  I.freeze(v)))
        I.emit('h5write', None, (b, i, v), (), node, fr)
        return
    # intermediate path: prefix may itself be a link
    put(I, b, p, v if v.op == 'h5link' else I.freeze(v), node, fr)


def attr(I, b, name):
    if name == 'attrs':
        if b.op == 'h5val':
            return mk('h5attrs', (b.args[0], b.args[2]))
        if b.op == 'h5':
            return mk('h5attrs', (b.args[0], b.args[1]))
    if b.op == 'h5val' and name in ('shape', 'dtype', 'ndim', 'size'):
        return mk('attr', (b.args[1], name))
    return mk('meth', (b, name))


def method(I, b, name, args, kw, node, fr):
    if b.op == 'sym':
        return None
    if b.op == 'h5attrs':
        if name == 'get':
            e = attr_has(I, b, args[0])
            if is_const(e) and not cval(e):
                return args[1] if len(args) > 1 else NONE
            return getitem(I, b, args[0], node, fr)
        if name == 'keys':
            o = I.obj(b.args[0])
            return I.newlist([const(cval(k).split('@')[1]) for k in o.data
                              if is_const(k) and
                              cval(k).startswith(b.args[1] + '@')])
        return None
    if b.op == 'h5val':
        return None
    if name in ('create_dataset', 'require_dataset'):
        a = dict(zip(('name', 'shape', 'dtype', 'data'), args))
        a.update(kw)
        p = _join(I, b, a['name'])
        if 'data' not in a:
            v = unknown('no data')
        else:
            v = I.freeze(I.reduce(a['data']))
        if p is None:
            setitem(I, b, a['name'], v, node, fr)
            return unknown('dyn dataset')
        put(I, b, p, v, node, fr)
        return mk('h5val', (b.args[0], v, p))
    if name in ('create_group', 'require_group'):
        p = _join(I, b, args[0] if args else kw['name'])
        if p is None:
            return unknown('dyn group')
        o = I.obj(b.args[0])
        if const(p) not in o.data:
            put(I, b, p, mk('h5group'), node, fr)
        return mk('h5', (b.args[0], p))
    if name == 'close':
        I.emit('close', None, (b,), (), node, fr)
        return NONE
    if name in ('flush',):
        return NONE
    if name == 'get':
        e = has(I, b, args[0])
        d = args[1] if len(args) > 1 else NONE
        if is_const(e):
            return getitem(I, b, args[0], node, fr) if cval(e) else d
        from .interp import phi
        return phi(e, getitem(I, b, args[0], node, fr), d)
    if name == 'keys':
        o = I.obj(b.args[0])
        base = b.args[1]
        ks = []
        for k in o.data:
            if isinstance(k, T) and is_const(k):
                p = cval(k)
                if '@' in p:
                    continue
                if base == '' or p.startswith(base + '/'):
                    h = p[len(base):].strip('/').split('/')[0]
                    if h and h not in ks:
                        ks.append(h)
        return I.newlist([const(x) for x in ks])
    return None


def lib(I, name, args, kw, node, fr):
    if name == 'h5py.SoftLink':
        p = I.reduce(args[0])
        if is_const(p):
            return mk('h5link', (norm(cval(p)),))
        if p.op == 'fstr' and all(is_const(x) for x in p.args):
            return mk('h5link', (norm(''.join(str(cval(x))
                                              for x in p.args)),))
        return unknown('dyn link')
    # h5py.File
    path = I.reduce(args[0]) if args else I.reduce(kw['name'])
    mode = cval(I.reduce(args[1])) if len(args) > 1 else \
        cval(I.reduce(kw['mode'])) if 'mode' in kw else 'r'
    I.emit('open', 'h5py.File', (path, const(mode)), (), node, fr)
    files = I.hooks.setdefault('%files', {})
    if path in files and mode != 'w':
        return files[path]
    f = newfile(I, path)
    files[path] = f
    return f
