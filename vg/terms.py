"""Hash-consed value-graph nodes.

A node is T(op, args, kw).  ``args`` holds nodes or plain hashable Python
values, ``kw`` is a sorted tuple of (name, node) pairs.  Equal nodes are the
same object, so value numbering is identity comparison.
"""


class T(object):
    __slots__ = ('op', 'args', 'kw', '_h', 'loc', 'n')

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)


_TABLE = {}
_COUNT = [0]
CURLOC = [None]


def _key(v):
    # 1 == 1.0 == True in Python, keep them apart in the table
    if isinstance(v, tuple):
        return tuple(_key(x) for x in v)
    if isinstance(v, (bool, int, float, complex)):
        return (type(v).__name__, v)
    return v


def T_(op, *args, **kw):
    return mk(op, args, tuple(sorted(kw.items())))


def mk(op, args=(), kw=()):
    key = (op, tuple(_key(a) for a in args), tuple((k, _key(v)) for k, v in kw))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.kw = tuple(kw)
        t._h = hash(key)
        t.loc = CURLOC[0]
        _COUNT[0] += 1
        t.n = _COUNT[0]
        _TABLE[key] = t
    return t


def const(v):
    return mk('const', (v,))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')


def is_const(t):
    return isinstance(t, T) and t.op == 'const'


def cval(t, default=None):
    return t.args[0] if is_const(t) else default


def sym(name, typ=None):
    return mk('sym', (name, typ))


_unk = [0]


def unknown(why):
    _unk[0] += 1
    return mk('unknown', (why, _unk[0]))


def kwd(t):
    return dict(t.kw)


def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b
    for _, v in t.kw:
        if isinstance(v, T):
            yield v


def walk(t, seen=None):
    """All nodes reachable from t (each once)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, f):
    """Rebuild t bottom-up with f applied on each rebuilt node (memoised)."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        nx = mk(x.op, tuple(go(a) for a in x.args),
                tuple((k, go(v)) for k, v in x.kw))
        if nx.loc is None:
            nx.loc = x.loc
        r = f(nx)
        memo[x] = r
        return r
    return go(t)


def subst(t, mapping):
    def f(x):
        return mapping.get(x, x)
    # substitute top-down first for exact matches
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        nx = mk(x.op, tuple(go(a) for a in x.args),
                tuple((k, go(v)) for k, v in x.kw))
        memo[x] = nx
        return nx
    return go(t)


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if t.op == 'const':
        return repr(t.args[0])
    if t.op == 'sym':
        return str(t.args[0])
    if depth <= 0:
        return '..'
    a = [show(x, depth - 1) for x in t.args]
    a += ['%s=%s' % (k, show(v, depth - 1)) for k, v in t.kw]
    if t.op == 'index':
        return '%s[%s]' % (a[0], ', '.join(a[1:]))
    if t.op == 'attr':
        return '%s.%s' % (a[0], t.args[1])
    return '%s(%s)' % (t.op, ', '.join(a))
