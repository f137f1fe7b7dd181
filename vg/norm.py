"""Normal forms of value graphs used by the property checks."""
from .terms import (T, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval,
                    walk, rebuild, show)
from .interp import phi

# representation changes that keep the value
TRANSPARENT = {'f:numpy', 'f:cpu', 'f:detach', 'f:clone', 'f:copy',
               'f:contiguous', 'f:as_tensor', 'f:tensor', 'f:ndarray',
               'f:float32', 'f:float64', 'f:float', 'f:double', 'f:from_numpy',
               'f:to', 'h5read', 'f:setdata', 'f:data', 'f:Parameter',
               'f:resolve_conj', 'f:requires_grad_', 'f:cuda', 'f:half',
               'f:torch', 'f:complex64', 'f:complex128', 'f:bytes_', 'f:str_',
               'f:item', 'f:tolist'}
FLOATS = ('float32', 'float64', 'float', 'complex64', 'complex128', 'double',
          'float16')


def float_dtype(d):
    if d is None:
        return True
    if d.op == 'ext':
        return d.args[0].split('.')[-1] in FLOATS
    if d.op == 'const':
        return d.args[0] is None or str(d.args[0]) in FLOATS
    return False


def nonfloat_dtype(d):
    """definitely an integer or boolean dtype"""
    return d is not None and d.op == 'ext' and d.args[0].split('.')[-1] in (
        'int', 'int32', 'int64', 'int16', 'int8', 'uint8', 'uint16', 'uint32',
        'uint64', 'bool', 'bool_', 'long')


def astype(x, typ):
    if is_const(x):
        v = cval(x)
        if typ == 'bool' and isinstance(v, (bool, int, float)):
            return const(bool(v))
        if typ.startswith(('int', 'long')) and isinstance(v, int):
            return const(int(v))
    if typ.startswith(('int', 'long')) and isint(x):
        return x
    return mk('astype', (x, const(typ)))


def isint(x):
    if x.op == 'bin':
        return x.args[0] in ('+', '-', '*', '//', '%') and all(
            isint(y) for y in x.args[1:])
    if x.op in ('tuple', 'list'):
        return all(isint(y) for y in x.args)
    return x.op == 'sym' and x.args[1] == 'int' or x.op == 'neg' and isint(
        x.args[0]) or is_const(x) and type(cval(x)) is int


def strip(t, extra=None):
    """Remove representation changes (library, device, float precision)."""
    def f(x):
        if extra is not None:
            r = extra(x)
            if r is not None:
                return r
        op = x.op
        if op in TRANSPARENT and x.args and isinstance(x.args[0], T):
            d = dict(x.kw).get('dtype')
            if op in ('f:to', ) and len(x.args) > 1:
                d2 = x.args[1]
                if nonfloat_dtype(d2):
                    return x
            if nonfloat_dtype(d):
                return astype(x.args[0], d.args[0].split('.')[-1])
            return x.args[0]
        if op == 'f:astype':
            d = dict(x.kw).get('dtype', x.args[1] if len(x.args) > 1 else None)
            if float_dtype(d) or d is not None and d.op == 'attr':
                return x.args[0]
            if nonfloat_dtype(d):
                return astype(x.args[0], d.args[0].split('.')[-1])
            return x
        if op == 'h5val':
            return x.args[1]
        if op == 'neg' and x.args[0].op == 'neg':
            return x.args[0].args[0]
        if op == 'bin' and x.args[0] == '*':
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if is_const(a) and cval(a) == -1:
                    return b.args[0] if b.op == 'neg' else mk('neg', (b,))
                if is_const(a) and cval(a) == 1 and \
                        not isinstance(cval(a), bool):
                    return b
        if op == 'bin' and x.args[0] == '/' and is_const(x.args[2]) and \
                cval(x.args[2]) == 1:
            return x.args[1]
        if op == 'bin' and x.args[0] == '-' and is_const(x.args[1]) and \
                cval(x.args[1]) == 0:
            return mk('neg', (x.args[2],))
        if op == 'f:T' and x.args[0].op == 'f:T':
            return x.args[0].args[0]
        if op == 'index' and len(x.args) == 2 and (
                x.args[1].op == 'tuple' and not x.args[1].args or
                x.args[1].op == 'slice' and
                whole(x.args[1].args) or
                is_const(x.args[1]) and cval(x.args[1]) is Ellipsis):
            return x.args[0]
        if op == 'index' and len(x.args) == 2 and is_const(x.args[1]) and \
                isinstance(cval(x.args[1]), int) and \
                x.args[0].op in ('tuple', 'list') and \
                len(x.args[0].args) == 1 and \
                x.args[0].args[0].op == 'splice' and \
                x.args[0].args[0].args[0].op != 'comp':
            return mk('index', (x.args[0].args[0].args[0], x.args[1]))
        if op == 'phi':
            return phi(*x.args)
        if op == 'strmeth' and x.args[0] == 'decode':
            return x.args[1]
        if op == 'conv' and x.args[0] in ('str', 'float'):
            return x.args[1]
        if op == 'call' and x.args[0].op == 'attr' and \
                x.args[0].args[1] in ('decode', 'copy'):
            return x.args[0].args[0]
        if op == 'comp' and len(x.args) == 2 and x.args[0].op == 'elem' and \
                x.args[0].args[0] is x.args[1]:
            return x.args[1]
        if op == 'comp' and len(x.args) == 2:
            it = x.args[1]
            if it.op in ('list', 'tuple') and len(it.args) == 1 and \
                    it.args[0].op == 'splice':
                it = it.args[0].args[0]
            if it.op == 'comp' and len(it.args) == 2 and it is not x:
                # [f(y) for y in [g(z) for z in L]]: the binder is z's
                return mk('comp', (x.args[0], it.args[1]))
        return None or x
    # T.op 'f' callbacks must return a node
    return rebuild(t, lambda x: f(x) or x)


def whole(a):
    a = tuple(a) + (NONE,) * (3 - len(a))
    return (a[0] is NONE or is_const(a[0]) and cval(a[0]) == 0) and \
        a[1] is NONE and (a[2] is NONE or is_const(a[2]) and cval(a[2]) == 1)


def leaves(t):
    return [x for x in walk(t) if x.op in ('sym', 'attr', 'unknown')]


def arms(t, limit=64):
    """[(conditions, value)] of the nested phis at the top of t."""
    out = []

    def go(x, conds):
        if len(out) >= limit:
            return
        if x.op == 'phi':
            go(x.args[1], conds + [(x.args[0], True)])
            go(x.args[2], conds + [(x.args[0], False)])
        else:
            out.append((conds, x))
    go(t, [])
    return out


class CannotEval(Exception):
    pass


def eval_elementwise(t, env):
    """Evaluate an element-wise expression for one element whose symbols have
    the finite values in env.  Exhausting env's domain decides the function."""
    memo = {}

    def conv(v, d):
        if d in ('bool', 'bool_'):
            return bool(v)
        return int(v)

    def go(x):
        if x in memo:
            return memo[x]
        r = go1(x)
        memo[x] = r
        return r

    def go1(x):
        if x in env:
            return env[x]
        op = x.op
        if op == 'const':
            return x.args[0]
        if op == 'astype':
            return conv(go(x.args[0]), cval(x.args[1]))
        if op in TRANSPARENT and x.args:
            d = dict(x.kw).get('dtype')
            v = go(x.args[0])
            if nonfloat_dtype(d):
                return conv(v, d.args[0].split('.')[-1])
            if d is not None and float_dtype(d):
                return float(v)
            return v
        if op == 'f:bool':
            return bool(go(x.args[0]))
        if op in ('f:int', 'f:long') or op.startswith('f:uint') or \
                op.startswith('f:int'):
            return int(go(x.args[0]))
        if op.startswith('new:'):
            n = op.split('.')[-1]
            if n in ('zeros', 'zeros_like'):
                v = 0.0
            elif n in ('ones', 'ones_like'):
                v = 1.0
            elif n in ('full', 'full_like'):
                v = go(x.args[1])
            else:
                raise CannotEval(op)
            d = dict(x.kw).get('dtype')
            if nonfloat_dtype(d):
                v = conv(v, d.args[0].split('.')[-1])
            return v
        if op == 'f:astype':
            d = dict(x.kw).get('dtype')
            v = go(x.args[0])
            if nonfloat_dtype(d):
                return conv(v, d.args[0].split('.')[-1])
            return v
        if op == 'setitem':
            b, i, v = x.args
            c = go(i)
            if isinstance(c, bool):
                base = go(b)
                return type(base)(go(v)) if c else base
            raise CannotEval('setitem index')
        if op in ('f:where',) and len(x.args) == 3:
            return go(x.args[1]) if go(x.args[0]) else go(x.args[2])
        if op == 'f:masked_fill':
            k = dict(x.kw)
            return go(k['value']) if go(k['mask']) else go(x.args[0])
        if op == 'phi':
            a, b = go(x.args[1]), go(x.args[2])
            if a == b and type(a) is type(b):
                return a
            return a if go(x.args[0]) else b
        if op == 'neg':
            return -go(x.args[0])
        if op == 'not':
            return not go(x.args[0])
        if op == 'invert':
            v = go(x.args[0])
            return (not v) if isinstance(v, bool) else ~v
        if op == 'cmp':
            a, b = go(x.args[1]), go(x.args[2])
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                    '==': a == b, '!=': a != b}[x.args[0]]
        if op == 'bin':
            a, b = go(x.args[1]), go(x.args[2])
            o = x.args[0]
            try:
                return {'+': lambda: a + b, '-': lambda: a - b,
                        '*': lambda: a * b, '/': lambda: a / b,
                        '&': lambda: a & b, '|': lambda: a | b,
                        '^': lambda: a ^ b, '**': lambda: a ** b,
                        '//': lambda: a // b, '%': lambda: a % b,
                        '<<': lambda: a << b, '>>': lambda: a >> b}[o]()
            except (KeyError, TypeError, ZeroDivisionError):
                raise CannotEval(o)
        if op == 'f:abs':
            return abs(go(x.args[0]))
        raise CannotEval(op)
    return go(t)


def laurent(t, F):
    """t as a Laurent polynomial {power: coefficient} in the node F, or
    None."""
    if t is F:
        return {1: 1.0}
    if is_const(t) and isinstance(cval(t), (int, float)):
        return {0: float(cval(t))} if cval(t) else {}
    if t.op == 'neg':
        a = laurent(t.args[0], F)
        return None if a is None else {k: -v for k, v in a.items()}
    if t.op == 'f:reciprocal':
        a = laurent(t.args[0], F)
        if a is None or len(a) != 1:
            return None
        (k, v), = a.items()
        return {-k: 1 / v}
    if t.op == 'bin':
        o = t.args[0]
        a, b = laurent(t.args[1], F), laurent(t.args[2], F)
        if a is None or b is None:
            return None
        if o in '+-' and len(o) == 1:
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0.0) + (v if o == '+' else -v)
            return {k: v for k, v in out.items() if v != 0}
        if o == '*':
            out = {}
            for k, v in a.items():
                for j, w in b.items():
                    out[k + j] = out.get(k + j, 0.0) + v * w
            return {k: v for k, v in out.items() if v != 0}
        if o == '/' and len(b) == 1:
            (j, w), = b.items()
            return {k - j: v / w for k, v in a.items()}
        if o == '**' and set(b) == {0} and b[0] == int(b[0]) and len(a) == 1:
            (k, v), = a.items()
            n = int(b[0])
            return {k * n: v ** n}
    return None


CHANGING = {'f:abs', 'f:sqrt', 'f:T', 'f:exp', 'f:log', 'f:angle', 'f:conj',
            'f:flip', 'f:roll', 'f:sum', 'f:mean', 'f:max', 'f:min',
            'f:transpose', 'f:real', 'f:imag', 'neg', 'invert', 'index',
            'f:fftshift', 'f:ifftshift', 'f:square', 'astype', 'f:round',
            'f:floor', 'f:median', 'f:nansum', 'f:cumsum', 'f:sign',
            'f:rot90'}


def same_value(got, F, ident=()):
    """'same' | 'diff' | 'unknown': is got, up to representation, F?
    ident: predicates for operations documented to keep the value."""
    def extra(x):
        for p in ident:
            r = p(x)
            if r is not None:
                return r
        return None
    g = strip(got, extra)
    return _same(g, F), g


def _same(g, F):
    if g is F:
        return 'same'
    if g.op == 'parsed_date':
        return 'diff'
    if g.op == 'phi':
        rs = [_same(a, F) for a in g.args[1:]]
        if all(r == 'same' for r in rs):
            return 'same'
        if all(r == 'diff' for r in rs):
            return 'diff'
        return 'unknown' if 'unknown' in rs else 'diff?'
    if not any(x is F for x in walk(g)):
        if any(x.op == 'unknown' for x in walk(g)):
            return 'unknown'
        return 'diff'
    p = laurent(g, F)
    if p is not None:
        if set(p) == {1} and abs(p[1] - 1) < 1e-5:
            return 'same'
        return 'diff'
    # an op chain over F all of whose links change the value in general
    x = g
    n = 0
    while x is not F and n < 30:
        n += 1
        if x.op in CHANGING and x.args and isinstance(x.args[0], T):
            x = x.args[0]
            continue
        if x.op == 'bin':
            cand = [a for a in x.args[1:] if any(y is F for y in walk(a))]
            if len(cand) == 1:
                p = laurent(x, cand[0])
                if p is not None and set(p) <= {0, 1, -1, 2}:
                    x = cand[0]
                    continue
        return 'unknown'
    # one link only: composites could cancel
    return 'diff' if n == 1 else 'unknown'


def lin(t):
    """t as {node: coefficient} (constants under key None); nodes that are
    not sums are atoms."""
    out = {}

    def add(k, v):
        out[k] = out.get(k, 0) + v

    def go(x, c):
        if is_const(x) and isinstance(cval(x), (int, float)) and \
                not isinstance(cval(x), bool):
            add(None, c * cval(x))
        elif x.op == 'bin' and x.args[0] in ('+', '-'):
            go(x.args[1], c)
            go(x.args[2], c if x.args[0] == '+' else -c)
        elif x.op == 'neg':
            go(x.args[0], -c)
        elif x.op == 'bin' and x.args[0] == '*' and \
                is_const(x.args[1]) and isinstance(cval(x.args[1]),
                                                   (int, float)):
            go(x.args[2], c * cval(x.args[1]))
        elif x.op == 'bin' and x.args[0] == '*' and \
                is_const(x.args[2]) and isinstance(cval(x.args[2]),
                                                   (int, float)):
            go(x.args[1], c * cval(x.args[2]))
        elif x.op == 'bin' and x.args[0] == '/' and \
                is_const(x.args[2]) and isinstance(cval(x.args[2]),
                                                   (int, float)) \
                and cval(x.args[2]):
            go(x.args[1], c / cval(x.args[2]))
        else:
            add(x, c)
    go(t, 1)
    return {k: v for k, v in out.items() if v != 0}


def ldiff(a, b):
    """lin(a) - lin(b)"""
    out = dict(lin(a))
    for k, v in lin(b).items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v != 0}
