"""Semantics of built-ins, containers and library calls in the value graph."""
import ast
import builtins

from .terms import (T, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval,
                    unknown, sym, walk, subst)

BUILTINS = set(dir(builtins))

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.LShift: '<<', ast.RShift: '>>'}

# functions which exist both as torch.X / numpy.X and as tensor methods; the
# first argument is the array.  Value: names of the remaining parameters.
TF = {
    't': [], 'abs': [], 'absolute': [], 'angle': [], 'conj': [], 'exp': [], 'sqrt': [],
    'log': [], 'log10': [], 'log2': [], 'sin': [], 'cos': [], 'tan': [],
    'arcsin': [], 'asin': [], 'atan2': ['other'], 'sinc': [], 'square': [],
    'sign': [], 'floor': [], 'ceil': [], 'round': [], 'trunc': [],
    'isnan': [], 'isinf': [], 'isfinite': [], 'logical_not': [],
    'logical_or': ['other'], 'logical_and': ['other'],
    'sum': ['dim', 'keepdim'], 'mean': ['dim', 'keepdim'],
    'nansum': ['dim'], 'nanmean': ['dim'], 'nanmax': ['dim'],
    'prod': ['dim', 'keepdim'], 'std': ['dim'], 'var': ['dim'],
    'max': ['dim'], 'min': ['dim'], 'amax': ['dim'], 'amin': ['dim'],
    'argmax': ['dim'], 'argmin': ['dim'], 'cumsum': ['dim'],
    'median': ['dim'], 'any': ['dim'], 'all': ['dim'],
    'maximum': ['other', 'out'], 'minimum': ['other', 'out'],
    'mul': ['other'], 'add': ['other'], 'sub': ['other'], 'div': ['other'],
    'multiply': ['other'], 'divide': ['other'], 'subtract': ['other'],
    'pow': ['other'], 'eq': ['other'], 'ne': ['other'], 'equal': ['other'],
    'matmul': ['other'], 'dot': ['other'], 'outer': ['other'],
    'cross': ['other', 'dim'], 'tensordot': ['other', 'dims'],
    'reshape': ['shape'], 'view': ['shape'], 'ravel': [],
    'flatten': ['start', 'end'], 'unsqueeze': ['dim'], 'squeeze': ['dim'],
    'transpose': ['dim0', 'dim1'], 'permute': ['dims'], 'swapaxes':
    ['dim0', 'dim1'], 'expand': ['size'], 'repeat': ['size'],
    'tile': ['dims'], 'roll': ['shifts', 'dims'], 'flip': ['dims'],
    'moveaxis': ['source', 'destination'], 'movedim': ['source',
                                                       'destination'],
    'clone': [], 'detach': [], 'cpu': [], 'numpy': [], 'cuda': [],
    'contiguous': [], 'item': [], 'tolist': [], 'copy': [], 'astype':
    ['dtype'], 'to': None, 'float': [], 'double': [], 'int': [], 'long': [],
    'bool': [], 'half': [], 'type': ['dtype'], 'real': [], 'imag': [],
    'masked_select': ['mask'], 'masked_fill': ['mask', 'value'],
    'masked_fill_': ['mask', 'value'], 'index_select': ['dim', 'index'],
    'gather': ['dim', 'index'], 'take': ['index'], 'where': None,
    'clamp': ['min', 'max'], 'clip': ['min', 'max'], 'relu': [],
    'nan_to_num': ['nan', 'posinf', 'neginf'],
    'conj_physical': [], 'reciprocal': [], 'diag': [], 'diagonal': [],
    'trace': [], 'inverse': [], 'pinverse': [], 'det': [], 'norm': None,
    'narrow': ['dim', 'start', 'length'], 'unbind': ['dim'],
    'split': ['size', 'dim'], 'chunk': ['chunks', 'dim'],
    'requires_grad_': ['requires_grad'], 'resolve_conj': [], 'neg': [],
    'dim': [], 'size': ['dim'], 'numel': [], 'nonzero': [], 'sort': None,
    'ndim': [], 'view_as': ['other'], 'reshape_as': ['other'],
    'expand_as': ['other'], 'type_as': ['other'], 'count_nonzero': ['dim'],
    'zero_': [], 'fill_': ['value'], 'copy_': ['src'], 'add_': ['other'],
    'mul_': ['other'], 'sub_': ['other'], 'div_': ['other'],
    'clamp_': ['min', 'max'], 'sqrt_': [], 'abs_': [], 'exp_': [],
    'is_complex': [], 'is_floating_point': [], 'nelement': [],
    'logsumexp': ['dim'], 'hypot': ['other'], 'rot90': None,
    'new_zeros': ['size'], 'new_ones': ['size'], 'backward': None,
}
ALIASES = {'absolute': 'abs', 'asin': 'arcsin', 'multiply': 'mul',
           'divide': 'div', 'subtract': 'sub', 'swapaxes': 'transpose',
           'conj_physical': 'conj', 'equal': 'eq', 'clip': 'clamp',
           'view': 'reshape', 'amax': 'max', 'amin': 'min',
           'logical_not': 'invert', 'movedim': 'moveaxis'}
KWALIAS = {'axis': 'dim', 'axes': 'dim', 'keepdims': 'keepdim', 'newshape':
           'shape', 'x2': 'other', 'exponent': 'other', 'a_min': 'min',
           'a_max': 'max'}
for _k in ('pow', 'square', 'cos', 'sin', 'tan', 'log', 'log10', 'log2',
           'reciprocal', 'neg', 'round', 'floor', 'ceil', 'angle', 'conj',
           'sign', 'remainder', 'clip', 'nan_to_num', 'relu', 'sqrt', 'abs',
           'exp', 'multiply', 'divide', 'subtract'):
    if _k in TF and _k not in ('angle', 'conj'):
        TF.setdefault(_k + '_', TF[_k])
for _k in ('mul', 'div', 'sub'):
    TF.setdefault(_k + '_', TF[_k])
for _k in ('index_fill', 'index_add', 'index_copy', 'masked_scatter',
           'scatter', 'scatter_add', 'addcmul', 'addcdiv', 'lerp',
           'normal', 'uniform', 'cumsum', 'cumprod', 'fmod',
           'fill_diagonal', 'logical_not', 'logical_and', 'logical_or'):
    TF.setdefault(_k + '_', TF.get(_k))
# in-place array methods
INPLACE = {x for x in TF if x.endswith('_')} | {'sort!', 'fill'}

CREATION = {'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'eye',
            'rand', 'randn', 'tensor', 'as_tensor', 'from_numpy', 'asarray',
            'array', 'zeros_like', 'ones_like', 'empty_like', 'full_like',
            'rand_like', 'randn_like', 'Tensor', 'FloatTensor', 'fftfreq',
            'stack', 'cat', 'concatenate', 'meshgrid', 'complex'}

ARRAY_FN_MODULES = ('torch', 'numpy', 'torch.linalg', 'numpy.linalg',
                    'torch.fft', 'numpy.fft', 'torch.special', 'numpy.random')

MODULE_METHODS = {'state_dict', 'load_state_dict', 'parameters',
                  'named_parameters', 'to', 'register_buffer',
                  'register_parameter', 'zero_grad', 'train', 'eval',
                  'buffers', 'named_buffers', 'requires_grad_', 'cpu', 'cuda',
                  'apply', 'modules', 'children'}

TENSOR_ATTRS = set()
NDARRAY_ATTRS = set()


def _load_attr_sets():
    try:
        import torch
        TENSOR_ATTRS.update(dir(torch.Tensor))
    except Exception:
        pass
    try:
        import numpy
        NDARRAY_ATTRS.update(dir(numpy.ndarray))
    except Exception:
        pass


def type_hasattr(t, name):
    tbl = {'float': dir(float), 'int': dir(int), 'str': dir(str),
           'bool': dir(bool)}
    tbl['bytes'] = dir(bytes)
    if t in tbl:
        return const(name in tbl[t])
    if t in ('npscalar', 'npbool'):
        return TRUE if name in ('dtype', 'shape', 'item', 'ndim') else \
            mk('hasattr', (sym('type:' + t), name))
    if name in ('__len__', 'shape', 'dtype', 'dim' if t == 'tensor' else
                'ndim'):
        return TRUE
    return mk('hasattr', (sym('type:' + t), name))


# ------------------------------------------------------------------ types --
def typeof(I, t):
    if not isinstance(t, T):
        return None
    if is_const(t):
        v = cval(t)
        if v is None:
            return 'none'
        return {bool: 'bool', int: 'int', float: 'float', str: 'str',
                bytes: 'bytes', complex: 'complex'}.get(type(v))
    if t.op == 'sym':
        return t.args[1]
    if t.op == 'tuple':
        return 'tuple'
    if t.op == 'h5':
        return 'h5'
    if t.op == 'h5val':
        return 'h5data'
    if t.op == 'h5read':
        x = typeof(I, t.args[0])
        return {'tensor': 'ndarray', 'str': 'bytes', 'int': 'npscalar',
                'float': 'npscalar', 'complex': 'npscalar',
                'bool': 'npbool'}.get(x, x)
    if t.op == 'ref':
        o = I.obj(t)
        if o is None:
            return None
        if o.kind == 'inst':
            return o.cls.name if o.cls else None
        return o.kind
    if t.op in ('f:numpy',):
        return 'ndarray'
    if t.op in ('f:tensor', 'f:as_tensor', 'f:from_numpy', 'f:Parameter',
                'f:torch'):
        return 'tensor'
    if t.op == 'f:ndarray':
        return 'ndarray'
    if t.op in ('cmp', 'is', 'in', 'not', 'and', 'or', 'isinstance',
                'hasattr'):
        a = [typeof(I, x) for x in t.args if isinstance(x, T)]
        if t.op == 'cmp':
            for x in a:
                if x in ('tensor', 'ndarray'):
                    return x
        return 'bool'
    if t.op in ('fstr', 'str'):
        return 'str'
    if t.op in ('func', 'bound', 'partial', 'class'):
        return 'function'
    if t.op.startswith('new:'):
        return 'tensor' if t.op.startswith('new:torch') else 'ndarray'
    if t.op.startswith('f:'):
        if t.op in ('f:item',):
            return 'float'
        if t.op in ('f:tolist',):
            return 'list'
        lib = dict(t.kw).get('%lib')
        if lib is not None:
            return cval(lib)
        for a in t.args:
            if isinstance(a, T):
                x = typeof(I, a)
                if x in ('tensor', 'ndarray'):
                    return x
        return None
    if t.op == 'bin':
        ts = [typeof(I, a) for a in t.args[1:]]
        for x in ('tensor', 'ndarray'):
            if x in ts:
                return x
        if 'str' in ts:
            return 'str'
        if 'float' in ts:
            return 'float'
        if ts == ['int', 'int'] and t.args[0] != '/':
            return 'int'
        return None
    if t.op in ('neg', 'invert', 'setitem'):
        return typeof(I, t.args[0])
    if t.op == 'index':
        x = typeof(I, t.args[0])
        if x in ('tensor', 'ndarray'):
            return x
        b = t.args[0]
        if b.op == 'attr' and b.args[1] == 'shape':
            return 'int'
        return None
    if t.op == 'attr':
        if t.args[1] in ('T', 'real', 'imag', 'data', 'grad', 'mT'):
            return typeof(I, t.args[0])
        if t.args[1] == 'shape':
            return 'shape'
        return ATTR_TYPES.get(t.args[1])
    if t.op == 'phi':
        a, b = typeof(I, t.args[1]), typeof(I, t.args[2])
        return a if a == b else None
    if t.op in ('len', 'int'):
        return 'int'
    return None


ATTR_TYPES = {}

TYPE_NAMES = {
    'builtins.str': {'str'}, 'builtins.bytes': {'bytes'},
    'builtins.int': {'int', 'bool'}, 'builtins.float': {'float'},
    'builtins.bool': {'bool'}, 'builtins.list': {'list'},
    'builtins.tuple': {'tuple', 'shape'}, 'builtins.dict': {'dict'},
    'builtins.set': {'set'}, 'numpy.ndarray': {'ndarray'},
    'torch.Tensor': {'tensor', 'param'}, 'pathlib.Path': {'path'},
    'pathlib.PurePath': {'path'},
    'datetime.datetime': {'datetime'},
    'datetime.date': {'datetime'},
    'numbers.Number': {'int', 'float', 'bool', 'complex', 'npscalar'},
    'collections.abc.Mapping': {'dict'}, 'collections.abc.Sequence':
    {'list', 'tuple', 'str'},
    'numpy.bool_': {'npbool'}, 'h5py.Dataset': {'h5data'},
    'h5py.Group': {'h5', 'h5group'}, 'h5py.File': {'h5'},
    'builtins.Exception': {'exception'},
    'builtins.BaseException': {'exception'},
    'torch.Size': {'shape'},
    'numpy.generic': {'npscalar', 'npbool'},
    'numpy.number': {'npscalar'},
}


def isinstance_(I, v, c):
    v = I.reduce(v)
    if v.op == 'phi':
        from .interp import phi
        return phi(v.args[0], isinstance_(I, v.args[1], c),
                   isinstance_(I, v.args[2], c))
    seq = sequence(I, c)
    if c.op == 'tuple' or seq is not None:
        from .interp import lor
        out = FALSE
        for x in (seq if seq is not None else c.args):
            out = lor(out, isinstance_(I, v, x))
        return out
    t = typeof(I, v)
    if c.op == 'bin' and c.args[0] == '|':
        from .interp import lor
        return lor(isinstance_(I, v, c.args[1]), isinstance_(I, v, c.args[2]))
    if c.op == 'ext' and t is not None and t != 'any':
        names = TYPE_NAMES.get(c.args[0])
        if names is not None:
            if v.op == 'ref' and I.obj(v).kind == 'inst':
                return FALSE
            if t in KNOWN_TYPES:
                return const(t in names)
        elif t in KNOWN_TYPES and t not in ('tensor', 'ndarray'):
            return FALSE
    if c.op == 'class' and v.op == 'ref':
        o = I.obj(v)
        if o.cls is not None:
            return const(c.args[0] in I.prog.mro(o.cls)[0])
        return FALSE
    if c.op == 'class' and t in KNOWN_TYPES:
        return FALSE
    return mk('isinstance', (v, c))


TYPE_EXT = {'ndarray': 'numpy.ndarray', 'tensor': 'torch.Tensor',
            'npscalar': 'numpy.number', 'npbool': 'numpy.bool_'}
KNOWN_TYPES = {'none', 'str', 'bytes', 'int', 'float', 'bool', 'complex',
               'list', 'tuple', 'dict', 'set', 'ndarray', 'tensor', 'path',
               'datetime', 'npscalar', 'npbool', 'h5', 'h5data', 'h5group',
               'function', 'shape', 'param', 'exception'}


# -------------------------------------------------------------- sequences --
def sequence(I, v):
    """Concrete element list of v, or None."""
    v = I.reduce(v)
    if v.op == 'tuple':
        if any(x.op == 'splice' for x in v.args):
            return None
        return list(v.args)
    if v.op == 'ref':
        o = I.obj(v)
        if o is not None and o.kind in ('list', 'set'):
            it = o.data['items']
            if any(x.op == 'splice' for x in it):
                return None
            return list(it)
        if o is not None and o.kind == 'dict' and '*' not in o.data and \
                o.sym is None and all(isinstance(k, T) for k in o.data) and \
                not any(x is UNDEF or x.op == 'phi' for x in o.data.values()):
            return list(o.data)
        return None
    if is_const(v) and isinstance(cval(v), (str, bytes)):
        return [const(x) for x in cval(v)]
    return None


def iterate(I, v):
    """Like sequence but also for range/zip/enumerate/items of concrete."""
    s = sequence(I, v)
    if s is not None:
        return s
    if v.op == 'range' and all(is_const(a) for a in v.args):
        r = range(*[cval(a) for a in v.args])
        if len(r) <= 40:
            return [const(i) for i in r]
    if v.op == 'zip':
        parts = [iterate(I, a) for a in v.args]
        if all(p is not None for p in parts):
            return [mk('tuple', x) for x in zip(*parts)]
    if v.op == 'enumerate':
        p = iterate(I, v.args[0])
        if p is not None:
            st = cval(v.args[1], 0) if len(v.args) > 1 else 0
            return [mk('tuple', (const(i + st), x)) for i, x in enumerate(p)]
    if v.op == 'dictitems':
        o = I.obj(v.args[0]) if v.args[0].op == 'ref' else None
        if o is not None and '*' not in o.data and o.sym is None and \
                all(isinstance(k, T) for k in o.data):
            # phi(.., UNDEF) entries are conditional: keep them, flagged
            return [mk('tuple', (k, x)) for k, x in o.data.items()]
    if v.op == 'dictkeys':
        o = I.obj(v.args[0]) if v.args[0].op == 'ref' else None
        if o is not None and '*' not in o.data and o.sym is None and \
                all(isinstance(k, T) for k in o.data):
            return list(o.data)
    if v.op == 'reversed':
        p = iterate(I, v.args[0])
        if p is not None:
            return p[::-1]
    if v.op == 'dictvalues':
        o = I.obj(v.args[0]) if v.args[0].op == 'ref' else None
        if o is not None and '*' not in o.data and o.sym is None and \
                all(isinstance(k, T) for k in o.data):
            return list(o.data.values())
    if v.op == 'gen':
        return I.generated(v)
    if v.op == 'tuple' or v.op == 'const':
        return None
    return None


def splice_parts(I, v):
    """(concrete prefix list) of a list/tuple that contains splices."""
    if v.op == 'ref':
        o = I.obj(v)
        if o is not None and o.kind in ('list', 'set'):
            return list(o.data['items'])
    if v.op == 'tuple':
        return list(v.args)
    return None


def single_comp(I, v):
    """v is exactly one comprehension -> the comp node."""
    p = splice_parts(I, v)
    if p is not None and len(p) == 1 and p[0].op == 'splice' and \
            p[0].args[0].op == 'comp' and len(p[0].args[0].args) == 2:
        return p[0].args[0]
    if v.op == 'comp' and len(v.args) == 2:
        return v
    return None


def instances(I, it):
    """Iterating over an object that only has __getitem__ and __len__ is
    indexing it with 0 ... len - 1."""
    if it.op in ('enumerate', 'zip'):
        return mk(it.op, tuple(instances(I, I.reduce(x)) if x.op == 'ref'
                               else x for x in it.args))
    if it.op != 'ref':
        return it
    o = I.obj(it)
    if o is None or o.kind != 'inst' or o.cls is None or \
            I.prog.find_method(o.cls, '__iter__'):
        return it
    f = [I.prog.find_method(o.cls, n) for n in ('__getitem__', '__len__')]
    if None in f or any(('call', x.qual) in I.hooks for x in f):
        return it
    st = I.st
    I.st = st.fork()
    n = call_builtin(I, 'len', (it,), {}, None, None)
    r = mk('range', (n,))
    v = I.freeze(I.reduce(index(I, it, elem(I, r)))) \
        if I.st is not None else UNDEF
    I.st = st
    if v is UNDEF or any(x.op in ('ref', 'unknown', 'undef')
                         for x in walk(v)):
        return it
    return mk('comp', (v, r))


def source(I, it):
    """What a loop over it is bound to."""
    c = single_comp(I, it)
    while c is not None:
        it = c.args[1]
        c = single_comp(I, it)
    if it.op == 'enumerate':
        return source(I, I.reduce(it.args[0]))
    if it.op == 'zip' and it.args and all(
            single_comp(I, a) is not None for a in it.args):
        # several lists made from the same sequence
        s = [source(I, a) for a in it.args]
        if all(x is s[0] for x in s):
            return s[0]
    return it


def elem(I, it):
    """The generic element of an iterable."""
    it = I.reduce(it)
    c = single_comp(I, it)
    if c is not None:
        # the generic element of [f(x) for x in S] is f(x): same binder
        return c.args[0]
    if it.op == 'zip':
        return mk('tuple', tuple(elem(I, a) for a in it.args))
    if it.op == 'enumerate':
        x = I.reduce(it.args[0])
        s = source(I, x)
        depth = sum(1 for y in I.active_iters if y is s)
        if s.op == 'range' and len(s.args) == 1:
            i = elem(I, s)      # counts what the range counts
        else:
            i = mk('idx', (_froz(I, s),) + ((depth,) if depth else ()))
        if len(it.args) > 1:
            i = binop(I, '+', i, it.args[1])
        return mk('tuple', (i, elem(I, x)))
    if it.op == 'dictitems':
        d = _froz(I, it.args[0])
        return mk('tuple', (mk('elem', (mk('dictkeys', (d,)),)),
                            mk('dictelem', (d,))))
    depth = sum(1 for x in I.active_iters if x is it)
    f = _froz(I, it)
    return mk('elem', (f,) + ((depth,) if depth else ()))


def _froz(I, t):
    return I.freeze(t)


def list_extend(I, ref, v):
    o = I.obj(ref)
    seq = sequence(I, v)
    p = seq if seq is not None else splice_parts(I, v)
    if p is None:
        p = [mk('splice', (v,))]
    I.setobj(ref, o.put('items', o.data['items'] + tuple(p)))


def dict_update(I, ref, src):
    src = I.reduce(src)
    if src.op == 'phi':
        I.split(src, lambda x: (dict_update(I, ref, x), NONE)[1])
        return
    o = I.obj(ref)
    if src.op == 'ref' and I.obj(src).kind == 'dict':
        s = I.obj(src)
        d = dict(o.data)
        for k, v in s.data.items():
            if v.op == 'phi' if isinstance(v, T) else False:
                from .interp import phi
                if v.args[2] is UNDEF:
                    d[k] = phi(v.args[0], v.args[1], d.get(k, UNDEF))
                    continue
            d[k] = v
        from .interp import HObj
        I.setobj(ref, HObj('dict', None, d, o.sym or s.sym, o.info))
        return
    o2 = o.put('**', src)
    I.setobj(ref, o2)


# --------------------------------------------------------------- operators --
def _num(t):
    return is_const(t) and isinstance(cval(t), (int, float, complex)) and \
        not isinstance(cval(t), bool)


def binop(I, op, a, b):
    a, b = I.reduce(a), I.reduce(b)
    if is_const(a) and is_const(b):
        try:
            x, y = cval(a), cval(b)
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                 '/': lambda: x / y, '//': lambda: x // y, '%': lambda: x % y,
                 '**': lambda: x ** y, '&': lambda: x & y, '|': lambda: x | y,
                 '^': lambda: x ^ y, '<<': lambda: x << y,
                 '>>': lambda: x >> y}[op]()
            return const(r)
        except Exception:
            return mk('bin', (op, a, b))
    if a.op == 'phi' and _seqphi(I, a) or b.op == 'phi' and _seqphi(I, b):
        if a.op == 'phi':
            return I.split(a, lambda x: binop(I, op, x, b))
        return I.split(b, lambda x: binop(I, op, a, x))
    if op == '+':
        sa, sb = splice_parts(I, a), splice_parts(I, b)
        if sa is not None and sb is not None:
            if a.op == 'tuple':
                return mk('tuple', tuple(sa + sb))
            return I.newlist(sa + sb)
        if a.op == 'tuple' and typeof(I, b) == 'shape':
            return mk('tuple', tuple(sa) + (mk('splice', (b,)),))
        if b.op == 'tuple' and typeof(I, a) == 'shape':
            return mk('tuple', (mk('splice', (a,)),) + tuple(sb))
        if b.op == 'tuple' and a.op == 'index' and \
                a.args[0].op == 'attr' and a.args[0].args[1] == 'shape':
            return mk('tuple', (mk('splice', (a,)),) + tuple(sb))
        if isinstance(cval(a), str) or isinstance(cval(b), str) or \
                a.op == 'fstr' or b.op == 'fstr':
            pa = list(a.args) if a.op == 'fstr' else [a]
            pb = list(b.args) if b.op == 'fstr' else [b]
            return mk('fstr', tuple(pa + pb))
    if op == '*':
        for x, y in ((a, b), (b, a)):
            if is_const(y) and type(cval(y)) is int:
                sx = splice_parts(I, x)
                if sx is not None:
                    if x.op == 'tuple':
                        return mk('tuple', tuple(sx * cval(y)))
                    return I.newlist(sx * cval(y))
    if op == '%' and isinstance(cval(a), str):
        return mk('fstr', (a, b))
    if op == '-' and _num(b) and cval(b) == 0:
        return a
    if op == '-' and a is b and typeof(I, a) == 'int':
        return const(0)
    if op == '+' and _num(b) and cval(b) == 0:
        return a
    if op == '+' and _num(a) and cval(a) == 0:
        return b
    return mk('bin', (op, a, b))


def _seqphi(I, v):
    for x in v.args[1:]:
        if x.op == 'phi':
            if _seqphi(I, x):
                return True
        elif x.op in ('tuple', 'ref'):
            return True
        elif is_const(x) and isinstance(cval(x), str):
            return True
    return False


def unop(I, op, a):
    a = I.reduce(a)
    if op == 'pos':
        return a
    if is_const(a):
        try:
            return const({'neg': lambda: -cval(a),
                          'invert': lambda: ~cval(a)}[op]())
        except Exception:
            pass
    return mk(op, (a,))


NUM_CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==',
           'NotEq': '!='}


def is_none(I, a):
    """cond term for `a is None`"""
    from .interp import phi
    a = I.reduce(a)
    if a is UNDEF:
        return FALSE
    if a.op == 'phi':
        return phi(a.args[0], is_none(I, a.args[1]), is_none(I, a.args[2]))
    if is_const(a):
        return const(cval(a) is None)
    if a.op in ('tuple', 'ref', 'bin', 'func', 'class', 'partial', 'neg',
                'invert', 'cmp', 'fstr', 'module', 'bound', 'setitem', 'not',
                'slice', 'comp', 'h5', 'h5val', 'gen', 'range', 'zip') or \
            a.op.startswith('f:') or a.op.startswith('new:'):
        return FALSE
    t = typeof(I, a)
    if t in KNOWN_TYPES and t != 'none':
        return FALSE
    if a.op == 'index' and a.args[0].op != 'sym' and \
            typeof(I, a.args[0]) in ('tensor', 'ndarray', 'shape'):
        return FALSE
    if a.op == 'call' and a.args and a.args[0].op == 'ext' and \
            a.args[0].args[0].split('.')[0] in ('torch', 'numpy', 'scipy'):
        return FALSE
    r = mk('is', (a, NONE))
    if r in I.st.pc:
        return const(I.st.pc[r])
    return r


MIRROR = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE', 'Eq': 'Eq',
          'NotEq': 'NotEq'}


def compare(I, op, a, b):
    from .interp import lnot, phi, lor, land
    a, b = I.reduce(a), I.reduce(b)
    if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
        neg = op in ('IsNot', 'NotEq')
        r = None
        if b is NONE:
            r = is_none(I, a)
        elif a is NONE:
            r = is_none(I, b)
        elif op in ('Is', 'IsNot'):
            if is_const(a) and is_const(b):
                x, y = cval(a), cval(b)
                r = const(type(x) is type(y) and x == y)
            elif a is b:
                r = TRUE
            elif a.op == 'phi' and I._dispatchy(a):
                r = phi(a.args[0], compare(I, 'Is', a.args[1], b),
                        compare(I, 'Is', a.args[2], b))
            elif is_const(b) and cval(b) in (True, False) and \
                    typeof(I, a) == 'bool':
                r = I.boolify(a) if cval(b) else lnot(I.boolify(a))
            elif is_const(b) and typeof(I, a) in ('tensor', 'ndarray', 'str',
                                                  'list', 'dict', 'tuple'):
                r = FALSE
            else:
                r = mk('is', (a, b))
        if r is not None:
            return lnot(r) if neg else r
    if op in ('In', 'NotIn'):
        r = contains_(I, a, b)
        return lnot(r) if op == 'NotIn' else r
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        try:
            return const({'Lt': lambda: x < y, 'LtE': lambda: x <= y,
                          'Gt': lambda: x > y, 'GtE': lambda: x >= y,
                          'Eq': lambda: x == y, 'NotEq': lambda: x != y}
                         [op]())
        except Exception:
            pass
    if a.op == 'phi' and is_const(b) and I._dispatchy(a):
        return phi(a.args[0], compare(I, op, a.args[1], b),
                   compare(I, op, a.args[2], b))
    if op in ('Eq', 'NotEq'):
        sa, sb = sequence(I, a), sequence(I, b)
        if sa is not None and sb is not None and a.op == b.op == 'tuple':
            if len(sa) != len(sb):
                return const(op == 'NotEq')
            out = TRUE
            for x, y in zip(sa, sb):
                out = land(out, compare(I, 'Eq', x, y))
            return lnot(out) if op == 'NotEq' else out
        if a is b and typeof(I, a) in ('str', 'int', 'bool'):
            return const(op == 'Eq')
        if a.op == 'class' and b.op == 'class':
            return const((a is b) == (op == 'Eq'))
        if a.op == 'ext' and b.op == 'ext' and \
                a.args[0] in TYPE_NAMES and b.args[0] in TYPE_NAMES:
            return const((a is b) == (op == 'Eq'))
        for x, y in ((a, b), (b, a)):
            if x.op == 'attr' and x.args[1] == 'dtype' and y.op == 'ext' and \
                    y.args[0] == 'builtins.object' and \
                    x.args[0].op == 'h5read' and typeof(I, x.args[0]) in (
                        'ndarray', 'npscalar', 'npbool'):
                return const(op == 'NotEq')
        if a.op == 'ref' and I.obj(a).kind == 'dict':
            oa = I.obj(a)
            if oa.kind == 'dict' and b.op == 'ref' and \
                    I.obj(b).kind == 'dict':
                ob = I.obj(b)
                ka = {k for k, v in oa.data.items() if v is not UNDEF}
                kb = {k for k, v in ob.data.items() if v is not UNDEF}
                if not kb:
                    if any(oa.data[k].op != 'phi' for k in ka):
                        return const(op != 'Eq')
                    if not ka:
                        return const(op == 'Eq')
    if op in MIRROR and is_const(a) and not is_const(b):
        op, a, b = MIRROR[op], b, a
    c = mk('cmp', (NUM_CMP[op], a, b))
    if op == 'NotEq':
        e = mk('cmp', ('==', a, b))
        if e in I.st.pc:
            return const(not I.st.pc[e])
    if op == 'Eq':
        e = mk('cmp', ('!=', a, b))
        if e in I.st.pc:
            return const(not I.st.pc[e])
        if is_const(b):
            # another constant already known equal
            for k, v in I.st.pc.items():
                if v and k.op == 'cmp' and k.args[0] == '==' and \
                        k.args[1] is a and is_const(k.args[2]) and \
                        k.args[2] is not b:
                    return FALSE
    return c


def contains_(I, a, b):
    from .interp import lor, phi
    b = I.reduce(b)
    if b.op == 'phi':
        return phi(b.args[0], contains_(I, a, b.args[1]),
                   contains_(I, a, b.args[2]))
    if b.op == 'h5' or b.op == 'sym' and b.args[1] == 'h5':
        from . import h5model
        return h5model.has(I, b, a)
    if b.op == 'h5attrs':
        from . import h5model
        return h5model.attr_has(I, b, a)
    if b.op == 'dictkeys':
        return contains_(I, a, b.args[0])
    if b.op == 'ref':
        o = I.obj(b)
        if o.kind == 'dict':
            if is_const(a):
                if a in o.data:
                    return I._defd(o.data[a])
                if o.sym is None and '*' not in o.data and \
                        '**' not in o.data:
                    return FALSE
                return mk('in', (a, o.sym or b))
            r = mk('in', (a, I.freeze(b)))
            return r
        if o.kind in ('list', 'set'):
            if all(x.op != 'splice' for x in o.data['items']):
                r = FALSE
                for x in o.data['items']:
                    r = lor(r, compare(I, 'Eq', a, x))
                return r
    if b.op == 'tuple':
        r = FALSE
        for x in b.args:
            if x.op == 'splice':
                return mk('in', (a, b))
            r = lor(r, compare(I, 'Eq', a, x))
        return r
    if is_const(b) and is_const(a):
        try:
            return const(cval(a) in cval(b))
        except Exception:
            pass
    return mk('in', (a, I.freeze(b)))


# ----------------------------------------------------------------- indexing --
def index(I, b, i, node=None, fr=None):
    b, i = I.reduce(b), I.reduce(i)
    if b is UNDEF:
        return UNDEF
    if b.op == 'ext' and b.args[0].split('.')[-1] in ('s_', 'index_exp'):
        return i
    if b.op == 'ext' and b.args[0].split('.')[-1] == 'mgrid' and \
            i.op == 'tuple':
        return mk('tuple', tuple(mk('f:mgrid', (i, const(n)))
                                 for n in range(len(i.args))))
    if b.op == 'phi' and (I._dispatchy(b)):
        return I.split(b, lambda x: index(I, x, i, node, fr))
    if i.op == 'phi' and b.op in ('tuple', 'ref') and I._dispatchy(i):
        return I.split(i, lambda x: index(I, b, x, node, fr))
    if b.op == 'h5' or (b.op == 'sym' and b.args[1] == 'h5') or \
            b.op in ('h5val', 'h5attrs'):
        from . import h5model
        return h5model.getitem(I, b, i, node, fr)
    seq = splice_parts(I, b)
    if seq is not None:
        if is_const(i) and type(cval(i)) is int:
            n = cval(i)
            if n >= 0 and all(x.op != 'splice' for x in seq[:n + 1]):
                if n < len(seq):
                    return seq[n]
                return unknown('index out of range')
            if n < 0 and -n <= len(seq) and \
                    all(x.op != 'splice' for x in seq[n:]):
                return seq[n]
            c = single_comp(I, b)
            if c is not None:
                return comp_at(I, c, i)
        c = single_comp(I, b)
        if c is not None and is_const(c.args[0]) and i.op != 'slice':
            return c.args[0]
        if i.op == 'slice' and all(x.op != 'splice' for x in seq) and \
                all(is_const(x) for x in i.args):
            s = seq[slice(*[cval(x) for x in i.args])]
            if b.op == 'tuple':
                return mk('tuple', tuple(s))
            return I.newlist(s)
        if b.op == 'ref':
            return mk('index', (I.freeze(b), i))
    if b.op == 'ref':
        o = I.obj(b)
        if o.kind == 'dict':
            if i in o.data:
                v = I.reduce(o.data[i])
                if v is UNDEF:
                    I.emit('keyerror', None, (b, i), (), node, fr)
                    return I.throw('KeyError', node, fr)
                if v.op == 'phi' and v.args[2] is UNDEF:
                    return v.args[1]
                return v
            if o.sym is not None:
                return mk('index', (o.sym, i))
            if is_const(i) and '**' not in o.data and '*' not in o.data \
                    and all(isinstance(k, T) and is_const(k)
                            for k in o.data):
                I.emit('keyerror', None, (b, i), (), node, fr)
                return I.throw('KeyError', node, fr)
            r = mk('index', (I.freeze(b), i))
            return r
        if o.kind == 'inst' and o.cls is not None:
            m = I.prog.find_method(o.cls, '__getitem__')
            if m is not None and not (o.info or {}).get('opaque_getitem'):
                from .interp import FuncVal
                return I.callfunc(FuncVal(m), (b, i), {}, node, fr)
            if o.sym is not None:
                return mk('index', (o.sym, i))
        return mk('index', (b, i))
    if b.op == 'dictitems' or b.op == 'dictkeys':
        return mk('index', (b, i))
    c = single_comp(I, b)
    if c is not None and is_const(i) and type(cval(i)) is int:
        return comp_at(I, c, i)
    if b.op == 'index' and i.op == 'slice' and all(x is NONE for x in i.args):
        return b
    # x[:] of an unknown is kept; shape slices of known rank are left
    if b.op == 'attr' and b.args[1] == 'shape':
        inner = b.args[0]
        if i.op == 'slice':
            return mk('index', (b, i))
    if b.op == 'index' and b.args[0].op == 'attr' and \
            b.args[0].args[1] == 'shape' and b.args[1].op == 'slice' and \
            is_const(i) and type(cval(i)) is int:
        lo, hi, st = [cval(x) for x in b.args[1].args]
        n = cval(i)
        if st in (None, 1) and hi is None and isinstance(lo, int):
            if lo < 0 and n < 0:
                return mk('index', (b.args[0], i))
            if lo < 0 and 0 <= n < -lo:
                return mk('index', (b.args[0], const(lo + n)))
            if lo >= 0 and n >= 0:
                return mk('index', (b.args[0], const(lo + n)))
    return mk('index', (b, i))


def comp_at(I, c, i):
    body, it = c.args[0], c.args[1]
    if it.op == 'range':
        lo = it.args[0] if len(it.args) > 1 else const(0)
        st = it.args[2] if len(it.args) > 2 else const(1)
        if cval(i) >= 0:
            val = binop(I, '+', lo, binop(I, '*', i, st))
        else:
            val = index(I, it, i)
    elif it.op in ('zip', 'enumerate', 'dictitems'):
        return mk('index', (c, i))
    else:
        val = index(I, it, i)
    return subst(body, {mk('elem', (it,)): val})


def setitem(I, b, i, v, node=None, fr=None, quiet=False):
    """Returns a new value when the container must be rebound, else None."""
    b = I.reduce(b)
    if b.op == 'phi' and I._dispatchy(b):
        from .interp import phi
        r = I.split(b, lambda x: setitem(I, x, i, v, node, fr, quiet) or x)
        return r
    if b.op == 'h5' or (b.op == 'sym' and b.args[1] == 'h5') or \
            b.op in ('h5attrs',):
        from . import h5model
        h5model.setitem(I, b, i, v, node, fr)
        return None
    if b.op == 'ref':
        o = I.obj(b)
        if not quiet:
            I.emit('mutate', 'setitem', (b, i, v), (), node, fr)
        if o.kind == 'dict':
            i = I.reduce(i)
            I.setobj(b, o.put(i, v))
            return None
        if o.kind == 'list' and is_const(i) and type(cval(i)) is int:
            it = list(o.data['items'])
            if -len(it) <= cval(i) < len(it) and \
                    all(x.op != 'splice' for x in it):
                it[cval(i)] = v
                I.setobj(b, o.put('items', tuple(it)))
                return None
        if o.kind == 'list':
            I.setobj(b, o.put('items', (mk('splice', (mk('setitem', (
                I.freeze(b), i, v)),)),)))
            return None
        if o.kind == 'inst':
            return None
        return None
    if not quiet:
        I.emit('mutate', 'setitem', (b, i, v), (), node, fr)
    return mk('setitem', (b, i, v))


def delitem(I, b, i, node, fr):
    b = I.reduce(b)
    I.emit('mutate', 'delitem', (b, i), (), node, fr)
    if b.op == 'ref' and I.obj(b).kind == 'dict':
        I.setobj(b, I.obj(b).drop(i))


# ------------------------------------------------------------- attributes --
def getattr_(I, b, name, node, fr, default=None):
    if b is UNDEF:
        return UNDEF
    if b.op == 'h5' or (b.op == 'sym' and b.args[1] == 'h5') or \
            b.op in ('h5val', 'h5attrs'):
        from . import h5model
        return h5model.attr(I, b, name)
    if b.op in ('const', 'tuple', 'ref', 'supermeth', 'dictkeys', 'dictitems',
                'fstr', 'dictvalues'):
        if name == 'shape' or name == 'dtype':
            return mk('attr', (b, name))
        return mk('meth', (b, name))
    t = typeof(I, b)
    if name in ('real', 'imag', 'T', 'mT', 'H', 'mH'):
        if name in ('real', 'imag'):
            return mk('f:' + name, (b,))
        if name == 'T':
            return mk('f:T', (b,))
        return mk('attr', (b, name))
    if name == 'data' and b.op not in ('sym',) or name == 'data' and \
            t in ('tensor', 'param'):
        return mk('f:data', (b,))
    if name in ('shape', 'dtype', 'device', 'ndim', 'grad', 'requires_grad',
                'nbytes', 'size') and not (name == 'size' and
                                           t != 'ndarray'):
        if name == 'shape':
            sh = shapeof(I, b)
            if sh is not None:
                return sh
            return mk('attr', (simp_shape_base(I, b), name))
        if name == 'ndim':
            return dimof(I, b)
        return mk('attr', (b, name))
    if t in ('tensor', 'ndarray', 'str', 'bytes', 'float', 'int', 'list',
             'dict', 'path') or b.op.startswith('f:') or b.op == 'bin':
        return mk('meth', (b, name))
    # symbolic object: attribute or method, decided by use
    return mk('attr', (b, name))


TOOLSHAPES = {}         # of the results of uninterpreted functions


def toolshape(I, b):
    i = None
    if b.op == 'index' and is_const(b.args[1]):
        b, i = b.args[0], cval(b.args[1])
    fn, names, first = TOOLSHAPES.get(b.op, (None, (), ()))
    if fn is None:
        return None
    env = dict(b.kw)
    env.update(zip(first, b.args))
    try:
        s = fn(I, env, names)
    except KeyError:
        return None
    if isinstance(s, list):
        return s[i] if type(i) is int and i < len(s) else None
    return s if i is None else None


def shapeof(I, b):
    """Known shape (tuple term) of b, from declared symbol shapes."""
    b = I.reduce(b)
    if b in I.shapes:
        return I.shapes[b]
    if b.op == 'index' and b.args[0].op in TOOLSHAPES or \
            b.op in TOOLSHAPES:
        s = toolshape(I, b)
        if s is not None:
            return s
    if b.op == 'sym' and b.args[1] in ('int', 'float'):
        return mk('tuple', ())
    if b.op == 'ext' and b.args[0].split('.')[-1] in ('pi', 'inf', 'e') or \
            is_const(b) and isinstance(cval(b), (int, float, complex)):
        return mk('tuple', ())
    if b.op in ('f:tensor', 'f:as_tensor', 'f:array', 'f:asarray') and \
            b.args and b.args[0].op in ('list', 'tuple'):
        its = b.args[0].args
        return mk('tuple', (const(len(its)),)) if its and all(
            x.op != 'splice' and shapeof(I, x) is NOSHAPE
            for x in its) else None
    if b.op in ('f:argmax', 'f:argmin') and len(b.args) == 1 and all(
            k == '%lib' for k, _ in b.kw):
        return NOSHAPE
    if b.op == 'index' and b.args[0].op == 'attr' and \
            b.args[0].args[1] == 'shape' and is_const(b.args[1]):
        return NOSHAPE
    if b.op in SHAPE_KEEP or b.op in ('h5read', 'neg', 'invert', 'setitem'):
        return shapeof(I, b.args[0]) if b.args else None
    if b.op in ('h5val', 'loopsum'):
        return shapeof(I, b.args[1])
    if b.op == 'f:T':
        s = shapeof(I, b.args[0])
        return mk('tuple', s.args[::-1]) if s is not None else None
    if b.op == 'phi':
        x, y = shapeof(I, b.args[1]), shapeof(I, b.args[2])
        return x if x is y else None
    if b.op in ('f:ndarray',) and b.args:
        return shapeof(I, b.args[0])
    if b.op in SHAPE_KEEP2 and b.args:
        return shapeof(I, b.args[0])
    if b.op in ('cmp', 'bin'):
        ss = []
        for x in b.args[1:]:
            if is_const(x):
                continue
            s = shapeof(I, x)
            if s is None and x.op in ('tuple', 'list') and x.args and not all(
                    y.op in ('tuple', 'list') for y in b.args[1:]) and all(
                    y.op != 'splice' and shapeof(I, y) is NOSHAPE
                    for y in x.args):
                s = mk('tuple', (const(len(x.args)),))
            if s is None:
                return None
            ss.append(s)
        if not ss:
            return None
        out = ss[0]
        for s in ss[1:]:
            out = broadcast(out, s)
            if out is None:
                return None
        return out
    if b.op == 'f:mgrid' and len(b.args) == 2:
        sl = b.args[0].args if b.args[0].op == 'tuple' else (b.args[0],)
        if all(x.op == 'slice' and x.args[2] is NONE and x.args[1] is not NONE
               and (x.args[0] is NONE or is_const(x.args[0]) and
                    cval(x.args[0]) == 0) for x in sl):
            return mk('tuple', tuple(x.args[1] for x in sl))
        return None
    if b.op == 'f:meshgrid':
        ix = dict(b.kw).get('indexing')
        ss = [shapeof(I, x) for x in b.args[:-1]]
        if ix is not None and is_const(ix) and cval(ix) == 'ij' and all(
                x is not None and len(x.args) == 1 for x in ss):
            return mk('tuple', tuple(x.args[0] for x in ss))
        return None
    if b.op == 'index' and len(b.args) == 2:
        s = shapeof(I, b.args[0])
        return index_shape(I, s, b.args[1], b) if s is not None else None
    if b.op == 'maprows':
        return shapeof(I, b.args[0])
    if b.op == 'loopval' and len(b.args) == 4 and \
            b.args[3].op == 'setitem' and b.args[3].args[0].op == 'mu' and \
            b.args[3].args[0].args[1] == b.args[1] and \
            b.args[2] is not UNDEF:
        return shapeof(I, b.args[2])
    if b.op == 'f:reshape' and len(b.args) == 1:
        s = dict(b.kw).get('shape')
        if s is None or s.op not in ('tuple', 'list') or any(
                x.op == 'splice' for x in s.args):
            return None
        return mk('tuple', tuple(
            length(b, k) if is_const(x) and cval(x) == -1 else x
            for k, x in enumerate(s.args)))
    if b.op == 'f:unsqueeze' and len(b.args) > 1 and is_const(b.args[1]):
        s = shapeof(I, b.args[0])
        if s is None:
            return None
        k = cval(b.args[1])
        n = len(s.args) + 1
        k = k + n if k < 0 else k
        return mk('tuple', s.args[:k] + (const(1),) + s.args[k:])
    if b.op == 'f:stack' and b.args and not is_const(b.args[0]):
        src = b.args[0]
        if src.op == 'ref':
            o = I.obj(src)
            its = o.data['items'] if o is not None and o.kind == 'list' \
                else []
        else:
            its = list(src.args) if src.op in ('list', 'tuple') else []
        k = dict(b.kw).get('dim', const(0))
        if len(its) == 1 and its[0].op == 'splice':
            c = its[0].args[0]
            if c.op != 'comp' or len(c.args) != 2 or not (
                    is_const(k) and cval(k) == 0):
                return None
            s, src = shapeof(I, c.args[0]), c.args[1]
            if src.op == 'zip':
                src = src.args[0]
            n = shapeof(I, src)
            if s is None or n is None or not n.args:
                return None
            return mk('tuple', n.args[:1] + s.args)
        it = None if any(x.op == 'splice' for x in its) else its
        if it and is_const(k):
            s = shapeof(I, it[0])
            if s is not None:
                n = cval(k)
                n = n + len(s.args) + 1 if n < 0 else n
                return mk('tuple', s.args[:n] + (const(len(it)),) +
                          s.args[n:])
        return None
    if b.op in ('f:F.pad', 'f:nn.functional.pad'):
        s, w = shapeof(I, b.args[0]), dict(b.kw).get('pad')
        if w is None and len(b.args) > 1:
            w = b.args[1]
        w = I.reduce(w) if w is not None else None
        if s is None or w is None or w.op != 'tuple' or \
                len(w.args) % 2 or len(w.args) > 2 * len(s.args):
            return None
        out = list(s.args)
        for k in range(len(w.args) // 2):
            out[-1 - k] = linsum([out[-1 - k], w.args[2 * k],
                                  w.args[2 * k + 1]])
        return mk('tuple', tuple(out))
    if b.op in ('f:sum', 'f:mean', 'f:max', 'f:min', 'f:prod', 'f:nansum',
                'f:norm') and len(b.args) == 1:
        k = {n: v for n, v in b.kw if n not in ('%lib', 'dtype')}
        d = k.pop('dim', None)
        s = shapeof(I, b.args[0])
        if k or s is None:
            return None
        if d is None or d is NONE:
            return mk('tuple', ())
        ds = list(d.args) if d.op in ('tuple', 'list') else [d]
        if b.op in ('f:max', 'f:min') or not all(
                is_const(x) and isinstance(cval(x), int) for x in ds):
            return None
        ds = {cval(x) % len(s.args) for x in ds
              if -len(s.args) <= cval(x) < len(s.args)}
        return mk('tuple', tuple(x for n, x in enumerate(s.args)
                                 if n not in ds))
    if b.op == 'f:F.avg_pool2d' and len(b.args) == 1 and set(
            k for k, _ in b.kw) <= {'kernel_size', '%lib'}:
        s, k = shapeof(I, b.args[0]), dict(b.kw).get('kernel_size')
        if s is None or k is None or len(s.args) < 2 or k.op == 'tuple':
            return None
        return mk('tuple', s.args[:-2] + tuple(
            mk('bin', ('//', x, k)) for x in s.args[-2:]))
    if b.op == 'f:fftfreq' and b.args:
        return mk('tuple', (b.args[0],))
    if b.op == 'f:complex' and b.args:
        return shapeof(I, b.args[0])
    if b.op == 'f:dot' and len(b.args) == 2:
        s, u = shapeof(I, b.args[0]), shapeof(I, b.args[1])
        if s is None or u is None or s.op != 'tuple' or u.op != 'tuple':
            return None
        if len(s.args) == len(u.args) == 1:
            return mk('tuple', ())
        if len(s.args) == len(u.args) == 2:
            return mk('tuple', (s.args[0], u.args[1]))
        return None
    if b.op == 'f:cross' and len(b.args) == 2:
        s, u = shapeof(I, b.args[0]), shapeof(I, b.args[1])
        return s if s is u else None
    if b.op == 'f:vstack' and len(b.args) == 1 and b.args[0].op in (
            'list', 'tuple'):
        rows, cols = 0, None
        for x in b.args[0].args:
            s = shapeof(I, x) if x.op != 'splice' else None
            if s is None or s.op != 'tuple' or len(s.args) not in (1, 2):
                return None
            cols = s.args[-1]
            n = s.args[0] if len(s.args) == 2 else const(1)
            if not is_const(n):
                return None
            rows += cval(n)
        return mk('tuple', (const(rows), cols)) if cols is not None else None
    if b.op in ('f:linalg.pinv', 'f:pinverse', 'f:pinv') and b.args:
        s = shapeof(I, b.args[0])
        return mk('tuple', s.args[:-2] + s.args[:-3:-1]) if s is not None \
            and s.op == 'tuple' and len(s.args) > 1 else None
    if b.op == 'f:outer' and len(b.args) == 2:
        s, u = shapeof(I, b.args[0]), shapeof(I, b.args[1])
        return mk('tuple', s.args + u.args) if s is not None and \
            u is not None and len(s.args) == len(u.args) == 1 else None
    if b.op == 'f:tensordot' and len(b.args) == 2:
        s, u = shapeof(I, b.args[0]), shapeof(I, b.args[1])
        d = dict(b.kw).get('dims')
        if s is not None and u is not None and s.args and u.args and \
                d is not None and is_const(d) and cval(d) == 1:
            return mk('tuple', s.args[:-1] + u.args[1:])
        return None
    if b.op == 'elem' and len(b.args) == 1:
        s = shapeof(I, b.args[0])
        return mk('tuple', s.args[1:]) if s is not None and s.args else None
    if b.op.startswith('new:') and b.args:
        n = b.op.split('.')[-1]
        if n == 'arange' and len(b.args) == 1:
            return mk('tuple', (b.args[0],))
        if n in ('zeros', 'ones', 'rand', 'randn', 'empty', 'full'):
            a = b.args[0]
            it = list(a.args) if a.op in ('tuple', 'list') else \
                [a] if len(b.args) == 1 and (
                    is_const(a) and isinstance(cval(a), int) or
                    a.op == 'sym' and a.args[1] == 'int') else \
                sequence(I, a)
            if it is None and b.args[0].op != 'attr' and (
                    len(b.args) > 1 or n == 'full'):
                return None
            if it is not None and not any(x.op == 'splice' for x in it):
                return mk('tuple', tuple(it))
        if n.endswith('_like'):
            return shapeof(I, b.args[0])
    return None


NOSHAPE = mk('tuple', ())


def length(b, k):
    return mk('index', (mk('attr', (b, 'shape')), const(k)))


def sliced(n, sl):
    """length of a slice of an axis of length n"""
    return length(mk('index', (mk('new:torch.arange', (n,)), sl)), 0)


def linsum(xs):
    from .norm import lin
    d = {}
    for x in xs:
        for k, v in lin(x).items():
            d[k] = d.get(k, 0) + v
    out = None
    for k, v in d.items():
        if not v:
            continue
        y = const(v) if k is None else k if v == 1 else mk(
            'bin', ('*', const(v), k))
        out = y if out is None else mk('bin', ('+', out, y))
    return out if out is not None else const(0)


def broadcast(a, b):
    """Shape of an element-wise operation, or None."""
    x, y = list(a.args), list(b.args)
    while len(x) < len(y):
        x.insert(0, const(1))
    while len(y) < len(x):
        y.insert(0, const(1))
    out = []
    for p, q in zip(x, y):
        if p is q or is_const(q) and cval(q) == 1:
            out.append(p)
        elif is_const(p) and cval(p) == 1:
            out.append(q)
        else:
            return None
    return mk('tuple', tuple(out))


def index_shape(I, s, ix, base=None):
    ix = I.reduce(ix)
    items = list(ix.args) if ix.op == 'tuple' else [ix]
    if any(x.op == 'splice' for x in items):
        return None
    if len(items) == 1 and items[0] in getattr(I, 'intindex', ()):
        return mk('tuple', shapeof(I, items[0]).args + s.args[1:])
    for x in items:
        if not (x is NONE or is_const(x) and (
                cval(x) is Ellipsis or isinstance(cval(x), int) and
                not isinstance(cval(x), bool)) or x.op == 'slice' or
                x.op == 'sym' and x.args[1] == 'int' or
                x.op == 'elem' and x.args[0].op == 'range'):
            return None
    used = sum(1 for x in items if not (
        x is NONE or is_const(x) and cval(x) is Ellipsis))
    if used > len(s.args):
        return None
    out, k = [], 0
    seen = False
    for x in items:
        if x is NONE:
            out.append(const(1))
        elif is_const(x) and cval(x) is Ellipsis:
            if seen:
                return None
            seen = True
            n = len(s.args) - used
            out += s.args[k:k + n]
            k += n
        elif x.op == 'slice':
            a, b, c = (tuple(x.args) + (NONE, NONE, NONE))[:3]
            one = c is NONE or is_const(c) and cval(c) == 1
            if a is NONE and b is NONE and (
                    one or is_const(c) and cval(c) == -1):
                out.append(s.args[k])
            elif one and a is not NONE and b is not NONE:
                from .norm import ldiff
                d = ldiff(b, a)
                if len(d) == 1 and None not in d and \
                        list(d.values())[0] == 1:
                    out.append(list(d)[0])
                elif set(d) == {None} and d[None] == int(d[None]):
                    out.append(const(int(d[None])))
                else:
                    n = cut(I, s.args[k], a, b)
                    out.append(n if n is not None else sliced(s.args[k], x))
            elif a is NONE and b is NONE and is_const(c) and \
                    isinstance(cval(c), int) and cval(c) > 1:
                out.append(mk('bin', ('//', linsum(
                    [s.args[k], const(cval(c) - 1)]), c)))
            else:
                n = cut(I, s.args[k], a, b) if one else None
                out.append(n if n is not None else sliced(s.args[k], x))
            k += 1
        else:
            k += 1
    return mk('tuple', tuple(out) + s.args[k:])


def positive(I, x):
    return is_const(x) and isinstance(cval(x), (int, float)) and \
        cval(x) > 0 or I.st is not None and \
        I.st.pc.get(mk('cmp', ('>', x, const(0)))) is True


def cut(I, dim, a, b):
    """length of [a:b] of an axis that is known to contain it"""
    from .norm import lin, ldiff
    def margin(v):
        if is_const(v) and isinstance(cval(v), int) and cval(v) < 0:
            return const(-cval(v))
        if v.op == 'neg' and positive(I, v.args[0]):
            return v.args[0]
        d = ldiff(dim, v)
        if len(d) == 1:
            (k, c), = d.items()
            if c > 0 and (k is None or positive(I, k)):
                return linsum([dim, mk('neg', (v,))])
        return None
    if a is NONE or is_const(a) and cval(a) == 0:
        lo = []
    elif positive(I, a):
        lo = [mk('neg', (a,))]
    else:
        return None
    if b is NONE:
        return linsum([dim] + lo)
    m = margin(b)
    if m is None:
        return None
    return linsum([dim, mk('neg', (m,))] + lo)


SHAPE_KEEP2 = {'f:fftshift', 'f:ifftshift', 'f:fft2', 'f:ifft2', 'f:fftn',
               'f:ifftn', 'f:roll', 'f:flip', 'f:square', 'f:log', 'f:sin',
               'f:cos', 'f:pow', 'f:float32', 'f:float64', 'f:bool', 'f:int',
               'f:double', 'f:from_numpy', 'f:complex64', 'f:sigmoid',
               'f:isnan', 'f:requires_grad_', 'f:cuda', 'astype',
               'f:resolve_conj', 'f:neg', 'f:reciprocal', 'f:zeros_like',
               'f:ones_like', 'f:logical_not', 'f:invert', 'f:clamp',
               'f:floor', 'f:round', 'f:ceil', 'f:trunc', 'f:sign',
               'f:tanh', 'f:log10', 'f:special.sinc', 'f:sinc', 'f:nan_to_num'}


def dimof(I, b):
    r = rankof(I, b)
    if r is not None:
        return const(r)
    return mk('f:dim', (simp_shape_base(I, b),))


def rankof(I, b):
    s = shapeof(I, b)
    if s is not None and s.op == 'tuple' and not any(
            x.op == 'splice' for x in s.args):
        return len(s.args)
    return None


SHAPE_KEEP = {'f:detach', 'f:cpu', 'f:numpy', 'f:abs', 'f:conj', 'f:exp',
              'f:sqrt', 'f:clone', 'f:to', 'f:as_tensor', 'f:real', 'f:imag',
              'f:tensor', 'f:data', 'f:Parameter', 'f:angle', 'f:astype',
              'f:copy', 'f:contiguous', 'f:float'}


def simp_shape_base(I, b):
    while b.op in SHAPE_KEEP and b.args:
        b = b.args[0]
    return b


# ------------------------------------------------------------ canonical f: --
def canon(name, recv, args, kw, lib=None):
    """Canonical array operation node."""
    base = ALIASES.get(name, name)
    kw = {KWALIAS.get(k, k): v for k, v in kw.items()}
    sig = TF.get(name)
    pos = list(args)
    if name in ('real', 'imag', 'abs') and not pos and not kw:
        return mk('f:' + base, (recv,))
    extra = []
    if sig is not None:
        if name in ('reshape', 'view', 'permute', 'expand', 'repeat') and \
                len(pos) > 1:
            pos = [mk('tuple', tuple(pos))]
        if name in ('transpose', 'reshape', 'permute') and len(pos) == 0 and \
                not kw:
            if name == 'transpose':
                return mk('f:T', (recv,))
        for k, v in zip(sig, pos):
            kw.setdefault(k, v)
        extra = pos[len(sig):]
    else:
        extra = pos
    o = kw.pop('other', None)
    a = (recv,) + ((o,) if o is not None else ()) + tuple(extra)
    if base in ('mul', 'add', 'sub', 'div', 'pow', 'matmul') and len(a) == 2 \
            and not kw:
        sy = {'mul': '*', 'add': '+', 'sub': '-', 'div': '/', 'pow': '**',
              'matmul': '@'}[base]
        return mk('bin', (sy,) + a)
    if base == 'neg' and len(a) == 1:
        return mk('neg', a)
    if base == 'invert' and len(a) == 1:
        return mk('invert', a)
    if base == 'square' and len(a) == 1:
        return mk('bin', ('**', a[0], const(2)))
    if base == 'div' and 'rounding_mode' in kw and len(a) == 2:
        if cval(kw['rounding_mode']) == 'floor':
            return mk('bin', ('//',) + a)
    if base in ('eq', 'ne') and len(a) == 2:
        return mk('cmp', ('==' if base == 'eq' else '!=',) + a)
    if base in ('logical_or', 'logical_and') and len(a) == 2:
        return mk('bin', ('|' if base == 'logical_or' else '&',) + a)
    for k in list(kw):
        if kw[k] is NONE and k in ('dim', 'out', 'dtype', 'device', 's',
                                   'norm'):
            kw.pop(k)
        elif kw.get(k) is FALSE and k in ('keepdim',):
            kw.pop(k)
    return mk('f:' + base, a, tuple(sorted(kw.items())))


def call_method(I, b, name, args, kw, node, fr):
    b = I.reduce(b)
    # --- containers
    if b.op == 'ref':
        o = I.obj(b)
        if o.kind in ('list', 'set'):
            return list_method(I, b, o, name, args, kw, node, fr)
        if o.kind == 'dict':
            return dict_method(I, b, o, name, args, kw, node, fr)
        if o.kind == 'inst':
            return module_method(I, b, o, name, args, kw, node, fr)
    if b.op == 'supermeth':
        return super_method(I, b, args, kw, node, fr)
    if b.op == 'tuple':
        if name in TF and not hasattr(tuple, name) and fr is not None:
            return I.throw('AttributeError', node, fr)
        return mk('call', (mk('attr', (b, name)),) + tuple(args))
    if is_const(b) and isinstance(cval(b), (str, bytes)):
        if all(is_const(a) for a in args) and not kw:
            try:
                r = getattr(cval(b), name)(*[cval(a) for a in args])
                if isinstance(r, list):
                    return I.newlist([const(x) for x in r])
                return const(r)
            except Exception:
                pass
        if name == 'join' and len(args) == 1:
            sq = sequence(I, args[0])
            if sq is not None and all(is_const(x) for x in sq):
                try:
                    return const(cval(b).join(cval(x) for x in sq))
                except TypeError:
                    pass
        args = tuple(I.freeze(a) for a in args)
        if name == 'join':
            return mk('strjoin', (b,) + args)
        if name == 'format':
            return mk('fstr', (b,) + args)
        return mk('strmeth', (name, b) + args)
    if b.op in ('h5', 'h5attrs', 'h5val'):
        from . import h5model
        r = h5model.method(I, b, name, args, kw, node, fr)
        if r is not None:
            return r
    t = typeof(I, b)
    if b.op == 'h5read' and name == 'decode' and \
            typeof(I, b.args[0]) == 'str':
        return b.args[0]
    if t in ('str', 'bytes') or b.op in ('fstr', 'strjoin', 'strmeth'):
        return mk('strmeth', (name, b) + tuple(I.freeze(a) for a in args))
    if b.op in ('dictkeys', 'dictitems'):
        return mk('call', (mk('attr', (b, name)),) + tuple(args))
    return array_method(I, b, name, args, kw, node, fr)


def array_method(I, b, name, args, kw, node, fr):
    if name in TF:
        if name in ('reshape', 'view'):
            if len(args) == 1 and args[0].op == 'ref':
                args = (I.freeze(args[0]),)
        args = tuple(I.freeze(a) if a.op == 'ref' else a for a in args)
        kw = {k: (I.freeze(v) if v.op == 'ref' else v) for k, v in kw.items()}
        if name == 'dim' and not args:
            return dimof(I, b)
        if name == 'size':
            s = getattr_(I, b, 'shape', node, fr)
            if args:
                return index(I, s, args[0])
            if not kw and typeof(I, b) != 'ndarray':
                return s
        if name.endswith('_') and name != 'requires_grad_':
            v = canon(name[:-1], b, args, kw)
            if name in ('copy_', 'fill_', 'zero_'):
                v = mk('f:' + name[:-1], (b,) + tuple(args))
            I.emit('mutate', name, (b,) + tuple(args), kw, node, fr, v)
            # value semantics: x.foo_() rebinds x when x is a plain name
            if node is not None and isinstance(node.func, ast.Attribute):
                I.rebind(node.func.value, v, fr, node)
            return v
        if name == 'maximum' and 'out' in kw:
            pass
        v = canon(name, b, args, kw)
        if name == 'backward':
            I.emit('call', 'backward', (b,) + tuple(args), kw, node, fr, v)
        elif name in ('item', 'detach', 'numpy', 'cpu', 'tolist'):
            I.emit('call', name, (b,), kw, node, fr, v)
        return v
    args = tuple(args)
    if name == 'step':
        fs = [a for a in list(args) + list(kw.values())
              if a.op in ('func', 'bound', 'partial')]
        if fs:
            # optimizer.step(closure): the closure runs (at least once)
            sub = I.st.trace
            I.st.trace = []
            v = I.call(fs[0], (), {}, node, fr)
            body = I.st.trace
            I.st.trace = sub
            r = mk('stepped', (b, v))
            e = I.emit('step', '.step', (b,) + args, kw, node, fr, r,
                       blocks=(body,))
            return r
    v = mk('call', (mk('attr', (b, name)),) + args, tuple(sorted(kw.items())))
    I.emit('call', '.' + name, (b,) + args, kw, node, fr, v)
    return v


def list_method(I, b, o, name, args, kw, node, fr):
    items = o.data['items']
    if name in ('append', 'add'):
        I.emit('mutate', name, (b,) + tuple(args), kw, node, fr)
        I.setobj(b, o.put('items', items + (args[0],)))
        return NONE
    if name in ('extend', 'update'):
        I.emit('mutate', name, (b,) + tuple(args), kw, node, fr)
        list_extend(I, b, args[0])
        return NONE
    if name == 'copy':
        return I.newlist(items, o.kind)
    if name == 'insert' and is_const(args[0]) and cval(args[0]) == 0:
        I.emit('mutate', name, (b,) + tuple(args), kw, node, fr)
        I.setobj(b, o.put('items', (args[1],) + items))
        return NONE
    if name in ('insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
        I.emit('mutate', name, (b,) + tuple(args), kw, node, fr)
        if name == 'pop' and not args and items and items[-1].op != 'splice':
            I.setobj(b, o.put('items', items[:-1]))
            return items[-1]
        v = I.freeze(b)
        I.setobj(b, o.put('items', (mk('splice', (mk('listop', (
            name, v) + tuple(args)),)),)))
        return unknown('list.' + name)
    return mk('call', (mk('attr', (I.freeze(b), name)),) +
              tuple(I.freeze(a) for a in args))


def dict_method(I, b, o, name, args, kw, node, fr):
    from .interp import phi
    if name == 'items':
        return mk('dictitems', (b,))
    if name == 'keys':
        return mk('dictkeys', (b,))
    if name == 'values':
        return mk('dictvalues', (b,))
    if name in ('get', 'pop', 'setdefault'):
        k = I.reduce(args[0])
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        if k in o.data:
            v = I.reduce(o.data[k])
            v = _undef_to(v, d)
        elif o.sym is not None:
            v = mk('dictget', (o.sym, k, d))
        elif '*' in o.data or '**' in o.data or not is_const(k):
            v = mk('dictget', (I.freeze(b), k, d))
        else:
            v = d
        if name == 'pop':
            I.emit('mutate', 'pop', (b, k), {}, node, fr)
            I.setobj(b, o.drop(k))
        if name == 'setdefault':
            I.emit('mutate', 'setdefault', (b, k), {}, node, fr)
            I.setobj(b, o.put(k, v))
        return v
    if name == 'update':
        I.emit('mutate', 'update', (b,) + tuple(args), kw, node, fr)
        if args:
            dict_update(I, b, args[0])
        for k, v in kw.items():
            o = I.obj(b)
            I.setobj(b, o.put(const(k), v))
        return NONE
    if name == 'copy':
        from .interp import HObj
        return I.new('dict', data=dict(o.data), sym_=o.sym)
    if name in ('clear', 'popitem'):
        I.emit('mutate', name, (b,), kw, node, fr)
    return mk('call', (mk('attr', (I.freeze(b), name)),) + tuple(args))


def _undef_to(v, d):
    from .interp import phi
    if v is UNDEF:
        return d
    if v.op == 'phi':
        return phi(v.args[0], _undef_to(v.args[1], d),
                   _undef_to(v.args[2], d))
    return v


def super_method(I, b, args, kw, node, fr):
    slf, name = b.args
    if name in ('__init__', '__setattr__', '__init_subclass__'):
        return NONE
    r = I.reduce(slf)
    if r.op == 'ref' and I.obj(r).kind == 'inst':
        return module_method(I, r, I.obj(r), name, args, kw, node, fr)
    v = mk('call', (mk('attr', (slf, name)),) + tuple(args),
           tuple(sorted(kw.items())))
    I.emit('call', 'super.' + name, tuple(args), kw, node, fr, v)
    return v


def module_method(I, b, o, name, args, kw, node, fr):
    """torch.nn.Module protocol on instances of repository classes."""
    h = I.hooks.get(('module', name))
    if h:
        r = h(I, b, o, args, kw, node, fr)
        if r is not None:
            return r
    from .interp import phi
    if name == 'register_buffer':
        names = ['name', 'tensor', 'persistent']
        a = dict(zip(names, args))
        a.update(kw)
        nm = cval(I.reduce(a['name']))
        o = I.obj(b)
        if nm is None:
            I.emit('call', 'register_buffer', (b,) + tuple(args), kw, node,
                   fr)
            return NONE
        I.emit('setattr', nm, (b, a['tensor']), (), node, fr)
        n = o.put(nm, a['tensor'])
        if a.get('persistent') is not FALSE:
            n = n.put('%reg:' + nm, const('buffer'))
        I.setobj(b, n)
        return NONE
    if name == 'register_parameter':
        nm = cval(I.reduce(args[0]))
        I.emit('setattr', nm, (b, args[1]), (), node, fr)
        I.setobj(b, o.put(nm, args[1]).put('%reg:' + nm, const('param')))
        return NONE
    if name == 'state_dict' and o.sym is None:
        d = {}
        for k, v in o.data.items():
            if isinstance(k, str) and k.startswith('%reg:'):
                nm = k[5:]
                val = o.data.get(nm, UNDEF)
                d[const(nm)] = _guarded(v, val)
        I.emit('call', 'state_dict', (b,), kw, node, fr)
        return I.new('dict', data=d)
    if name == 'load_state_dict' and o.sym is None and args:
        sd = I.reduce(args[0])
        so = I.obj(sd) if sd.op == 'ref' else None
        I.emit('call', 'load_state_dict', (b,) + tuple(args), kw, node, fr)
        if so is not None and so.kind == 'dict' and so.sym is None:
            n = o
            for k, v in o.data.items():
                if not (isinstance(k, str) and k.startswith('%reg:')):
                    continue
                nm = k[5:]
                val = so.data.get(const(nm), UNDEF)
                if val is UNDEF:
                    continue
                old = n.data.get(nm, UNDEF)
                if v.op == 'phi':
                    val = _guarded(v, val)
                n = n.put(nm, phi_undef(val, old))
            I.setobj(b, n)
            return mk('keysmatch', (b,))
    v = mk('call', (mk('attr', (o.sym if o.sym is not None else b, name)),)
           + tuple(args), tuple(sorted(kw.items())))
    I.emit('call', '.' + name, (b,) + tuple(args), kw, node, fr, v)
    return v


def phi_undef(val, old):
    """val where it is defined, old elsewhere"""
    from .interp import phi
    if val is UNDEF:
        return old
    if val.op == 'phi':
        return phi(val.args[0], phi_undef(val.args[1], old),
                   phi_undef(val.args[2], old))
    return val


def _guarded(reg, val):
    """val where reg is defined, UNDEF elsewhere"""
    from .interp import phi
    if reg is UNDEF:
        return UNDEF
    if reg.op == 'phi':
        return phi(reg.args[0], _guarded(reg.args[1], val),
                   _guarded(reg.args[2], val))
    return val


# ------------------------------------------------------------ library calls --
# library functions which change their first argument
DEST = {'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask',
        'numpy.fill_diagonal', 'numpy.put_along_axis',
        'numpy.random.shuffle', 'random.shuffle',
        'numpy.add.at', 'numpy.subtract.at', 'numpy.multiply.at',
        'numpy.maximum.at', 'numpy.minimum.at'}


def call_ext(I, name, args, kw, node, fr):
    h = I.hooks.get(('ext', name))
    if h:
        r = h(I, args, kw, node, fr)
        if r is not None:
            return r
    if name.startswith('builtins.'):
        return call_builtin(I, name[9:], args, kw, node, fr)
    if name in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray'):
        v = mk('f:ndarray' if name != 'numpy.asarray' else 'f:ndarray',
               tuple(_fz(I, a) for a in args),
               _kwfz(I, kw) + ((('%alias', TRUE),) if name !=
                               'numpy.array' else ()))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if name in ('torch.tensor', 'torch.as_tensor', 'torch.from_numpy',
                'torch.asarray', 'torch.Tensor', 'torch.FloatTensor'):
        if args and I.reduce(args[0]) is NONE and fr is not None:
            return I.throw('TypeError', node, fr)
        op = {'torch.tensor': 'f:tensor', 'torch.Tensor': 'f:tensor',
              'torch.FloatTensor': 'f:tensor'}.get(name, 'f:as_tensor')
        v = mk(op, tuple(_fz(I, a) for a in args), _kwfz(I, kw))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if name == 'torch.nn.Parameter' or name == 'torch.nn.parameter.Parameter':
        if 'data' in kw:
            args = (kw.pop('data'),)
        v = mk('f:Parameter', (args[0],), _kwfz(I, kw))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if name == 'functools.reduce' and 2 <= len(args) <= 3 and not kw:
        seq = iterate(I, I.reduce(args[1]))
        if seq is not None:
            seq = list(args[2:]) + seq
            if not seq:
                return I.throw('TypeError', node, fr)
            v = seq[0]
            for x in seq[1:]:
                v = I.call(args[0], (v, x), {}, node, fr)
                if I.st is None:
                    return UNDEF
            return v
    if name == 'functools.partial':
        return mk('partial', tuple(args), tuple(sorted(kw.items())))
    if name in ('copy.copy', 'copy.deepcopy'):
        return copy_(I, args[0], name == 'copy.deepcopy')
    if name == 'contextlib.nullcontext':
        return mk('nullctx', ())
    mod, _, fn = name.rpartition('.')
    if name in ('h5py.File', 'h5py.SoftLink'):
        from . import h5model
        return h5model.lib(I, name, args, kw, node, fr)
    if name == 'scipy.spatial.ConvexHull' and len(args) == 1 and not kw:
        return mk('f:ConvexHull', (_fz(I, args[0]),))
    if name in ('scipy.optimize.minimize', 'scipy.optimize.fmin',
                'scipy.optimize.basinhopping'):
        # the objective is a function of the bound variable
        a = dict(zip(('fun', 'x0'), args), **kw)
        if len(args) <= 2 and 'fun' in a and 'x0' in a:
            x0 = _fz(I, a.pop('x0'))
            x = sym('minimize_x', 'ndarray')
            s = shapeof(I, x0)
            if s is not None:
                I.shapes[x] = s
            y = I.call(a.pop('fun'), (x,), {}, node, fr)
            if I.st is None:
                return UNDEF
            v = mk('f:' + fn, (_fz(I, y), x0), _kwfz(I, a))
            I.emit('call', name, args, kw, node, fr, v)
            return v
    if name in DEST and args and isinstance(node, ast.Call) and node.args:
        # the first argument is changed
        I.emit('mutate', fn, tuple(args), kw, node, fr)
        v = mk('f:' + name, tuple(_fz(I, a) for a in args), _kwfz(I, kw))
        from .interp import arrayish
        if arrayish(I, args[0]):
            I.rebind(node.args[0], v, fr, node)
        return NONE
    out = kw.get('out')
    if out is not None and mod.split('.')[0] in ('torch', 'numpy') and \
            fn not in ('maximum', 'minimum') and I.reduce(
                out) is not NONE and isinstance(node, ast.Call):
        kw = {k: v for k, v in kw.items() if k != 'out'}
        v = call_ext(I, name, args, kw, node, fr)
        if I.st is None:
            return UNDEF
        I.emit('mutate', 'out', (out,), (), node, fr, v)
        for k in node.keywords:
            if k.arg == 'out' and I.reduce(out).op != 'tuple':
                I.rebind(k.value, v, fr, node)
        return v
    fargs = tuple(_fz(I, a) for a in args)
    fkw = {k: _fz(I, v) for k, v in kw.items()}
    if mod in ('torch', 'numpy') and fn in TF and fn not in ('copy',) and \
            (fargs or 'input' in fkw or 'x' in fkw or 'a' in fkw):
        if not fargs:
            k0 = [k for k in ('input', 'x', 'a') if k in fkw][0]
            fargs = (fkw.pop(k0),)
        if fn == 'where':
            v = mk('f:where', fargs, tuple(sorted(fkw.items())))
        else:
            v = canon(fn, fargs[0], fargs[1:], fkw)
        if fn in ('maximum', 'minimum') and mod == 'numpy' and (
                len(fargs) > 2 or 'out' in fkw):
            out = fargs[2] if len(fargs) > 2 else fkw['out']
            v = mk('f:' + fn, fargs[:2])
            I.emit('mutate', 'out', (out,), (), node, fr, v)
            a = None
            if len(args) > 2:
                a = node.args[2]
            else:
                a = [k.value for k in node.keywords if k.arg == 'out'][0]
            I.rebind(a, v, fr, node)
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if name == 'numpy.copy':
        return mk('f:copy', fargs)
    if mod in ('torch.fft', 'numpy.fft') and fn in (
            'fft2', 'ifft2', 'fft', 'ifft', 'fftn', 'ifftn', 'fftshift',
            'ifftshift'):
        kk = {KWALIAS.get(k, k): v for k, v in fkw.items()}
        sig = {'fft2': ['s', 'dim', 'norm'], 'ifft2': ['s', 'dim', 'norm'],
               'fftn': ['s', 'dim', 'norm'], 'ifftn': ['s', 'dim', 'norm'],
               'fft': ['n', 'dim', 'norm'], 'ifft': ['n', 'dim', 'norm'],
               'fftshift': ['dim'], 'ifftshift': ['dim']}[fn]
        for k, x in zip(sig, fargs[1:]):
            kk.setdefault(k, x)
        if not fargs:
            fargs = (kk.pop('input'),)
        kk = {k: x for k, x in kk.items() if x is not NONE}
        v = mk('f:' + fn, (fargs[0],), tuple(sorted(kk.items())))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if mod in ('torch', 'numpy') and fn in (
            'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'eye',
            'rand', 'randn', 'zeros_like', 'ones_like', 'empty_like',
            'full_like', 'rand_like', 'randn_like'):
        v = mk('new:' + mod + '.' + fn, fargs, tuple(sorted(fkw.items())))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if mod in ('torch', 'numpy') and fn in ('stack', 'cat', 'concatenate',
                                            'vstack', 'hstack'):
        kk = {KWALIAS.get(k, k): v for k, v in fkw.items()}
        if len(fargs) > 1:
            kk.setdefault('dim', fargs[1])
        if 'tensors' in kk:
            fargs = (kk.pop('tensors'),)
        v = mk('f:' + {'concatenate': 'cat'}.get(fn, fn), fargs[:1],
               tuple(sorted(kk.items())) +
               (('%lib', const('tensor' if mod == 'torch' else 'ndarray')),))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if mod in ('torch', 'numpy') and fn == 'meshgrid':
        seq = [a for a in fargs]
        if len(fargs) == 1 and fargs[0].op in ('list', 'tuple'):
            seq = list(fargs[0].args)
        ix = kw.get('indexing', const('ij' if mod == 'torch' else 'xy'))
        v = mk('tuple', tuple(mk('f:meshgrid', tuple(seq) + (const(n),),
                                 (('indexing', ix),))
                              for n in range(len(seq))))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if name == 'torch.complex':
        return mk('f:complex', fargs)
    if mod in ('torch.fft', 'numpy.fft') and fn in ('fftfreq', 'rfftfreq') \
            and not set(fkw) - {'d', 'n', 'dtype', 'device'}:
        a = list(fargs)
        for k in ('n', 'd'):
            if k in fkw:
                a.append(fkw[k])
        v = mk('f:' + fn, tuple(a), (('%lib', const(
            'tensor' if mod == 'torch.fft' else 'ndarray')),))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    if name == 'numpy.bytes_' and fargs and is_const(fargs[0]):
        v = cval(fargs[0])
        if isinstance(v, str):
            return const(v.encode())
        if isinstance(v, bytes):
            return fargs[0]
    if name == 'torch.is_tensor':
        return isinstance_(I, args[0], mk('ext', ('torch.Tensor',)))
    if name.startswith('torch.Tensor.') and fn in TF and fargs:
        return array_method(I, fargs[0], fn, fargs[1:], fkw, node, fr)
    if mod in ('torch', 'numpy', 'torch.linalg', 'numpy.linalg',
               'torch.nn.functional', 'torch.special', 'scipy.special',
               'numpy.random', 'scipy.linalg', 'scipy.ndimage'):
        pre = {'torch': '', 'numpy': '', 'torch.linalg': 'linalg.',
               'numpy.linalg': 'linalg.', 'torch.nn.functional': 'F.',
               'torch.special': 'special.', 'scipy.special': 'special.',
               'numpy.random': 'random.', 'scipy.linalg': 'linalg.',
               'scipy.ndimage': 'ndimage.'}[mod]
        kk = {KWALIAS.get(k, k): v for k, v in fkw.items()}
        lib = 'tensor' if mod.startswith('torch') else 'ndarray'
        sig = FSIG.get(pre + fn)
        if sig:
            for k, x in zip(sig, fargs[1:]):
                kk.setdefault(k, x)
            fargs = fargs[:1]
            if not fargs:
                for k0 in ('input', 'x', 'a'):
                    if k0 in kk:
                        fargs = (kk.pop(k0),)
                        break
        v = mk('f:' + pre + fn, fargs, tuple(sorted(kk.items())) +
               (('%lib', const(lib)),))
        I.emit('call', name, args, kw, node, fr, v)
        return v
    v = mk('call', (mk('ext', (name,)),) + fargs, tuple(sorted(fkw.items())))
    I.emit('call', name, args, kw, node, fr, v)
    return v


FSIG = {'F.pad': ['pad', 'mode', 'value'],
        'F.avg_pool2d': ['kernel_size', 'stride', 'padding', 'ceil_mode',
                         'count_include_pad', 'divisor_override'],
        'F.max_pool2d': ['kernel_size', 'stride', 'padding'],
        'F.interpolate': ['size', 'scale_factor', 'mode'],
        'linalg.norm': ['ord', 'dim', 'keepdim'],
        'linalg.pinv': ['rcond'], 'linalg.inv': [], 'linalg.det': []}


def _fz(I, v):
    v = I.reduce(v)
    return I.freeze(v)


def _kwfz(I, kw):
    return tuple(sorted((k, _fz(I, v)) for k, v in kw.items()))


def copy_(I, v, deep):
    v = I.reduce(v)
    if v.op == 'phi' and I._dispatchy(v):
        return I.split(v, lambda x: copy_(I, x, deep))
    if v.op == 'ref':
        o = I.obj(v)
        data = dict(o.data)
        if deep:
            for k, x in data.items():
                if isinstance(x, T):
                    data[k] = copy_(I, x, deep)
                elif k == 'items':
                    data[k] = tuple(copy_(I, y, deep) for y in x)
        return I.new(o.kind, o.cls, data, o.sym, o.info)
    if v.op == 'tuple' and deep:
        return mk('tuple', tuple(copy_(I, x, deep) for x in v.args))
    t = typeof(I, v)
    if t in ('tensor', 'ndarray', 'param'):
        return mk('f:clone', (v,))
    return v


def call_builtin(I, fn, args, kw, node, fr):
    from .interp import phi, lor, land
    a = [I.reduce(x) for x in args]
    if fn == 'len':
        x = a[0]
        s = sequence(I, x)
        if s is not None:
            return const(len(s))
        if x.op == 'phi' and I._dispatchy(x):
            return I.split(x, lambda y: call_builtin(I, fn, (y,), kw, node,
                                                     fr))
        if x.op == 'ref' and I.obj(x).kind == 'inst':
            m = I.prog.find_method(I.obj(x).cls, '__len__')
            if m is not None:
                from .interp import FuncVal
                return I.callfunc(FuncVal(m), (x,), {}, node, fr)
        sh = shapeof(I, x) if typeof(I, x) != 'str' else None
        if sh is not None and sh.op == 'tuple' and not any(
                y.op == 'splice' for y in sh.args):
            if sh.args:
                return sh.args[0]
            if fr is not None:
                return I.throw('TypeError', node, fr)
        if typeof(I, x) in ('tensor', 'ndarray'):
            return index(I, mk('attr', (simp_shape_base(I, x), 'shape')),
                         const(0))
        if x.op == 'attr' and x.args[1] == 'shape':
            return dimof(I, x.args[0])
        c = single_comp(I, x)
        if c is not None:
            return call_builtin(I, 'len', (c.args[1],), {}, node, fr)
        return mk('len', (I.freeze(x),))
    if fn == 'isinstance':
        return isinstance_(I, a[0], a[1])
    if fn == 'hasattr':
        if is_const(a[1]):
            return I.hasattr(a[0], cval(a[1]))
        return mk('hasattr', (a[0], a[1]))
    if fn == 'getattr':
        nm = cval(a[1])
        d = args[2] if len(args) > 2 else None
        if nm is None:
            return mk('getattr', tuple(args))
        if d is not None:
            c = I.hasattr(a[0], nm)
            if is_const(c):
                return I.getattr(a[0], nm, node, fr) if cval(c) else d
            if a[0].op == 'phi':
                return I.split(a[0], lambda x: call_builtin(
                    I, fn, (x,) + tuple(args[1:]), kw, node, fr))
            v = I.getattr(a[0], nm, node, fr, default=d)
            return phi(c, v, d)
        return I.getattr(a[0], nm, node, fr)
    if fn == 'setattr':
        nm = cval(a[1])
        if nm is not None:
            I.setattr(args[0], nm, args[2], node, fr)
        else:
            I.emit('setattr', None, (args[0], args[2]), (), node, fr)
        return NONE
    if fn == 'range':
        r = list(args)
        if len(r) == 2 and is_const(a[0]) and cval(a[0]) == 0:
            r = [r[1]]
        if len(r) == 3 and is_const(a[2]) and cval(a[2]) == 1:
            r = r[:2]
            if is_const(a[0]) and cval(a[0]) == 0:
                r = [r[1]]
        return mk('range', tuple(r))
    if fn == 'zip':
        return mk('zip', tuple(args))
    if fn == 'enumerate':
        if 'start' in kw:
            args = (args[0], kw['start'])
        return mk('enumerate', tuple(args))
    if fn == 'reversed':
        return mk('reversed', tuple(args))
    if fn in ('list', 'tuple', 'set', 'sorted', 'frozenset', 'iter'):
        if not args:
            return mk('tuple', ()) if fn == 'tuple' else I.newlist(
                (), 'set' if fn == 'set' else 'list')
        s = iterate(I, a[0])
        if s is None and fn in ('tuple', 'list') and \
                typeof(I, a[0]) in ('tensor', 'ndarray'):
            sh = shapeof(I, a[0])
            if sh is not None and len(sh.args) == 1 and is_const(
                    sh.args[0]) and isinstance(cval(sh.args[0]), int):
                s = [index(I, a[0], const(k))
                     for k in range(cval(sh.args[0]))]
        p = s if s is not None else splice_parts(I, a[0])
        if fn == 'sorted':
            if s is not None and all(is_const(x) for x in s) and not kw:
                try:
                    return I.newlist([const(y) for y in
                                      sorted(cval(x) for x in s)])
                except Exception:
                    pass
            return I.newlist((mk('splice', (mk('sorted', (I.freeze(a[0]),)),
                                            )),))
        if fn == 'iter':
            return mk('iter', (a[0],))
        if p is None:
            if a[0].op == 'phi' and I._dispatchy(a[0]):
                return I.split(a[0], lambda x: call_builtin(
                    I, fn, (x,), kw, node, fr))
            if fn == 'list' and a[0].op in ('zip', 'range', 'enumerate'):
                e = elem(I, a[0])
                if a[0].op == 'range':
                    p = [mk('splice', (mk('comp', (e, a[0])),))]
                else:
                    p = [mk('splice', (a[0],))]
            else:
                p = [mk('splice', (a[0],))]
        if fn == 'tuple':
            return mk('tuple', tuple(p))
        return I.newlist(p, 'set' if fn in ('set', 'frozenset') else 'list')
    if fn == 'dict':
        d = I.newdict([])
        if args:
            s = iterate(I, a[0])
            if a[0].op == 'ref' and I.obj(a[0]).kind == 'dict':
                dict_update(I, d, a[0])
            elif s is not None:
                for x in s:
                    y = sequence(I, x)
                    if y and len(y) == 2:
                        I.setobj(d, I.obj(d).put(y[0], y[1]))
            else:
                dict_update(I, d, a[0])
        for k, v in kw.items():
            if k == '**':
                dict_update(I, d, v)
            else:
                I.setobj(d, I.obj(d).put(const(k), v))
        return d
    if fn == 'type':
        if a[0].op == 'ref' and I.obj(a[0]).kind == 'inst' and \
                I.obj(a[0]).cls is not None:
            return mk('class', (I.obj(a[0]).cls,))
        t = typeof(I, a[0])
        if t in ('str', 'bytes', 'int', 'float', 'bool', 'list', 'dict',
                 'tuple', 'set'):
            return mk('ext', ('builtins.' + t,))
        if t in TYPE_EXT:
            return mk('ext', (TYPE_EXT[t],))
        return mk('typeof', (a[0],))
    if fn in ('int', 'float', 'bool', 'str'):
        if not args:
            return const({'int': 0, 'float': 0.0, 'bool': False,
                          'str': ''}[fn])
        if fn != 'str':
            c = a[0]
            while c.op in ('f:numpy', 'f:cpu', 'f:detach', 'f:as_tensor',
                           'f:item', 'h5read', 'f:to') and \
                    c.args and isinstance(c.args[0], T):
                c = c.args[0]
            if is_const(c) and isinstance(cval(c), (bool, int, float)):
                a[0] = c
        if is_const(a[0]) and cval(a[0]) is not None:
            try:
                return const({'int': int, 'float': float, 'bool': bool,
                              'str': str}[fn](cval(a[0])))
            except Exception:
                pass
        if fn == 'bool':
            b = I.boolify(a[0])
            if is_const(b) or I._isbool(b):
                return b
        if fn == 'str' and typeof(I, a[0]) == 'str':
            return a[0]
        if a[0].op == 'phi' and I._dispatchy(a[0]):
            return I.split(a[0], lambda x: call_builtin(I, fn, (x,), kw,
                                                        node, fr))
        return mk('conv', (fn, I.freeze(a[0])))
    if fn in ('min', 'max'):
        s = a if len(a) > 1 else sequence(I, a[0])
        if s is not None and all(is_const(x) for x in s) and s:
            return const((min if fn == 'min' else max)(cval(x) for x in s))
        if len(a) > 1:
            return mk('f:' + fn + 'imum', tuple(sorted(
                (I.freeze(x) for x in a), key=lambda x: x.n)))
        if s is not None and len(s) > 1:
            return mk('f:' + fn + 'imum', tuple(sorted(
                (I.freeze(x) for x in s), key=lambda x: x.n)))
        return mk('f:' + fn, (I.freeze(a[0]),))
    if fn in ('any', 'all'):
        s = sequence(I, a[0])
        if s is not None:
            out = FALSE if fn == 'any' else TRUE
            for x in s:
                b = I.boolify(x)
                out = lor(out, b) if fn == 'any' else land(out, b)
            return out
        return mk(fn, (I.freeze(a[0]),))
    if fn == 'sum':
        s = sequence(I, a[0])
        if s is not None and s:
            out = args[1] if len(args) > 1 else const(0)
            for x in s:
                out = binop(I, '+', out, x)
            return out
        return mk('f:sum', (I.freeze(a[0]),))
    if fn == 'abs':
        if is_const(a[0]):
            return const(abs(cval(a[0])))
        return mk('f:abs', (a[0],))
    if fn == 'round':
        return mk('f:round', tuple(args))
    if fn == 'super':
        return unknown('super()')
    if fn == 'slice':
        x = list(args)
        if len(x) == 1:
            x = [NONE, x[0], NONE]
        while len(x) < 3:
            x.append(NONE)
        return mk('slice', tuple(x))
    if fn == 'map':
        f, it = args[0], a[1]
        s = iterate(I, it)
        if s is not None:
            return I.newlist([I.call(f, (x,), {}, node, fr) for x in s])
        if len(args) == 2:
            e = elem(I, it)
            I.active_iters.append(it)
            v = I.call(f, (e,), {}, node, fr)
            I.active_iters.pop()
            return I.newlist((mk('splice', (mk('comp', (v, it)),)),))
    if fn == 'filter' and len(args) == 2:
        it = a[1]
        e = elem(I, it)
        c = I.boolify(I.call(args[0], (e,), {}, node, fr))
        return I.newlist((mk('splice', (mk('comp', (mk('filtered', (c, e)),
                                                    it)),)),))
    if fn == 'next':
        return mk('next', tuple(args))
    if fn == 'callable':
        return const(a[0].op in ('func', 'bound', 'partial', 'class', 'ext')) \
            if a[0].op in ('func', 'bound', 'partial', 'class', 'const',
                           'ext') else mk('callable', (a[0],))
    if fn == 'vars':
        return mk('vars', tuple(args))
    if fn in ('exit', 'quit'):
        I.emit('call', 'builtins.exit', args, kw, node, fr)
        I.emit('raise', 'SystemExit', (), (), node, fr)
        # never returns
        f = fr if fr is not None else None
        if f is not None:
            I.exit(f, 'raise', mk('excval', (const('SystemExit'),)))
        return UNDEF
    v = mk('call', (mk('ext', ('builtins.' + fn,)),) +
           tuple(I.freeze(x) for x in args),
           tuple(sorted((k, I.freeze(x)) for k, x in kw.items())))
    I.emit('call', 'builtins.' + fn, args, kw, node, fr, v)
    return v


def enter(I, c, node, fr):
    c = I.reduce(c)
    if c.op == 'h5' or (c.op == 'sym' and c.args[1] == 'h5'):
        return c
    if c.op == 'cmgr':
        return mk('entered', (c,))
    if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0] in (
            'builtins.open', 'h5py.File'):
        return c
    return mk('entered', (c,))



