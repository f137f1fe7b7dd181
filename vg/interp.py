"""Gated value-flow construction: one abstract pass over the source.

Every function of the package that is called is analysed in the calling
context; branches are joined with gated phi nodes, loops are summarised by
one abstract iteration (or unrolled when the iterable is a literal), effects
are recorded in a structured event trace.  Nothing of /repo is executed.
"""
import ast
import sys

from .loader import Func, Class, Module
from .terms import (T, T_, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval,
                    sym, unknown, subst, walk, CURLOC, show)
from . import ops

sys.setrecursionlimit(20000)

MAXDEPTH = 40
MAXSTEPS = 400000


NOGRAD = {'no_grad', 'inference_mode'}


def detaching(c):
    """is this a context in which autograd records nothing?"""
    if c.op not in ('call', 'ctx', 'inst') and not c.op.startswith('f:') and \
            c.op != 'ext':
        return False
    n = show(c, 3)
    if any(x in n for x in NOGRAD):
        return True
    return 'set_grad_enabled' in n and 'False' in n


def detached(v):
    if v.op in ('tuple', 'list'):
        return mk(v.op, tuple(detached(x) if isinstance(x, T) else x
                              for x in v.args))
    if v.op in ('const', 'func', 'ref', 'ext', 'module', 'undef', 'dict',
                'class', 'cls'):
        return v
    return mk('f:detach', (v,))


class Budget(Exception):
    pass


class HObj(object):
    __slots__ = ('kind', 'cls', 'data', 'sym', 'info')

    def __init__(self, kind, cls=None, data=None, sym=None, info=None):
        self.kind, self.cls = kind, cls
        self.data = data if data is not None else {}
        self.sym, self.info = sym, info

    def with_(self, **upd):
        d = dict(self.data)
        d.update(upd)
        return HObj(self.kind, self.cls, d, self.sym, self.info)

    def put(self, k, v):
        d = dict(self.data)
        d[k] = v
        return HObj(self.kind, self.cls, d, self.sym, self.info)

    def drop(self, k):
        d = dict(self.data)
        d.pop(k, None)
        return HObj(self.kind, self.cls, d, self.sym, self.info)


class State(object):
    __slots__ = ('frames', 'heap', 'pc', 'trace')

    def __init__(self, frames=None, heap=None, pc=None, trace=None):
        self.frames = frames or {}
        self.heap = heap or {}
        self.pc = pc or {}
        self.trace = trace if trace is not None else []

    def fork(self):
        return State(dict(self.frames), dict(self.heap), dict(self.pc), [])


class Ev(object):
    """One trace event."""
    __slots__ = ('kind', 'name', 'args', 'kw', 'node', 'func', 'value',
                 'blocks', 'pc', 'stack')

    def __init__(self, kind, name=None, args=(), kw=(), node=None, func=None,
                 value=None, blocks=(), stack=()):
        self.kind, self.name, self.args, self.kw = kind, name, args, dict(kw)
        self.node, self.func, self.value = node, func, value
        self.blocks = blocks
        self.stack = stack

    @property
    def where(self):
        if self.func is None:
            return '?'
        return self.func.where(self.node)

    def __repr__(self):
        return 'Ev(%s %s %s)' % (self.kind, self.name,
                                 getattr(self.node, 'lineno', '?'))


class FuncVal(object):
    """A callable: repo function/lambda with an optional closure frame."""
    __slots__ = ('func', 'fid')

    def __init__(self, func, fid=None):
        self.func, self.fid = func, fid

    def __repr__(self):
        return 'FuncVal(%s)' % self.func.qual


class Frame(object):
    def __init__(self, fid, func, parent):
        self.fid, self.func, self.parent = fid, func, parent
        self.exits = []          # (kind, value, state)
        self.nonlocals = set()
        self.pc0 = {}
        self.origin = {}         # parameter -> argument
        self.rebound = set()     # names which no longer are the argument
        self.views = {}          # name -> (value, expression, its base, index)
        self.mutated = {}        # parameter -> value it was changed to


def arrayish(I, v):
    """an array, which an augmented assignment changes in place"""
    v = I.reduce(v)
    if v.op == 'sym':
        return v.args[1] in ('tensor', 'ndarray', 'param')
    if v.op in ('setitem', 'f:clone', 'f:copy', 'astype') or v.op.startswith(
            'new:') and v.op.split('.')[-1] in (
                'zeros', 'ones', 'zeros_like', 'ones_like', 'empty', 'full',
                'empty_like', 'full_like', 'arange', 'linspace', 'eye'):
        return True
    if v.op in ('ref', 'tuple', 'phi', 'const', 'mu', 'call', 'unknown'):
        return v.op == 'mu' and isinstance(v.args[2], T) and arrayish(
            I, v.args[2])
    s = ops.shapeof(I, v)
    return s is not None and s.op == 'tuple' and len(s.args) > 0


def basicindex(i):
    if i.op == 'tuple':
        return all(map(basicindex, i.args))
    return i.op == 'slice' or i is NONE or is_const(i) and (
        type(cval(i)) is int or cval(i) is Ellipsis) or i.op == 'elem' and \
        i.args[0].op == 'range'


def phi(c, a, b):
    if a is b:
        return a
    if is_const(c):
        return a if cval(c) else b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if c.op == 'not':
        return phi(c.args[0], b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    return mk('phi', (c, a, b))


def halved(z, part, v):
    """z with its real or imaginary part replaced by v"""
    re = v if part == 'real' else mk('f:real', (z,))
    im = v if part == 'imag' else mk('f:imag', (z,))
    return mk('bin', ('+', re, mk('bin', ('*', const(1j), im))))


def lnot(c):
    if is_const(c):
        return const(not cval(c))
    if c.op == 'not':
        return c.args[0]
    if c.op == 'phi':
        return phi(c.args[0], lnot(c.args[1]), lnot(c.args[2]))
    if c.op == 'cmp' and c.args[0] in NEG:
        return mk('not', (c,))
    return mk('not', (c,))


NEG = {}


def assume(v, c, pol):
    """Simplify v under the assumption that c is pol (top levels only)."""
    while isinstance(v, T) and v.op == 'phi':
        d = v.args[0]
        if d is c:
            v = v.args[1] if pol else v.args[2]
        elif d.op == 'not' and d.args[0] is c:
            v = v.args[2] if pol else v.args[1]
        else:
            break
    if v is c and not (c.op == 'sym' and c.args[1] != 'bool'):
        return TRUE if pol else FALSE
    return v


def land(a, b):
    if is_const(a):
        return b if cval(a) else a
    if is_const(b):
        return a if cval(b) else b
    if a is b:
        return a
    return mk('and', (a, b))


def lor(a, b):
    if is_const(a):
        return a if cval(a) else b
    if is_const(b):
        return TRUE if cval(b) else a
    if a is b:
        return a
    return mk('or', (a, b))


class Interp(object):
    def __init__(self, prog, hooks=None):
        self.prog = prog
        self.st = State()
        self.frames = {}
        self.nfid = 0
        self.noid = 0
        self.depth = 0
        self.stack = []
        self.steps = 0
        self.active_iters = []
        self.hooks = hooks or {}
        self.inlined = set()
        self.gcache = {}
        self.noinline = set()
        self.shapes = {}
        self.noexc = False      # assume library calls do not raise
        self.handling = []

    # ------------------------------------------------------------ heap ----
    def new(self, kind, cls=None, data=None, sym_=None, info=None):
        self.noid += 1
        self.st.heap[self.noid] = HObj(kind, cls, data, sym_, info)
        return mk('ref', (self.noid,))

    def obj(self, ref):
        return self.st.heap.get(ref.args[0])

    def setobj(self, ref, o):
        self.st.heap[ref.args[0]] = o

    def newlist(self, items, kind='list'):
        return self.new(kind, data={'items': tuple(items)})

    def newdict(self, pairs):
        d = {}
        for k, v in pairs:
            d[k] = v
        return self.new('dict', data=d)

    def instance(self, cls, name, attrs=None):
        """A symbolic instance: unknown attributes become sym.attr terms."""
        return self.new('inst', cls, dict(attrs or {}), sym_=sym(name, cls.name))

    def freeze(self, t, depth=0):
        """Snapshot of heap objects as pure terms (for comparison)."""
        if depth > 8 or not isinstance(t, T):
            return t
        if t.op == 'ref':
            o = self.obj(t)
            if o is None:
                return t
            if o.kind in ('list', 'set'):
                return mk(o.kind, tuple(self.freeze(x, depth + 1)
                                        for x in o.data['items']))
            if o.kind == 'dict':
                return mk('dict', tuple(
                    (k, self.freeze(v, depth + 1)) for k, v in o.data.items()))
            if o.sym is not None:
                return o.sym
            return t
        if t.op in ('tuple', 'phi', 'splice', 'comp'):
            return mk(t.op, tuple(self.freeze(a, depth + 1) for a in t.args),
                      t.kw)
        return t

    # ------------------------------------------------------- environment --
    def getvar(self, fr, name):
        f = fr
        while f is not None:
            env = self.st.frames.get(f.fid, {})
            if name in env:
                return env[name]
            f = f.parent
        return self.getglobal(fr.func.mod, name)

    def getglobal(self, mod, name):
        r = self.prog.lookup(mod.name, name)
        if r is None:
            if name == 'Ellipsis':
                return const(Ellipsis)
            if name in ops.BUILTINS:
                return mk('ext', ('builtins.' + name,))
            return unknown('name ' + name)
        return self.resolved(r)

    def resolved(self, r):
        k = r[0]
        if k == 'func':
            return self.funcval(r[1])
        if k == 'class':
            return mk('class', (r[1],))
        if k == 'module':
            return mk('module', (r[1],))
        if k == 'ext':
            return mk('ext', (r[1],))
        if k == 'assign':
            m, e = r[1], r[2]
            key = (m.name, r[3])
            if e is None:
                return unknown('tuple-assigned global')
            if key not in self.gcache:
                self.gcache[key] = unknown('recursive global')
                big = len(ast.dump(e)) >= 4000 and not any(
                    isinstance(x, ast.Lambda) for x in ast.walk(e))
                if big:     # a table of numbers
                    self.gcache[key] = sym('global:%s.%s' % key)
                else:
                    f = Func(m, ast.Lambda(args=_noargs(), body=e), '<module>')
                    f.node.lineno = getattr(e, 'lineno', 0)
                    self.gcache[key] = self.eval_in(f, e)
            return self.gcache[key]
        return unknown('resolve')

    def eval_in(self, func, e):
        fr = self.newframe(func, None)
        return self.ev(e, fr)

    def funcval(self, func, fid=None):
        key = (id(func), fid)
        if key not in self.gcache:
            self.gcache[key] = mk('func', (FuncVal(func, fid),))
        return self.gcache[key]

    def setvar(self, fr, name, v):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in self.st.frames.get(f.fid, {}):
                f = f.parent
            f = f or fr
        env = dict(self.st.frames.get(f.fid, {}))
        env[name] = v
        self.st.frames[f.fid] = env

    def newframe(self, func, parent):
        self.nfid += 1
        fr = Frame(self.nfid, func, parent)
        self.frames[self.nfid] = fr
        self.st.frames[self.nfid] = {}
        return fr

    # ------------------------------------------------------------ events --
    def emit(self, kind, name=None, args=(), kw=(), node=None, fr=None,
             value=None, blocks=()):
        func = fr.func if fr is not None else (
            self.stack[-1] if self.stack else None)
        e = Ev(kind, name, args, kw, node, func, value, blocks,
               tuple(self.stack))
        self.st.trace.append(e)
        return e

    # ------------------------------------------------------------ merge ---
    def merge(self, c, a, b):
        """Join state a (c true) with state b (c false)."""
        out = State()
        for fid in set(a.frames) | set(b.frames):
            ea, eb = a.frames.get(fid), b.frames.get(fid)
            if ea is eb or eb is None:
                out.frames[fid] = ea
                continue
            if ea is None:
                out.frames[fid] = eb
                continue
            env = {}
            for k in list(ea) + [x for x in eb if x not in ea]:
                va, vb = ea.get(k, UNDEF), eb.get(k, UNDEF)
                env[k] = phi(c, va, vb)
            out.frames[fid] = env
        for oid in set(a.heap) | set(b.heap):
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is ob or ob is None:
                out.heap[oid] = oa
                continue
            if oa is None:
                out.heap[oid] = ob
                continue
            data = {}
            for k in list(oa.data) + [x for x in ob.data if x not in oa.data]:
                if k == 'items':
                    ia, ib = oa.data[k], ob.data[k]
                    if ia == ib:
                        data[k] = ia
                    else:
                        n = 0
                        while n < min(len(ia), len(ib)) and ia[n] is ib[n]:
                            n += 1
                        ta, tb = ia[n:], ib[n:]
                        if len(ta) == len(tb):
                            data[k] = ia[:n] + tuple(
                                phi(c, x, y) for x, y in zip(ta, tb))
                        else:
                            data[k] = ia[:n] + (mk('splice', (phi(
                                c, mk('tuple', ta), mk('tuple', tb)),)),)
                    continue
                va = oa.data.get(k)
                vb = ob.data.get(k)
                if va is None:
                    va = self._lazy(oa, k)
                if vb is None:
                    vb = self._lazy(ob, k)
                data[k] = phi(c, va, vb)
            o = HObj(oa.kind, oa.cls, data, oa.sym, oa.info)
            out.heap[oid] = o
        # path condition: keep what both agree on
        out.pc = {k: v for k, v in a.pc.items() if b.pc.get(k) is v}
        return out

    def _lazy(self, o, k):
        if o.sym is not None and isinstance(k, str) and not k.startswith('%'):
            return mk('attr', (o.sym, k))
        return UNDEF

    # ------------------------------------------------------------- truth --
    def truth(self, t):
        """-> True/False/None (unknown)"""
        b = self.boolify(t)
        if is_const(b):
            return bool(cval(b))
        return None

    def boolify(self, t):
        if not isinstance(t, T):
            return const(bool(t))
        if self.st is None:
            return t
        if t in self.st.pc:
            return const(self.st.pc[t])
        if is_const(t):
            try:
                return const(bool(cval(t)))
            except Exception:
                return TRUE
        if t.op in ('func', 'class', 'module', 'bound', 'ext'):
            return TRUE
        if t.op == 'tuple':
            return const(len(t.args) > 0)
        if t.op in ('f:as_tensor', 'f:tensor', 'f:astype', 'f:to') and \
                t.args:
            # the truth of a scalar does not depend on its type
            x = t
            while x.op in ('f:as_tensor', 'f:tensor', 'f:astype', 'f:to') \
                    and x.args:
                x = x.args[0]
            if is_const(x) and isinstance(cval(x), (bool, int)):
                return const(bool(cval(x)))
        if t.op == 'not':
            return lnot(self.boolify(t.args[0]))
        if t.op == 'and':
            a, b = self.boolify(t.args[0]), self.boolify(t.args[1])
            return land(a, b)
        if t.op == 'or':
            a, b = self.boolify(t.args[0]), self.boolify(t.args[1])
            return lor(a, b)
        if t.op == 'phi':
            c = self.boolify(t.args[0])
            if is_const(c):
                return self.boolify(t.args[1] if cval(c) else t.args[2])
            # gate known to be c inside the arms
            return phi(c, self.boolify(t.args[1]), self.boolify(t.args[2]))
        if t.op == 'ref':
            o = self.obj(t)
            if o and o.kind in ('list', 'set'):
                it = o.data['items']
                if any(x.op != 'splice' for x in it):
                    return TRUE
                if not it:
                    return FALSE
            elif o and o.kind == 'dict':
                if any(v is not UNDEF and v.op != 'phi' and k != '*'
                       for k, v in o.data.items()):
                    return TRUE
                if not o.data and o.sym is None:
                    return FALSE
            elif o and o.kind == 'inst' and o.cls is not None and \
                    not self.prog.find_method(o.cls, '__len__') and \
                    not self.prog.find_method(o.cls, '__bool__'):
                return TRUE
        return t

    def learn(self, st, c, pol):
        """Record c == pol in st.pc, with its simple consequences."""
        if is_const(c):
            return
        if c.op == 'not':
            return self.learn(st, c.args[0], not pol)
        st.pc[c] = pol
        if c.op == 'and' and pol:
            self.learn(st, c.args[0], True)
            self.learn(st, c.args[1], True)
        if c.op == 'or' and not pol:
            self.learn(st, c.args[0], False)
            self.learn(st, c.args[1], False)
        if c.op == 'phi':
            g, x, y = c.args
            if is_const(x):
                if bool(cval(x)) != pol:       # arm x impossible
                    self.learn(st, g, False)
                    self.learn(st, y, pol)
            if is_const(y):
                if bool(cval(y)) != pol:
                    self.learn(st, g, True)
                    self.learn(st, x, pol)
        if c.op == 'cmp' and c.args[0] == '==' and pol:
            # x == const: other equalities with x are false
            pass

    def reduce(self, t):
        """Simplify the top of a phi under the current path condition."""
        n = 0
        while isinstance(t, T) and t.op == 'phi' and n < 50:
            c = t.args[0]
            k = self.truth(c)
            if k is None:
                return t
            t = t.args[1] if k else t.args[2]
            n += 1
        return t

    # ------------------------------------------------------- phi dispatch --
    def split(self, v, f, need=None):
        """Apply f to v; distribute over a phi whose arms need dispatch."""
        v = self.reduce(v)
        if v.op == 'phi' and self._dispatchy(v):
            c = v.args[0]
            base = self.st
            s1, s2 = base.fork(), base.fork()
            self.learn(s1, c, True)
            self.learn(s2, c, False)
            self.st = s1
            r1 = self.split(v.args[1], f)
            s1 = self.st
            self.st = s2
            r2 = self.split(v.args[2], f)
            s2 = self.st
            if s1 is None and s2 is None:
                self.st = None
                return UNDEF
            if s1 is None or s2 is None:
                m = s1 or s2
                m.trace = base.trace + m.trace
                self.st = m
                return r2 if s1 is None else r1
            m = self.merge(c, s1, s2)
            m.pc = dict(base.pc)
            m.trace = base.trace
            if s1.trace or s2.trace:
                m.trace.append(Ev('if', None, (c,), func=self.stack[-1] if
                                  self.stack else None,
                                  blocks=(s1.trace, s2.trace),
                                  stack=tuple(self.stack)))
            self.st = m
            if r1 is UNDEF:
                return r2
            if r2 is UNDEF:
                return r1
            return phi(c, r1, r2)
        return f(v)

    def _dispatchy(self, v):
        for x in v.args[1:]:
            if x.op in ('ref', 'const', 'tuple', 'func', 'bound', 'class',
                        'partial', 'undef', 'ext', 'h5'):
                return True
            if x.op == 'phi' and self._dispatchy(x):
                return True
        return False

    # ============================================================ calls ===
    def call(self, f, args, kw, node=None, fr=None):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Budget()
        f = self.reduce(f)
        if f.op == 'phi' and self._dispatchy(f):
            return self.split(f, lambda g: self.call(g, args, kw, node, fr))
        if f.op == 'func':
            return self.callfunc(f.args[0], args, kw, node, fr)
        if f.op == 'bound':
            return self.callfunc(f.args[1], (f.args[0],) + tuple(args), kw,
                                 node, fr)
        if f.op == 'class':
            return self.construct(f.args[0], args, kw, node, fr)
        if f.op == 'partial':
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.args[0], tuple(f.args[1:]) + tuple(args), k,
                             node, fr)
        if f.op == 'ref':
            o = self.obj(f)
            if o and o.kind == 'inst' and o.cls is not None:
                m = self.prog.find_method(o.cls, '__call__')
                if m is None and 'torch.nn.Module' in self.prog.mro(o.cls)[1]:
                    m = self.prog.find_method(o.cls, 'forward')
                if m:
                    return self.callfunc(FuncVal(m), (f,) + tuple(args), kw,
                                         node, fr)
        if f.op == 'ext':
            return ops.call_ext(self, f.args[0], args, kw, node, fr)
        if f.op == 'meth':
            return ops.call_method(self, f.args[0], f.args[1], args, kw, node,
                                   fr)
        if f.op == 'attr':
            # a method of an opaque value
            return ops.array_method(self, f.args[0], f.args[1], args, kw,
                                    node, fr)
        v = mk('call', (f,) + tuple(args), tuple(sorted(kw.items())))
        self.emit('call', 'dyn', (f,) + tuple(args), kw, node, fr, v)
        return v

    def construct(self, cls, args, kw, node=None, fr=None):
        h = self.hooks.get(('new', cls.name))
        if h:
            r = h(self, cls, args, kw, node, fr)
            if r is not None:
                return r
        ref = self.new('inst', cls)
        self.emit('new', cls.name, tuple(args), kw, node, fr, ref)
        init = self.prog.find_method(cls, '__init__')
        if init is not None:
            self.callfunc(FuncVal(init), (ref,) + tuple(args), kw, node, fr)
        else:
            o = self.obj(ref)
            self.setobj(ref, o.with_(**{'%args': mk('tuple', tuple(args))}))
        return ref

    def callfunc(self, fv, args, kw, node=None, fr=None):
        func = fv.func
        h = self.hooks.get(('call', func.qual))
        if h:
            r = h(self, fv, args, kw, node, fr)
            if r is not None:
                return r
        rec = sum(1 for x in self.stack if x is func)
        if self.depth > MAXDEPTH or rec >= 3 or func.qual in self.noinline:
            v = mk('call', (mk('func', (fv,)),) + tuple(args),
                   tuple(sorted(kw.items())))
            self.emit('call', func.qual, tuple(args), kw, node, fr, v)
            return v
        if func.is_generator:
            if 'contextmanager' in func.decorators:
                v = mk('cmgr', (fv,) + tuple(args), tuple(sorted(kw.items())))
                return v
            v = mk('gen', (fv,) + tuple(args), tuple(sorted(kw.items())))
            self.emit('gen', func.qual, tuple(args), kw, node, fr, v)
            return v
        return self.run(fv, args, kw, node, fr)

    def run(self, fv, args, kw, node=None, fr=None):
        """Analyse a function body in the current state."""
        func = fv.func
        self.inlined.add(func)
        parent = self.frames.get(fv.fid) if fv.fid else None
        nf = self.newframe(func, parent)
        saved_pc = dict(self.st.pc)
        nf.pc0 = saved_pc
        self.stack.append(func)
        self.depth += 1
        try:
            self.bind(nf, func, args, kw, node)
            nf.origin = {k: x for k, x in self.st.frames[nf.fid].items()
                         if isinstance(x, T) and x.op not in (
                             'ref', 'tuple') and not is_const(x)} \
                if self.st is not None else {}
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body, nf)
            else:
                self.block(func.node.body, nf)
                v = self.finish(nf, fr)
        finally:
            self.depth -= 1
            self.stack.pop()
        if self.st is not None:
            self.st.pc = saved_pc
            if nf.mutated and isinstance(node, ast.Call) and fr is not None:
                self.argchange = (node, fr, func, nf.mutated, tuple(args), kw)
        if v is not None and not NOGRAD.isdisjoint(func.decorators):
            v = detached(v)
        return v

    def finish(self, nf, fr):
        rets = []
        raises = []
        for kind, val, s, g in nf.exits:
            if kind == 'return':
                rets.append((val, s, g))
            elif kind == 'raise':
                raises.append((val, s, g))
        if self.st is not None:
            rets.append((NONE, self.st, None))
        nf.raises = raises
        self.last_raises = raises
        if fr is not None:
            for val, st0, g in raises:
                g = tuple((k, x) for k, x in st0.pc.items()
                          if k not in fr.pc0)
                fr.exits.append(('raise', val, st0, g))
        if not rets:
            # every path raises: keep the state so that analysis of the
            # caller can go on, but the value is undefined
            if raises:
                self.dead = raises[-1][1]
            self.st = None
            return UNDEF
        v, s, g = rets[-1]
        for v2, s2, g2 in reversed(rets[:-1]):
            cond = self.guard(g2)
            tr = s.trace
            m = self.merge(cond, s2, s)
            # traces: s2's trace and s's trace share a prefix list object only
            # at the fork point; combine structurally
            m.trace = self.join_traces(cond, s2.trace, s.trace)
            v = phi(cond, v2, v)
            s = m
        self.st = s
        for n, x in nf.origin.items():
            y = s.frames.get(nf.fid, {}).get(n)
            if y is not None and y is not x and n not in nf.rebound:
                nf.mutated[n] = y
        return v

    def guard(self, g):
        c = TRUE
        for cond, pol in (g or ()):
            c = land(c, cond if pol else lnot(cond))
        return c

    def join_traces(self, cond, t1, t2):
        n = 0
        while n < len(t1) and n < len(t2) and t1[n] is t2[n]:
            n += 1
        out = list(t1[:n])
        r1, r2 = t1[n:], t2[n:]
        if r1 or r2:
            out.append(Ev('if', None, (cond,), func=self.stack[-1] if
                          self.stack else None, blocks=(r1, r2),
                          stack=tuple(self.stack)))
        return out

    def bind(self, nf, func, args, kw, node):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        env = {}
        rest = []
        star = kw.pop('**', None)
        for i, v in enumerate(args):
            if isinstance(v, T) and v.op == 'splat':
                rest = args[i:]
                args = args[:i]
                break
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if rest and not a.vararg:
            base = rest[0].args[0]
            for j, n in enumerate(names[len(args):]):
                if n not in kw:
                    env[n] = ops.index(self, base, const(j))
        if a.vararg:
            items = tuple(extra) + tuple(rest)
            if len(items) == 1 and items[0].op == 'splat':
                env[a.vararg.arg] = items[0].args[0]
            else:
                env[a.vararg.arg] = mk('tuple', items)
        defaults = a.defaults
        dn = names[len(names) - len(defaults):] if defaults else []
        pending = {}
        for n, d in zip(dn, defaults):
            pending[n] = d
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(k.arg)
            if d is not None:
                pending[k.arg] = d
        kwextra = {}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                kwextra[k] = v
        for n in names:
            if n not in env:
                if star is not None:
                    env[n] = mk('dictget', (star, const(n)))
                elif n in pending:
                    dfr = self.newframe(func, nf.parent)
                    env[n] = self.ev(pending[n], dfr)
                else:
                    env[n] = mk('missing', (n,))
        if a.kwarg:
            d = self.newdict([(const(k), v) for k, v in kwextra.items()])
            if star is not None:
                o = self.obj(d)
                o.data['**'] = star
            env[a.kwarg.arg] = d
        self.st.frames[nf.fid] = env

    # ======================================================= statements ===
    def block(self, stmts, fr):
        for i, s in enumerate(stmts):
            if self.st is None:
                return
            self.stmt(s, fr)

    def exit(self, fr, kind, val):
        base = fr.pc0
        g = tuple((k, v) for k, v in self.st.pc.items() if k not in base)
        fr.exits.append((kind, val, self.st, g))
        self.st = None

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Budget()
        CURLOC[0] = (fr.func, s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else nm
            if tgt in self.prog.modules:
                self.setvar(fr, nm, mk('module', (self.prog.modules[tgt],)))
            else:
                self.setvar(fr, nm, mk('ext', (tgt,)))

    def s_ImportFrom(self, s, fr):
        base = fr.func.mod._absolute(s)
        for a in s.names:
            nm = a.asname or a.name
            if base in self.prog.modules:
                r = self.prog.lookup(base, a.name)
                self.setvar(fr, nm, self.resolved(r) if r else
                            unknown('import'))
            else:
                self.setvar(fr, nm, mk('ext', (base + '.' + a.name,)))

    def s_FunctionDef(self, s, fr):
        key = ('nested', id(s))
        f = self.gcache.get(key)
        if f is None:
            f = Func(fr.func.mod, s, fr.func.qual + '.' + s.name, None)
            self.gcache[key] = f
        self.setvar(fr, s.name, mk('func', (FuncVal(f, fr.fid),)))

    def s_ClassDef(self, s, fr):
        self.setvar(fr, s.name, mk('class', (Class(fr.func.mod, s),)))

    def s_Global(self, s, fr):
        pass

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Assert(self, s, fr):
        c = self.boolify(self.ev(s.test, fr))
        if self.st is not None:
            self.learn(self.st, c, True)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = dict(self.st.frames[fr.fid])
                env.pop(t.id, None)
                self.st.frames[fr.fid] = env
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr)
                i = self.ev(t.slice, fr)
                ops.delitem(self, b, i, s, fr)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr)
                self.emit('delattr', t.attr, (b,), (), s, fr)
                b = self.reduce(b)
                if b.op == 'ref':
                    self.setobj(b, self.obj(b).drop(t.attr))

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        if self.st is None:
            return
        self.exit(fr, 'return', v)

    def s_Raise(self, s, fr):
        if s.exc is not None:
            v = self.ev(s.exc, fr)
        else:
            v = self.handling[-1] if self.handling else const('reraise')
        if self.st is None:
            return
        self.emit('raise', None, (v,), (), s, fr)
        self.exit(fr, 'raise', v)

    def s_Break(self, s, fr):
        self.emit('break', None, (), (), s, fr)
        self.exit(fr, 'break', NONE)

    def s_Continue(self, s, fr):
        self.emit('continue', None, (), (), s, fr)
        self.exit(fr, 'continue', NONE)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        if self.st is None:
            return
        for t in s.targets:
            self.assign(t, v, fr, s)
            if isinstance(t, ast.Name) and isinstance(v, T):
                self.alias(t.id, s.value, v, fr)

    def alias(self, name, e, v, fr):
        """name is another name of (part of) the array e stands for"""
        fr.views.pop(name, None)
        if not isinstance(e, (ast.Name, ast.Subscript)) or not arrayish(
                self, v) or e is not None and isinstance(e, ast.Name) and \
                e.id == name:
            return
        if isinstance(e, ast.Name):
            fr.views[name] = (v, e, v, None)
        elif isinstance(e.value, ast.Name) and e.value.id != name:
            b = self.getvar(fr, e.value.id)
            n = len(self.st.trace) if self.st is not None else 0
            i = self.ev(e.slice, fr)
            if self.st is not None and len(self.st.trace) == n and \
                    basicindex(i) and arrayish(self, b):
                fr.views[name] = (v, e, b, i)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr, s)

    def s_AugAssign(self, s, fr):
        t = s.target
        load = _as_load(t)
        old = self.ev(load, fr)
        rhs = self.ev(s.value, fr)
        if self.st is None:
            return
        # list += list
        o = self.obj(self.reduce(old)) if self.reduce(old).op == 'ref' else None
        if o is not None and o.kind == 'list' and isinstance(s.op, ast.Add):
            ops.list_extend(self, self.reduce(old), rhs)
            self.emit('mutate', 'extend', (old, rhs), (), s, fr)
            return
        v = ops.binop(self, ops.BINOPS[type(s.op)], old, rhs)
        # tensors/arrays are modified in place by an augmented assignment
        self.emit('mutate', 'aug' + ops.BINOPS[type(s.op)], (old, rhs), (), s,
                  fr, v)
        if isinstance(t, ast.Name) and isinstance(old, T) and arrayish(
                self, old):
            self.rebind(t, v, fr, s)
            return
        self.assign(t, v, fr, s, aug=True)

    def assign(self, t, v, fr, s, aug=False):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
            fr.rebound.add(t.id)
            fr.views.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, s)
        elif isinstance(t, ast.Attribute):
            if t.attr in ('data', 'real', 'imag', 'grad') and not (
                    isinstance(t.value, ast.Name) and t.value.id == 'self'):
                base = self.ev(t.value, fr)
                if self.st is None:
                    return
                b = self.reduce(base)
                if b.op != 'ref' and not (b.op == 'sym' and b.args[1] not in
                                          (None, 'tensor', 'param')):
                    if t.attr == 'grad':
                        self.emit('setattr', 'grad', (base, v), (), s, fr)
                        return
                    self.emit('mutate', 'set.' + t.attr, (base, v), (), s, fr,
                              v)
                    if t.attr == 'data':
                        nv = mk('f:setdata', (v,))
                        if isinstance(t.value, (ast.Attribute, ast.Name)):
                            self.assign(t.value, nv, fr, s, aug=True)
                    elif isinstance(t.value, (ast.Attribute, ast.Name)):
                        self.rebind(t.value, halved(base, t.attr, v), fr, s)
                    return
            base = self.ev(t.value, fr)
            if self.st is None:
                return
            self.setattr(base, t.attr, v, s, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev(t.slice, fr)
            if self.st is None:
                return
            nv = ops.setitem(self, base, idx, v, s, fr)
            if nv is not None:
                # value semantics: rebind the container expression
                self.rebind(t.value, nv, fr, s)

    def rebind(self, e, nv, fr, s):
        if isinstance(e, ast.Name):
            f = fr
            while f is not None and e.id not in self.st.frames.get(f.fid, {}):
                f = f.parent
            f = f or fr
            old = self.st.frames.get(f.fid, {}).get(e.id)
            self.setvar(f, e.id, nv)
            w = f.views.get(e.id)
            if w is not None and w[0] is old:
                # the array this is (part of) changes too
                x, base, i = w[1], w[2], w[3]
                k = x if i is None else x.value
                f.views[e.id] = None
                if self.getvar(f, k.id) is base:
                    new = nv if i is None else ops.setitem(
                        self, base, i, nv, s, f, quiet=True)
                    if new is not None:
                        self.rebind(k, new, f, s)
                        f.views[e.id] = (nv, x, new, i)
                if f.views[e.id] is None:
                    del f.views[e.id]
            for n, w in list(f.views.items()):
                if n != e.id and w[3] is None and w[1].id == e.id and \
                        w[0] is old and self.getvar(f, n) is old:
                    self.setvar(f, n, nv)
                    f.views[n] = (nv, w[1], nv, None)
        elif isinstance(e, ast.Attribute):
            if e.attr == 'data':
                self.rebind(e.value, nv, fr, s)
                return
            base = self.reduce(self.ev(e.value, fr))
            if e.attr in ('real', 'imag') and base.op not in ('ref', 'inst'):
                self.rebind(e.value, halved(base, e.attr, nv), fr, s)
                return
            if base.op == 'ref':
                o = self.obj(base)
                self.setobj(base, o.put(e.attr, nv))
        elif isinstance(e, ast.Subscript):
            base = self.ev(e.value, fr)
            idx = self.ev(e.slice, fr)
            b = self.reduce(base)
            if b.op == 'ref':
                ops.setitem(self, b, idx, nv, s, fr, quiet=True)
            else:
                self.rebind(e.value, mk('setitem', (base, idx, nv)), fr, s)

    def setattr(self, base, name, v, s=None, fr=None):
        def go(b):
            self.emit('setattr', name, (b, v), (), s, fr)
            if b.op == 'ref':
                o = self.obj(b)
                if o is not None and name == '__class__' and v.op == 'class':
                    self.setobj(b, HObj(o.kind, v.args[0], o.data, o.sym,
                                        o.info))
                elif o is not None:
                    # torch modules: assigning over a buffer keeps it a buffer
                    n = o.put(name, v)
                    if o.kind == 'inst' and v.op == 'f:Parameter':
                        n = n.put('%reg:' + name, const('param'))
                    self.setobj(b, n)
            return NONE
        self.split(base, go)

    def unpack(self, elts, v, fr, s):
        v = self.reduce(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = ops.sequence(self, v)
        if seq is not None and (len(seq) == len(elts) and not star or
                                star and len(seq) >= len(elts) - 1):
            if star:
                i = star[0]
                n = len(seq) - (len(elts) - 1)
                vals = seq[:i] + [mk('tuple', tuple(seq[i:i + n]))] + \
                    seq[i + n:]
            else:
                vals = seq
            for e, x in zip(elts, vals):
                self.assign(e, x, fr, s)
            return
        if star:
            i = star[0]
            for j, e in enumerate(elts):
                if j < i:
                    self.assign(e, ops.index(self, v, const(j)), fr, s)
                elif j == i:
                    self.assign(e, ops.index(self, v, mk('slice', (
                        const(j), const(j + 1 - len(elts)) if
                        len(elts) - 1 - j else NONE, NONE))), fr, s)
                else:
                    self.assign(e, ops.index(self, v, const(j - len(elts))),
                                fr, s)
            return
        self.emit('unpack', None, (v, const(len(elts))), (), s, fr)
        for j, e in enumerate(elts):
            self.assign(e, ops.index(self, v, const(j)), fr, s)

    # --- branches
    def s_If(self, s, fr):
        c = self.boolify(self.ev(s.test, fr))
        if self.st is None:
            return
        if is_const(c):
            self.block(s.body if cval(c) else s.orelse, fr)
            return
        self.branch(c, lambda: self.block(s.body, fr),
                    lambda: self.block(s.orelse, fr), s, fr)

    def branch(self, c, then, other, node, fr):
        base = self.st
        s1, s2 = base.fork(), base.fork()
        s1.trace, s2.trace = list(base.trace), list(base.trace)
        n = len(base.trace)
        self.learn(s1, c, True)
        self.learn(s2, c, False)
        self.st = s1
        then()
        s1 = self.st
        self.st = s2
        other()
        s2 = self.st
        if s1 is None and s2 is None:
            self.st = None
            return
        if s1 is None or s2 is None:
            self.st = s1 or s2
            return
        m = self.merge(c, s1, s2)
        m.trace = list(base.trace)
        t1, t2 = s1.trace[n:], s2.trace[n:]
        if t1 or t2:
            m.trace.append(Ev('if', None, (c,), (), node, fr.func,
                              blocks=(t1, t2), stack=tuple(self.stack)))
        m.pc = {k: v for k, v in m.pc.items()}
        self.st = m

    # --- loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if self.st is None:
            return
        self.loop(s, fr, it)

    s_AsyncFor = s_For

    def unroll(self, s, fr):
        """Execute a while loop whose course does not depend on unknown
        values; undone (False) if it does."""
        if any(isinstance(x, (ast.Call, ast.With, ast.Try, ast.For))
               for x in ast.walk(s)) or not any(
                isinstance(x, (ast.AugAssign, ast.Assign))
                for x in ast.walk(s)):
            return False
        base, mark = self.st, len(fr.exits)
        self.st = base.fork()
        self.st.trace = list(base.trace)
        for n in range(100):
            c = self.truth(self.boolify(self.ev(s.test, fr)))
            if self.st is None or c is None:
                break
            if c is False:
                self.block(s.orelse, fr)
                return True
            at = len(fr.exits)
            self.block(s.body, fr)
            if any(e[0] not in ('continue', 'break')
                   for e in fr.exits[at:]):
                break
            self.rejoin(self.take(fr, at, ('continue',)))
            if len(fr.exits) > at:
                if self.st is not None:
                    break
                self.rejoin(self.take(fr, at, ('break',)))
                return True
            if self.st is None:
                break
        del fr.exits[mark:]
        self.st = base
        return False

    def generated(self, v):
        """The values a generator yields, if its course does not depend on
        unknown values and it does nothing else."""
        args = v.args[1:] + tuple(x for _, x in v.kw)
        if self.st is None or self.depth > MAXDEPTH or not all(
                is_const(x) for x in args):
            return None
        base = self.st
        self.st = base.fork()
        try:
            self.run(v.args[0], v.args[1:], dict(v.kw))
            if self.st is None or self.last_raises:
                return None
            new = self.st.trace
            if any(e.kind not in ('yield', 'break', 'continue') and not (
                    e.kind == 'mutate' and e.args and is_const(e.args[0]))
                    for e in new) or any(
                    self.st.heap.get(k) is not o
                    for k, o in base.heap.items()) or any(
                    self.st.frames.get(k) is not f
                    for k, f in base.frames.items()):
                return None
            # values made by the generator live on
            return [e.args[0] for e in new if e.kind == 'yield']
        finally:
            if self.st is not None and self.st is not base:
                keep = {k: o for k, o in self.st.heap.items()
                        if k not in base.heap}
                base.heap = dict(list(base.heap.items()) + list(keep.items()))
            self.st = base

    def s_While(self, s, fr):
        c = self.ev(s.test, fr)
        if self.st is None:
            return
        if self.truth(c) is False:
            return
        if is_const(c) and self.unroll(s, fr):
            return
        if self.st is None:
            return
        self.absloop(s, fr, mk('while', (const(s.lineno),)), None, s.body,
                     test=s.test)
        if self.st is not None:
            self.block(s.orelse, fr)

    def loop(self, s, fr, it):
        it = ops.instances(self, self.reduce(it))
        seq = ops.iterate(self, it)
        if seq is not None and len(seq) <= 40:
            for x in seq:
                if self.st is None:
                    return
                self.assign(s.target, x, fr, s)
                mark = len(fr.exits)
                self.block(s.body, fr)
                brk = self.take(fr, mark, ('continue',))
                self.rejoin(brk)
                # a break makes the rest conditional: give up unrolling
                if any(e[0] == 'break' for e in fr.exits[mark:]):
                    b = self.take(fr, mark, ('break',))
                    if self.st is None:
                        self.rejoin(b)
                        return
                    self.rejoin(b)
            self.block(s.orelse, fr) if self.st is not None else None
            return
        self.absloop(s, fr, it, s.target, s.body)
        if self.st is not None:
            self.block(s.orelse, fr)

    def take(self, fr, mark, kinds):
        got = [e for e in fr.exits[mark:] if e[0] in kinds]
        fr.exits[mark:] = [e for e in fr.exits[mark:] if e[0] not in kinds]
        return got

    def rejoin(self, exits):
        for kind, val, st, g in exits:
            if self.st is None:
                self.st = st
            else:
                cond = self.guard(g)
                tr = self.join_traces(cond, st.trace, self.st.trace)
                self.st = self.merge(cond, st, self.st)
                self.st.trace = tr

    def absloop(self, s, fr, it, target, body, test=None):
        base = self.st
        elem = ops.elem(self, it) if target is not None else None
        it = ops.source(self, it)
        # pass 1: discover what the body changes
        self.st = base.fork()
        mark = len(fr.exits)
        if target is not None:
            self.assign(target, elem, fr, s)
        self.active_iters.append(it)
        self.block(body, fr)
        self.rejoin(self.take(fr, mark, ('continue', 'break')))
        del fr.exits[mark:]
        after = self.st or base.fork()
        changedv, changedh = set(), set()
        for fid, env in after.frames.items():
            b = base.frames.get(fid)
            if b is None or env is b or env is None:
                continue
            for k, v in env.items():
                if k in b and b[k] is not v:
                    changedv.add((fid, k))
        for oid, o in after.heap.items():
            b = base.heap.get(oid)
            if b is None or o is b:
                continue
            for k, v in o.data.items():
                if b.data.get(k) is not v and b.data.get(k) != v:
                    changedh.add((oid, k))
        # pass 2: with loop-carried values abstracted
        self.st = base.fork()
        for fid, k in changedv:
            env = dict(self.st.frames[fid])
            env[k] = mk('mu', (it, '%s' % k, env[k]))
            self.st.frames[fid] = env
        for oid, k in changedh:
            o = self.st.heap[oid]
            if k == 'items':
                continue
            old = o.data.get(k)
            if old is None:
                old = self._lazy(o, k)
            self.st.heap[oid] = o.put(k, mk('mu', (it, str(k), old)))
        if target is not None:
            self.assign(target, elem, fr, s)
        if test is not None:
            c = self.boolify(self.ev(test, fr))
            self.learn(self.st, c, True)
        self.block(body, fr)
        cont = self.take(fr, mark, ('continue',))
        brk = self.take(fr, mark, ('break',))
        self.rejoin(cont)
        self.rejoin(brk)
        # value returned from inside the loop: keep exits, their guards are
        # iteration dependent
        for i in range(mark, len(fr.exits)):
            kind, val, st, g = fr.exits[i]
            fr.exits[i] = (kind, val, st,
                           tuple(g) + ((mk('inloop', (it,)), True),))
            pre = list(base.trace)
            st.trace = pre + [Ev('loop', None, (it,), (), s, fr.func,
                                 blocks=(st.trace,),
                                 stack=tuple(self.stack))]
        self.active_iters.pop()
        end = self.st
        m = State(dict(base.frames), dict(base.heap), dict(base.pc),
                  list(base.trace))
        tr = end.trace if end is not None else []
        ev = Ev('loop', None, (it,), (), s, fr.func, blocks=(tr,),
                stack=tuple(self.stack))
        m.trace.append(ev)
        self.st = m
        if end is None:
            return
        for fid, env in end.frames.items():
            b = base.frames.get(fid)
            if b is None:
                m.frames[fid] = env
                continue
            if env is b:
                continue
            ne = dict(b)
            for k, v in env.items():
                if k not in b:
                    ne[k] = mk('lastiter', (it, v))
                elif b[k] is not v:
                    ne[k] = self.loopval(it, k, b[k], v)
            m.frames[fid] = ne
        for oid, o in end.heap.items():
            b = base.heap.get(oid)
            if b is None:
                m.heap[oid] = o
                continue
            if o is b:
                continue
            data = dict(b.data)
            for k, v in o.data.items():
                bv = b.data.get(k)
                if k == 'items':
                    if v == bv:
                        continue
                    n = len(bv)
                    if v[:n] == bv:
                        new = v[n:]
                        data[k] = bv + (mk('splice', (mk('comp', (
                            mk('tuple', new) if len(new) != 1 or
                            new[0].op == 'splice' else new[0], it)
                            + (() if len(new) == 1 and
                               new[0].op != 'splice' else ('many',))),)),)
                    else:
                        data[k] = (mk('splice', (mk('loopitems', (
                            it, mk('tuple', bv), mk('tuple', v))),)),)
                    continue
                if bv is None:
                    if o.kind == 'dict' and isinstance(k, T):
                        if any(x.op == 'elem' for x in walk(k)):
                            data[k] = v
                            continue
                        data[k] = mk('loopval', (it, str(k), UNDEF, v))
                        continue
                    bv = self._lazy(b, k)
                if bv is not v:
                    data[k] = self.loopval(it, str(k), bv, v)
            m.heap[oid] = HObj(o.kind, o.cls, data, o.sym, o.info)
        return

    def loopval(self, it, name, init, v):
        """Value after a loop of a variable holding v after one iteration."""
        mu = mk('mu', (it, name, init))
        if v is mu:
            return init
        if v.op == 'bin' and v.args[0] == '+':
            a, b = v.args[1], v.args[2]
            if a is mu and not _has(b, mu):
                return ops.binop(self, '+', init, mk('loopsum', (it, b)))
            if b is mu and not _has(a, mu):
                return ops.binop(self, '+', init, mk('loopsum', (it, a)))
        return mk('loopval', (it, name, init, v))

    # --- try / with
    def s_Try(self, s, fr):
        start = self.st
        mark = len(fr.exits)
        n = len(start.trace)
        self.st = start.fork()
        self.st.trace = []
        self.block(s.body, fr)
        body_end = self.st
        body_tr = body_end.trace if body_end is not None else None
        bexits = fr.exits[mark:]
        # raise exits inside the body may be caught
        caught = [e for e in bexits if e[0] == 'raise'] if s.handlers else []
        if s.handlers:
            fr.exits[mark:] = [e for e in bexits if e[0] != 'raise']
        body_exit_tr = [e[2].trace for e in fr.exits[mark:]]
        body_raise_tr = [e[2].trace for e in caught]
        if s.orelse and self.st is not None:
            self.block(s.orelse, fr)
            body_end = self.st
        hblocks = []
        ends = []
        pending = list(caught)
        for h in s.handlers:
            mine, rest = [], []
            for e in pending:
                (mine if self.catches(h, e[1], fr) else rest).append(e)
            pending = rest
            starts = []
            for kind, val, st0, g in mine:
                hs = State(dict(st0.frames), dict(st0.heap), dict(st0.pc), [])
                starts.append((self.guard(g), hs, val))
            implicit = not self.noexc and (body_end is not None or not mine)
            if implicit:
                hs = start.fork()
                hs.trace = []
                # heap/locals assigned in the body may or may not hold
                if body_end is not None:
                    exc0 = mk('excpart', (const(s.lineno), fr.func.mod.rel))
                    pcs = hs.pc
                    hs = self.merge(exc0, body_end, hs)
                    hs.trace, hs.pc = [], pcs
                cond = mk('exc', (const(h.lineno), fr.func.mod.rel,
                                  ast.unparse(h.type) if h.type else '*'))
                hs.pc[cond] = True
                starts.append((cond, hs, mk('excval', (cond,))))
            for cond, hs, val in starts:
                self.st = hs
                if h.name:
                    self.setvar(fr, h.name, val)
                hm = len(fr.exits)
                self.handling.append(val)
                self.block(h.body, fr)
                self.handling.pop()
                hb = {'type': h.type, 'node': h, 'cond': cond, 'exc': val,
                      'falls': self.st is not None,
                      'trace': self.st.trace if self.st is not None else None,
                      'exits': [(e[0], e[1], list(e[2].trace))
                                for e in fr.exits[hm:]]}
                hblocks.append(hb)
                if self.st is not None:
                    ends.append((cond, self.st))
        fr.exits.extend(pending)
        self.st = body_end
        m = body_end
        for cond, st in ends:
            m = st if m is None else self.merge(cond, st, m)
        # finally
        fin_tr = []
        fmark = len(fr.exits)
        if m is not None:
            m.trace = []
            m.pc = dict(start.pc)
            self.st = m
            if s.finalbody:
                self.block(s.finalbody, fr)
                m = self.st
                fin_tr = m.trace if m is not None else []
        elif s.finalbody:
            tmp = start.fork()
            tmp.trace = []
            self.st = tmp
            self.block(s.finalbody, fr)
            fin_tr = self.st.trace if self.st is not None else []
            self.st = None
        ev = Ev('try', None, (), (), s, fr.func, value=hblocks,
                blocks=(body_tr, fin_tr, body_exit_tr, body_raise_tr),
                stack=tuple(self.stack))
        # exits that left the try keep their own trace, wrapped
        for i in range(mark, fmark):
            kind, val, st, g = fr.exits[i]
            st.trace = list(start.trace) + [Ev(
                'tryexit', kind, (), (), s, fr.func, value=hblocks,
                blocks=(st.trace, fin_tr), stack=tuple(self.stack))]
        if m is None:
            self.st = None
            return
        m.trace = list(start.trace) + [ev]
        self.st = m

    EXC_PARENTS = {'KeyError': ('LookupError',), 'IndexError':
                   ('LookupError',), 'FileNotFoundError': ('OSError',),
                   'ModuleNotFoundError': ('ImportError',),
                   'NotImplementedError': ('RuntimeError',),
                   'UnicodeDecodeError': ('ValueError',)}

    def excname(self, v):
        v = self.reduce(v)
        if v.op == 'excval' and is_const(v.args[0]):
            return cval(v.args[0])
        if v.op == 'call' and v.args[0].op == 'ext':
            return v.args[0].args[0].split('.')[-1]
        if v.op == 'ext':
            return v.args[0].split('.')[-1]
        if v.op == 'ref' and self.obj(v).cls is not None:
            return self.obj(v).cls.name
        return None

    def catches(self, h, val, fr):
        if h.type is None:
            return True
        nm = self.excname(val)
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [ast.unparse(x).split('.')[-1] for x in types]
        if 'BaseException' in names:
            return True
        if 'Exception' in names:
            return nm not in ('KeyboardInterrupt', 'SystemExit',
                              'GeneratorExit')
        if nm is None:
            return False
        return nm in names or any(p in names for p in
                                  self.EXC_PARENTS.get(nm, ()))

    def throw(self, name, node, fr):
        """The current path definitely raises the named exception."""
        if fr is None or self.st is None:
            return unknown(name)
        self.emit('raise', name, (), (), node, fr)
        self.exit(fr, 'raise', mk('excval', (const(name),)))
        return UNDEF

    def s_With(self, s, fr):
        ctxs = []
        gens = []
        for item in s.items:
            c = self.ev(item.context_expr, fr)
            if self.st is None:
                return
            v = ops.enter(self, c, s, fr)
            ctxs.append(c)
            if c.op == 'cmgr':
                gens.append(c)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr, s)
        start = self.st
        nograd = any(detaching(c) for c in ctxs)
        before = dict(start.frames.get(fr.fid, ())) if nograd else None
        base_tr = list(start.trace)
        start.trace = []
        mark = len(fr.exits)
        self.block(s.body, fr)
        if nograd and self.st is not None:
            now = self.st.frames[fr.fid]
            new = {k: detached(v) for k, v in now.items()
                   if before.get(k) is not v}
            if new:
                self.st.frames[fr.fid] = dict(now, **new)
        for i in range(mark, len(fr.exits)):
            kind, val, st, g = fr.exits[i]
            if nograd and isinstance(val, T):
                fr.exits[i] = (kind, detached(val), st, g)
            st.trace = base_tr + [Ev('with', None, tuple(ctxs), (), s, fr.func,
                                     blocks=(st.trace,),
                                     stack=tuple(self.stack))]
        if self.st is not None:
            self.st.trace = base_tr + [Ev('with', None, tuple(ctxs), (), s,
                                          fr.func, blocks=(self.st.trace,),
                                          stack=tuple(self.stack))]

    # ====================================================== expressions ===
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Budget()
        if self.st is None:
            return UNDEF
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return unknown(type(e).__name__)
        v = m(e, fr)
        if self.st is not None and v.op == 'phi':
            v = self.reduce(v)
        return v

    def e_Constant(self, e, fr):
        return const(e.value)

    def e_Name(self, e, fr):
        return self.getvar(fr, e.id)

    def e_Tuple(self, e, fr):
        return mk('tuple', tuple(self.seqargs(e.elts, fr)))

    def e_List(self, e, fr):
        return self.newlist(self.seqargs(e.elts, fr))

    def e_Set(self, e, fr):
        return self.newlist(self.seqargs(e.elts, fr), 'set')

    def seqargs(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                seq = ops.sequence(self, v)
                if seq is not None:
                    out += seq
                else:
                    out.append(mk('splice', (v,)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = self.newdict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                ops.dict_update(self, d, src)
            else:
                kt = self.ev(k, fr)
                vt = self.ev(v, fr)
                o = self.obj(d)
                self.setobj(d, o.put(kt, vt))
        return d

    def e_Attribute(self, e, fr):
        b = self.ev(e.value, fr)
        return self.getattr(b, e.attr, e, fr)

    def getattr(self, b, name, node=None, fr=None, default=None):
        b = self.reduce(b)
        if b.op == 'phi' and self._dispatchy(b):
            return self.split(b, lambda x: self.getattr(x, name, node, fr,
                                                        default))
        if b is NONE and default is None and fr is not None and \
                not hasattr(None, name):
            return self.throw('AttributeError', node, fr)
        if b.op == 'module':
            r = self.prog.lookup(b.args[0].name, name)
            if r is None:
                return default or unknown('module attr ' + name)
            return self.resolved(r)
        if b.op == 'ext':
            return mk('ext', (b.args[0] + '.' + name,))
        if b.op == 'ref':
            return self.inst_attr(b, name, node, fr, default)
        if b.op == 'class':
            m = self.prog.find_method(b.args[0], name)
            if m is not None:
                if 'classmethod' in m.decorators:
                    return mk('bound', (b, FuncVal(m)))
                return mk('func', (FuncVal(m),))
            ca = self.prog.find_classattr(b.args[0], name)
            if ca:
                return self.resolved(('assign', ca[0].mod, ca[1],
                                      ca[0].name + '.' + name))
            if name == '__name__':
                return const(b.args[0].name)
            return mk('attr', (b, name))
        if b.op == 'super':
            cls, slf = b.args
            owner = self._cls_of(slf)
            if owner is not None:
                m = self.prog.find_method(owner, name, after=cls)
                if m is not None:
                    return mk('bound', (slf, FuncVal(m)))
            return mk('supermeth', (slf, name))
        if b.op == 'partial':
            if name == 'func':
                return b.args[0]
            if default is not None:
                return default
        if b.op == 'func' and name == '__name__':
            return const(b.args[0].func.name)
        if b.op == 'func' and name == '__doc__':
            return const('doc')
        return ops.getattr_(self, b, name, node, fr, default)

    def _cls_of(self, v):
        v = self.reduce(v)
        if v.op == 'ref':
            o = self.obj(v)
            return o.cls if o else None
        if v.op == 'class':
            return v.args[0]
        return None

    def inst_attr(self, b, name, node, fr, default=None):
        o = self.obj(b)
        if o is None:
            return mk('attr', (b, name))
        if o.kind != 'inst':
            return mk('meth', (b, name))
        if name == '__class__':
            return mk('class', (o.cls,)) if o.cls else unknown('class')
        if name in o.data:
            v = self.reduce(o.data[name])
            if v is not UNDEF:
                if v.op == 'phi' and default is not None:
                    return self.split(v, lambda x: default if x is UNDEF
                                      else x)
                return v
        if o.cls is not None:
            m = self.prog.find_method(o.cls, name)
            if m is not None:
                if 'property' in m.decorators:
                    return self.callfunc(FuncVal(m), (b,), {}, node, fr)
                if 'staticmethod' in m.decorators:
                    return mk('func', (FuncVal(m),))
                if 'classmethod' in m.decorators:
                    return mk('bound', (mk('class', (o.cls,)), FuncVal(m)))
                return mk('bound', (b, FuncVal(m)))
            ca = self.prog.find_classattr(o.cls, name)
            if ca:
                return self.resolved(('assign', ca[0].mod, ca[1],
                                      ca[0].name + '.' + name))
            if name in ops.MODULE_METHODS and \
                    'torch.nn.Module' in self.prog.mro(o.cls)[1]:
                return mk('meth', (b, name))
        if o.sym is not None:
            return mk('attr', (o.sym, name))
        if default is not None:
            return default
        if o.cls is not None and not self.prog.mro(o.cls)[1]:
            self.emit('noattr', name, (b,), (), node, fr)
            return unknown('no attribute ' + name)
        if o.cls is not None:
            self.emit('noattr', name, (b,), (), node, fr)
            return mk('meth', (b, name))
        return mk('attr', (b, name))

    def hasattr(self, b, name):
        b = self.reduce(b)
        if b.op == 'phi':
            return phi(b.args[0], self.hasattr(b.args[1], name),
                       self.hasattr(b.args[2], name))
        if b.op == 'ref':
            o = self.obj(b)
            if o.kind == 'inst':
                if name in o.data:
                    return self._defd(o.data[name])
                if o.cls is not None and (
                        self.prog.find_method(o.cls, name) or
                        self.prog.find_classattr(o.cls, name)):
                    return TRUE
                if o.sym is not None:
                    h = (o.info or {}).get('has')
                    if h is not None:
                        return const(name in h)
                    return mk('hasattr', (o.sym, name))
                return FALSE
            if o.kind in ('list', 'dict', 'set'):
                return const(hasattr({'list': [], 'dict': {}, 'set': set()}
                                     [o.kind], name))
        if is_const(b):
            return const(hasattr(cval(b), name))
        if b.op == 'tuple':
            return const(hasattr((), name))
        if b.op == 'partial':
            return const(name in ('func', 'args', 'keywords'))
        if b.op in ('func', 'class') and name in ('__name__', '__doc__'):
            return TRUE
        t = ops.typeof(self, b)
        if t in ('tensor', 'ndarray', 'float', 'int', 'str', 'bool', 'bytes',
                 'npscalar', 'npbool'):
            return ops.type_hasattr(t, name)
        return mk('hasattr', (b, name))

    def _defd(self, v):
        v = self.reduce(v)
        if v is UNDEF:
            return FALSE
        if v.op == 'phi':
            return phi(v.args[0], self._defd(v.args[1]),
                       self._defd(v.args[2]))
        return TRUE

    def e_Subscript(self, e, fr):
        b = self.ev(e.value, fr)
        i = self.ev(e.slice, fr)
        if self.st is None:
            return UNDEF
        return ops.index(self, b, i, e, fr)

    def e_Slice(self, e, fr):
        f = lambda x: NONE if x is None else self.ev(x, fr)
        return mk('slice', (f(e.lower), f(e.upper), f(e.step)))

    def e_Index(self, e, fr):
        return self.ev(e.value, fr)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        if self.st is None:
            return UNDEF
        CURLOC[0] = (fr.func, e)
        return ops.binop(self, ops.BINOPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        a = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return lnot(self.boolify(a))
        return ops.unop(self, {ast.USub: 'neg', ast.UAdd: 'pos',
                               ast.Invert: 'invert'}[type(e.op)], a)

    def e_BoolOp(self, e, fr):
        return self.boolop(e.values, isinstance(e.op, ast.And), fr)

    def boolop(self, values, is_and, fr):
        v = self.ev(values[0], fr)
        if self.st is None or len(values) == 1:
            return v
        c = self.boolify(v)
        if is_const(c):
            if bool(cval(c)) != is_and:
                return v
            return self.boolop(values[1:], is_and, fr)
        base = self.st
        s2 = base.fork()
        self.learn(s2, c, is_and)
        self.st = s2
        w = self.boolop(values[1:], is_and, fr)
        s2 = self.st
        if s2 is None:
            self.st = base
            return v
        s1 = base.fork()
        s1.trace = []
        cc = c if is_and else lnot(c)
        m = self.merge(cc, s2, s1)
        m.pc = dict(base.pc)
        m.trace = base.trace
        if s2.trace:
            m.trace.append(Ev('if', None, (cc,), (), None, fr.func,
                              blocks=(s2.trace, []), stack=tuple(self.stack)))
        self.st = m
        # result: used as a condition most of the time
        bw = self.boolify_under(w, c, is_and)
        if self._isbool(v) and self._isbool(w):
            return land(c, bw) if is_and else lor(c, bw)
        return phi(c, w, v) if is_and else phi(c, v, w)

    def boolify_under(self, w, c, pol):
        base = self.st
        s = base.fork()
        self.learn(s, c, pol)
        self.st = s
        r = self.boolify(w)
        self.st = base
        return r

    def _isbool(self, t):
        if is_const(t):
            return isinstance(cval(t), bool)
        if t.op == 'phi':
            return self._isbool(t.args[1]) and self._isbool(t.args[2])
        return t.op in ('cmp', 'not', 'and', 'or', 'is', 'in', 'hasattr',
                        'isinstance', 'any', 'all', 'h5has')

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            if self.st is None:
                return UNDEF
            c = ops.compare(self, type(op).__name__, left, right)
            out = c if out is None else land(out, c)
            left = right
        return out

    def e_IfExp(self, e, fr):
        c = self.boolify(self.ev(e.test, fr))
        if self.st is None:
            return UNDEF
        if is_const(c):
            return self.ev(e.body if cval(c) else e.orelse, fr)
        box = [None, None]

        def a():
            box[0] = self.ev(e.body, fr)

        def b():
            box[1] = self.ev(e.orelse, fr)
        self.branch(c, a, b, e, fr)
        return phi(c, box[0], box[1])

    def e_Lambda(self, e, fr):
        key = ('nested', id(e))
        f = self.gcache.get(key)
        if f is None:
            f = Func(fr.func.mod, e, fr.func.qual + '.<lambda>')
            self.gcache[key] = f
        return mk('func', (FuncVal(f, fr.fid),))

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.setvar(fr, e.target.id, v)
        return v

    def e_Starred(self, e, fr):
        return mk('splice', (self.ev(e.value, fr),))

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.ev(v.value, fr))
        if all(is_const(p) for p in parts) and not any(
                isinstance(v, ast.FormattedValue) and v.format_spec
                for v in e.values):
            return const(''.join(str(cval(p)) for p in parts))
        return mk('fstr', tuple(parts))

    def e_FormattedValue(self, e, fr):
        return self.ev(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        self.emit('yield', None, (v,), (), e, fr)
        return unknown('sent')

    def e_YieldFrom(self, e, fr):
        v = self.reduce(self.ev(e.value, fr))
        if v.op == 'gen' and self.depth <= MAXDEPTH:
            return self.run(v.args[0], v.args[1:], dict(v.kw), e, fr)
        self.emit('yieldfrom', None, (v,), (), e, fr)
        return unknown('yieldfrom')

    def e_Await(self, e, fr):
        return self.ev(e.value, fr)

    def e_Call(self, e, fr):
        f = None
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.supercall(e, fr)
        f = self.ev(e.func, fr)
        if self.st is None:
            return UNDEF
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                seq = ops.sequence(self, v)
                if seq is not None:
                    args += seq
                else:
                    args.append(mk('splat', (v,)))
            else:
                args.append(self.ev(a, fr))
            if self.st is None:
                return UNDEF
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if self.st is None:
                return UNDEF
            if k.arg is None:
                d = self.reduce(v)
                o = self.obj(d) if d.op == 'ref' else None
                if o is not None and o.kind == 'dict' and all(
                        is_const(x) for x in o.data if isinstance(x, T)):
                    for x, y in o.data.items():
                        if isinstance(x, T):
                            kw[cval(x)] = y
                        elif x == '**':
                            kw['**'] = y
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        CURLOC[0] = (fr.func, e)
        self.argchange = None
        r = self.call(f, tuple(args), kw, e, fr)
        ch, self.argchange = self.argchange, None
        if ch is not None and ch[0] is e and ch[1] is fr and \
                self.st is not None:
            self.changed(e, fr, tuple(args), kw, ch)
        if getattr(self, 'dead', False):
            self.dead = False
            if r is UNDEF:
                # callee never returns
                self.st = None
                return UNDEF
        return r

    def changed(self, e, fr, args, kw, ch):
        """arguments which the called function has changed in place"""
        func, new, bound, bkw = ch[2:]
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        off = len(bound) - len(args)
        if off < 0 or bound[off:] != args or any(
                isinstance(x, ast.Starred) for x in e.args):
            return
        todo = [(x, names[i + off]) for i, x in enumerate(e.args)
                if i + off < len(names)]
        todo += [(k.value, k.arg) for k in e.keywords if k.arg in kw]
        for x, n in todo:
            if n in new and (isinstance(x, (ast.Name, ast.Attribute)) or
                             isinstance(x, ast.Subscript) and basicindex(
                                 self.ev(x.slice, fr))):
                self.rebind(x, new[n], fr, e)

    def supercall(self, e, fr):
        env_fr = fr
        f = fr
        while f is not None and f.func.cls is None:
            f = f.parent
        if e.args:
            c = self.ev(e.args[0], fr)
            s = self.ev(e.args[1], fr) if len(e.args) > 1 else None
            cls = c.args[0] if c.op == 'class' else None
        else:
            cls = f.func.cls if f is not None else None
            s = None
        if s is None and f is not None:
            a = f.func.node.args
            nm = (a.posonlyargs + a.args)[0].arg
            s = self.st.frames[f.fid].get(nm, UNDEF)
        if cls is None:
            return unknown('super')
        return mk('super', (cls, s))

    # --- comprehensions
    def e_ListComp(self, e, fr):
        v = self.comp(e.elt, e.generators, fr)
        return v if v.op == 'ref' or self.st is None else self.newlist(v)

    def comp(self, elt, gens, fr, kind='list', key=None):
        parent = fr
        nf = Frame(self.nfid + 1, fr.func, fr)
        self.nfid += 1
        self.frames[nf.fid] = nf
        self.st.frames[nf.fid] = {}
        items = self.compgen(elt, gens, nf, key)
        if self.st is None:
            return UNDEF
        if key is not None:
            d = self.newdict([])
            for it in items:
                if it.op == 'tuple' and len(it.args) == 2:
                    o = self.obj(d)
                    self.setobj(d, o.put(it.args[0], it.args[1]))
                elif it.op == 'splice':
                    o = self.obj(d)
                    self.setobj(d, o.put(('comp', it), it))
                elif it.op == 'phi' and it.args[2] is UNDEF:
                    kv = it.args[1]
                    o = self.obj(d)
                    self.setobj(d, o.put(kv.args[0],
                                         phi(it.args[0], kv.args[1], UNDEF)))
            return d
        return self.newlist(items, kind)

    def compgen(self, elt, gens, fr, key):
        if not gens:
            v = self.ev(elt, fr)
            if key is not None:
                k = self.ev(key, fr)
                return (mk('tuple', (k, v)),)
            return (v,)
        g = gens[0]
        it = ops.instances(self, self.reduce(self.ev(g.iter, fr)))
        if self.st is None:
            return ()
        seq = ops.iterate(self, it)
        out = []
        if seq is not None and len(seq) <= 64:
            for x in seq:
                if self.st is None:
                    return tuple(out)
                self.assign(g.target, x, fr, g)
                ok = TRUE
                for c in g.ifs:
                    ok = land(ok, self.boolify(self.ev(c, fr)))
                if is_const(ok):
                    if cval(ok):
                        out += self.compgen(elt, gens[1:], fr, key)
                else:
                    # evaluate under the filter
                    base = self.st
                    s = base.fork()
                    self.learn(s, ok, True)
                    self.st = s
                    r = self.compgen(elt, gens[1:], fr, key)
                    pc, tr = dict(base.pc), base.trace
                    if self.st.trace:
                        tr = tr + [Ev('if', None, (ok,), (), None, fr.func,
                                      blocks=(self.st.trace, []),
                                      stack=tuple(self.stack))]
                    self.st.pc, self.st.trace = pc, tr
                    for x in r:
                        if key is not None:
                            out.append(phi(ok, x, UNDEF))
                        else:
                            out.append(mk('splice', (phi(
                                ok, mk('tuple', (x,)), mk('tuple', ())),)))
            return tuple(out)
        elem = ops.elem(self, it)
        it = ops.source(self, it)
        self.assign(g.target, elem, fr, g)
        base = self.st
        s = base.fork()
        self.st = s
        self.active_iters.append(it)
        ok = TRUE
        for c in g.ifs:
            ok = land(ok, self.boolify(self.ev(c, fr)))
        if not is_const(ok):
            self.learn(self.st, ok, True)
        r = self.compgen(elt, gens[1:], fr, key)
        self.active_iters.pop()
        tr = self.st.trace
        self.st.trace = base.trace
        self.st.pc = dict(base.pc)
        if tr:
            self.st.trace.append(Ev('loop', None, (it,), (), gens[0].iter,
                                    fr.func, blocks=(tr,),
                                    stack=tuple(self.stack)))
        r = r if is_const(ok) else tuple(mk('filtered', (ok, x)) for x in r)
        if len(r) == 1 and r[0].op != 'splice':
            body = mk('comp', (r[0], it))
        else:
            body = mk('comp', (mk('tuple', tuple(r)), it, 'many'))
        return (mk('splice', (body,)),)

    def e_SetComp(self, e, fr):
        return self.comp(e.elt, e.generators, fr, 'set')

    def e_GeneratorExp(self, e, fr):
        return self.comp(e.elt, e.generators, fr)

    def e_DictComp(self, e, fr):
        return self.comp(e.value, e.generators, fr, key=e.key)


def _has(t, x):
    return any(y is x for y in walk(t))


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                         kw_defaults=[], kwarg=None, defaults=[])


def _as_load(t):
    n = ast.parse(ast.unparse(t), mode='eval').body
    for x in ast.walk(n):
        if hasattr(x, 'lineno'):
            x.lineno = t.lineno
    return n
