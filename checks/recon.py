"""Reconstructor objects for the optimisation-loop checks."""
from .util import *

BASE = 'cdtools.reconstructors.base'


def fwd(I, fv, args, kw, node, fr):
    a = tuple(deep(I, x) for x in args[1:])
    if kw:
        a += tuple(deep(I, v) for v in kw.values())
    v = mk('sim', a)
    I.emit('call', 'forward', args, kw, node, fr, v)
    return v


class Setup(object):
    """An abstract reconstruction: model with/without each optional part."""

    def __init__(self, prog, mask=True, norm=True, reg=True, hooks=None,
                 cls='Reconstructor', mod=BASE, sched=True, history=None,
                 attrs=None, loader=True):
        self.cls = prog.cls(mod, cls)
        mc = prog.cls('cdtools.models.base', 'CDIModel')
        h = {('call', 'CDIModel.forward'): fwd}
        h.update(hooks or {})
        I = self.I = Interp(prog, h)
        I.noexc = True
        self.loss = sym('lossfn', 'obj')
        self.norm = sym('norm', 'obj')
        self.mask = sym('mask', 'tensor')
        self.regfn = sym('regfn', 'obj')
        self.hist = I.newlist(list(history)) if history is not None else \
            sym('loss_history', 'list')
        self.epoch = sym('epoch', 'int')
        self.text = sym('training_history', 'str')
        ma = {'loss': self.loss, 'loss_history': self.hist,
              'epoch': self.epoch, 'training_history': self.text}
        if norm == 'none':
            ma['loss_normalizer'] = NONE
        elif norm:
            ma['loss_normalizer'] = self.norm
        if mask == 'none':
            ma['mask'] = NONE
        elif mask:
            ma['mask'] = self.mask
        if reg:
            ma['regularizer'] = self.regfn
        ma.update(attrs or {})
        self.model = I.new('inst', mc, ma)
        self.opt = sym('optimizer', 'obj')
        self.dataset = sym('dataset', 'obj')
        self.sched = sym('scheduler', 'obj') if sched else NONE
        self.loader = sym('loader', 'obj') if loader else NONE
        self.rec = I.new('inst', self.cls, {
            'model': self.model, 'optimizer': self.opt,
            'dataset': self.dataset, 'scheduler': self.sched,
            'data_loader': self.loader})
        self.prog = prog
        for x in (self.norm, self.mask, self.regfn, self.sched, self.opt,
                  self.loader):
            self.assume_present(x)

    def assume_present(self, x):
        if x.op == 'sym':
            self.I.learn(self.I.st, mk('is', (x, NONE)), False)

    def meth(self, name):
        return method(self.prog, self.cls, name)

    def call(self, name, *args, **kw):
        return self.I.run(FuncVal(self.meth(name)), (self.rec,) + args, kw)


def strip_rep(t):
    """value of a loss, ignoring detach/cpu/numpy/[()]/float()"""
    return norm.strip(t)


def is_len_of(t, base):
    """t is the number of exposures of base (or of one of its elements)"""
    c = [base]
    if t.op == 'len':
        x = t.args[0]
    elif t.op == 'index' and t.args[0].op == 'attr' and \
            t.args[0].args[1] == 'shape' and is_const(t.args[1]) and \
            cval(t.args[1]) == 0:
        x = t.args[0].args[0]
    elif t.op == 'index' and t.args[0].op == 'f:shape' and \
            is_const(t.args[1]) and cval(t.args[1]) == 0:
        x = t.args[0].args[0]
    else:
        return False
    return x in c or x.op == 'index' and x.args[0] in c


def partition(v, base, batch, cw):
    """Is v the current piece of a partition of base?  ('ok', key) |
    ('bad', why) | ('und', why).  batch: nodes whose length is the number of
    exposures in the minibatch."""
    if v is base:
        return 'ok', None
    if v.op != 'index' or v.args[0] is not base:
        return 'und', show(v, 5)
    i = v.args[1]
    if i.op == 'tuple' and i.args and i.args[0].op == 'slice' and all(
            a.op == 'slice' and all(x is NONE for x in a.args)
            for a in i.args[1:]):
        i = i.args[0]
    if i.op != 'slice' or not (
            i.args[2] is NONE or is_const(i.args[2]) and
            cval(i.args[2]) == 1):
        return 'und', show(v, 5)
    a, b = i.args[0], i.args[1]
    la = norm.lin(a)
    el = [k for k in la if k is not None and k.op == 'elem' and
          k.args[0].op == 'range']
    if len(el) != 1:
        return 'und', show(v, 5)
    e = el[0]
    R = e.args[0]
    ra = list(R.args)
    start, n, step = (const(0), ra[0], const(1)) if len(ra) == 1 else \
        (ra[0], ra[1], const(1)) if len(ra) == 2 else ra
    if la != {e: 1}:
        if set(la) <= {e, None} and la.get(e) == 1:
            return 'bad', 'pieces start at an offset of %s' % la.get(None)
        return 'und', show(v, 5)
    if not (is_const(start) and cval(start) == 0):
        if is_const(start):
            return 'bad', 'the first piece starts at exposure %s' % show(
                start)
        return 'und', show(v, 5)
    n = cover(n, batch, cw)
    if n is None:
        return 'bad', 'the pieces stop at %s, before the last exposure' % \
            show(R.args[0 if len(ra) == 1 else 1], 6)
    nd = norm.lin(n)
    lens = [k for k in nd if k is not None and any(
        is_len_of(k, x) for x in batch)]
    if len(lens) != 1 or nd.get(lens[0]) != 1 or not set(nd) <= {
            lens[0], None, cw}:
        return 'und', show(n, 5)
    if nd.get(None, 0) < 0 or nd.get(cw, 0) < 0:
        return 'bad', 'the pieces stop at %s, before the last exposure' % \
            show(n, 6)
    if len(nd) > 1:
        return 'und', show(n, 5)
    if b is NONE:
        return 'bad', 'each piece runs to the end of the minibatch'
    if b.op == 'f:minimum' and len(b.args) == 2:
        keep = [x for x in b.args if not any(is_len_of(x, y)
                                             for y in batch)]
        if len(keep) == 1:
            b = keep[0]
    d = norm.ldiff(b, a)
    w = norm.lin(step)
    if d == w:
        return 'ok', R
    if set(d) <= {None, cw} and set(w) <= {None, cw}:
        return 'bad', 'pieces of length %s are taken every %s exposures' % (
            fmt(d), fmt(w))
    return 'und', show(v, 5)


def cover(n, batch, cw):
    """The stop of the range of piece starts, simplified under n >= 1; None
    when it can fall short of the number of exposures (witness: pieces of
    one exposure)."""
    if n.op not in ('f:maximum', 'f:minimum') or len(n.args) != 2:
        return n
    br = []
    for x in n.args:
        y = cover(x, batch, cw)
        if y is None:
            y = x
            if x.op in ('f:maximum', 'f:minimum'):
                return n
        d = norm.lin(y)
        lens = [k for k in d if k is not None and any(
            is_len_of(k, b) for b in batch)]
        if not set(d) <= set(lens) | {None, cw} or len(lens) > 1:
            return n
        off = d.get(None, 0) + d.get(cw, 0)
        if not lens:
            br.append((y, None, off))
        elif d[lens[0]] == 1:
            br.append((y, off, None))
        else:
            return n
    if n.op == 'f:maximum':
        if all(o is None or o < 0 for y, o, k in br):
            return None
        if [o for y, o, k in br if o is not None] == [0] and all(
                k is None or k <= 1 for y, o, k in br):
            return [y for y, o, k in br if o is not None][0]
        z = [y for y, o, k in br if o is not None and o >= 0]
        if len(z) == 1 and all(o is None and k <= 1 or o is not None
                               for y, o, k in br) and \
                norm.lin(z[0]).get(None, 0) == 0:
            return z[0]
        return n
    if any(o is None or o < 0 for y, o, k in br):
        return None
    return n


def reordered(v):
    """v is the current element of a rearranged list of pieces:
    ('reversed'|'cut', description) or None"""
    for x in walk(v):
        if x.op == 'elem':
            q = x.args[0]
            if q.op == 'reversed':
                return 'reversed', show(q, 4)
            if q.op == 'index' and q.args[1].op == 'slice' and \
                    q.args[0].op == 'list' and any(
                        not (a is NONE or is_const(a) and cval(a) == 0)
                        for a in q.args[1].args[:2]):
                if is_const(q.args[1].args[0]) and \
                        is_const(q.args[1].args[1]):
                    return 'cut', show(q.args[1])
            if q.op == 'index' and q.args[1].op == 'slice' and \
                    q.args[0].op == 'list' and \
                    is_const(q.args[1].args[2]) and \
                    cval(q.args[1].args[2]) == -1:
                return 'reversed', show(q, 4)
    return None


def fmt(d):
    return ' + '.join(('%s*%s' % (v, show(k)) if k is not None else str(v))
                      for k, v in d.items()) or '0'
