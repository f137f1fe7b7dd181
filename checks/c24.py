"""C24: arguments that are left out."""
import ast
import os
import re
import runpy

from .util import *
from vg.loader import AnalysisError

RULE = ('the default of each argument with a documented value, taken from '
        'the signature (or from the place where the body replaces None), is '
        'folded to a constant and compared with that value; the options of '
        'the optimize methods of models are compared with those of the '
        'reconstructors they run')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FOLD = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
        ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
        ast.Pow: lambda a, b: a ** b}


class Unknown(Exception):
    pass


def value(prog, mod, e, depth=0):
    """the constant an expression of a signature stands for"""
    if depth > 20:
        raise Unknown
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.Tuple, ast.List)):
        return [value(prog, mod, x, depth + 1) for x in e.elts]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd,
                                                        ast.Not)):
        v = value(prog, mod, e.operand, depth + 1)
        if isinstance(e.op, ast.Not):
            return not v
        if not isinstance(v, (int, float)):
            raise Unknown
        return -v if isinstance(e.op, ast.USub) else v
    if isinstance(e, ast.BinOp) and type(e.op) in FOLD:
        a, b = (value(prog, mod, x, depth + 1) for x in (e.left, e.right))
        try:
            return FOLD[type(e.op)](a, b)
        except Exception:
            raise Unknown
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
            e.attr == 'inf':
        r = prog.lookup(mod.name, e.value.id)
        if r and r[0] == 'ext' and r[1] in ('numpy', 'math', 'torch'):
            return float('inf')
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'float' and len(e.args) == 1 and not e.keywords and \
            prog.lookup(mod.name, 'float') is None:
        try:
            return float(value(prog, mod, e.args[0], depth + 1))
        except (TypeError, ValueError):
            raise Unknown
    if isinstance(e, ast.Name):
        r = prog.lookup(mod.name, e.id)
        if r and r[0] == 'assign':
            n = [x for x in ast.walk(r[1].tree) if isinstance(x, ast.Name)
                 and x.id == r[3] and isinstance(x.ctx, ast.Store)]
            d = r[2] if isinstance(r[2], ast.expr) else None
            if len(n) == 1 and d is not None:
                return value(prog, r[1], d, depth + 1)
    raise Unknown


def find(prog, mod, qual):
    parts = qual.split('.')
    r = prog.lookup(mod, parts[0])
    if len(parts) == 1:
        return r[1] if r and r[0] == 'func' else None
    return prog.find_method(r[1], parts[1]) if r and r[0] == 'class' else None


def signature(f):
    """{parameter: default or None}"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {n: None for n in names + [x.arg for x in a.kwonlyargs]}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        out[n] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out[x.arg] = d
    return out


def isnone(test, name):
    """True for `name is None`, False for `name is not None`"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            isinstance(test.left, ast.Name) and test.left.id == name and \
            isinstance(test.comparators[0], ast.Constant) and \
            test.comparators[0].value is None:
        if isinstance(test.ops[0], ast.Is):
            return True
        if isinstance(test.ops[0], ast.IsNot):
            return False
    return None


def replaced(f, name):
    """what the body puts in place of None"""
    out, stores = [], 0
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and x.id == name and \
                isinstance(x.ctx, ast.Store):
            stores += 1
        if isinstance(x, ast.If):
            k = isnone(x.test, name)
            for y in (x.body if k else x.orelse if k is False else []):
                if isinstance(y, ast.Assign) and len(y.targets) == 1 and \
                        isinstance(y.targets[0], ast.Name) and \
                        y.targets[0].id == name:
                    out.append(y.value)
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                isinstance(x.targets[0], ast.Name) and \
                x.targets[0].id == name and isinstance(x.value, ast.IfExp):
            k = isnone(x.value.test, name)
            if k is not None:
                out.append(x.value.body if k else x.value.orelse)
    return out[0] if len(out) == 1 and stores == 1 else None


def default(prog, f, n):
    """the value of an argument that is left out, or Unknown"""
    s = signature(f)
    if s.get(n) is None:
        raise Unknown
    v = value(prog, f.mod, s[n])
    if v is None:
        e = replaced(f, n)
        if e is None:
            raise Unknown
        v = value(prog, f.mod, e)
        if v is None:
            raise Unknown
    return v


VALUE = re.compile(r'''\b[Dd]efaults?(?:\s+value)?\s*(?:is|to|=|:)?\s*'''
                   r'''(\([^()]*\)|True|False|-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?'''
                   r'''|'[^']*'|"[^"]*"|\.[a-z]+)(?=[\s,.;)]|$)''')


def stated(f, name):
    """the default in the docstring, or Unknown"""
    doc = ast.get_docstring(f.node) or ''
    lines = doc.split('\n')
    at = [i for i, x in enumerate(lines)
          if re.match(r'%s\s*:' % re.escape(name), x)]
    if len(at) != 1:
        raise Unknown
    out = [lines[at[0]]]
    for x in lines[at[0] + 1:]:
        if x.strip() and not x[0].isspace():
            break
        out.append(x.strip())
    m = VALUE.findall(' '.join(out))
    if len(m) != 1:
        raise Unknown
    if m[0].startswith('.'):
        return m[0]
    try:
        return ast.literal_eval(m[0])
    except (ValueError, SyntaxError):
        raise Unknown


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a == b:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if float('inf') in (abs(a), abs(b)):
            return False
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b


def run(prog, rep, thorough):
    s = runpy.run_path(os.path.join(ROOT, 'spec', 'defaults.py'))
    seen = 0
    for (mod, qual), args in sorted(s['STATED'].items()):
        f = find(prog, mod, qual)
        for n, want in sorted(args.items()):
            t = '%s: %s' % (qual, n)
            if f is None or n not in signature(f):
                rep.und(t, 'not found')
                continue
            seen += 1
            rep.analysed.add('%s:%s' % (f.mod.rel, f.qual))
            if signature(f)[n] is None:
                rep.bad('required:%s:%s' % (qual, n), where(f),
                        '%s cannot be left out of %s; documented is %r' % (
                            n, qual, want))
                continue
            try:
                v = default(prog, f, n)
            except Unknown:
                rep.und(t, ast.unparse(signature(f)[n]))
                continue
            if same(v, want):
                rep.ok(t)
            else:
                rep.bad('default:%s:%s' % (qual, n), where(f),
                        'without %s, %s uses %r; documented is %r' % (
                            n, qual, v, want))
                continue
            try:
                d = stated(f, n)
            except Unknown:
                continue
            if same(v, d):
                rep.ok(t + ' in the docstring')
            else:
                rep.bad('docstring:%s:%s' % (qual, n), where(f),
                        'without %s, %s uses %r, but its docstring states '
                        '%r' % (n, qual, v, d))
    if not seen:
        raise AnalysisError('no function with documented defaults found')
    for a, b in s['SAME']:
        f, g = find(prog, *a), find(prog, *b)
        if f is None or g is None:
            rep.und('%s like %s' % (a[1], b[1]), 'not found')
            continue
        sf, sg = signature(f), signature(g)
        for n in sf:
            if n not in sg or sf[n] is None or sg[n] is None:
                continue
            t = '%s: %s as in %s' % (a[1], n, b[1])
            try:
                x, y = default(prog, f, n), default(prog, g, n)
            except Unknown:
                # None, or not a constant
                if ast.dump(sf[n]) == ast.dump(sg[n]):
                    rep.ok(t)
                continue
            if same(x, y):
                rep.ok(t)
            else:
                rep.bad('differs:%s:%s' % (a[1], n), where(f),
                        'without %s, %s uses %r and %s uses %r' % (
                            n, a[1], x, b[1], y))
