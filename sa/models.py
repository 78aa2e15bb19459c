"""Models of the builtins and of the external libraries ghedt calls.

Every model returns a term; an external whose meaning is not needed becomes an
uninterpreted function of its (frozen) arguments plus an 'ext' event.
"""
import calendar
import re
from fractions import Fraction
from .terms import *
from . import terms as tm

DICTSYMS = set()

EXCEPTIONS = {'Exception', 'ValueError', 'KeyError', 'IndexError', 'TypeError',
              'RuntimeError', 'AssertionError', 'NotImplementedError',
              'ZeroDivisionError', 'AttributeError', 'BaseException',
              'StopIteration', 'ArithmeticError', 'LookupError', 'OSError',
              'FileNotFoundError', 'Warning', 'UserWarning',
              'DeprecationWarning', 'RuntimeWarning', 'FutureWarning',
              'OverflowError', 'ImportError'}

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set',
            'frozenset', 'sorted', 'reversed', 'sum', 'max', 'min', 'abs',
            'int', 'float', 'str', 'round', 'bool', 'map', 'filter', 'any',
            'all', 'print', 'isinstance', 'issubclass', 'type', 'repr', 'open',
            'hasattr', 'getattr', 'setattr', 'object', 'iter', 'next', 'pow',
            'divmod', 'id', 'property', 'staticmethod', 'classmethod', 'input',
            'callable', 'vars', 'super', 'slice', 'globals', 'locals', 'exec',
            'eval', '__import__', 'bytes', 'complex', '__name__', '__file__',
            'format', 'hash', 'ord', 'chr'} | EXCEPTIONS

STRFN = {'str', 'strcat', 'format', 'strrep', 'strm'}
METHOD_NAMES = {'append', 'extend', 'insert', 'pop', 'index', 'count',
                'remove', 'sort', 'reverse', 'copy', 'clear', 'tolist', 'keys',
                'values', 'items', 'get', 'update', 'setdefault', 'format',
                'join', 'split', 'ljust', 'rjust', 'center', 'zfill', 'strip',
                'lower', 'upper', 'replace', 'startswith', 'endswith', 'dot',
                'sum', 'max', 'min', 'mean', 'astype', 'flatten', 'cumsum',
                'item', 'argmax', 'argmin', 'round', 'fill', 'add', 'ravel'}
NUMFN.update({'interp', 'round', 'maxseq', 'Rbstar', 'brentq', 'brentlast', 'ln1p', 'atan2',
              'hypot', 'polytest'})
SEQFN.update({'set', 'reversed', 'repeat', 'strided', 'storeslice', 'fancy',
              'split', 'sortedby', 'zipstar', 'cumsum', 'solve'})


def UNDEC(msg):
    from .interp import Undecided
    return Undecided(msg)


# ------------------------------------------------------------------- strings
def tostr(I, x, st):
    from .interp import Obj
    c = I.cell(x, st)
    if isinstance(c, Obj):
        for n in ('__str__', '__repr__'):
            m = I.find_method(c, n)
            if m is not None:
                return I.call_func(m, [x], {}, st, None)
    if x.op == 'str' or (x.op == 'fn' and x.args[0] in STRFN):
        return x
    if x.op == 'num' and nval(x).denominator == 1:
        return mk('fn', 'str', x)
    if x.op == 'ite':
        a, b = tostr(I, x.args[1], st), tostr(I, x.args[2], st)
        if a is x.args[1] or b is x.args[2]:
            return ite(x.args[0], a, b)
    return mk('fn', 'str', I.freeze(x, st, None))


def strcat(parts):
    flat = []
    for p in parts:
        if p.op == 'fn' and p.args[0] == 'strcat':
            flat += list(p.args[1:])
        else:
            flat.append(p)
    out = []
    for p in flat:
        if p.op == 'str' and out and out[-1].op == 'str':
            out[-1] = string(out[-1].args[0] + p.args[0])
        elif p.op == 'str' and p.args[0] == '':
            continue
        else:
            out.append(p)
    if not out:
        return string('')
    if len(out) == 1 and (out[0].op == 'str' or out[0].op == 'fn' and
                          out[0].args[0] in STRFN):
        return out[0]
    return mk('fn', 'strcat', *out)


def fmt(I, v, spec, st):
    """format(v, spec), in one form for the ways of writing it"""
    v = I.freeze(v, st, None)
    m = re.fullmatch(r'(0?)(\d*)d?', spec)
    if m and (spec.endswith('d') or not spec):
        if m.group(1) and m.group(2):
            return mk('fn', 'strm', string('zfill'), tostr(I, v, st),
                      num(int(m.group(2))))
        if not m.group(2):
            return tostr(I, v, st)
    if spec.startswith('>') and spec[-1:] in 'dfeEgG':
        spec = spec[1:]
    return mk('fn', 'format', v, string(spec))


def percent(I, tpl, args, st):
    """tpl % args"""
    if tpl.op == 'str':
        t = args.args if args.op == 'seq' else [args]
        if args.op != 'seq' or all(g.op == 'e' for g in args.args):
            vals = [g.args[0] if args.op == 'seq' else g for g in t]
            parts, k = [], 0
            for piece in re.findall(r'%%|%[-0]?\d*(?:\.\d+)?[sdifeEgG]|[^%]+|%',
                                    tpl.args[0]):
                if piece[0] != '%':
                    parts.append(string(piece))
                elif piece == '%%':
                    parts.append(string('%'))
                elif piece == '%' or k == len(vals):
                    break
                else:
                    spec, v = piece[1:], vals[k]
                    k += 1
                    kind = spec[-1]
                    if kind in 'di':
                        v, spec = I.numval(v), spec[:-1] + 'd'
                        v = v if is_int(v) else trunc(v)
                    if kind == 's':
                        spec = spec[:-1]
                        if spec and spec[0] not in '-0':
                            spec = '>' + spec
                        v = tostr(I, v, st)
                    if spec[:1] == '-':
                        spec = '<' + spec[1:]
                    parts.append(fmt(I, v, spec, st))
            else:
                if k == len(vals):
                    return strcat(parts)
    return mk('fn', 'format', tpl, I.freeze(args, st, None))


def str_format(I, tpl, args, kw, st):
    if tpl.op != 'str':
        return mk('fn', 'format', tpl, *[I.freeze(a, st, None) for a in args])
    s = tpl.args[0]
    import string as _s
    parts = []
    auto = 0
    try:
        for litt, field, spec, conv in _s.Formatter().parse(s):
            if litt:
                parts.append(string(litt))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return mk('fn', 'format', tpl, *args)
            if spec:
                parts.append(fmt(I, v, spec, st))
            else:
                parts.append(tostr(I, v, st))
    except (ValueError, IndexError):
        return mk('fn', 'format', tpl, *[I.freeze(a, st, None) for a in args])
    return strcat(parts)


def str_split(s, sep):
    if s.op == 'str':
        return lit([string(x) for x in s.args[0].split(sep)])
    parts = list(s.args[1:]) if s.op == 'fn' and s.args[0] == 'strcat' else [s]
    out = [[]]
    for p in parts:
        if p.op == 'str':
            chunks = p.args[0].split(sep)
            out[-1].append(string(chunks[0]))
            for c in chunks[1:]:
                out.append([string(c)])
        elif set(sep) & set('0123456789.-+'):
            # a number or a file name may hold the separator
            return mk('fn', 'split', s, string(sep))
        else:
            out[-1].append(p)
    return lit([strcat(o) for o in out])


def to_number(x):
    if x.op == 'fn' and x.args[0] == 'str':
        return x.args[1]
    if x.op == 'str':
        try:
            return num(float(x.args[0]))
        except ValueError:
            return mk('fn', 'float', x)
    if x.op == 'ite':
        return ite(x.args[0], to_number(x.args[1]), to_number(x.args[2]))
    if x.op == 'fn' and x.args[0] == 'format' and len(x.args) == 3 and \
            x.args[2].op == 'str':
        m = re.fullmatch(r'\.(\d+)f', x.args[2].args[0])
        if m:
            k = int(m.group(1))
            if is_num(x.args[1]):
                return num(round(nval(x.args[1]), k))
            return mk('fn', 'round', x.args[1], num(k)) if k else \
                mk('fn', 'round0', x.args[1])
    return x


# ------------------------------------------------------------------- sequences
def materialise(I, v, st):
    k = v.args[0]
    if k == 'reversedit':
        return reverse(I.seqval(v.args[1], st))
    if k == 'map':
        f, it = v.args[1], v.args[2]
        n, el = I.iterspec(it, st)
        return _build(n, lambda i: I.call(f, [el(i)], {}, st))
    if k == 'filter':
        f, it = v.args[1], v.args[2]
        n, el = I.iterspec(it, st)

        def body(i):
            x = el(i)
            c = I.truth(x if f is NONE else I.call(f, [x], {}, st), st)
            return mk('seq', mk('g', c, lit([x])))
        kk = fresh('k', 'int', 0)
        return seqfor(n, kk, body(kk))
    n, el = I.iterspec(v, st)
    return _build(n, el)


def _build(n, el):
    if is_num(n) and nval(n) <= 16:
        return lit([el(num(j)) for j in range(int(nval(n)))])
    kk = fresh('k', 'int', 0)
    return seqfor(n, kk, lit([el(kk)]))


def zipmap(f, items):
    """items: [(scalar or None, seq or None)]; segment-wise map or None"""
    segl = []
    for sc, s in items:
        segl.append(None if s is None else segs_of(s))
    ns = {len(g) for g in segl if g is not None}
    if len(ns) != 1:
        return None
    n = ns.pop()
    out = []
    for j in range(n):
        gs = [None if g is None else g[j] for g in segl]
        real = [g for g in gs if g is not None]
        if all(g.op == 'e' for g in real):
            out.append(elem(f(*[sc if g is None else g.args[0]
                                for (sc, _), g in zip(items, gs)])))
            continue
        if any(g.op not in ('bfor', 's') for g in real):
            if len(real) == 1 and real[0].op == 'g':
                g = real[0]
                sub_ = zipmap(f, [(sc, None if q is None else g.args[1])
                                  for (sc, _), q in zip(items, gs)])
                if sub_ is None:
                    return None
                out.append(mk('g', g.args[0], sub_))
                continue
            return None
        lens = {length(mk('seq', g)) for g in real}
        if len(lens) != 1:
            return None
        k = fresh('k', 'int', 0)
        args = []
        ok = True
        for (sc, _), g in zip(items, gs):
            if g is None:
                args.append(sc)
            elif g.op == 's':
                args.append(index(g.args[0], k))
            else:
                b = g.args[2]
                if len(b.args) != 1 or b.args[0].op != 'e':
                    ok = False
                    break
                args.append(subst(b.args[0].args[0],
                                  {bv(g.args[1], 0, 'idx'): k}))
        if not ok:
            if len(real) == 1 and real[0].op == 'bfor':
                g = real[0]
                b = subst(g.args[2], {bv(g.args[1], 0, 'idx'): k})
                inner = zipmap(f, [(sc, None if q is None else b)
                                   for (sc, _), q in zip(items, gs)])
                if inner is None:
                    return None
                out += segs_of(seqfor(g.args[0], k, inner))
                continue
            return None
        out += segs_of(seqfor(lens.pop(), k, lit([f(*args)])))
    return seq(out)


def dot(I, a, b, st):
    if not (I.is_container(a, st) and I.is_container(b, st)):
        return mul(I.numval(a), I.numval(b))
    r = I.elementwise(lambda x, y: mul(I.numval(x), I.numval(y)), [a, b], st)
    return sumseq(I.seqval(r, st))


def repeat(s, k):
    if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'bfor':
        g = s.args[0]
        b = g.args[2]
        bvv = bv(g.args[1], 0, 'idx')
        if bvv not in b.syms and len(b.args) == 1:
            kk = fresh('k', 'int', 0)
            kn = k if sgn(k) in ('>0', '>=0', '0') else fmax(k, ZERO)
            return seqfor(mul(g.args[0], kn), kk, b)
    if is_num(k):
        n = max(0, int(nval(k)))
        if s.op == 'seq' and len(s.args) * n <= 64 or n <= 1:
            return concat(*[s for _ in range(n)]) if n else EMPTYSEQ
    if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'e':
        kk = fresh('k', 'int', 0)
        n = k if sgn(k) in ('>0', '>=0', '0') else fmax(k, ZERO)
        return seqfor(n, kk, lit([s.args[0].args[0]]))
    return mk('fn', 'repeat', s, k)


def contains(I, a, b, st):
    c = I.cell(b, st)
    from .interp import Dct
    if b.op == 'ite' and I._has_ref_or_py(b):
        return ite(b.args[0], contains(I, a, b.args[1], st),
                   contains(I, a, b.args[2], st))
    if isinstance(c, Dct):
        if c.val.op == 'dict':
            return or_(*[eq(a, k) for k, _ in dict_items(c.val)]) \
                if c.val.args else FALSE
        return mk('fn', 'in', a, c.val)
    if b.op == 'dict':
        return or_(*[eq(a, k) for k, _ in dict_items(b)])
    if b.op == 'fn' and b.args[0] == 'set':
        b = b.args[1]
    if b.op == 'fn' and b.args[0] == 'range' and b.args[3] is ONE and \
            is_int(a):
        return and_(le(b.args[1], a), lt(a, b.args[2]))
    if a.op == 'str' and b.op == 'str':
        return TRUE if a.args[0] in b.args[0] else FALSE
    if b.op == 'str':
        return mk('fn', 'in', a, b)
    s = I.seqval(b, st)
    if s.op == 'fn' and s.args[0] == 'set':
        s = s.args[1]
    if s.op == 'seq' and all(g.op == 'e' for g in s.args):
        av = I.freeze(a, st, None)
        vs = [I.freeze(g.args[0], st, None) for g in s.args]
        return or_(*[_same(I, av, v) for v in vs]) if vs else FALSE
    av, s = I.freeze(a, st, None), I.freeze(s, st, None)
    if s.op in ('seq', 'ite'):
        return seq_exists(s, lambda x: _same(I, av, x),
                          lambda t: mk('fn', 'in', av, t))
    return mk('fn', 'in', av, s)


def _same(I, a, b):
    from .interp import pyval
    pa, pb = pyval(a), pyval(b)
    if pa is not None and pb is not None:
        return TRUE if (pa is pb or pa == pb) else FALSE
    return eq(a, b)


def reverse(s):
    if s.op == 'seq':
        if all(g.op == 'e' for g in s.args):
            return mk('seq', *reversed(s.args))
        if len(s.args) == 1 and s.args[0].op == 'bfor' and \
                len(s.args[0].args[2].args) == 1:
            g = s.args[0]
            k = fresh('k', 'int', 0)
            return seqfor(g.args[0], k, subst(
                g.args[2], {bv(g.args[1], 0, 'idx'):
                            sub(sub(g.args[0], ONE), k)}))
    if s.op == 'fn' and s.args[0] == 'reversed':
        return s.args[1]
    return mk('fn', 'reversed', s)


def strided(s, a, b, step):
    if s.op == 'seq' and all(g.op == 'e' for g in s.args) and is_num(step) and \
            (a is NONE or is_num(a)) and (b is NONE or is_num(b)):
        f = lambda x: None if x is NONE else int(nval(x))
        return mk('seq', *s.args[f(a):f(b):f(step)])
    return mk('fn', 'strided', s, a, b, step)


def store_nd(val, idx, v):
    if is_seq(idx):
        return mk('fn', 'store', val, idx, v)
    return store(val, idx, v)


def span(p):
    """(from, to) of a slice in an index, or None"""
    if p.op == 'fn' and p.args[0] == 'slice2':
        return p.args[1], p.args[2]
    return None


def grid_index(c, i):
    """(row or None for all, column index) of an index into a grid"""
    if not (is_seq(i) and i.op == 'seq' and len(i.args) == 2):
        if is_num(i):
            return i, mk('fn', 'slice2', NONE, NONE)
        raise UNDEC('index of a grid')
    r, k = [g.args[0] for g in i.args]
    if span(r) is not None:
        if span(r) != (NONE, NONE):
            raise UNDEC('some rows of a grid')
        return None, k
    if not is_num(r):
        raise UNDEC('row of a grid')
    return r, k


def grid_get(I, c, i, st):
    r, k = grid_index(c, i)
    rows = [g.args[0] for g in c.val.args]
    part = lambda x: x if span(k) == (NONE, NONE) else \
        I.getslice(x, *span(k), st) if span(k) else I.getitem(x, k, st)
    if r is not None:
        if not -len(rows) <= nval(r) < len(rows):
            raise UNDEC('row of a grid')
        return part(rows[int(nval(r))])
    if span(k):
        return I.newlist(st, lit([part(x) for x in rows]), 'grid')
    return I.newlist(st, lit([part(x) for x in rows]), 'array')


def grid_store(I, c, i, v, st):
    from .interp import Lst
    r, k = grid_index(c, i)
    rows = [g.args[0] for g in c.val.args]
    many = I.is_container(v, st)
    vs = I.seqval(v, st) if many else v
    if r is not None:
        if not -len(rows) <= nval(r) < len(rows):
            raise UNDEC('row of a grid')
        o = rows[int(nval(r))]
        I.check_views(o, st)
        if span(k):
            I.store_slice(o, st.heap[o.args[0]], *span(k), v, st)
            I.refresh_views(o.args[0], st)
        else:
            I.setitem(o, k, v, st)
        return
    if span(k):
        raise UNDEC('store of a block')
    if many and not (vs.op == 'seq' and len(vs.args) == len(rows) and
                     all(g.op == 'e' for g in vs.args)):
        raise UNDEC('column of a grid')
    for n, o in enumerate(rows):
        I.setitem(o, k, vs.args[n].args[0] if many else v, st)


def getitem_nd(I, c, i, st):
    from .interp import Lst
    parts = [g.args[0] for g in i.args]
    if any(p.op == 'fn' and p.args[0] == 'slice2' for p in parts):
        r = mk('fn', 'nd', c.val, i)
        return I.newlist(st, r, 'array')
    v = c.val
    if v.op == 'fn' and v.args[0] in ('store', 'zeros', 'nd'):
        return mk('fn', 'ndval', v, i)
    for p in parts:
        v = index(v, p)
    return v


def fancy(I, c, ic, st):
    m = ic.val
    k = fresh('k', 'int', 0)
    x = index(m, k)
    if is_bool(x):
        return I.newlist(st, seqfor(length(m), k, mk(
            'seq', mk('g', x, lit([index(c.val, k)])))), 'array')
    if maybe_num(x):
        z = zipmap(lambda j: index(c.val, j), [(None, m)])
        if z is not None:
            return I.newlist(st, z, 'array')
    return I.newlist(st, mk('fn', 'fancy', c.val, m), 'array')


def maxseq(s):
    if s.op == 'seq':
        segs = s.args
        if segs and all(g.op == 'e' for g in segs):
            return fmax(*[g.args[0] for g in segs])
    return mk('fn', 'maxseq', s)


def minseq(s):
    if s.op == 'seq' and s.args and all(g.op == 'e' for g in s.args):
        return fmin(*[g.args[0] for g in s.args])
    z = zipmap(neg, [(None, s)])
    if z is None:
        k = fresh('k', 'int', 0)
        z = seqfor(length(s), k, lit([neg(index(s, k))]))
    return neg(maxseq(z))


def seq_any(s, isany):
    if isany:
        return seq_exists(s, truth_of, lambda t: mk('fn', 'in', TRUE, t))
    k = fresh('k', 'int', 0)
    return not_(seq_exists(s, lambda x: not_(truth_of(x)),
                           lambda t: exists(not_(truth_of(index(t, k))),
                                            [(k, length(t))])))


def truth_of(x):
    if is_bool(x):
        return x
    if maybe_num(x) and x.op in ('num', 'poly'):
        return not_(eq0(x))
    return mk('fn', 'truthy', x)


# ------------------------------------------------------------------- attributes
PI_NAMES = {'math.pi', 'numpy.pi', 'scipy.pi', 'scipy.constants.pi', 'cmath.pi'}
EXT_ALIAS = {'np': 'numpy'}


def ext_attr(I, e, name):
    from .interp import py, Ext
    full = e.name + '.' + name
    if full in PI_NAMES:
        return PI
    if full in ('math.inf', 'numpy.inf'):
        return sym('inf', 'real', 10 ** 300)
    return py(Ext(full))


PIPE_METHODS = {'update_thermal_resistances',
                'effective_borehole_thermal_resistance',
                'local_borehole_thermal_resistance'}


def has_ext_method(extname, name):
    return extname.startswith('pygfunction.pipes.') and name in PIPE_METHODS


def array_attr(I, o, c, name, st):
    if name == 'size':
        return length(c.val)
    if name == 'shape':
        return lit([length(c.val)])
    if name == 'T':
        return I.newlist(st, mk('fn', 'nd', c.val, string('T')), 'array')
    if name == 'ndim':
        return mk('fn', 'ndim', c.val)
    if name == 'dtype':
        return NONE
    return None


# ------------------------------------------------------------------- builtins
def _num1(I, v, f, st):
    """apply a scalar function, elementwise over containers"""
    if I.is_container(v, st):
        return I.elementwise(lambda x: f(I.numval(x)), [v], st)
    return f(I.numval(v))


def fz(I, v, st):
    return I.freeze(v, st, None)


def call_builtin(I, name, args, kw, st, node):
    from .interp import (py, pyval, Builtin, Lst, Dct, Obj, Class, Ext, Func,
                         Method, Bound, Dead)
    h = I.cuts.get('builtins.' + name)
    if h is not None:
        return h(I, name, args, kw, st, node)
    if name in EXCEPTIONS:
        return mk('fn', 'exc', string(name))
    if name in ('len',):
        c = I.cell(args[0], st)
        if isinstance(c, Dct):
            if c.val.op == 'dict':
                return num(len(c.val.args) // 2)
            return mk('fn', 'card', c.val)
        if args[0].op == 'dict':
            return num(len(args[0].args) // 2)
        if isinstance(c, Obj):
            m = I.find_method(c, '__len__')
            if m is not None:
                return I.call_func(m, [args[0]], {}, st, node)
        if args[0].op == 'ite' and I._has_ref_or_py(args[0]):
            return I.on_alternatives(args[0], st, lambda x, s: call_builtin(
                I, 'len', [x], {}, s, node))
        return length(I.seqval(args[0], st))
    if name == 'range':
        a = [I.numval(x) for x in args]
        if len(a) == 1:
            return mk('fn', 'range', ZERO, a[0], ONE)
        if len(a) == 2:
            return mk('fn', 'range', a[0], a[1], ONE)
        return mk('fn', 'range', *a)
    if name == 'enumerate':
        s0 = args[1] if len(args) > 1 else kw.get('start', ZERO)
        return mk('fn', 'enumerate', args[0], s0)
    if name == 'zip':
        if len(args) == 1 and args[0].op == 'fn' and args[0].args[0] == 'star':
            return mk('fn', 'zipstar', args[0].args[1])
        if any(a.op == 'fn' and a.args[0] == 'star' for a in args):
            raise UNDEC('zip(*) of unknown length')
        return mk('fn', 'zip', *args)
    if name in ('map', 'filter'):
        return mk('fn', name, *args)
    if name == 'iter':
        return args[0]
    if name == 'reversed':
        return mk('fn', 'reversedit', args[0])
    if name in ('list', 'tuple'):
        if not args:
            return I.newlist(st, EMPTYSEQ) if name == 'list' else lit([])
        v = args[0]
        if v.op == 'fn' and v.args[0] == 'zipstar':
            return v
        if v.op == 'ite' and I._has_ref_or_py(v):
            return I.on_alternatives(v, st, lambda x, s: call_builtin(
                I, name, [x], kw, s, node))
        s = I.seqval(v, st)
        if s.op == 'fn' and s.args[0] == 'ditems':
            n, el = I.iterspec(s, st)
            s = _build(n, el)
        return I.newlist(st, s) if name == 'list' else s
    if name in ('set', 'frozenset'):
        return mk('fn', 'set', I.seqval(args[0], st) if args else EMPTYSEQ)
    if name == 'dict':
        d = EMPTYDICT
        if args:
            c = I.cell(args[0], st)
            if isinstance(c, Dct):
                d = c.val
            elif args[0].op == 'dict':
                d = args[0]
            else:
                s = I.seqval(args[0], st)
                if not (s.op == 'seq' and all(g.op == 'e' for g in s.args)):
                    raise UNDEC('dict() of an unknown sequence')
                for g in s.args:
                    p = I.seqval(g.args[0], st)
                    d = dstore(d, index(p, ZERO), index(p, ONE))
        for k, v in kw.items():
            d = dstore(d, string(k), v)
        return I.newdict(st, d)
    if name == 'sorted':
        s = I.seqval(args[0], st)
        rev = kw.get('reverse', FALSE)
        key = kw.get('key')
        return I.newlist(st, sort_term(I, s, key, rev, st))
    if name == 'sum':
        s = I.seqval(args[0], st)
        r = sumseq(s)
        if len(args) > 1:
            r = add(r, args[1])
        return r
    if name in ('max', 'min'):
        if 'key' in kw:
            s = I.seqval(args[0], st) if len(args) == 1 else lit(args)
            k = fresh('k', 'int', 0)
            kv = I.call(kw['key'], [index(s, k)], {}, st)
            return mk('fn', name + 'by', s, seqfor(length(s), k, lit([kv])))
        if len(args) == 1:
            s = I.seqval(args[0], st)
            r = maxseq(s) if name == 'max' else minseq(s)
            if 'default' in kw:
                return ite(gt0(length(s)), r, kw['default'])
            return r
        vs = [I.numval(a) for a in args]
        return fmax(*vs) if name == 'max' else fmin(*vs)
    if name == 'abs':
        return _num1(I, args[0], fabs, st)
    if name == 'format' and (len(args) < 2 or args[1].op == 'str'):
        return fmt(I, args[0], args[1].args[0] if args[1:] else '', st)
    if name == 'int':
        if not args:
            return ZERO
        x = to_number(args[0])
        if is_bool(x):
            return ite(x, ONE, ZERO)
        x = I.numval(x)
        return x if is_int(x) else trunc(x)
    if name == 'float':
        if not args:
            return ZERO
        if args[0].op == 'str' and args[0].args[0].lower() in (
                'inf', '+inf', 'infinity'):
            return sym('inf', 'real', 10 ** 300)
        if args[0].op == 'str' and args[0].args[0].lower() == '-inf':
            return neg(sym('inf', 'real', 10 ** 300))
        x = to_number(args[0])
        if is_bool(x):
            return ite(x, ONE, ZERO)
        return I.numval(x)
    if name == 'bool':
        return I.truth(args[0], st)
    if name == 'str':
        return tostr(I, args[0], st) if args else string('')
    if name == 'repr':
        c = I.cell(args[0], st)
        if isinstance(c, Obj):
            m = I.find_method(c, '__repr__')
            if m is not None:
                return I.call_func(m, [args[0]], {}, st, node)
        return tostr(I, args[0], st)
    if name == 'round':
        if len(args) > 1 or 'ndigits' in kw:
            d = args[1] if len(args) > 1 else kw['ndigits']
            return mk('fn', 'round', I.numval(args[0]), d)
        if is_int(args[0]):
            return args[0]
        if is_num(args[0]):
            return num(round(nval(args[0])))
        return mk('fn', 'round0', I.numval(args[0]))
    if name in ('any', 'all'):
        s = I.seqval(args[0], st)
        if not (s.op == 'seq'):
            raise UNDEC('%s() of an opaque sequence' % name)
        return seq_any(s, name == 'any')
    if name == 'print':
        I.log('print', 'print', [fz(I, a, st) for a in args], st, node)
        return NONE
    if name == 'isinstance':
        c = I.cell(args[0], st)
        ts = args[1]
        tl = [g.args[0] for g in ts.args] if ts.op == 'seq' else [ts]
        r = FALSE
        for t in tl:
            r = or_(r, isinst(I, args[0], c, pyval(t), st))
        return r
    if name == 'type':
        return type_of(I, args[0], st)
    if name == 'pow':
        return power(I.numval(args[0]), I.numval(args[1]))
    if name == 'divmod':
        q = floor(div(args[0], args[1]))
        return lit([q, mod(args[0], args[1])])
    if name == 'getattr' and len(args) >= 2 and args[1].op == 'str':
        from .interp import Undecided
        try:
            return I.getattr(args[0], args[1].args[0], st)
        except Undecided:
            if len(args) > 2:
                return args[2]
            raise
    if name == 'setattr' and args[1].op == 'str':
        I.setattr(args[0], args[1].args[0], args[2], st, node)
        return NONE
    if name == 'hasattr' and args[1].op == 'str':
        c = I.cell(args[0], st)
        if isinstance(c, Obj) and args[1].args[0] in c.attrs:
            return TRUE
        return mk('fn', 'is', string('hasattr'), fz(I, args[0], st), args[1])
    if name == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0]]
        if len(a) == 3 and a[2] is not NONE:
            raise UNDEC('strided slice object')
        return mk('fn', 'sliceobj', a[0], a[1])
    if name == 'callable':
        return TRUE if pyval(args[0]) is not None else \
            mk('fn', 'is', string('callable'), args[0])
    if name == 'next':
        s = I.seqval(args[0], st)
        if len(args) > 1:
            return ite(gt0(length(s)), index(s, ZERO), args[1])
        return index(s, ZERO)
    if name in ('object', 'property', 'staticmethod', 'classmethod'):
        return args[0] if args else fresh('object')
    I.log('ext', 'builtins.' + name, [fz(I, a, st) for a in args], st, node)
    return mk('fn', 'ext:' + name, *[fz(I, a, st) for a in args])


def sort_term(I, s, key, rev, st):
    if key is None or key is NONE:
        r = mk('fn', 'sorted', s)
        if s.op == 'fn' and s.args[0] == 'sorted':
            r = s
        if s.op == 'seq' and all(g.op == 'e' and is_num(g.args[0])
                                 for g in s.args):
            r = lit(sorted([g.args[0] for g in s.args], key=nval))
        elif s.op == 'seq' and len(s.args) <= 8 and \
                all(g.op == 'e' for g in s.args):
            v = [g.args[0] for g in s.args]
            n = len(v)
            for i in range(n):
                for j in range(n - 1 - i):
                    g = sgn(sub(v[j], v[j + 1])) if maybe_num(v[j]) and \
                        maybe_num(v[j + 1]) else None
                    if g in ('>0', '>=0'):
                        v[j], v[j + 1] = v[j + 1], v[j]
            if all(maybe_num(a) and maybe_num(b) and
                   sgn(sub(b, a)) in ('>0', '>=0', '0')
                   for a, b in zip(v, v[1:])):
                r = lit(v)
    else:
        kv = None
        f = lambda x: I.call(key, [x], {}, st)
        ks = zipmap(f, [(None, s)])
        if ks is None:
            k = fresh('k', 'int', 0)
            ks = seqfor(length(s), k, lit([f(index(s, k))]))
        # keying numbers by an order embedding of themselves
        if ks is s:
            return sort_term(I, s, None, rev, st)
        if s.op == 'seq' and ks.op == 'seq' and len(s.args) <= 16 and \
                len(s.args) == len(ks.args) and \
                all(g.op == 'e' for g in s.args + ks.args) and \
                all(is_num(g.args[0]) for g in ks.args):
            z = sorted(zip(ks.args, s.args), key=lambda p: nval(p[0].args[0]))
            r = mk('seq', *[p[1] for p in z])
        else:
            r = mk('fn', 'sortedby', s, ks)
    if rev is TRUE and r.op == 'seq' and all(g.op == 'e' for g in r.args):
        r = mk('seq', *reversed(r.args))
    elif rev is TRUE:
        r = mk('fn', 'sortedrev', r)
    elif rev is not FALSE:
        r = ite(I.truth(rev, st), mk('fn', 'sortedrev', r), r)
    return r


SEQFN.add('sortedrev')
BOOLFN.add('strtest')
# the Python type of numeric inputs that have a particular one
PYTYPE = {}
TYPENAMES = {'list', 'tuple', 'dict', 'int', 'float', 'str', 'bool', 'set'}


def type_of(I, v, st):
    from .interp import py, Builtin, Lst, Dct, Obj
    c = I.cell(v, st)
    if v.op == 'ite' and I._has_ref_or_py(v):
        return ite(v.args[0], type_of(I, v.args[1], st),
                   type_of(I, v.args[2], st))
    if isinstance(c, Lst):
        from .interp import Ext
        return py(Builtin('list')) if c.kind == 'list' else \
            py(Ext('numpy.ndarray'))
    if isinstance(c, Dct) or v.op == 'dict':
        return py(Builtin('dict'))
    if isinstance(c, Obj) and c.cls is not None:
        return py(c.cls)
    if v.op == 'seq':
        return py(Builtin('tuple'))
    if v.op == 'str':
        return py(Builtin('str'))
    if is_bool(v):
        return py(Builtin('bool'))
    if v.op == 'fn' and v.args[0] in STRFN:
        return py(Builtin('str'))
    if v.op == 'sym' and v.args[0] in PYTYPE:
        return py(Builtin(PYTYPE[v.args[0]]))
    return mk('fn', 'type', v)


def isinst(I, v, c, t, st):
    from .interp import Lst, Dct, Obj, Class, Builtin, Ext
    if isinstance(c, Obj) and isinstance(t, (Class, Ext)) and c.cls is not None:
        bases = c.cls.mro() if isinstance(c.cls, Class) else [c.cls]
        return TRUE if t in bases else FALSE
    if isinstance(t, Builtin):
        if isinstance(c, Lst):
            return TRUE if t.name == ('list' if c.kind == 'list' else '') \
                else FALSE
        if isinstance(c, Dct):
            return TRUE if t.name == 'dict' else FALSE
        if v.op == 'seq':
            return TRUE if t.name in ('tuple',) else FALSE
        if v.op == 'str' or v.op == 'fn' and v.args[0] in STRFN:
            return TRUE if t.name == 'str' else FALSE
        if v.op == 'none':
            return FALSE
        if v.op == 'sym' and v.args[0] in PYTYPE:
            return TRUE if t.name == PYTYPE[v.args[0]] else FALSE
    if isinstance(t, Ext) and v.op == 'sym' and v.args[0] in PYTYPE and \
            t.name in ('numbers.Number', 'numbers.Real'):
        return TRUE
    from .interp import py
    return mk('fn', 'isinstance', I.freeze(v, st, None),
              py(t) if t is not None else NONE)


# ------------------------------------------------------------------- deepcopy
def clone(I, v, st, memo, deep=True, top=True):
    from .interp import Lst, Dct, Obj
    if v.op == 'ite' and I._has_ref(v):
        return ite(v.args[0], clone(I, v.args[1], st, memo, deep, top),
                   clone(I, v.args[2], st, memo, deep, top))
    if v.op == 'seq' and I._has_ref(v) and deep:
        return seq([mk('e', clone(I, g.args[0], st, memo, deep, False))
                    if g.op == 'e' else g for g in v.args])
    c = I.cell(v, st)
    if c is None or (not deep and not top):
        return v
    if v in memo:
        return memo[v]
    if isinstance(c, Obj):
        if c.name is not None:
            # lazily shaped object: the copy shares the (immutable) symbolic
            # fields until they are written
            n = I.alloc(st, Obj(c.cls, {}, c.name))
        else:
            n = I.alloc(st, Obj(c.cls, {}))
        memo[v] = n
        d = {k: (x if x.op == 'py' and False else
                 clone(I, x, st, memo, deep, False) if isinstance(x, T) else x)
             for k, x in c.attrs.items()}
        st.heap[n.args[0]] = Obj(c.cls, d, c.name)
        return n
    if isinstance(c, Lst):
        n = I.alloc(st, Lst(c.val, c.kind))
        memo[v] = n
        if deep and I._has_ref(c.val):
            st.heap[n.args[0]] = Lst(clone(I, c.val, st, memo, deep, False),
                                     c.kind)
        return n
    if isinstance(c, Dct):
        val = c.val
        if deep and I._has_ref(val) and val.op == 'dict':
            val = dict_norm([(k, clone(I, x, st, memo, deep, False))
                             for k, x in dict_items(val)])
        n = I.alloc(st, Dct(val))
        memo[v] = n
        return n
    return v


# ------------------------------------------------------------------- externals
def _sin(x):
    return tm.fn('sin', x)


def _cos(x):
    return tm.fn('cos', x)


UNARY = {'floor': floor, 'ceil': ceil, 'sqrt': sqrt_, 'log': log_,
         'exp': exp_, 'abs': fabs, 'fabs': fabs, 'absolute': fabs,
         'sin': _sin, 'cos': _cos, 'trunc': trunc, 'fix': trunc,
         'square': lambda x: mul(x, x), 'negative': neg, 'rint':
         lambda x: mk('fn', 'round0', x), 'log10': lambda x: div(
             log_(x), log_(num(10))),
         'sign': lambda x: ite(gt0(x), ONE, ite(eq0(x), ZERO, num(-1))),
         'radians': lambda x: div(mul(x, PI), num(180)),
         'float64': lambda x: x, 'double': lambda x: x, 'float32': lambda x: x}
BINARY = {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div,
          'true_divide': div, 'power': power, 'pow': power, 'maximum': fmax,
          'minimum': fmin, 'fmod': mod, 'mod': mod, 'remainder': mod,
          'hypot': lambda a, b: sqrt_(add(mul(a, a), mul(b, b))),
          'floor_divide': lambda a, b: floor(div(a, b))}
NPCONST = {'numpy.float64', 'numpy.double', 'numpy.uint64', 'numpy.int64',
           'numpy.float32', 'numpy.int32'}


def as_seq_item(I, v, st):
    """array element/row value"""
    c = I.cell(v, st)
    from .interp import Lst
    if isinstance(c, Lst):
        return I.freeze(c.val, st, None)
    return v


def np_array(I, v, st):
    s = I.seqval(v, st) if (I.is_container(v, st) or v.op == 'fn') else None
    if s is None or not is_seq(s):
        return v
    if I._has_ref(s):
        s = I.freeze(s, st, None)
    return I.newlist(st, s, 'array')


def flat_parts(I, v, st):
    """segments of a tuple/list of arrays-or-scalars"""
    s = I.seqval(v, st)
    if s.op != 'seq':
        return s
    out = []
    for g in s.args:
        if g.op == 'e':
            x = g.args[0]
            if I.is_container(x, st):
                out += segs_of(I.seqval(x, st))
            else:
                out.append(elem(x))
        else:
            out.append(g)
    return seq(out)


def zeros(I, args, kw, st, fill):
    shp = args[0] if args else kw.get('shape')
    if shp.op == 'seq' or I.is_container(shp, st):
        s = I.seqval(shp, st)
        if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'e':
            shp = s.args[0].args[0]
        elif s.op == 'seq' and len(s.args) == 2:
            r, c = [g.args[0] for g in s.args]
            if is_num(r) and 0 < nval(r) <= 16:
                return I.newlist(st, lit([
                    I.newlist(st, repeat(lit([fill]), c), 'array')
                    for _ in range(int(nval(r)))]), 'grid')
            return I.newlist(st, mk('fn', 'zeros', r, c, fill), 'array')
        else:
            raise UNDEC('shape')
    return I.newlist(st, repeat(lit([fill]), shp), 'array')


SEQFN.add('zeros')
SEQFN.add('dgtsv')
SEQFN.add('nd')


def canon_ext(name):
    for a, b in (('scipy.interpolate.interpolate.', 'scipy.interpolate.'),
                 ('scipy.optimize.optimize.', 'scipy.optimize.'),
                 ('scipy.optimize.zeros.', 'scipy.optimize.'),
                 ('pygfunction.boreholes.', 'pygfunction.boreholes.')):
        if name.startswith(a):
            return b + name[len(a):]
    return name


def call_ext(I, name, args, kw, st, node):
    from .interp import (py, pyval, Lst, Dct, Obj, Class, Ext, Func, Bound,
                         Dead)
    name = canon_ext(name)
    h = I.cuts.get(name)
    if h is not None:
        return h(I, name, args, kw, st, node)
    mod_, _, f = name.rpartition('.')
    if mod_ in ('math', 'numpy', 'scipy', 'cmath'):
        if f in UNARY and len(args) == 1:
            return _num1(I, args[0], UNARY[f], st)
        if f == 'log' and len(args) == 2:
            return div(log_(I.numval(args[0])), log_(I.numval(args[1])))
        if f in BINARY and len(args) == 2:
            if I.is_container(args[0], st) or I.is_container(args[1], st):
                return I.elementwise(lambda a, b: BINARY[f](
                    I.numval(a), I.numval(b)), args, st)
            return BINARY[f](I.numval(args[0]), I.numval(args[1]))
        if mod_ == 'math' and f in ('isclose', 'fsum', 'isnan', 'isinf'):
            if f == 'fsum':
                return sumseq(I.seqval(args[0], st))
            return mk('fn', 'is', string(f), *[fz(I, a, st) for a in args],
                      *[v for _, v in sorted(kw.items())])
        if mod_ == 'math' and f in ('dist',):
            a, b = [I.seqval(x, st) for x in args]
            t = [sub(index(a, num(j)), index(b, num(j))) for j in (0, 1)]
            return sqrt_(add(mul(t[0], t[0]), mul(t[1], t[1])))
    if mod_ == 'os.path' and not kw and args and f in (
            'splitext', 'split', 'basename', 'dirname', 'join', 'normpath'):
        a = [fz(I, x, st) for x in args]
        if f in ('splitext', 'split'):
            return mk('seq', *[mk('e', mk('fn', 'strm', string(
                'os.path.%s.%d' % (f, j)), *a)) for j in (0, 1)])
        return mk('fn', 'strm', string('os.path.' + f), *a)
    if mod_ == 'numpy':
        r = call_numpy(I, f, args, kw, st, node)
        if r is not None:
            return r
    if mod_ == 'numpy.linalg' and f == 'norm' and len(args) == 1:
        s = I.seqval(args[0], st)
        if is_seq(s):
            z = zipmap(lambda x: mul(x, x), [(None, s)])
            if z is not None:
                return sqrt_(sumseq(z))
    if name in ('copy.deepcopy', 'copy.copy'):
        return clone(I, args[0], st, {}, f == 'deepcopy')
    if name == 'warnings.warn':
        I.log('warn', 'warnings.warn', [fz(I, a, st) for a in args[:1]], st,
              node)
        return NONE
    if name == 'calendar.monthrange':
        y, m = args[:2]
        if is_num(y) and is_num(m):
            w, d = calendar.monthrange(int(nval(y)), int(nval(m)))
            return lit([num(w), num(d)])
        return lit([mk('fn', 'weekday', y, m), mk('fn', 'monthlen', y, m)])
    if name == 'calendar.isleap' and is_num(args[0]):
        return TRUE if calendar.isleap(int(nval(args[0]))) else FALSE
    if name == 'scipy.interpolate.interp1d':
        a = list(args)
        names = ['x', 'y', 'kind', 'axis', 'copy', 'bounds_error',
                 'fill_value', 'assume_sorted']
        d = dict(zip(names, a))
        d.update(kw)
        x, y = I.seqval(d.pop('x'), st), I.seqval(d.pop('y'), st)
        d.setdefault('kind', string('linear'))
        opts = lit([lit([string(k), fz(I, v, st)])
                    for k, v in sorted(d.items())])
        x, y = fz(I, x, st), fz(I, y, st)
        if 'assume_sorted' not in d:
            x, y = paired(x, y)
        I.log('ext', name, [x, y, opts], st, node)
        return mk('fn', 'interp1d', x, y, opts)
    if name == 'scipy.linalg.lapack.dgtsv':
        d = dict(zip(['dl', 'd', 'du', 'b', 'overwrite_dl', 'overwrite_d',
                      'overwrite_du', 'overwrite_b'], args))
        d.update(kw)
        vs = [fz(I, d[k], st) for k in ('dl', 'd', 'du', 'b')]
        k = fresh('k', 'int', 0)
        out = [mk('fn', 'dgtsv', string(j), *vs)
               for j in ('du2', 'd', 'du', 'x')]
        out[3] = seqfor(length(vs[3]), k, lit([index(out[3], k)]))
        res = [I.newlist(st, v, 'array') for v in out]
        for k, j in (('overwrite_dl', 0), ('overwrite_d', 1),
                     ('overwrite_du', 2)):
            if d.get(k, ZERO) not in (ZERO, FALSE):
                raise UNDEC('dgtsv %s' % k)
        w = d.get('overwrite_b', ZERO)
        if w in (ONE, TRUE):
            if I.cell(d['b'], st) is None:
                raise UNDEC('dgtsv')
            I.check_views(d['b'], st)
            st.heap[d['b'].args[0]] = Lst(out[3], 'array')
            I.refresh_views(d['b'].args[0], st)
            res[3] = d['b']
        elif w not in (ZERO, FALSE):
            raise UNDEC('dgtsv')
        return I.newlist(st, lit(res + [mk('fn', 'dgtsv-info', *vs)]),
                         'tuple')
    if name == 'scipy.interpolate.lagrange':
        x, y = paired(*[fz(I, I.seqval(a, st), st) for a in args[:2]])
        return mk('fn', 'interp1d', x, y, lit([lit([string('kind'),
                                                    string('lagrange')])]))
    if name in ('scipy.optimize.brentq', 'scipy.optimize.bisect',
                'scipy.optimize.brenth', 'scipy.optimize.ridder'):
        return brent(I, name, args, kw, st, node)
    if mod_ == 'pygfunction.pipes' or name.startswith('pygfunction.pipes.'):
        r = call_pipes(I, name[len('pygfunction.pipes.'):], args, kw, st, node)
        if r is not None:
            return r
    if name == 'cv2.pointPolygonTest':
        return mk('fn', 'polytest', fz(I, args[0], st), fz(I, args[1], st))
    if name == 'functools.partial':
        raise UNDEC('partial')
    if name in ('itertools.chain',):
        return concat(*[I.seqval(a, st) for a in args])
    if name == 'itertools.chain.from_iterable':
        s = I.seqval(args[0], st)
        if s.op == 'seq' and all(g.op == 'e' for g in s.args):
            return concat(*[I.seqval(g.args[0], st) for g in s.args])
    if name == 'itertools.product' and len(args) == 2:
        n, e1 = I.iterspec(args[0], st)
        m, e2 = I.iterspec(args[1], st)
        k, j = fresh('k', 'int', 0), fresh('j', 'int', 0)
        return seqfor(n, k, seqfor(m, j, lit([lit([e1(k), e2(j)])])))
    if name == 'textwrap.TextWrapper':
        return fresh('wrapper', 'obj')
    fa = [fz(I, a, st) for a in args]
    fk = {k: fz(I, v, st) for k, v in kw.items()}
    r = mk('fn', 'ext:' + name, *(fa + [lit([string(k), fk[k]])
                                        for k in sorted(fk)]))
    I.log('ext', name, fa, st, node, r, fk)
    if mod_ in ('random', 'numpy.random', 'time', 'datetime', 'os', 'uuid',
                'secrets') or name.endswith(('.now', '.time')):
        return fresh('ext_' + f)
    return r


def call_numpy(I, f, args, kw, st, node):
    if f in ('array', 'asarray', 'asanyarray', 'atleast_1d', 'ascontiguousarray'):
        return np_array(I, args[0], st)
    if f in ('zeros', 'empty'):
        return zeros(I, args, kw, st, ZERO)
    if f == 'ones':
        return zeros(I, args, kw, st, ONE)
    if f == 'full':
        return zeros(I, args[:1], kw, st, args[1] if len(args) > 1
                     else kw['fill_value'])
    if f in ('zeros_like', 'empty_like', 'ones_like', 'full_like'):
        fill = ONE if f == 'ones_like' else (args[1] if f == 'full_like'
                                             else ZERO)
        return I.newlist(st, repeat(lit([fill]), length(I.seqval(
            args[0], st))), 'array')
    if f == 'append':
        a = lit([args[0]]) if is_num(args[0]) else I.seqval(args[0], st)
        b = I.seqval(args[1], st) if I.is_container(args[1], st) else \
            lit([args[1]])
        return I.newlist(st, concat(a, b), 'array')
    if f in ('hstack', 'concatenate', 'r_'):
        v = args[0]
        return I.newlist(st, flat_parts(I, v, st), 'array')
    if f == 'insert':
        a = I.seqval(args[0], st)
        b = I.seqval(args[2], st) if I.is_container(args[2], st) else \
            lit([args[2]])
        i = args[1]
        return I.newlist(st, concat(slice_(a, NONE, i) if i is not ZERO
                                    else EMPTYSEQ, b,
                                    slice_(a, i, NONE)), 'array')
    if f == 'arange':
        a = [I.numval(x) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = a + [ONE]
        n, el = I.iterspec(mk('fn', 'range', *a), st)
        return I.newlist(st, _build(n, el), 'array')
    if f == 'linspace':
        a, b = args[0], args[1]
        n = args[2] if len(args) > 2 else kw.get('num', num(50))
        k = fresh('k', 'int', 0)
        return I.newlist(st, seqfor(n, k, lit([add(a, mul(
            k, div(sub(b, a), sub(n, ONE))))])), 'array')
    if f in ('sum', 'nansum') and not kw and len(args) == 1:
        return sumseq(I.seqval(args[0], st))
    if f in ('max', 'amax', 'nanmax') and len(args) == 1:
        return maxseq(I.seqval(args[0], st))
    if f in ('min', 'amin', 'nanmin') and len(args) == 1:
        return minseq(I.seqval(args[0], st))
    if f in ('mean', 'average') and len(args) == 1 and not kw:
        s = I.seqval(args[0], st)
        return div(sumseq(s), length(s))
    if f in ('dot', 'inner', 'matmul', 'vdot') and len(args) == 2:
        return dot(I, args[0], args[1], st)
    if f == 'diff' and len(args) == 1 and not kw:
        s = I.seqval(args[0], st)
        a = I.newlist(st, slice_(s, ONE, NONE), 'array')
        b = I.newlist(st, slice_(s, NONE, num(-1)), 'array')
        return I.elementwise(lambda x, y: sub(x, y), [a, b], st)
    if f == 'where' and len(args) == 3:
        if any(I.is_container(a, st) for a in args):
            return I.elementwise(lambda c, a, b: ite(I.truth(c, st), a, b),
                                 args, st)
        return ite(I.truth(args[0], st), args[1], args[2])
    if f == 'size':
        return length(I.seqval(args[0], st))
    if f in ('any', 'all'):
        return seq_any(I.seqval(args[0], st), f == 'any')
    if f == 'tile' and len(args) == 2:
        return I.newlist(st, repeat(I.seqval(args[0], st), args[1]), 'array')
    if f == 'clip':
        return I.elementwise(lambda x, a, b: fmin(fmax(x, a), b), args[:3],
                             st) if I.is_container(args[0], st) else \
            fmin(fmax(args[0], args[1]), args[2])
    if f == 'flip' and len(args) == 1:
        return I.newlist(st, reverse(I.seqval(args[0], st)), 'array')
    if f in ('argmax', 'argmin'):
        s = I.seqval(args[0], st)
        return mk('fn', 'indexof', s, maxseq(s) if f == 'argmax'
                  else minseq(s))
    if f == 'round' and len(args) >= 1:
        return call_builtin(I, 'round', args, kw, st, node)
    if f in ('isclose', 'allclose', 'isnan', 'isinf'):
        return mk('fn', 'is', string(f), *[fz(I, a, st) for a in args])
    if f == 'copy':
        return clone(I, args[0], st, {}, True)
    if f == 'cumsum' and len(args) == 1:
        s = I.seqval(args[0], st)
        k, j = fresh('k', 'int', 0), fresh('j', 'int', 0)
        return I.newlist(st, seqfor(length(s), k, lit([bsum(
            add(k, ONE), j, index(s, j))])), 'array')
    if f in ('uint64', 'int64', 'int32', 'intp'):
        return trunc(I.numval(args[0]))
    return None


ROOTX = sym('root.x', 'real')


def brent(I, name, args, kw, st, node):
    """bracketing root finder: the closure is evaluated at both ends and at an
    arbitrary interior iterate; afterwards the heap is the one left by the last
    iterate, which need not be the root returned"""
    f, a, b = args[0], args[1], args[2]
    I.log('ext', name, [a, b], st, node, None,
          {k: fz(I, v, st) for k, v in kw.items()})
    I.call(f, [a], {}, st, node)
    I.call(f, [b], {}, st, node)
    s2 = st.fork()
    n0 = len(I.events)
    v = I.call(f, [ROOTX], {}, s2, node)
    del I.events[n0:]
    v = fz(I, v, s2)
    tol = []
    for k, worst in (('xtol', 1e-4), ('rtol', 1e-4)):
        t = kw.get(k)
        if t is not None and not (is_num(t) and 0 < nval(t) <= worst):
            tol += [string(k), fz(I, t, st)]
    t = kw.get('maxiter')
    if t is not None and not (is_num(t) and nval(t) >= 20):
        tol += [string('maxiter'), fz(I, t, st)]
    r = mk('fn', 'brentq', v, a, b, *tol)
    last = mk('fn', 'brentlast', v, a, b, *tol)
    if sgn(a) in ('>0',) and sgn(b) in ('>0',):
        FNSIGN['brentq'] = FNSIGN['brentlast'] = '>0'
    I.call(f, [last], {}, st, node)
    return r


# ------------------------------------------------------------------- pygfunction
def ext_token(I, o, st):
    c = st.heap[o.args[0]]
    b = I.cell(c.attrs['b'], st)
    if b is None:
        raise UNDEC('borehole')
    H = I.getattr(c.attrs['b'], 'H', st)
    rb = I.getattr(c.attrs['b'], 'r_b', st)
    parts = [fz(I, I.getattr(o, n, st), st) for n in (
        'pos', 'r_in', 'r_out', 'k_s', 'k_g', 'nPipes', 'config_', 'R_ff_',
        'R_fp')]
    return mk('fn', 'Rd', rb, H, *parts)


def call_pipes(I, f, args, kw, st, node):
    if f in ('SingleUTube.__init__', 'MultipleUTube.__init__',
             'Coaxial.__init__'):
        self_ = args[0]
        sig = {'SingleUTube': ['pos', 'r_in', 'r_out', 'borehole', 'k_s',
                               'k_g', 'R_fp', 'J', 'reversible'],
               'MultipleUTube': ['pos', 'r_in', 'r_out', 'borehole', 'k_s',
                                 'k_g', 'R_fp', 'nPipes', 'config', 'J'],
               'Coaxial': ['pos', 'r_in', 'r_out', 'borehole', 'k_s', 'k_g',
                           'R_ff', 'R_fp', 'J']}[f.split('.')[0]]
        d = dict(zip(sig, args[1:]))
        d.update(kw)
        at = {'pos': d['pos'], 'r_in': d['r_in'], 'r_out': d['r_out'],
              'b': d['borehole'], 'k_s': d['k_s'], 'k_g': d['k_g'],
              'R_fp': d['R_fp'], 'nPipes': d.get('nPipes', ONE),
              'config_': d.get('config', NONE), 'R_ff_': d.get('R_ff', NONE)}
        if 'config' in d:
            at['config'] = d['config']
        if 'R_ff' in d:
            at['R_ff'] = d['R_ff']
        for k, v in at.items():
            I.setattr(self_, k, v, st, node)
        I.setattr(self_, '_ext', ext_token(I, self_, st), st, node)
        I.log('ext', 'pygfunction.pipes.' + f,
              [fz(I, a, st) for a in args[1:]], st, node)
        return NONE
    if f in ('convective_heat_transfer_coefficient_concentric_annulus',):
        fa = [fz(I, a, st) for a in args] + [v for _, v in sorted(kw.items())]
        I.log('ext', 'pygfunction.pipes.' + f, fa, st, node)
        return lit([mk('fn', 'h_annulus_in', *fa), mk('fn', 'h_annulus_out',
                                                      *fa)])
    if f == 'convective_heat_transfer_coefficient_circular_pipe':
        names = ['m_flow_pipe', 'r_in', 'mu_f', 'rho_f', 'k_f', 'cp_f',
                 'epsilon']
        d = dict(zip(names, args))
        d.update(kw)
        fa = [fz(I, d[n], st) for n in names]
        I.log('ext', 'pygfunction.pipes.' + f, fa, st, node)
        return mk('fn', 'h_circular', *fa)
    if f == 'conduction_thermal_resistance_circular_pipe':
        names = ['r_in', 'r_out', 'k']
        d = dict(zip(names, args))
        d.update(kw)
        return mk('fn', 'R_cond', *[fz(I, d[n], st) for n in names])
    return None


for _n in ('h_circular', 'R_cond', 'h_annulus_in', 'h_annulus_out', 'Rbstar'):
    NUMFN.add(_n)
    FNSIGN[_n] = '>0'


# ------------------------------------------------------------------- methods
def call_method(I, o, name, args, kw, st, node):
    from .interp import Lst, Dct, Obj, Class, Ext, py, pyval, Dead
    if name in ('__repr__', '__str__') and not args and not kw:
        return tostr(I, o, st)
    c = I.cell(o, st)
    if isinstance(c, Obj):
        if has_ext_obj(c):
            if name == 'update_thermal_resistances':
                names = ['R_fp'] if len(args) + len(kw) == 1 else \
                    ['R_ff', 'R_fp']
                d = dict(zip(names, args))
                d.update(kw)
                for k, v in d.items():
                    I.setattr(o, k, v, st, node)
                    if k == 'R_ff':
                        I.setattr(o, 'R_ff_', v, st, node)
                I.setattr(o, '_ext', ext_token(I, o, st), st, node)
                I.log('extcall', name, [fz(I, a, st) for a in args], st, node)
                return NONE
            if name == 'effective_borehole_thermal_resistance':
                tok = I.getattr(o, '_ext', st)
                a = [fz(I, x, st) for x in args] + [v for _, v in
                                                    sorted(kw.items())]
                return mk('fn', 'Rbstar', tok, *a)
        fa = [fz(I, a, st) for a in args]
        I.log('extcall', name, [o] + fa, st, node)
        return mk('fn', 'm:' + name, fz(I, o, st), *fa)
    if isinstance(c, Lst):
        return list_method(I, o, c, name, args, kw, st, node)
    if isinstance(c, Dct) or o.op == 'dict':
        return dict_method(I, o, c, name, args, kw, st, node)
    if o.op == 'str' or (o.op == 'fn' and o.args[0] in STRFN):
        return str_method(I, o, name, args, kw, st)
    if is_seq(o):
        if name in ('index', 'count', 'copy', 'tolist'):
            from .interp import Lst as L
            return list_method(I, o, L(o, 'list'), name, args, kw, st, node)
        raise UNDEC('method %s on a frozen sequence' % name)
    if name in ('tolist', 'item') and maybe_num(o):
        return o
    if name == 'split' and args and args[0].op == 'str':
        return I.newlist(st, mk('fn', 'split', o, args[0]))
    if name in ('endswith', 'startswith') and len(args) == 1 and not kw:
        return mk('fn', 'strtest', string(name), fz(I, o, st),
                  fz(I, args[0], st))
    if name in STRONLY and not kw:
        return mk('fn', 'strm', string(name), fz(I, o, st),
                  *[fz(I, a, st) for a in args])
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear',
                'sort', 'reverse', 'update', 'setdefault', 'popitem'):
        raise UNDEC('mutation of an opaque value')
    if not args and not kw and name in ('keys', 'values', 'items') and \
            o.op in ('sym', 'bv', 'fn', 'proj', 'ite'):
        return {'keys': dkeys, 'values': dvals,
                'items': lambda d: mk('fn', 'ditems', d)}[name](o)
    fa = [fz(I, a, st) for a in args]
    nm = o
    I.log('extcall', name, [o] + fa, st, node)
    return mk('fn', 'm:' + name, fz(I, nm, st), *fa)


def has_ext_obj(c):
    from .interp import Class, Ext
    bases = c.cls.mro() if isinstance(c.cls, Class) else [c.cls]
    return any(isinstance(b, Ext) and b.name.startswith('pygfunction.pipes.')
               for b in bases)


def list_method(I, o, c, name, args, kw, st, node):
    from .interp import Lst
    rid = o.args[0] if o.op == 'ref' else None

    def put(v):
        if rid is None:
            raise UNDEC('mutation of a value')
        st.heap[rid] = Lst(v, c.kind)
        return NONE
    s = c.val
    if name == 'append':
        r = put(concat(s, lit([args[0]])))
        if I.trace_attrs:
            I.log('setitem', 'append', [o, args[0]], st, node)
        return r
    if name == 'extend':
        return put(concat(s, I.seqval(args[0], st)))
    if name == 'insert':
        i = args[0]
        if i is ZERO:
            return put(concat(lit([args[1]]), s))
        return put(concat(slice_(s, NONE, i), lit([args[1]]),
                          slice_(s, i, NONE)))
    if name == 'pop':
        if not args:
            v = index(s, num(-1))
            put(slice_(s, NONE, num(-1)))
            return v
        i = args[0]
        v = index(s, i)
        if i is ZERO:
            put(slice_(s, ONE, NONE))
        elif is_num(i) and nval(i) == -1:
            put(slice_(s, NONE, num(-1)))
        else:
            put(concat(slice_(s, NONE, i), slice_(s, add(i, ONE), NONE)))
        return v
    if name == 'index':
        sf = fz(I, s, st)
        if len(args) == 1:
            return mk('fn', 'indexof', sf, fz(I, args[0], st))
    if name == 'count':
        return mk('fn', 'count', fz(I, s, st), fz(I, args[0], st))
    if name in ('copy', 'flatten', 'ravel'):
        return I.newlist(st, s, c.kind)
    if name == 'astype':
        return I.newlist(st, s, c.kind)
    if name == 'tolist':
        return I.newlist(st, s, 'list')
    if name == 'clear':
        return put(EMPTYSEQ)
    if name == 'reverse':
        return put(reverse(s))
    if name == 'sort':
        return put(sort_term(I, s, kw.get('key'), kw.get('reverse', FALSE),
                             st))
    if name == 'dot':
        return dot(I, o, args[0], st)
    if name == 'sum' and not args and not kw:
        return sumseq(s)
    if name == 'max' and not args:
        return maxseq(s)
    if name == 'min' and not args:
        return minseq(s)
    if name == 'mean' and not args:
        return div(sumseq(s), length(s))
    if name in ('argmax', 'argmin'):
        return mk('fn', 'indexof', s, maxseq(s) if name == 'argmax'
                  else minseq(s))
    if name == 'cumsum':
        return call_numpy(I, 'cumsum', [o], {}, st, node)
    if name == 'fill':
        return put(repeat(lit([args[0]]), length(s)))
    if name == 'remove':
        return put(mk('fn', 'removed', s, fz(I, args[0], st)))
    if name == 'item' and not args:
        return index(s, ZERO)
    raise UNDEC('list method %s' % name)


SEQFN.add('removed')


def dict_method(I, o, c, name, args, kw, st, node):
    from .interp import Dct
    d = c.val if c is not None else o
    if name == 'keys':
        return dkeys(d)
    if name == 'values':
        return dvals(d)
    if name == 'items':
        return mk('fn', 'ditems', d)
    if name == 'get':
        df = args[1] if len(args) > 1 else NONE
        if d.op == 'dict':
            r = df
            for k, v in reversed(dict_items(d)):
                r = ite(eq(args[0], k), v, r)
            return r
        return ite(mk('fn', 'in', args[0], d), dget(d, args[0]), df)
    if name == 'copy':
        return I.newdict(st, d)
    if name == 'clear':
        st.heap[o.args[0]] = Dct(EMPTYDICT)
        return NONE
    if name == 'update':
        nd = d
        if args:
            oc = I.cell(args[0], st)
            ov = oc.val if isinstance(oc, Dct) else args[0]
            if ov.op != 'dict':
                raise UNDEC('update from an opaque dict')
            for k, v in dict_items(ov):
                nd = dstore(nd, k, v)
        for k, v in kw.items():
            nd = dstore(nd, string(k), v)
        st.heap[o.args[0]] = Dct(nd)
        return NONE
    if name == 'setdefault':
        cur = dict_method(I, o, c, 'get', [args[0], NONE], {}, st, node)
        if cur is not NONE and d.op == 'dict' and all(
                eq(args[0], k) in (TRUE, FALSE) for k, _ in dict_items(d)):
            return cur
        v = args[1] if len(args) > 1 else NONE
        if cur is NONE:
            st.heap[o.args[0]] = Dct(dstore(d, args[0], v))
            return v
    if name == 'pop' and d.op == 'dict':
        items = dict_items(d)
        for k, v in items:
            if eq(k, args[0]) is TRUE:
                st.heap[o.args[0]] = Dct(dict_norm(
                    [(a, b) for a, b in items if a is not k]))
                return v
    raise UNDEC('dict method %s' % name)


STRONLY = {'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase',
           'strip', 'lstrip', 'rstrip', 'removesuffix', 'removeprefix',
           'replace'}


def str_method(I, o, name, args, kw, st):
    if name == 'format':
        return str_format(I, o, args, kw, st)
    if name == 'split' and len(args) == 1 and args[0].op == 'str':
        return I.newlist(st, str_split(o, args[0].args[0]))
    if name == 'join' and args:
        s = I.seqval(args[0], st)
        if s.op == 'seq' and all(g.op == 'e' for g in s.args):
            parts = []
            for k, g in enumerate(s.args):
                if k:
                    parts.append(o)
                parts.append(g.args[0])
            return strcat(parts)
        return mk('fn', 'strm', string('join'), o, fz(I, s, st))
    if o.op == 'str' and all(a.op == 'str' or is_num(a) for a in args) and \
            name in ('lower', 'upper', 'strip', 'startswith', 'endswith',
                     'replace', 'ljust', 'rjust', 'center', 'zfill', 'title',
                     'lstrip', 'rstrip'):
        r = getattr(o.args[0], name)(*[a.args[0] if a.op == 'str' else
                                       int(nval(a)) for a in args])
        if isinstance(r, bool):
            return TRUE if r else FALSE
        return string(r)
    return mk('fn', 'strm', string(name), o, *[fz(I, a, st) for a in args])


def reapply(f, *args):
    """a bound function variable replaced by an interpolant"""
    if len(args) == 1 and f.op == 'fn' and f.args[0] == 'interp1d':
        return mk('fn', 'interp', *(f.args[1:4] + args))
    if len(args) == 1 and f.op == 'ite' and f.size < 3000:
        return ite(f.args[0], reapply(f.args[1], *args),
                   reapply(f.args[2], *args))
    return mk('fn', 'apply', f, *args)


REBUILD['apply'] = reapply


def paired(x, y):
    """an interpolant does not depend on the order of its points"""
    if x.op == y.op == 'seq' and len(x.args) == len(y.args) and \
            all(g.op == 'e' for g in x.args + y.args):
        z = sorted(zip(x.args, y.args), key=lambda p: p[0].id)
        return mk('seq', *[a for a, b in z]), mk('seq', *[b for a, b in z])
    return x, y


def call_opaque(I, f, args, kw, st, node):
    if f.op == 'ite' and all(x.op in ('fn', 'ite', 'none') for x in f.args[1:]):
        # a stored choice of two functions: interpolants have no effects
        return ite(f.args[0], call_opaque(I, f.args[1], args, kw, st, node)
                   if f.args[1] is not NONE else NONE,
                   call_opaque(I, f.args[2], args, kw, st, node)
                   if f.args[2] is not NONE else NONE)
    if f.op == 'fn' and f.args[0] == 'interp1d':
        x, y, opts = f.args[1:4]
        v = args[0]
        g = lambda t: mk('fn', 'interp', x, y, opts, I.numval(t))
        if I.is_container(v, st):
            return I.elementwise(g, [v], st)
        return g(v)
    if f.op == 'fn' and f.args[0] in ('index', 'dget') or f.op in (
            'sym', 'bv', 'fn', 'proj'):
        fa = [fz(I, a, st) for a in args]
        g = fz(I, f, st)
        I.log('ext', 'opaque', [g] + fa, st, node, None,
              {k: fz(I, v, st) for k, v in kw.items()})
        if len(args) == 1 and I.is_container(args[0], st):
            return I.elementwise(lambda t: mk('fn', 'apply', g, t), [args[0]],
                                 st)
        return mk('fn', 'apply', g, *(fa + [lit([string(k), fz(I, v, st)])
                                            for k, v in sorted(kw.items())]))
    raise UNDEC('call of %s' % f.op)


NUMFN.add('apply')
