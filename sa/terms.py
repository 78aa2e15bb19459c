"""Value-number terms for the static analysis.

Every abstract value the analysis manipulates is a hash-consed term ``T``.
Arithmetic is kept in a canonical Laurent-polynomial form over atoms with exact
rational coefficients, conditions are kept as sign conditions on polynomials,
sequences as concatenations of elements / comprehensions, and loops whose closed
form is not known as fold terms with locally-nameless bound variables.  Two
program fragments that compute the same value by re-associated, renamed, inlined
or re-ordered code therefore normally get the same term.
"""
from fractions import Fraction
from math import gcd
import hashlib
import itertools
import sys

sys.setrecursionlimit(20000)

_table = {}
_fresh = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'key', 'bh', 'id', 'syms', 'poly_', 'size')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError('terms are not picklable')


_ids = itertools.count(1)
EMPTY = frozenset()


def mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, T) else ('#', type(a).__name__, a)
                      for a in args)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    bh = 0
    syms = EMPTY
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    size = 1
    for a in args:
        if isinstance(a, T):
            if a.bh > bh:
                bh = a.bh
            if a.syms:
                syms = syms | a.syms if syms else a.syms
            h.update(b'(' + a.key.encode() + b')')
            size += a.size
        else:
            h.update(('|%s:%r' % (type(a).__name__, a)).encode('utf8', 'replace'))
    if op in ('bsum', 'bfor', 'bloop', 'bmap'):
        bh += 1
    t.bh = bh
    t.size = size
    t.key = h.hexdigest()
    t.id = next(_ids)
    t.poly_ = None
    if op in ('sym', 'bv', 'py', 'ref'):
        syms = frozenset([t])
    t.syms = syms
    _table[k] = t
    return t


# --------------------------------------------------------------------------
# symbols
SYMINFO = {}
CURRENT = {}        # the symbols of the obligation at hand, by name


def sym(name, kind='real', lo=None, strict=False, hi=None):
    """kind: real int bool str seq obj any.  lo: numeric lower bound."""
    t = CURRENT.get(name)
    if t is None:
        # what an earlier obligation assumed of a name does not carry over
        info = dict(kind=kind, lo=lo, strict=strict, hi=hi)
        t = mk('sym', name)
        if SYMINFO.setdefault(t, info) != info:
            t = mk('sym', name, repr(sorted(info.items(), key=str)))
            SYMINFO[t] = info
        CURRENT[name] = t
    return t


def fresh(base, kind='any', lo=None, strict=False):
    return sym('%s~%d' % (base, next(_fresh)), kind, lo, strict)


def bv(level, j, kind):
    t = mk('bv', level, j, kind)
    if t not in SYMINFO:
        if kind == 'idx':
            SYMINFO[t] = dict(kind='int', lo=0, strict=False, hi=None)
        else:
            SYMINFO[t] = dict(kind=kind, lo=None, strict=False, hi=None)
    return t


def num(x):
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('const', repr(x))
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


ZERO = num(0)
ONE = num(1)
TRUE = mk('true')
FALSE = mk('false')
NONE = mk('none')
PI = sym('pi', 'real', 3, True)


def string(s):
    return mk('str', s)


def is_num(t):
    return t.op == 'num'


def nval(t):
    return t.args[0]


# --------------------------------------------------------------------------
# kinds
INTFN = {'floor', 'len', 'trunc', 'indexof', 'card', 'count', 'round0', 'ntruth'}


def is_int(t):
    o = t.op
    if o == 'num':
        return t.args[0].denominator == 1
    if o in ('sym', 'bv'):
        return SYMINFO[t]['kind'] == 'int'
    if o == 'fn':
        n = t.args[0]
        if n in INTFN:
            return True
        if n in ('max',):
            return all(is_int(a) for a in t.args[1:])
        return n in FNINT
    if o == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if o == 'poly':
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e.denominator != 1 or e < 0 or not is_int(a):
                    return False
        return True
    if o == 'bsum':
        return is_int(t.args[-1])
    return False


FNINT = set()

NONNUM = {'str', 'none', 'true', 'false', 'seq', 'ref', 'py', 'dict', 'obj',
          'gt0', 'ge0', 'eq0', 'eq', 'and', 'or', 'not', 'const'}


def is_bool(t):
    return t.op in ('true', 'false', 'gt0', 'ge0', 'eq0', 'eq', 'and', 'or',
                    'not') or (t.op in ('sym', 'bv') and
                               SYMINFO[t]['kind'] == 'bool') or \
        (t.op == 'ite' and is_bool(t.args[1]) and is_bool(t.args[2])) or \
        (t.op == 'fn' and t.args[0] in BOOLFN)


BOOLFN = {'isinstance', 'in', 'is'}


def is_seq(t):
    o = t.op
    if o == 'seq':
        return True
    if o in ('sym', 'bv'):
        return SYMINFO[t]['kind'] == 'seq'
    if o == 'ite':
        return is_seq(t.args[1]) and is_seq(t.args[2])
    if o == 'fn':
        return t.args[0] in SEQFN
    if o == 'proj':
        return t.args[2] == 'seq'
    return False


SEQFN = {'slice', 'store', 'sorted', 'dkeys', 'dvals', 'ditems', 'tail',
         'reversed', 'storeslice', 'repeat', 'sortedby'}


def maybe_num(t):
    return t.op not in NONNUM and not is_seq(t)


# --------------------------------------------------------------------------
# polynomials:  dict  mono -> Fraction;   mono = tuple of (atom, exp)
def poly_of(t):
    p = t.poly_
    if p is None:
        if t.op == 'num':
            p = {(): t.args[0]} if t.args[0] else {}
        elif t.op == 'poly':
            p = dict(t.args[0])
        elif t.op == 'true':
            p = {(): Fraction(1)}
        elif t.op == 'false':
            p = {}
        else:
            p = {((t, Fraction(1)),): Fraction(1)}
        t.poly_ = p
    return p


def mono_key(m):
    return tuple((a.key, e) for a, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: mono_key(mc[0])))
    # hash-cons through a flat key
    k = ('poly',) + tuple((tuple((a.id, e) for a, e in m), c) for m, c in items)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = 'poly'
    t.args = (items,)
    bh = 0
    syms = EMPTY
    h = hashlib.blake2b(digest_size=12)
    h.update(b'poly')
    size = 1
    for m, c in items:
        h.update(str(c).encode())
        for a, e in m:
            h.update(('%s^%s' % (a.key, e)).encode())
            bh = max(bh, a.bh)
            size += a.size
            if a.syms:
                syms = syms | a.syms
    t.bh = bh
    t.syms = syms
    t.size = size
    t.key = h.hexdigest()
    t.id = next(_ids)
    t.poly_ = dict(items)
    _table[k] = t
    return t


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e),
                        key=lambda xe: xe[0].key))


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_lead(p):
    return max(p, key=mono_key)


def p_exact_div(p, q):
    """p / q if q divides p exactly (Laurent, bounded), else None."""
    if not q:
        return None
    lq = p_lead(q)
    cq = q[lq]
    inv = tuple((a, -e) for a, e in lq)
    r = dict(p)
    out = {}
    steps = 2 * len(p) + 4
    while r:
        steps -= 1
        if steps < 0:
            return None
        lm = p_lead(r)
        m = mono_mul(lm, inv)
        c = r[lm] / cq
        out[m] = out.get(m, 0) + c
        r = p_add(r, p_mul({m: c}, q), -1)
    return out


def _grps(p):
    s = []
    for m in p:
        for a, e in m:
            if a.op == 'grp' and a not in s:
                s.append(a)
    return s


def p_norm(p):
    """cancel grp(q)^-k against polynomial multiples of q; expand grp^+k."""
    gs = _grps(p)
    if not gs:
        return p
    again = True
    while again:
        again = False
        for g in gs:
            q = poly_of(g.args[0])
            exps = {}
            for m, c in p.items():
                e = dict(m).get(g, Fraction(0))
                exps.setdefault(e, {})[mono_mul(m, ((g, -e),)) if e else m] = c
            pos = [e for e in exps if e > 0 and e.denominator == 1]
            if pos:
                r = {}
                for e, part in exps.items():
                    if e in pos:
                        qq = part
                        for _ in range(int(e)):
                            qq = p_mul(qq, q)
                        r = p_add(r, qq)
                    else:
                        r = p_add(r, p_mul(part, {((g, e),): Fraction(1)})
                                  if e else part)
                p = r
                again = True
                break
            for e in sorted(x for x in exps if x < 0):
                part = exps[e]
                if len(part) < 2:
                    continue
                d = p_exact_div(part, q)
                if d is not None and len(d) <= len(part):
                    rest = p_add(p, p_mul(part, {((g, e),): Fraction(1)}), -1)
                    ne = e + 1
                    add_ = p_mul(d, {((g, ne),): Fraction(1)}) if ne else d
                    p = p_add(rest, add_)
                    again = True
                    break
            if again:
                break
        gs = _grps(p)
    return p


def add(*ts):
    r = {}
    for t in ts:
        r = p_add(r, poly_of(t))
    return from_poly(p_norm(r))


def sub(a, b):
    return from_poly(p_norm(p_add(poly_of(a), poly_of(b), -1)))


def neg(a):
    return from_poly({m: -c for m, c in poly_of(a).items()})


def mul(a, b):
    if is_num(a) and not nval(a):
        return ZERO
    if is_num(b) and not nval(b):
        return ZERO
    # distribute constants / simple terms over ite
    r = p_mul(poly_of(a), poly_of(b))
    return from_poly(p_norm(p_sqrt(p_sign(r))))


def p_sign(p):
    """|x| * x^-1 -> 1 if x > 0 else -1  (x = 0 divides by zero anyway)"""
    for m in p:
        if len(m) < 2:
            continue
        for a, e in m:
            if abs(e) >= 1 and a.op == 'fn' and a.args[0] == 'max':
                of = _abs_of(a)
                w = 1 if e > 0 else -1
                for x, ex in m:
                    if ex * w <= -1 and x in of:
                        d = dict(m)
                        d[a] -= w
                        d[x] += w
                        base = tuple((y, d[y]) for y, _ in m if d[y])
                        rest = {k: v for k, v in p.items() if k != m}
                        sg = ite(gt0(x), ONE, num(-1))
                        return p_sign(p_add(rest, p_mul({base: p[m]},
                                                        poly_of(sg))))
    return p


def _abs_of(a):
    """the x for which max(...) is |x|"""
    if len(a.args) == 3 and a.args[1] is neg(a.args[2]):
        return (a.args[1], a.args[2])
    for g in a.args[1:]:
        if g.op == 'poly' and len(g.args[0]) == 1:
            rest = [x for x in a.args[1:] if x is not g]
            if neg(g) is mk('fn', 'max', *rest):
                return (neg(g), g)
    return ()


def p_sqrt(p):
    """sqrt atoms with exponent >=2 expand: fn(sqrt,x)^2 -> x."""
    for m in p:
        for a, e in m:
            if a.op == 'fn' and a.args[0] == 'sqrt' and (e >= 2 or e <= -2):
                r = {}
                for m2, c in p.items():
                    d = dict(m2)
                    cur = {(): c}
                    for a2, e2 in list(d.items()):
                        if a2.op == 'fn' and a2.args[0] == 'sqrt' and \
                                (e2 >= 2 or e2 <= -2) and e2.denominator == 1:
                            k = abs(int(e2)) // 2
                            sgn_ = 1 if e2 > 0 else -1
                            d[a2] = e2 - sgn_ * 2 * k
                            f = poly_of(a2.args[1]) if sgn_ > 0 else \
                                poly_of(inv(a2.args[1]))
                            for _ in range(k):
                                cur = p_mul(cur, f)
                    base = tuple(sorted(((x, e) for x, e in d.items() if e),
                                        key=lambda xe: xe[0].key))
                    r = p_add(r, p_mul(cur, {base: Fraction(1)}))
                return r
    return p


def content(p):
    """(c, mono, q): p = c * mono * q with q primitive integer, no common atom."""
    ms = list(p)
    g = 0
    l = 1
    for c in p.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    c = Fraction(g, l)
    com = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(com):
            if a not in d:
                # common factor exponent is min(e,0)
                com[a] = min(com[a], Fraction(0))
            else:
                com[a] = min(com[a], d[a])
        for a in d:
            if a not in com and d[a] < 0:
                com[a] = d[a]
    com = {a: e for a, e in com.items() if e}
    mono = tuple(sorted(com.items(), key=lambda xe: xe[0].key))
    invm = tuple((a, -e) for a, e in mono)
    q = {mono_mul(m, invm): v / c for m, v in p.items()}
    return c, mono, q


def inv(t):
    p = poly_of(t)
    if not p:
        return mk('fn', 'div0')
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    c, mono, q = content(p)
    if q[p_lead(q)] < 0:
        c = -c
        q = {m: -v for m, v in q.items()}
    if len(q) == 1:
        g = inv(from_poly(q))
        gp = poly_of(g)
    else:
        g = mk('grp', from_poly(q))
        gp = {((g, Fraction(-1)),): Fraction(1)}
    im = tuple((a, -e) for a, e in mono)
    return from_poly(p_mul({im: 1 / c}, gp))


def div(a, b):
    if is_num(b) and nval(b) == 0:
        return mk('fn', 'div0', a)
    pa, pb = poly_of(a), poly_of(b)
    if len(pb) > 1 and pa:
        d = p_exact_div(pa, pb)
        if d is not None and len(d) <= len(pa):
            return from_poly(p_norm(d))
    return mul(a, inv(b))


def power(a, b):
    if is_num(b):
        e = nval(b)
        if e.denominator == 1:
            e = int(e)
            if abs(e) <= 8:
                r = ONE
                base = a if e >= 0 else inv(a)
                for _ in range(abs(e)):
                    r = mul(r, base)
                return r
        elif e == Fraction(1, 2):
            return fn('sqrt', a)
    return mk('fn', 'pow', a, b)


# --------------------------------------------------------------------------
# sign analysis
def sgn(t, depth=0):
    """one of '>0','>=0','<0','<=0','0',None"""
    if depth > 8:
        return None
    o = t.op
    if o == 'num':
        v = t.args[0]
        return '0' if v == 0 else ('>0' if v > 0 else '<0')
    if o in ('sym', 'bv'):
        i = SYMINFO[t]
        lo = i['lo']
        if lo is not None:
            if lo > 0 or (lo == 0 and i['strict']):
                return '>0'
            if lo == 0:
                return '>=0'
        hi = i.get('hi')
        if hi is not None and hi < 0:
            return '<0'
        return None
    if o == 'fn':
        n = t.args[0]
        if n in ('len', 'card'):
            return '>=0'
        if n == 'exp':
            return '>0'
        if n == 'sqrt':
            s = sgn(t.args[1], depth + 1)
            return s if s in ('>0', '0') else '>=0'
        if n == 'max':
            ss = [sgn(a, depth + 1) for a in t.args[1:]]
            if '>0' in ss:
                return '>0'
            if '>=0' in ss or '0' in ss:
                return '>=0'
            if all(s == '<0' for s in ss):
                return '<0'
            if all(s in ('<0', '<=0', '0') for s in ss):
                return '<=0'
            return None
        if n == 'floor':
            s = sgn(t.args[1], depth + 1)
            if s in ('>0', '>=0', '0'):
                return '>=0'
            if s == '<0':
                return '<0'
            if s == '<=0':
                return '<=0'
            return None
        return FNSIGN.get(n)
    if o == 'ite':
        a, b = sgn(t.args[1], depth + 1), sgn(t.args[2], depth + 1)
        if a == b:
            return a
        s = {a, b}
        if s <= {'>0', '>=0', '0'}:
            return '>=0'
        if s <= {'<0', '<=0', '0'}:
            return '<=0'
        return None
    if o == 'grp':
        return sgn(t.args[0], depth + 1)
    if o == 'bsum':
        s = sgn(t.args[-1], depth + 1)
        if s in ('>0', '>=0', '0'):
            return '>=0'
        if s in ('<0', '<=0'):
            return '<=0'
        return None
    if o == 'poly':
        res = None
        # lower-bound substitution: x = lo + x', x' >= 0
        p = poly_of(t)
        r = _sgn_poly(p, depth)
        if r is not None:
            return r
        q = _shift_lo(p)
        if q is not None:
            return _sgn_poly(q, depth)
        return None
    return None


FNSIGN = {}


def _sgn_poly(p, depth):
    res = '0'
    for m, c in p.items():
        s = '>0' if c > 0 else '<0'
        for a, e in m:
            if e.denominator == 1 and e.numerator % 2 == 0:
                sa = sgn(a, depth + 1)
                if sa in ('>0', '<0'):
                    sa = '>0'
                elif sa == '0':
                    sa = '0'
                else:
                    sa = '>=0' if e > 0 else '>0'
            else:
                sa = sgn(a, depth + 1)
                if sa is None:
                    return None
                if e < 0:
                    # a division by zero is out of scope: 1/a has a's strict sign
                    sa = {'>=0': '>0', '<=0': '<0'}.get(sa, sa)
            s = _smul(s, sa)
        res = _sadd(res, s)
        if res is None:
            return None
    return res


_H = {}


def _shift_lo(p):
    sub_ = {}
    for m in p:
        for a, e in m:
            if a.op in ('sym', 'bv') and a not in sub_:
                lo = SYMINFO[a]['lo']
                if lo is not None and lo != 0:
                    if e < 0 or e.denominator != 1:
                        continue
                    h = _H.get(a)
                    if h is None:
                        h = fresh('h', SYMINFO[a]['kind'], 0,
                                  SYMINFO[a]['strict'])
                        _H[a] = h
                    sub_[a] = {((h, Fraction(1)),): Fraction(1),
                               (): Fraction(lo)}
    if not sub_:
        return None
    r = {}
    for m, c in p.items():
        cur = {(): c}
        for a, e in m:
            if a in sub_ and e > 0 and e.denominator == 1:
                for _ in range(int(e)):
                    cur = p_mul(cur, sub_[a])
            else:
                cur = p_mul(cur, {((a, e),): Fraction(1)})
        r = p_add(r, cur)
    return r


def _smul(a, b):
    if a == '0' or b == '0':
        return '0'
    if a is None or b is None:
        return None
    negs = (a[0] == '<') != (b[0] == '<')
    strict = '=' not in a and '=' not in b
    return ('<' if negs else '>') + ('0' if strict else '=0')


def _sadd(a, b):
    if a == '0':
        return b
    if b == '0':
        return a
    if a is None or b is None or a[0] != b[0]:
        return None
    strict = '=' not in a or '=' not in b
    return a[0] + ('0' if strict else '=0')


# --------------------------------------------------------------------------
# conditions
def _prim(p, signed=False):
    """divide by positive content and by positive atoms; returns poly dict."""
    c, mono, q = content(p)
    keep = []
    for a, e in mono:
        s = sgn(a)
        if e.denominator == 1 and e.numerator % 2 == 0 and e < 0:
            continue            # even negative power: strictly positive
        if s == '>0':
            continue
        if e < 0 and s == '>=0':
            continue
        if e < 0 and s in ('<0', '<=0'):
            q = {m: -v for m, v in q.items()}
            continue
        keep.append((a, e))
    if keep:
        q = p_mul(q, {tuple(keep): Fraction(1)})
    q = p_norm(q)
    return q


def ge0(t):
    return _cmp0('ge0', t)


def gt0(t):
    return _cmp0('gt0', t)


def _cmp0(op, t):
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        if maybe_num(a) and maybe_num(b) and t.size < 4000:
            return ite(t.args[0], _cmp0(op, a), _cmp0(op, b))
    if t.op == 'num':
        v = t.args[0]
        return TRUE if (v > 0 or (v == 0 and op == 'ge0')) else FALSE
    if t.op in NONNUM:
        return mk('fn', op, t)
    s = sgn(t)
    if s == '>0' or (s in ('>=0', '0') and op == 'ge0'):
        return TRUE
    if s == '<0' or (s in ('<=0', '0') and op == 'gt0'):
        return FALSE
    p = _prim(poly_of(t))
    u = from_poly(p)
    # max(a,b)+r >= 0
    if is_int(u):
        if op == 'gt0':
            return ge0(sub(u, ONE))
        # tighten constant
        cst = p.get((), Fraction(0))
        g = 0
        for m, c in p.items():
            if m:
                g = gcd(g, int(c))
        if g > 1:
            p2 = {m: c / g for m, c in p.items() if m}
            k = Fraction((cst / g).__floor__())
            if k:
                p2[()] = k
            u = from_poly(p2)
        # canonical orientation: represent as ge0 with lead>0 or not(ge0)
        lead = p_lead({m: c for m, c in poly_of(u).items() if m})
        if poly_of(u)[lead] < 0:
            return mk('not', mk('ge0', sub(neg(u), ONE)))
        return mk('ge0', u)
    nz = {m: c for m, c in p.items() if m}
    lead = p_lead(nz)
    if p[lead] < 0:
        # p >= 0  <=>  not (-p > 0)
        return mk('not', mk('gt0' if op == 'ge0' else 'ge0', neg(u)))
    return mk(op, u)


def eq0(t):
    if t.op == 'num':
        return TRUE if t.args[0] == 0 else FALSE
    if t.op == 'ite' and t.size < 4000:
        return ite(t.args[0], eq0(t.args[1]), eq0(t.args[2]))
    s = sgn(t)
    if s in ('>0', '<0'):
        return FALSE
    p = _prim(poly_of(t))
    if not p:
        return TRUE
    if is_int(from_poly({m: c for m, c in p.items() if m})) and \
            p.get((), Fraction(0)).denominator != 1:
        return FALSE
    nz = {m: c for m, c in p.items() if m}
    if nz and p[p_lead(nz)] < 0:
        p = {m: -c for m, c in p.items()}
    return mk('eq0', from_poly(p))


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return ge0(sub(b, a))


CONSTLIKE = ('num', 'str', 'none', 'true', 'false')


def eq(a, b):
    """== on arbitrary values"""
    if a is b:
        return TRUE
    if a.op == 'ite' and a.size < 2000:
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and b.size < 2000:
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op in CONSTLIKE and b.op in CONSTLIKE:
        va, vb = pyconst(a), pyconst(b)
        return TRUE if va == vb else FALSE
    if a.op == 'none' or b.op == 'none':
        o = b if a.op == 'none' else a
        if o.op in ('poly', 'seq', 'ref', 'py', 'dict', 'obj', 'num') or \
                is_bool(o):
            return FALSE
        if o.op in ('sym', 'bv') and SYMINFO[o]['kind'] in \
                ('int', 'real', 'bool', 'seq', 'obj', 'str'):
            return FALSE
        if o.op == 'fn' and (o.args[0] in INTFN or o.args[0] in SEQFN or
                             o.args[0] in NUMFN):
            return FALSE
        return mk('eq', *sorted((a, b), key=lambda t: t.key))
    if a.op == 'str' or b.op == 'str':
        o = b if a.op == 'str' else a
        if o.op in ('poly', 'seq', 'ref', 'py', 'dict', 'num') or is_bool(o):
            return FALSE
        v = (a if a.op == 'str' else b).args[0]
        if o.op == 'fn' and o.args[0] == 'str' and len(o.args) == 2 and \
                v.lstrip('-').isdigit() and str(int(v)) == v and \
                is_int(o.args[1]):
            # the decimal digits of an integer
            return eq0(sub(o.args[1], num(int(v))))
        return mk('eq', *sorted((a, b), key=lambda t: t.key))
    if a.op == 'fn' and b.op == 'fn' and a.args[0] == 'strcat' and \
            b.args[0] == 'strcat' and differ(a, b):
        return FALSE
    if is_seq(a) or is_seq(b):
        if a.op == 'seq' and b.op == 'seq':
            sa, sb = a.args, b.args
            if all(s.op == 'e' for s in sa) and all(s.op == 'e' for s in sb):
                if len(sa) != len(sb):
                    return FALSE
                return and_(*[eq(x.args[0], y.args[0])
                              for x, y in zip(sa, sb)])
        return mk('eq', *sorted((a, b), key=lambda t: t.key))
    if a.op in ('ref', 'py', 'obj') or b.op in ('ref', 'py', 'obj'):
        if a.op == b.op and a.op in ('ref', 'py'):
            return FALSE
        return mk('eq', *sorted((a, b), key=lambda t: t.key))
    if is_bool(a) and is_bool(b):
        return ite(a, b, not_(b))
    return eq0(sub(a, b))


def differ(a, b):
    """strings of numbers between separators no number contains"""
    if len(a.args) != len(b.args):
        return False
    odd = False
    for x, y in zip(a.args[1:], b.args[1:]):
        if x.op == 'str' or y.op == 'str':
            if x is not y or x.args[0][:1] in '0123456789.+-einfa' or \
                    x.args[0][-1:] in '0123456789.+-einfa':
                return False
        elif not (x.op == 'fn' and y.op == 'fn' and x.args[0] == 'str' and
                  y.args[0] == 'str' and maybe_num(x.args[1]) and
                  maybe_num(y.args[1])):
            return False
        elif is_num(x.args[1]) and is_num(y.args[1]) and x is not y:
            odd = True
    return odd


NUMFN = {'floor', 'len', 'trunc', 'max', 'log', 'exp', 'sqrt', 'sin', 'cos',
         'indexof', 'maxseq', 'minseq', 'round', 'pow'}


def pyconst(t):
    o = t.op
    if o == 'num':
        return t.args[0]
    if o == 'str':
        return t.args[0]
    if o == 'none':
        return None
    return o == 'true'


def not_(c):
    o = c.op
    if o == 'true':
        return FALSE
    if o == 'false':
        return TRUE
    if o == 'not':
        return c.args[0]
    if o == 'and':
        return or_(*[not_(a) for a in c.args])
    if o == 'or':
        return and_(*[not_(a) for a in c.args])
    if o == 'ite':
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c.op == 'and':
            out.extend(c.args)
        else:
            out.append(c)
    res = []
    for c in out:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in res:
            continue
        res.append(c)
    for c in res:
        if not_atom(c) in res:
            return FALSE
    # flatten nested: a and (a or b) = a
    res2 = []
    for c in res:
        if c.op == 'or' and any(d in res for d in c.args):
            continue
        if c.op == 'or':
            ds = [d for d in c.args if not_(d) not in res]
            if len(ds) != len(c.args):
                c = or_(*ds)
                if c is FALSE:
                    return FALSE
                if c in res2:
                    continue
        res2.append(c)
    # bounds subsumption among ge0/gt0
    res2 = _subsume(res2)
    if res2 is None:
        return FALSE
    if not res2:
        return TRUE
    if len(res2) == 1:
        return res2[0]
    return mk('and', *sorted(res2, key=lambda t: t.key))


def not_atom(c):
    return c.args[0] if c.op == 'not' else mk('not', c)


def as_ineq(c):
    """c as (poly-without-const dict, const, strict) meaning p + k >(=) 0."""
    n = False
    if c.op == 'not':
        n = True
        c = c.args[0]
    if c.op not in ('gt0', 'ge0'):
        return None
    p = dict(poly_of(c.args[0]))
    strict = c.op == 'gt0'
    if n:
        p = {m: -v for m, v in p.items()}
        strict = not strict
    k = p.pop((), Fraction(0))
    return p, k, strict


def _lin_key(p):
    return tuple(sorted(((mono_key(m), c) for m, c in p.items())))


def _subsume(cs):
    best = {}
    others = []
    for c in cs:
        q = as_ineq(c)
        if q is None:
            others.append(c)
            continue
        p, k, s = q
        lk = _lin_key(p)
        if lk in best:
            p0, k0, s0, c0 = best[lk]
            if k < k0 or (k == k0 and s and not s0):
                best[lk] = (p, k, s, c)
        else:
            best[lk] = (p, k, s, c)
    # (in)equations against the bounds
    keep = []
    for c in others:
        n = c.op == 'not'
        e = c.args[0] if n else c
        if e.op != 'eq0':
            keep.append(c)
            continue
        qp = dict(poly_of(e.args[0]))
        qc = qp.pop((), Fraction(0))
        drop = False
        for sg in (1, -1):
            lk = _lin_key({m: sg * v for m, v in qp.items()})
            b = best.get(lk)
            if b is None:
                continue
            p, k, s, c0 = b
            d = k - sg * qc
            if n:
                if d < 0 or (d == 0 and s):
                    drop = True
                elif d == 0:
                    t = dict(p)
                    if k:
                        t[()] = k
                    c2 = gt0(from_poly(t))
                    q2 = as_ineq(c2)
                    if q2 is not None and _lin_key(q2[0]) == lk:
                        best[lk] = q2 + (c2,)
                        drop = True
            else:
                if d < 0 or (d == 0 and s):
                    return None
                del best[lk]
        if not drop:
            keep.append(c)
    others = keep
    # contradictions p+k>=0 and -p+k2>=0 with k+k2<0
    for lk, (p, k, s, c) in best.items():
        np_ = {m: -v for m, v in p.items()}
        o = best.get(_lin_key(np_))
        if o is not None:
            tot = k + o[1]
            if tot < 0 or (tot == 0 and (s or o[2])):
                return None
    return others + [v[3] for v in best.values()]


def or_(*cs):
    out = []
    for c in cs:
        if c.op == 'or':
            out.extend(c.args)
        else:
            out.append(c)
    res = []
    for c in out:
        if c is TRUE:
            return TRUE
        if c is FALSE or c in res:
            continue
        res.append(c)
    for c in res:
        if not_(c) in res:
            return TRUE
    res2 = []
    for c in res:
        if c.op == 'and' and any(d in res for d in c.args):
            continue
        if c.op == 'and':
            ds = [d for d in c.args if not_(d) not in res]
            if len(ds) != len(c.args):
                c = and_(*ds)
                if c is TRUE:
                    return TRUE
                if c in res2:
                    continue
        res2.append(c)
    # via de-morgan subsumption
    plain = [c for c in res2 if as_ineq(c) is not None or c.op == 'eq0' or
             (c.op == 'not' and c.args[0].op == 'eq0')]
    s = _subsume([not_(c) for c in plain])
    if s is None:
        return TRUE
    res2 = [c for c in res2 if c not in plain] + [not_(c) for c in s]
    if not res2:
        return FALSE
    if len(res2) == 1:
        return res2[0]
    return mk('or', *sorted(res2, key=lambda t: t.key))


def implied(c, facts):
    """True/False/None value of condition c given a list of facts."""
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c in facts:
        return True
    n = not_(c)
    if n in facts:
        return False
    if c.op == 'and':
        vs = [implied(a, facts) for a in c.args]
        if all(v is True for v in vs):
            return True
        if any(v is False for v in vs):
            return False
        for f in facts:
            if f.op == 'or' and all(not_(d) in c.args for d in f.args):
                return False
        return None
    if c.op == 'or':
        vs = [implied(a, facts) for a in c.args]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        for f in facts:
            if f.op == 'or' and all(d in c.args for d in f.args):
                return True
        return None
    q = as_ineq(c)
    if q is not None:
        p, k, s = q
        for f in facts:
            g = as_ineq(f)
            if g is None:
                if f.op == 'eq0':
                    # p0 == 0
                    fp = dict(poly_of(f.args[0]))
                    fk = fp.pop((), Fraction(0))
                    if fp == p:
                        v = k - fk
                        return v > 0 or (v == 0 and not s)
                    if {m: -x for m, x in fp.items()} == p:
                        v = k + fk
                        return v > 0 or (v == 0 and not s)
                continue
            gp, gk, gs = g
            if gp == p:
                if k > gk or (k == gk and (gs or not s)):
                    return True
            if {m: -v for m, v in gp.items()} == p:
                # know -p + gk >(=) 0 i.e. p <= gk ; c: p > -k
                tot = k + gk
                if tot < 0 or (tot == 0 and (s or gs)):
                    return False
        if len(p) <= 4:
            for f in facts:
                g = as_ineq(f)
                if g is None:
                    continue
                gp, gk, gs = g
                if len(gp) > 4:
                    continue
                if any(m in p and p[m] * v > 0 for m, v in gp.items()):
                    r = p_add(p, gp, -1)
                    t = dict(r)
                    t[()] = k - gk
                    w = sgn(from_poly({m: v for m, v in t.items() if v}))
                    if w == '>0' or (w in ('>=0', '0') and (gs or not s)):
                        return True
                if any(m in p and p[m] * v < 0 for m, v in gp.items()):
                    r = p_add(p, gp)
                    t = dict(r)
                    t[()] = k + gk
                    w = sgn(from_poly({m: v for m, v in t.items() if v}))
                    if w == '<0' or (w in ('<=0', '0') and (s or gs)):
                        return False
    if c.op == 'eq0':
        p = dict(poly_of(c.args[0]))
        k = p.pop((), Fraction(0))
        np_ = {m: -v for m, v in p.items()}
        for f in facts:
            g = as_ineq(f)
            if g is None:
                continue
            gp, gk, gs = g
            # gp + gk >= 0; eq: p = -k
            if gp == p and (gk - k < 0 or (gk == k and gs)):
                return False
            if gp == np_ and (gk + k < 0 or (gk + k == 0 and gs)):
                return False
    if c.op == 'eq' and c.args:
        # x == 'a' false when x == 'b' known
        for f in facts:
            if f.op == 'eq':
                s1 = [a for a in c.args if a.op in CONSTLIKE]
                s2 = [a for a in f.args if a.op in CONSTLIKE]
                o1 = [a for a in c.args if a.op not in CONSTLIKE]
                o2 = [a for a in f.args if a.op not in CONSTLIKE]
                if s1 and s2 and o1 == o2 and s1 != s2:
                    return False
    return None


def flat_facts(c):
    if c.op == 'and':
        r = []
        for a in c.args:
            r.extend(flat_facts(a))
        return r
    if c is TRUE:
        return []
    if c.op == 'not' and c.args[0].op == 'eq0':
        x = c.args[0].args[0]
        w = sgn(x)
        if w == '>=0':
            return [c, gt0(x)]
        if w == '<=0':
            return [c, gt0(neg(x))]
    return [c]


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite':
        if c.args[1] in (TRUE, FALSE) or c.args[2] in (TRUE, FALSE):
            c2 = or_(and_(c.args[0], c.args[1]),
                     and_(not_(c.args[0]), c.args[2]))
            if c2.op != 'ite':
                return ite(c2, a, b)
    # bool results
    if a not in (TRUE, FALSE) and is_bool(a) and a.size < 300:
        a = simp(a, flat_facts(c))
    if b not in (TRUE, FALSE) and is_bool(b) and b.size < 300:
        b = simp(b, flat_facts(not_(c)))
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    # nested same condition
    fc = flat_facts(c)
    if a.op == 'ite':
        v = implied(a.args[0], fc)
        if v is not None:
            return ite(c, a.args[1] if v else a.args[2], b)
    if b.op == 'ite':
        v = implied(b.args[0], flat_facts(not_(c)))
        if v is not None:
            return ite(c, a, b.args[1] if v else b.args[2])
    # merge  ite(c,x,ite(d,x,y)) -> ite(c or d,x,y)
    if b.op == 'ite':
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == 'ite':
        if a.args[1] is b:
            return ite(and_(c, not_(a.args[0])), a.args[2], b)
        if a.args[2] is b:
            return ite(and_(c, a.args[0]), a.args[1], b)
    if (a.op == 'seq' or b.op == 'seq') and is_seq(a) and is_seq(b):
        return seq_join(c, a, b)
    # max/min recognition
    if c.op in ('ge0', 'gt0') and maybe_num(a) and maybe_num(b) and \
            a.size < 400 and b.size < 400:
        d = poly_of(sub(a, b))
        p = poly_of(c.args[0])
        if d and len(d) == len(p) and set(d) == set(p):
            m0 = next(iter(p))
            k = d[m0] / p[m0]
            if all(d[m] == k * p[m] for m in p):
                if k > 0:
                    return fmax(a, b)
                return neg(fmax(neg(a), neg(b)))
    if c.op == 'eq0' and maybe_num(a) and maybe_num(b) and a.size < 300 and \
            b.size < 300:
        # x==k ? f(k) : f(x)
        if b.op in ('sym', 'bv') and is_num(a) and \
                c is eq0(sub(b, a)):
            return b
    if c.op in ('eq0', 'and') and a.size < 200 and b.size < 200 and \
            maybe_num(a) and maybe_num(b):
        # the general case already gives the special value
        for f in fc:
            m = _solved(f) if f.op == 'eq0' else None
            if m and (next(iter(m)).syms & (a.syms | b.syms)) and \
                    subst(a, m) is subst(b, m):
                return b
    if c.op == 'eq0' and is_num(a) and b.op == 'poly' and is_int(b) and \
            c is eq0(b):
        # i % n or n  is  (i - 1) % n + 1
        fl = [t for m, k in b.args[0] for t, e in m
              if t.op == 'fn' and t.args[0] == 'floor']
        for t in fl:
            i = add(b, mul(a, t))
            if is_int(i) and floor(div(i, a)) is t:
                return sub(add(i, a), mul(a, floor(div(sub(add(i, a), ONE),
                                                       a))))
    # canonical: positive-form conditions; 'or' kept
    if c.op == 'or' and all(x.op == 'not' for x in c.args):
        return ite(not_(c), b, a)
    return mk('ite', c, a, b)


def _solved(f):
    """an equation solved for one of its atoms"""
    p = poly_of(f.args[0])
    if len(p) > 3:
        return None
    for mono, k in p.items():
        if len(mono) == 1 and mono[0][1] == 1:
            v = mono[0][0]
            rest = {m: c for m, c in p.items() if m != mono}
            if any(t is v for m in rest for t, e in m):
                continue
            return {v: div(neg(from_poly(rest)), num(k)) if rest else ZERO}
    return None


def fmax(*ts):
    out = []
    n = None
    for t in ts:
        if t.op == 'fn' and t.args[0] == 'max':
            args = t.args[1:]
        else:
            args = (t,)
        for a in args:
            if is_num(a):
                n = a if n is None or nval(a) > nval(n) else n
            elif a not in out:
                out.append(a)
    if n is not None:
        out.append(n)
    # drop dominated
    keep = []
    for i, a in enumerate(out):
        dom = False
        for j, b in enumerate(out):
            if i == j:
                continue
            s = sgn(sub(b, a))
            if s == '>0' or (s in ('>=0', '0') and (j < i or s == '>=0' and
                                                    sgn(sub(a, b)) not in
                                                    ('>=0', '0'))):
                dom = True
                break
        if not dom:
            keep.append(a)
    if not keep:
        keep = out[:1]
    if len(keep) == 1:
        return keep[0]
    return mk('fn', 'max', *sorted(keep, key=lambda t: t.key))


def fmin(*ts):
    return neg(fmax(*[neg(t) for t in ts]))


# --------------------------------------------------------------------------
# functions
def floor(t):
    if is_int(t):
        return t
    if t.op == 'num':
        return num(t.args[0].__floor__())
    if t.op == 'ite':
        return ite(t.args[0], floor(t.args[1]), floor(t.args[2]))
    p = poly_of(t)
    ip, rest = {}, {}
    for m, c in p.items():
        if not m:
            f = Fraction(c.__floor__())
            if f:
                ip[m] = f
            if c - f:
                rest[m] = c - f
        elif c.denominator == 1 and is_int(from_poly({m: c})):
            ip[m] = c
        else:
            rest[m] = c
    if not ip:
        return mk('fn', 'floor', t)
    r = from_poly(rest)
    if r.op == 'num':
        return add(from_poly(ip), num(r.args[0].__floor__()))
    return add(from_poly(ip), mk('fn', 'floor', r))


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    if is_int(t):
        return t
    if t.op == 'num':
        return num(int(t.args[0]))
    if t.op == 'ite':
        return ite(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    if sgn(t) in ('>0', '>=0', '0'):
        return floor(t)
    s = unit_sign(t)
    return mk('fn', 'trunc', t) if s is None else s


def unit_sign(t):
    """x / |x| as a selection"""
    if t.op != 'poly':
        return None
    for a, e in t.args[0][0][0]:
        if e == -1 and a.op == 'fn' and a.args[0] == 'max' and \
                len(a.args) == 3 and a.args[1] is neg(a.args[2]):
            q = mul(t, a)
            for x in a.args[1:]:
                if q is x:
                    return ite(gt0(x), ONE, ite(gt0(neg(x)), num(-1), ZERO))
    return None


def fabs(t):
    if not maybe_num(t):
        return mk('fn', 'abs', t)
    s = sgn(t)
    if s in ('>0', '>=0', '0'):
        return t
    if s in ('<0', '<=0'):
        return neg(t)
    return fmax(t, neg(t))


def mod(a, b):
    if is_num(a) and is_num(b) and nval(b):
        return num(nval(a) % nval(b))
    return sub(a, mul(b, floor(div(a, b))))


def log_(t):
    if t is ONE:
        return ZERO
    if t.op == 'fn' and t.args[0] == 'exp':
        return t.args[1]
    p = poly_of(t)
    if len(p) == 1:
        (m, c), = p.items()
        # log(c*prod a^e) = log c + sum e log a  (positive atoms assumed when
        # more than one atom or a power is present)
        if m and (len(m) > 1 or m[0][1] != 1 or c != 1) and c > 0:
            r = ZERO if c == 1 else mk('fn', 'log', num(c))
            if c < 1 and c != 1:
                r = neg(mk('fn', 'log', num(1 / c)))
            for a, e in m:
                if a.op == 'grp':
                    b = a.args[0]
                else:
                    b = a
                r = add(r, mul(num(e), mk('fn', 'log', b)
                               if not (b.op == 'fn' and b.args[0] == 'exp')
                               else b.args[1]))
            return r
        if not m and c < 1:
            return neg(mk('fn', 'log', num(1 / c)))
    elif len(p) > 1:
        c, mono, q = content(p)
        if mono or c != 1:
            qq = from_poly(q)
            r = mk('fn', 'log', qq)
            if c != 1:
                r = add(r, log_(num(c)))
            for a, e in mono:
                b = a.args[0] if a.op == 'grp' else a
                r = add(r, mul(num(e), mk('fn', 'log', b)))
            return r
    return mk('fn', 'log', t)


def sqrt_(t):
    p = poly_of(t)
    if not p:
        return ZERO
    if t.op == 'num':
        v = t.args[0]
        if v > 0:
            from math import isqrt
            a, b = v.numerator, v.denominator
            if isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
                return num(Fraction(isqrt(a), isqrt(b)))
            # canonical: sqrt(n/d) = sqrt(n*d)/d
            if b != 1:
                return mul(num(Fraction(1, b)), mk('fn', 'sqrt', num(a * b)))
        return mk('fn', 'sqrt', t)
    c, mono, q = content(p)
    outer = ONE
    inner = {}
    for a, e in mono:
        k = None
        if e.denominator == 1 and sgn(a) in ('>0', '>=0'):
            k = int(e) // 2
        if k:
            outer = mul(outer, power(a.args[0] if a.op == 'grp' else a, num(k)))
            e = e - 2 * k
        if e:
            inner[a] = e
    im = tuple(sorted(inner.items(), key=lambda xe: xe[0].key))
    rest = from_poly(p_mul({im: Fraction(1)}, q))
    cs = sqrt_(num(c)) if c > 0 else ONE
    if c <= 0:
        rest = mul(num(c), rest)
    if rest is ONE:
        return mul(outer, cs)
    return mul(mul(outer, cs), mk('fn', 'sqrt', rest))


def fn(name, *args):
    """interpreted constructors first, otherwise an uninterpreted application"""
    h = FNCON.get(name)
    if h is not None:
        return h(*args)
    return mk('fn', name, *args)


def _odd(name, sgnflip):
    def f(t):
        if t is ZERO:
            return ZERO if sgnflip else ONE
        return mk('fn', name, t)
    return f


def exp_(t):
    if t is ZERO:
        return ONE
    if t.op == 'fn' and t.args[0] == 'log':
        return t.args[1]
    return mk('fn', 'exp', t)


FNCON = {'floor': floor, 'ceil': ceil, 'trunc': trunc, 'abs': fabs,
         'log': log_, 'sqrt': sqrt_, 'exp': exp_, 'max': fmax, 'min': fmin,
         'sin': _odd('sin', True), 'cos': _odd('cos', False)}


# --------------------------------------------------------------------------
# sequences.  op 'seq', args = segments: e(t)  bfor(n, level, seq)  g(cond,seq)
# s(t) opaque splice
def seq(segs):
    out = []
    for s in segs:
        if s.op == 's':
            u = s.args[0]
            if u.op == 'seq':
                out.extend(u.args)
                continue
        elif s.op == 'g':
            c, b = s.args
            if c is TRUE:
                out.extend(b.args)
                continue
            if c is FALSE or (b.op == 'seq' and not b.args):
                continue
            if b.op == 'seq' and any(x.op == 'g' for x in b.args):
                out.extend(flat_guard(c, b.args))
                continue
        elif s.op == 'bfor':
            if s.args[0].op == 'num':
                n = int(s.args[0].args[0])
                if n <= 0:
                    continue
                if n == 1:
                    lv = s.args[1]
                    out.extend(subst(s.args[2], {bv(lv, 0, 'idx'): ZERO}).args)
                    continue
            b = s.args[2]
            if not b.args:
                continue
            if s.args[0].op == 'num' and len(b.args) == 1 and \
                    b.args[0].op == 'e' and s.args[0].args[0] <= 64 and \
                    bv(s.args[1], 0, 'idx') not in b.syms:
                out.extend(list(b.args) * int(s.args[0].args[0]))
                continue
            # for k<n: [x] * ... constant handled elsewhere
            # for k < len(u): [u[k]]  ==  u
            if len(b.args) == 1 and b.args[0].op == 'e':
                e = b.args[0].args[0]
                if e.op == 'fn' and e.args[0] == 'index' and \
                        e.args[2] is bv(s.args[1], 0, 'idx') and \
                        bv(s.args[1], 0, 'idx') not in e.args[1].syms and \
                        s.args[0] is length(e.args[1]):
                    u = e.args[1]
                    if u.op == 'seq':
                        out.extend(u.args)
                    else:
                        out.append(mk('s', u))
                    continue
        out.append(s)
    if len(out) == 1 and out[0].op == 's' and is_seq(out[0].args[0]):
        return out[0].args[0]
    return mk('seq', *out)


EMPTYSEQ = mk('seq')


def flat_guard(c, segs):
    """nested conditional parts of a sequence as a flat list of them"""
    out, plain = [], []
    for x in list(segs) + [None]:
        if x is not None and x.op != 'g':
            plain.append(x)
            continue
        if plain:
            out.append(mk('g', c, mk('seq', *plain)))
            plain = []
        if x is not None:
            c2 = and_(c, x.args[0])
            if c2 is not FALSE:
                out.append(mk('g', c2, x.args[1]))
    return out


def elem(t):
    return mk('e', t)


def lit(ts):
    return seq([elem(t) for t in ts])


def segs_of(t):
    if t.op == 'seq':
        return list(t.args)
    if t.op == 'num':
        return [elem(t)]
    return [mk('s', t)]


def concat(*ts):
    r = []
    for t in ts:
        r.extend(segs_of(t))
    return seq(r)


def bfor(n, var, body):
    """for var<n splice body(var); body a seq term; var a free symbol"""
    if n.op == 'num' and nval(n) <= 0:
        return None
    if body.op != 'seq':
        body = mk('seq', mk('s', body))
    if not body.args:
        return None
    lv = body.bh + 1
    b = subst(body, {var: bv(lv, 0, 'idx')})
    while b.bh + 1 != lv:
        lv = b.bh + 1
        b = subst(body, {var: bv(lv, 0, 'idx')})
    if b.op != 'seq':
        b = mk('seq', mk('s', b))
    return mk('bfor', n, lv, b)


def seqfor(n, var, body):
    """sequence comprehension, with map fusion"""
    if not is_seq(body):
        body = mk('seq', mk('s', body))
    b1 = body
    # fusion: for k<len(S): f(S[k])  -> per-segment map of S
    f = _fuse(n, var, b1)
    if f is not None:
        return f
    s = bfor(n, var, b1)
    return EMPTYSEQ if s is None else seq([s])


def _index_bases(t, var, acc):
    """collect bases S of index(S,var); return False if var used otherwise"""
    if var not in t.syms:
        return True
    if t is var:
        return False
    if t.op == 'fn' and t.args[0] == 'index' and t.args[2] is var and \
            var not in t.args[1].syms:
        acc.add(t.args[1])
        return True
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                if not _index_bases(a, var, acc):
                    return False
        return True
    for a in t.args:
        if isinstance(a, T) and not _index_bases(a, var, acc):
            return False
    return True


def _fuse(n, var, body):
    acc = set()
    if not _index_bases(body, var, acc) or len(acc) != 1:
        return None
    base, = acc
    if base.op != 'seq' or len(base.args) == 0:
        return None
    if length(base) is not n:
        return None
    return _mapsegs(base, var, base, body)


def _mapsegs(s, var, base, body):
    out = []
    for g in s.args:
        if g.op == 'e':
            out.extend(segs_of(subst(body, {mk('fn', 'index', base, var):
                                            g.args[0]})))
        elif g.op == 'bfor':
            k = fresh('k', 'int', 0)
            inner = subst(g.args[2], {bv(g.args[1], 0, 'idx'): k})
            if inner.op != 'seq':
                return None
            m = _mapsegs(inner, var, base, body)
            if m is None:
                return None
            b = bfor(g.args[0], k, m)
            if b is not None:
                out.append(b)
        elif g.op == 'g':
            m = _mapsegs(g.args[1], var, base, body)
            if m is None:
                return None
            out.append(mk('g', g.args[0], m))
        elif g.op == 's':
            k = fresh('k', 'int', 0)
            u = g.args[0]
            b = bfor(length(u), k, subst(body, {mk('fn', 'index', base, var):
                                                index(u, k)}))
            if b is not None:
                out.append(b)
    return seq(out)


def seq_join(c, a, b):
    pa, pb = segs_of(a), segs_of(b)
    pre = []
    while pa and pb and pa[0] is pb[0]:
        pre.append(pa.pop(0))
        pb.pop(0)
    post = []
    while pa and pb and pa[-1] is pb[-1]:
        post.insert(0, pa.pop())
        pb.pop()
    if not pa and not pb:
        return seq(pre + post)
    # same-shape literals: join elementwise
    if len(pa) == len(pb) and all(x.op == 'e' for x in pa + pb):
        return seq(pre + [elem(ite(c, x.args[0], y.args[0]))
                          for x, y in zip(pa, pb)] + post)
    if not pre and not post and pa and pb and \
            not all(x.op in ('e', 'g', 'bfor') for x in pa + pb):
        return mk('ite', c, a, b)
    mid = []
    if pa:
        mid.append(mk('g', c, seq(pa) if seq(pa).op == 'seq'
                      else mk('seq', *pa)))
    if pb:
        mid.append(mk('g', not_(c), seq(pb) if seq(pb).op == 'seq'
                      else mk('seq', *pb)))
    return seq(pre + mid + post)


def length(t):
    if t.op == 'seq':
        r = ZERO
        for s in t.args:
            if s.op == 'e':
                r = add(r, ONE)
            elif s.op == 'bfor':
                lb = length(s.args[2])
                b = bv(s.args[1], 0, 'idx')
                if b in lb.syms:
                    k = fresh('k', 'int', 0)
                    r = add(r, bsum(s.args[0], k, subst(lb, {b: k})))
                else:
                    n = s.args[0]
                    if sgn(n) not in ('>0', '>=0', '0'):
                        n = fmax(n, ZERO)
                    r = add(r, mul(n, lb))
            elif s.op == 'g':
                r = add(r, ite(s.args[0], length(s.args[1]), ZERO))
            else:
                r = add(r, length(s.args[0]))
        return r
    if t.op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == 'fn':
        n = t.args[0]
        if n in ('store', 'sorted', 'reversed', 'sortedby'):
            return length(t.args[1])
        if n == 'storeslice':
            return mk('fn', 'len', t)
        if n == 'slice':
            pass
        if n in ('dkeys', 'dvals', 'ditems'):
            return mk('fn', 'card', t.args[1])
        if n == 'repeat':
            return mul(length(t.args[1]), fmax(t.args[2], ZERO))
    if t.op in ('str',):
        return num(len(t.args[0]))
    h = LENHOOK.get(t)
    if h is not None:
        return h
    return mk('fn', 'len', t)


LENHOOK = {}


def index(s, i):
    """s[i] for a sequence term"""
    if s.op == 'ite' and s.size < 4000:
        return ite(s.args[0], index(s.args[1], i), index(s.args[2], i))
    if i.op == 'ite' and i.size < 400 and s.size < 4000:
        return ite(i.args[0], index(s, i.args[1]), index(s, i.args[2]))
    if s.op == 'str' and is_num(i):
        return string(s.args[0][int(nval(i))])
    if s.op == 'seq':
        segs = s.args
        if is_num(i) and nval(i) < 0:
            k = int(nval(i))
            # from the end
            j = len(segs) - 1
            while j >= 0:
                g = segs[j]
                if g.op == 'e':
                    k += 1
                    if k == 0:
                        return g.args[0]
                    j -= 1
                    continue
                break
            if len(segs) == 1 and segs[0].op == 'bfor':
                L = length(s)
                return index(s, add(L, i))
            return mk('fn', 'index', s, add(length(s), i)) \
                if sgn(add(length(s), i)) in ('>0', '>=0', '0') else \
                mk('fn', 'index', s, i)
        pos = i
        for at, g in enumerate(segs):
            if g.op == 'e':
                if pos is ZERO:
                    return g.args[0]
                c = eq0(pos)
                if c is FALSE:
                    pos = sub(pos, ONE)
                    continue
                if at + 1 == len(segs):
                    return g.args[0] if sgn(i) in ('>0', '>=0', '0') else \
                        mk('fn', 'index', s, i)
                return mk('fn', 'index', s, i) if len(segs) > 12 or \
                    sgn(i) not in ('>0', '>=0', '0') else \
                    ite(c, g.args[0], index(seq(segs[at + 1:]),
                                            sub(pos, ONE)))
            if g.op == 'bfor':
                L = length(mk('seq', g))
                ok = False
                if g is segs[-1]:
                    ok = True           # an in-range access must land here
                else:
                    ok = sgn(sub(sub(L, pos), ONE)) in ('>0', '>=0', '0')
                b = bv(g.args[1], 0, 'idx')
                if ok and len(g.args[2].args) == 1 and \
                        g.args[2].args[0].op == 'e' and \
                        (sgn(pos) in ('>0', '>=0', '0')):
                    return subst(g.args[2].args[0].args[0], {b: pos})
                if ok and pos is ZERO and g.args[2].args and \
                        g is segs[0] and g.args[2].args[0].op == 'e':
                    return index(subst(g.args[2], {b: ZERO}), ZERO)
                if sgn(sub(pos, L)) in ('>0', '>=0', '0') and \
                        g is not segs[-1]:
                    pos = sub(pos, L)
                    continue
                return mk('fn', 'index', s, i)
            if g.op == 's' and g is segs[-1] and pos is not i and \
                    sgn(pos) in ('>0', '>=0', '0'):
                return index(g.args[0], pos)
            return mk('fn', 'index', s, i)
        return mk('fn', 'index', s, i)
    if s.op == 'fn':
        n = s.args[0]
        if n == 'store':
            c = eq(s.args[2], i)
            if c is TRUE:
                return s.args[3]
            sg = [sgn(x) for x in (s.args[2], i)]
            if not all(x in ('>0', '>=0', '0') for x in sg) and \
                    sg != ['<0', '<0']:
                # x[-1] may be x[k]
                return mk('fn', 'index', s, i)
            if c is FALSE:
                return index(s.args[1], i)
            return ite(c, s.args[3], index(s.args[1], i))
        if n == 'slice':
            base, a, b = s.args[1], s.args[2], s.args[3]
            if sgn(i) in ('>0', '>=0', '0') and \
                    (a is NONE or sgn(a) in ('>0', '>=0', '0')):
                return index(base, i if a is NONE else add(a, i))
        if n == 'reversed':
            if is_num(i) and nval(i) < 0:
                return index(s.args[1], sub(neg(i), ONE))
            if sgn(i) in ('>0', '>=0', '0'):
                L = length(s.args[1])
                return index(s.args[1], sub(sub(L, ONE), i))
            return mk('fn', 'index', s, i)
    if is_num(i) and nval(i) < 0 and (is_seq(s)):
        return mk('fn', 'index', s, add(length(s), i))
    return mk('fn', 'index', s, i)


def store(s, i, v):
    if s.op == 'seq':
        if is_num(i) and all(g.op == 'e' for g in s.args):
            k = int(nval(i))
            L = len(s.args)
            if k < 0:
                k += L
            if 0 <= k < L:
                l = list(s.args)
                l[k] = elem(v)
                return mk('seq', *l)
        elif is_num(i) and nval(i) >= 0:
            head = _cut(s.args, 0, int(nval(i)))
            rest = _cut(s.args, int(nval(i)), int(nval(i)) + 1)
            if head is not None and rest is not EMPTYSEQ:
                return concat(head, lit([v]),
                              _cut(s.args, int(nval(i)) + 1, None))
    if s.op == 'fn' and s.args[0] == 'store' and s.args[2] is i:
        return mk('fn', 'store', s.args[1], i, v)
    return mk('fn', 'store', s, i, v)


def _cut(segs, a, b):
    """segs[a:b] when the length of every segment is a number"""
    pos, out = 0, []
    for g in segs:
        if g.op == 'e':
            n = 1
        elif g.op == 'bfor' and is_num(g.args[0]) and \
                len(g.args[2].args) == 1 and g.args[2].args[0].op == 'e':
            n = max(0, int(nval(g.args[0])))
        else:
            return None
        lo, hi = max(a, pos), pos + n if b is None else min(b, pos + n)
        if lo < hi:
            out.append(mk('seq', g) if (lo, hi) == (pos, pos + n) else
                       slice_(mk('seq', g), num(lo - pos), num(hi - pos)))
        pos += n
    return concat(*out)


def slice_(s, a, b):
    """s[a:b]; a,b terms or NONE"""
    if s.op == 'ite':
        return ite(s.args[0], slice_(s.args[1], a, b), slice_(s.args[2], a, b))
    if a is ZERO:
        a = NONE
    if s.op == 'str' and (a is NONE or is_num(a)) and (b is NONE or is_num(b)):
        return string(s.args[0][(None if a is NONE else int(nval(a))):
                                (None if b is NONE else int(nval(b)))])
    if a is NONE and b is NONE:
        return s
    if s.op == 'seq':
        segs = list(s.args)
        if all(g.op == 'e' for g in segs) and (a is NONE or is_num(a)) and \
                (b is NONE or is_num(b)):
            return mk('seq', *segs[(None if a is NONE else int(nval(a))):
                                   (None if b is NONE else int(nval(b)))])
        if len(segs) > 1 and (a is NONE or is_num(a) and nval(a) >= 0) and \
                (b is NONE or is_num(b) and nval(b) >= 0):
            r = _cut(segs, 0 if a is NONE else int(nval(a)),
                     None if b is NONE else int(nval(b)))
            if r is not None:
                return r
        # drop leading literals
        if a is not NONE and is_num(a) and nval(a) > 0:
            k = int(nval(a))
            j = 0
            while j < len(segs) and segs[j].op == 'e' and k:
                j += 1
                k -= 1
            if k == 0:
                rest = seq(segs[j:])
                if b is NONE:
                    return rest
                if is_num(b) and nval(b) < 0:
                    return slice_(rest, NONE, b)
                nb = sub(b, a)
                if is_num(nb) and nval(nb) < 0:
                    return EMPTYSEQ
                if sgn(nb) in ('>0', '>=0', '0'):
                    return slice_(rest, NONE, nb)
        if b is not NONE and is_num(b) and nval(b) < 0 and (
                a is NONE or sgn(a) in ('>0', '>=0', '0')):
            k = -int(nval(b))
            j = len(segs)
            while j > 0 and segs[j - 1].op == 'e' and k:
                j -= 1
                k -= 1
            if k == 0:
                return slice_(seq(segs[:j]), a, NONE)
        L = length(s)
        if b is not NONE and b is L:
            return slice_(s, a, NONE)
        # single comprehension slices
        if len(segs) == 1 and segs[0].op == 'bfor' and \
                len(segs[0].args[2].args) == 1 and \
                segs[0].args[2].args[0].op == 'e':
            n = segs[0].args[0]
            lo = ZERO if a is NONE else a
            hi = n if b is NONE else b
            if is_num(hi) and nval(hi) < 0:
                hi = add(n, hi)
            if is_num(lo) and nval(lo) < 0:
                lo = add(n, lo)
            if sgn(lo) in ('>0', '>=0', '0') and (
                    b is NONE or is_num(b) or
                    sgn(hi) in ('>0', '>=0', '0')):
                if sgn(sub(n, hi)) in ('>0', '>=0', '0') or b is NONE:
                    k = fresh('k', 'int', 0)
                    e = subst(segs[0].args[2].args[0].args[0],
                              {bv(segs[0].args[1], 0, 'idx'): add(lo, k)})
                    return seqfor(fmax(sub(hi, lo), ZERO), k, lit([e]))
    if b is not NONE and maybe_num(b) and is_seq(s) and b is length(s):
        b = NONE
        if a is NONE:
            return s
    if a is not NONE and is_num(a) and nval(a) < 0 and is_seq(s):
        a = fmax(add(length(s), a), ZERO)
    return mk('fn', 'slice', s, a, b)


def bsum(n, var, body):
    """sum_{var<n} body(var)"""
    if n.op == 'num' and nval(n) <= 0:
        return ZERO
    if body is ZERO:
        return ZERO
    nn = n if sgn(n) in ('>0', '>=0', '0') else fmax(n, ZERO)
    out = ZERO
    groups = {}
    for m, c in poly_of(body).items():
        dep = tuple((a, e) for a, e in m if var in a.syms)
        ind = tuple((a, e) for a, e in m if var not in a.syms)
        groups.setdefault(dep, {})
        groups[dep][ind] = groups[dep].get(ind, 0) + c
    for dep, coef in groups.items():
        cf = from_poly(coef)
        if not dep:
            out = add(out, mul(cf, nn))
            continue
        if len(dep) == 1 and dep[0][0] is var and dep[0][1] in (1, 2) and \
                sgn(nn) in ('>0', '>=0', '0'):
            if dep[0][1] == 1:
                s = mul(num(Fraction(1, 2)), mul(nn, sub(nn, ONE)))
            else:
                s = mul(num(Fraction(1, 6)),
                        mul(mul(nn, sub(nn, ONE)),
                            sub(mul(num(2), nn), ONE)))
            out = add(out, mul(cf, s))
            continue
        b = from_poly({dep: Fraction(1)})
        lv = b.bh + 1
        bb = subst(b, {var: bv(lv, 0, 'idx')})
        while bb.bh + 1 != lv:
            lv = bb.bh + 1
            bb = subst(b, {var: bv(lv, 0, 'idx')})
        out = add(out, mul(cf, mk('bsum', nn, lv, bb)))
    return out


def exists(cond, loops):
    """the condition holds in some iteration of the given loops"""
    for iv, cnt in reversed(loops):
        if cond.op == 'or':
            return or_(*[exists(c, loops) for c in cond.args])
        if iv not in cond.syms:
            if maybe_num(cnt):
                cond = and_(cond, gt0(cnt))
            continue
        cs = list(cond.args) if cond.op == 'and' else [cond]
        out = [c for c in cs if iv not in c.syms]
        cs = [c for c in cs if iv in c.syms]
        at = None
        for c in cs:
            if c.op == 'eq0' and iv.op == 'sym' and SYMINFO[iv]['kind'] == 'int':
                v = solve_linear(c.args[0], iv)
                if v is not None and is_int(v):
                    at = v
                    break
        if at is not None:
            cs = [subst(c, {iv: at}) for c in cs] + [ge0(at),
                                                    gt0(sub(cnt, at))]
            cond = and_(*(cs + out))
            continue
        cond = and_(gt0(bsum(cnt, iv, ite(and_(*cs), ONE, ZERO))), *out)
    return cond


def solve_linear(p, x):
    """the v free of x with p = 0 iff x = v, for p = +-x + q"""
    co = poly_of(p)
    c = co.get(((x, 1),))
    if c is None or abs(c) != 1:
        return None
    rest = {m: -v / c for m, v in co.items() if m != ((x, 1),)}
    v = from_poly(rest)
    return None if x in v.syms else v


def seq_exists(s, pred, other):
    """some element of s satisfies pred; other(t) for an opaque segment t"""
    if s.op == 'ite':
        return ite(s.args[0], seq_exists(s.args[1], pred, other),
                   seq_exists(s.args[2], pred, other))
    if s.op != 'seq':
        return other(s)
    r = FALSE
    for g in s.args:
        if g.op == 'e':
            r = or_(r, pred(g.args[0]))
        elif g.op == 'g':
            b = g.args[1]
            r = or_(r, and_(g.args[0], seq_exists(b, pred, other)))
        elif g.op == 'bfor':
            k = fresh('k', 'int', 0)
            b = subst(g.args[2], {bv(g.args[1], 0, 'idx'): k})
            r = or_(r, exists(seq_exists(b, pred, other), [(k, g.args[0])]))
        else:
            r = or_(r, other(g.args[0]))
    return r


def sumseq(s):
    if s.op == 'seq':
        r = ZERO
        for g in s.args:
            if g.op == 'e':
                r = add(r, g.args[0])
            elif g.op == 'bfor':
                k = fresh('k', 'int', 0)
                r = add(r, bsum(g.args[0], k,
                                sumseq(subst(g.args[2],
                                             {bv(g.args[1], 0, 'idx'): k}))))
            elif g.op == 'g':
                r = add(r, ite(g.args[0], sumseq(g.args[1]), ZERO))
            else:
                r = add(r, sumseq(g.args[0]))
        return r
    if s.op == 'ite':
        return ite(s.args[0], sumseq(s.args[1]), sumseq(s.args[2]))
    if is_seq(s) or True:
        k = fresh('k', 'int', 0)
        return bsum(length(s), k, index(s, k))


# --------------------------------------------------------------------------
# folds
# bloop args: kind('for'/'while'), level, nstates, n_or_cond, *inits, *nexts
def loop_core(kind, n, ivar, states, inits, nexts):
    """states: free symbols; n: trip count (for) or condition (while)."""
    body_h = max([x.bh for x in nexts] + [n.bh if kind == 'while' else 0] + [0])
    lv = body_h + 1
    while True:
        m = {s: bv(lv, j + 1, SYMINFO[s]['kind']) for j, s in enumerate(states)}
        if ivar is not None:
            m[ivar] = bv(lv, 0, 'idx')
        nx = [subst(x, m) for x in nexts]
        nn = subst(n, m) if kind == 'while' else n
        h = max([x.bh for x in nx] + [nn.bh if kind == 'while' else 0] + [0])
        if h + 1 == lv:
            break
        lv = h + 1
    kinds = tuple(SYMINFO[s]['kind'] for s in states)
    return mk('bloop', kind, lv, len(states), kinds, nn, *(list(inits) + nx))


def proj(core, j, kind):
    return mk('proj', core, j, kind)


# --------------------------------------------------------------------------
# substitution
def subst(t, m, memo=None):
    if not m:
        return t
    keys = set()
    plain = True
    for k in m:
        if k.op in ('sym', 'bv'):
            keys.add(k)
        else:
            plain = False
            keys |= k.syms
    return _subst(t, m, frozenset(keys), {})


def _subst(t, m, keys, memo):
    r = m.get(t)
    if r is not None:
        return r
    if not (t.syms & keys):
        return t
    r = memo.get(t)
    if r is None:
        r = _subst1(t, m, keys, memo)
        memo[t] = r
    return r


def _subst1(t, m, keys, memo):
    S = lambda x: _subst(x, m, keys, memo)
    o = t.op
    if o == 'poly':
        r = ZERO
        for mono, c in t.args[0]:
            cur = num(c)
            for a, e in mono:
                b = S(a)
                if b is a:
                    cur = mul(cur, from_poly({((a, e),): Fraction(1)}))
                else:
                    if a.op == 'grp':
                        b = b  # already ungrouped by rebuild
                    cur = mul(cur, _pw(b, e))
            r = add(r, cur)
        return r
    if o == 'grp':
        return S(t.args[0])
    if o == 'fn':
        return rebuild_fn(t.args[0], [S(a) if isinstance(a, T) else a
                                      for a in t.args[1:]])
    if o == 'ite':
        c = S(t.args[0])
        if c is TRUE:
            return S(t.args[1])
        if c is FALSE:
            return S(t.args[2])
        return ite(c, S(t.args[1]), S(t.args[2]))
    if o == 'ge0':
        return ge0(S(t.args[0]))
    if o == 'gt0':
        return gt0(S(t.args[0]))
    if o == 'eq0':
        return eq0(S(t.args[0]))
    if o == 'eq':
        return eq(S(t.args[0]), S(t.args[1]))
    if o == 'not':
        return not_(S(t.args[0]))
    if o == 'and':
        return and_(*[S(a) for a in t.args])
    if o == 'or':
        return or_(*[S(a) for a in t.args])
    if o == 'seq':
        return seq([S(a) for a in t.args])
    if o == 'e':
        return mk('e', S(t.args[0]))
    if o == 's':
        return mk('s', S(t.args[0]))
    if o == 'g':
        b = S(t.args[1])
        if b.op != 'seq':
            b = mk('seq', mk('s', b))
        return mk('g', S(t.args[0]), b)
    if o == 'bfor':
        n = S(t.args[0])
        if not (t.args[2].syms & keys):
            return mk('bfor', n, t.args[1], t.args[2])
        k = fresh('k', 'int', 0)
        body = S2(t.args[2], {bv(t.args[1], 0, 'idx'): k}, m)
        b = bfor(n, k, body)
        return b if b is not None else mk('g', FALSE, EMPTYSEQ)
    if o == 'bsum':
        n = S(t.args[0])
        k = fresh('k', 'int', 0)
        body = S2(t.args[2], {bv(t.args[1], 0, 'idx'): k}, m)
        return bsum(n, k, body)
    if o == 'bloop':
        kind, lv, ns, kinds, n = t.args[:5]
        inits = [S(x) for x in t.args[5:5 + ns]]
        nexts = t.args[5 + ns:5 + 2 * ns]
        iv = fresh('i', 'int', 0)
        sts = [fresh('s', kd) for kd in kinds]
        mm = {bv(lv, j + 1, kinds[j]): sts[j] for j in range(ns)}
        mm[bv(lv, 0, 'idx')] = iv
        nx = [S2(x, mm, m) for x in nexts]
        nn = S2(n, mm, m) if kind == 'while' else S(n)
        return loop_core(kind, nn, iv, sts, inits, nx)
    if o == 'proj':
        return proj(S(t.args[0]), t.args[1], t.args[2])
    if o == 'dict':
        return dict_norm([(S(t.args[i]), S(t.args[i + 1]))
                          for i in range(0, len(t.args), 2)])
    return mk(o, *[S(a) if isinstance(a, T) else a for a in t.args])


def S2(body, opening, m):
    mm = dict(opening)
    for k, v in m.items():
        mm[k] = v
    # keys with free bound vars of this level are handled by opening first
    return subst(body, mm) if all(k.op in ('sym', 'bv') for k in m) else \
        subst(subst(body, opening), m)


def _pw(b, e):
    if e.denominator == 1:
        return power(b, num(e)) if abs(e) <= 8 else mk('fn', 'pow', b, num(e))
    return mk('fn', 'pow', b, num(e))


def rebuild_fn(name, args):
    if name == 'index':
        return index(*args)
    if name == 'len':
        return length(args[0])
    if name == 'store':
        return store(*args)
    if name == 'slice':
        return slice_(*args)
    if name == 'dget':
        return dget(*args)
    if name == 'dstore':
        return dstore(*args)
    h = FNCON.get(name)
    if h is not None:
        return h(*args)
    h = REBUILD.get(name)
    if h is not None:
        return h(*args)
    return mk('fn', name, *args)


REBUILD = {}


# --------------------------------------------------------------------------
# dictionaries (values): op 'dict' k,v,... in insertion order; fn dstore/dget
def dict_norm(items):
    d = []
    for k, v in items:
        for n, (k2, _) in enumerate(d):
            if eq(k, k2) is TRUE:
                d[n] = (k2, v)
                break
        else:
            d.append((k, v))
    flat = []
    for k, v in d:
        flat += [k, v]
    return mk('dict', *flat)


EMPTYDICT = mk('dict')


def dict_items(t):
    return [(t.args[i], t.args[i + 1]) for i in range(0, len(t.args), 2)]


def dstore(d, k, v):
    if d.op == 'dict':
        its = dict_items(d)
        for n, (k2, _) in enumerate(its):
            if eq(k, k2) is TRUE:
                its[n] = (k2, v)
                return dict_norm(its)
        if all(eq(k, k2) is FALSE for k2, _ in its):
            return dict_norm(its + [(k, v)])
    if d.op == 'fn' and d.args[0] == 'dstore' and d.args[2] is k:
        return mk('fn', 'dstore', d.args[1], k, v)
    return mk('fn', 'dstore', d, k, v)


def dget(d, k):
    if d.op == 'dict':
        its = dict_items(d)
        for k2, v in its:
            c = eq(k, k2)
            if c is TRUE:
                return v
        und = [(k2, v) for k2, v in its if eq(k, k2) is not FALSE]
        if not und:
            return mk('fn', 'KeyError', k)
        r = und[-1][1]
        for k2, v in reversed(und[:-1]):
            r = ite(eq(k, k2), v, r)
        return r
    if d.op == 'ite':
        return ite(d.args[0], dget(d.args[1], k), dget(d.args[2], k))
    if d.op == 'fn' and d.args[0] == 'dstore':
        c = eq(d.args[2], k)
        if c is TRUE:
            return d.args[3]
        if c is FALSE:
            return dget(d.args[1], k)
        return ite(c, d.args[3], dget(d.args[1], k))
    return mk('fn', 'dget', d, k)


def dkeys(d):
    if d.op == 'dict':
        return lit([k for k, _ in dict_items(d)])
    if d.op == 'ite':
        return ite(d.args[0], dkeys(d.args[1]), dkeys(d.args[2]))
    return mk('fn', 'dkeys', d)


def dvals(d):
    if d.op == 'dict':
        return lit([v for _, v in dict_items(d)])
    if d.op == 'ite':
        return ite(d.args[0], dvals(d.args[1]), dvals(d.args[2]))
    return mk('fn', 'dvals', d)


# --------------------------------------------------------------------------
# equality with case splitting
def find_cond(t, seen=None):
    """some atomic condition occurring in an ite of t (outermost-first)"""
    if seen is None:
        seen = set()
    if t in seen:
        return None
    seen.add(t)
    o = t.op
    if o == 'ite':
        return atom_cond(t.args[0])
    if o == 'g':
        c = closed_atom(t.args[0])
        if c is not None:
            return c
        return find_cond(t.args[1], seen)
    if o == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                r = find_cond(a, seen)
                if r is not None:
                    return r
        return None
    if o in ('bfor', 'bsum', 'bloop'):
        r = None
        for a in t.args:
            if isinstance(a, T):
                r = find_cond(a, seen)
                if r is not None and not any(s.op == 'bv' for s in r.syms):
                    return r
        return None
    if o in ('and', 'or', 'not', 'ge0', 'gt0', 'eq0', 'eq'):
        return None
    for a in t.args:
        if isinstance(a, T):
            r = find_cond(a, seen)
            if r is not None:
                return r
    return None


def closed_atom(c):
    a = atom_cond(c)
    if a is not None and any(s.op == 'bv' for s in a.syms):
        return None
    return a


def atom_cond(c):
    if c.op in ('and', 'or'):
        return atom_cond(c.args[0])
    if c.op == 'not':
        return atom_cond(c.args[0])
    if c.op == 'ite':
        return atom_cond(c.args[0])
    return c


def assume(t, cond, val):
    """t simplified under atomic condition cond = val"""
    facts = [cond if val else not_(cond)]
    return simp(t, facts)


def simp(t, facts):
    ff = []
    for f in facts:
        ff.extend(flat_facts(f))
    if not ff:
        return t
    keys = EMPTY
    for f in ff:
        keys = keys | f.syms
    return _simp(t, ff, {}, keys)


def _simp(t, facts, memo, keys):
    if not t.syms & keys:
        if not (t.op in ('eq', 'fn') and t in facts):
            if t.op not in ('ite', 'poly', 'fn', 'seq', 'eq', 'g', 'e', 's'):
                return t
            if not facts or (keys and not (t.syms & keys)):
                return t
    r = memo.get(t)
    if r is not None:
        return r
    S = lambda x: _simp(x, facts, memo, keys)
    o = t.op
    if o in ('ge0', 'gt0', 'eq0', 'eq', 'not', 'and', 'or') or is_bool(t):
        v = implied(t, facts)
        if v is not None:
            r = TRUE if v else FALSE
        elif o == 'and':
            r = and_(*[S(a) for a in t.args])
        elif o == 'or':
            r = or_(*[S(a) for a in t.args])
        elif o == 'not':
            r = not_(S(t.args[0]))
        elif o == 'ge0':
            r = ge0(S(t.args[0]))
        elif o == 'gt0':
            r = gt0(S(t.args[0]))
        elif o == 'eq0':
            r = eq0(S(t.args[0]))
        elif o == 'ite':
            r = ite(S(t.args[0]), S(t.args[1]), S(t.args[2]))
        else:
            r = t
        if r is not t and r.op not in ('true', 'false'):
            v = implied(r, facts)
            if v is not None:
                r = TRUE if v else FALSE
        memo[t] = r
        return r
    if o == 'ite':
        c = S(t.args[0])
        if c is TRUE:
            r = S(t.args[1])
        elif c is FALSE:
            r = S(t.args[2])
        else:
            r = ite(c, S(t.args[1]), S(t.args[2]))
    elif o == 'poly':
        r = ZERO
        for mono, c in t.args[0]:
            cur = num(c)
            for a, e in mono:
                b = S(a)
                if b is a:
                    cur = mul(cur, from_poly({((a, e),): Fraction(1)}))
                else:
                    cur = mul(cur, _pw(b, e))
            r = add(r, cur)
    elif o == 'grp':
        r = t
    elif o == 'fn':
        nargs = [S(a) if isinstance(a, T) else a for a in t.args[1:]]
        r = rebuild_fn(t.args[0], nargs)
        if t.args[0] == 'max':
            # decide by facts
            if r.op == 'fn' and r.args[0] == 'max' and len(r.args) == 3:
                v = implied(ge0(sub(r.args[1], r.args[2])), facts)
                if v is True:
                    r = r.args[1]
                elif v is False:
                    r = r.args[2]
    elif o == 'seq':
        r = seq([S(a) for a in t.args])
    elif o in ('e', 's'):
        r = mk(o, S(t.args[0]))
    elif o == 'g':
        b = S(t.args[1])
        if b.op != 'seq':
            b = mk('seq', mk('s', b))
        r = mk('g', S(t.args[0]), b)
    elif o == 'bfor':
        n = S(t.args[0])
        k = fresh('k', 'int', 0)
        body = subst(t.args[2], {bv(t.args[1], 0, 'idx'): k})
        body = _simp(body, facts, {}, keys)
        b = bfor(n, k, body)
        r = b if b is not None else mk('g', FALSE, EMPTYSEQ)
    elif o == 'bsum':
        n = S(t.args[0])
        k = fresh('k', 'int', 0)
        body = _simp(subst(t.args[2], {bv(t.args[1], 0, 'idx'): k}), facts, {},
                     keys)
        r = bsum(n, k, body)
    elif o == 'dict':
        r = dict_norm([(S(t.args[i]), S(t.args[i + 1]))
                       for i in range(0, len(t.args), 2)])
    else:
        r = t
    memo[t] = r
    return r


UNROLL = [0]


def deep(t, facts=(), unroll=0):
    """simplification with contextual facts: the range of an iteration variable
    inside its body, a condition inside its branches; loops of a constant
    number of iterations up to unroll are expanded"""
    ff = []
    for f in facts:
        ff.extend(flat_facts(f))
    UNROLL[0] = unroll
    try:
        return _deep(t, tuple(ff), {})
    finally:
        UNROLL[0] = 0


def _deep(t, facts, memo):
    if t.op in ('sym', 'num', 'str', 'bv', 'py', 'none', 'true', 'false',
                'ref'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    D = lambda x: _deep(x, facts, memo)
    o = t.op
    if o == 'ite':
        c = D(t.args[0])
        if c is TRUE:
            r = D(t.args[1])
        elif c is FALSE:
            r = D(t.args[2])
        else:
            br = []
            for x, f in ((t.args[1], c), (t.args[2], not_(c))):
                ff = tuple(g for g in flat_facts(f) if g not in facts)
                br.append(_deep(x, facts + ff, {}) if ff and
                          c.syms & x.syms else D(x))
            r = ite(c, *br)
    elif o in ('ge0', 'gt0', 'eq0', 'eq', 'not', 'and', 'or') or is_bool(t):
        v = implied(t, facts) if facts else None
        if v is not None:
            r = TRUE if v else FALSE
        else:
            if o in ('and', 'or'):
                # compound members assume the simple ones
                plain = [a for a in t.args if as_ineq(a) is not None or
                         a.op == 'eq0' or (a.op == 'not' and
                                           a.args[0].op == 'eq0')]
                if plain and len(plain) < len(t.args):
                    ps = [D(a) for a in plain]
                    ff = facts
                    for a in ps:
                        ff += tuple(flat_facts(a if o == 'and' else not_(a)))
                    ff = _more(ff)
                    rest = [_deep(a, ff, {}) for a in t.args
                            if a not in plain]
                    r = (and_ if o == 'and' else or_)(*(ps + rest))
                else:
                    ps = [D(a) for a in t.args]
                    r = (and_ if o == 'and' else or_)(*ps)
                if len(ps) > 1 and r.op == o:
                    for j, a in enumerate(ps):
                        ff = facts
                        for b in ps[:j] + ps[j + 1:]:
                            ff += tuple(flat_facts(b if o == 'and'
                                                   else not_(b)))
                        v = implied(a, _more(ff))
                        if v is (o == 'or'):
                            r = TRUE if v else FALSE
                            break
            elif o == 'not':
                r = not_(D(t.args[0]))
            elif o == 'ge0':
                u = D(t.args[0])
                r = ge0(u)
                if facts and r.op == 'ge0' and \
                        not_(eq0(r.args[0])) in facts:
                    r = gt0(u)
            elif o == 'gt0':
                r = gt0(D(t.args[0]))
            elif o == 'eq0':
                r = eq0(D(t.args[0]))
            elif o == 'eq':
                r = eq(D(t.args[0]), D(t.args[1]))
            else:
                r = t
            if r is not t and facts and r.op not in ('true', 'false'):
                v = implied(r, facts)
                if v is not None:
                    r = TRUE if v else FALSE
    elif o == 'poly':
        r = ZERO
        for mono, c in t.args[0]:
            cur = num(c)
            for a, e in mono:
                b = D(a)
                cur = mul(cur, from_poly({((a, e),): Fraction(1)})
                          if b is a else _pw(b, e))
            r = add(r, cur)
    elif o == 'fn':
        nargs = [D(a) if isinstance(a, T) else a for a in t.args[1:]]
        r = rebuild_fn(t.args[0], nargs)
        r = _by_facts(r, facts)
    elif o == 'seq':
        r = seq([D(a) for a in t.args])
    elif o in ('e', 's'):
        r = mk(o, D(t.args[0]))
    elif o == 'g':
        c = D(t.args[0])
        b = _deep(t.args[1], facts + tuple(flat_facts(c)), {})
        if b.op != 'seq':
            b = mk('seq', mk('s', b))
        r = mk('g', c, b)
    elif o in ('bfor', 'bsum'):
        n = D(t.args[0])
        if n.op == 'num' and 0 <= nval(n) <= UNROLL[0]:
            b = bv(t.args[1], 0, 'idx')
            it = [D(subst(t.args[2], {b: num(i)})) for i in range(int(nval(n)))]
            if o == 'bsum':
                r = ZERO
                for x in it:
                    r = add(r, x)
            else:
                r = mk('s', concat(*it)) if it else mk('s', EMPTYSEQ)
                if len(it) and r.args[0].op == 'seq' and \
                        len(r.args[0].args) == 1:
                    r = r.args[0].args[0]
            memo[t] = r
            return r
        k = fresh('k', 'int', 0)
        body = subst(t.args[2], {bv(t.args[1], 0, 'idx'): k})
        body = _deep(body, facts + tuple(flat_facts(gt0(sub(n, k)))), {})
        if o == 'bsum':
            r = bsum(n, k, body)
        else:
            r = seqfor(n, k, body)
            if r.op == 'seq' and len(r.args) == 1:
                r = r.args[0]
            else:
                r = mk('s', r)
    elif o == 'bloop':
        kind, lv, ns, kinds, n = t.args[:5]
        inits = [D(x) for x in t.args[5:5 + ns]]
        nexts = t.args[5 + ns:5 + 2 * ns]
        nd = D(n) if kind == 'for' else n
        if nd.op == 'num' and 0 <= nval(nd) <= UNROLL[0]:
            vals = inits
            for i in range(int(nval(nd))):
                mm = {bv(lv, j + 1, kinds[j]): vals[j] for j in range(ns)}
                mm[bv(lv, 0, 'idx')] = num(i)
                vals = [D(subst(x, mm)) for x in nexts]
            r = lit(vals)
            memo[t] = r
            return r
        iv = fresh('i', 'int', 0)
        sts = [fresh('s', kd) for kd in kinds]
        mm = {bv(lv, j + 1, kinds[j]): sts[j] for j in range(ns)}
        mm[bv(lv, 0, 'idx')] = iv
        if kind == 'while':
            nn = _deep(subst(n, mm), facts, {})
            ff = facts + tuple(flat_facts(nn))
        else:
            nn = D(n)
            ff = facts + tuple(flat_facts(gt0(sub(nn, iv))))
        nx = [_deep(subst(x, mm), ff, {}) for x in nexts]
        r = loop_core(kind, nn, iv, sts, inits, nx)
    elif o == 'proj':
        r = D(t.args[0])
        if r.op == 'seq':
            r = r.args[t.args[1]].args[0]
        else:
            r = proj(r, t.args[1], t.args[2])
    elif o == 'dict':
        r = dict_norm([(D(t.args[i]), D(t.args[i + 1]))
                       for i in range(0, len(t.args), 2)])
    else:
        r = t
    memo[t] = r
    return r


def _more(facts):
    """x != 0 and x >= 0 give x > 0"""
    out = facts
    for f in facts:
        if f.op == 'not' and f.args[0].op == 'eq0':
            x = f.args[0].args[0]
            for y in (x, neg(x)):
                if sgn(y) is None and implied(ge0(y), facts) is True:
                    g = gt0(y)
                    if g not in out:
                        out = out + (g,)
    return out


def _nonneg(t, facts):
    return sgn(t) in ('>0', '>=0', '0') or \
        (bool(facts) and implied(ge0(t), facts) is True)


def _by_facts(r, facts):
    if r.op != 'fn' or not facts:
        return r
    n = r.args[0]
    if n == 'max' and len(r.args) == 3:
        v = implied(ge0(sub(r.args[1], r.args[2])), facts)
        if v is not None:
            return r.args[1] if v else r.args[2]
    elif n == 'index' and r.args[1].op in ('seq', 'fn'):
        s, i = r.args[1], r.args[2]
        if sgn(i) not in ('>0', '>=0', '0') and _nonneg(i, facts):
            k = fresh('k', 'int', 0)
            x = index(s, k)
            if not (x.op == 'fn' and x.args[0] == 'index' and
                    x.args[1] is s):
                return subst(x, {k: i})
    elif n == 'slice':
        s, a, b = r.args[1:]
        lo = ZERO if a is NONE else a
        if b is not NONE and s.op == 'seq' and len(s.args) == 1 and \
                s.args[0].op == 'bfor' and maybe_num(b) and \
                len(s.args[0].args[2].args) == 1 and \
                s.args[0].args[2].args[0].op == 'e':
            N = length(s)
            if _nonneg(lo, facts) and _nonneg(sub(N, b), facts) and \
                    _nonneg(sub(b, lo), facts):
                k = fresh('k', 'int', 0)
                g = s.args[0]
                e = subst(g.args[2].args[0].args[0],
                          {bv(g.args[1], 0, 'idx'): add(lo, k)})
                return seqfor(sub(b, lo), k, lit([e]))
    elif n == 'len':
        s = r.args[1]
        if s.op == 'fn' and s.args[0] == 'slice':
            base, a, b = s.args[1:]
            lo = ZERO if a is NONE else a
            N = length(base)
            if b is NONE:
                if _nonneg(lo, facts) and _nonneg(sub(N, lo), facts):
                    return sub(N, lo)
            elif _nonneg(lo, facts) and _nonneg(sub(N, b), facts) and \
                    _nonneg(sub(b, lo), facts):
                return sub(b, lo)
    return r


def context(c):
    """a disjunction whose compound members assume the simple ones false"""
    if c.op != 'or':
        return c
    plain = [d for d in c.args if as_ineq(d) is not None and d.size < 40]
    if not plain or len(plain) == len(c.args):
        return c
    facts = [not_(d) for d in plain]
    return or_(*(plain + [simp(d, facts) for d in c.args if d not in plain]))


def clear_den(t):
    """multiply a numeric term by its grp denominators (zero-equivalence)"""
    p = poly_of(t)
    for _ in range(12):
        gs = [(a, min(dict(m).get(a, Fraction(0)) for m in p))
              for a in _grps(p)]
        gs = [(a, e) for a, e in gs if e < 0]
        if not gs:
            break
        a, e = gs[0]
        q = poly_of(a.args[0])
        r = {}
        for m, c in p.items():
            d = dict(m)
            k = d.pop(a, Fraction(0)) - e
            cur = {tuple(sorted(d.items(), key=lambda xe: xe[0].key)): c}
            for _ in range(int(k)):
                cur = p_mul(cur, q)
            r = p_add(r, cur)
        p = r
    return from_poly(p_sqrt(p))


BUDGET = 4000


def equal(a, b, budget=None):
    """True if provably equal; False means 'not proved' (may still be equal)"""
    if budget is None:
        budget = [BUDGET]
    return _equal(a, b, [], budget)


def _equal(a, b, facts, budget):
    if a is b:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if maybe_num(a) and maybe_num(b):
        d = sub(a, b)
        if d is ZERO or clear_den(d) is ZERO:
            return True
        if not any(f in d.syms or True for f in ()):
            pass
    c = find_cond(a) or find_cond(b)
    if c is not None and not any(s.op == 'bv' for s in c.syms):
        for v in (True, False):
            fc = c if v else not_(c)
            if implied(fc, facts) is False:
                continue
            a2, b2 = assume(a, c, v), assume(b, c, v)
            if a2 is a and b2 is b:
                return _struct(a, b, facts, budget)
            if not _equal(a2, b2, facts + [fc], budget):
                return False
        return True
    return _struct(a, b, facts, budget)


def _struct(a, b, facts, budget):
    """congruence descent"""
    if a is b:
        return True
    if is_bool(a) and is_bool(b):
        # case-split on an atom
        c = atom_cond(a)
        if c is not None and c not in (TRUE, FALSE):
            ok = True
            for v in (True, False):
                a2, b2 = assume(a, c, v), assume(b, c, v)
                if a2 is a and b2 is b:
                    ok = False
                    break
                if not _equal(a2, b2, facts + [c if v else not_(c)], budget):
                    return False
            if ok:
                return True
    if a.op != b.op:
        return False
    if a.op == 'poly':
        pa, pb = poly_of(a), poly_of(b)
        if len(pa) != len(pb):
            return False
        # match monomials up to congruence
        used = set()
        for m, c in pa.items():
            hit = False
            for m2, c2 in pb.items():
                if m2 in used or c != c2 or len(m) != len(m2):
                    continue
                if m == m2:
                    used.add(m2)
                    hit = True
                    break
            if hit:
                continue
            for m2, c2 in pb.items():
                if m2 in used or c != c2 or len(m) != len(m2) or m2 in pa:
                    continue
                left = list(m2)
                good = True
                for x, e in m:
                    for j, (y, e2) in enumerate(left):
                        if e == e2 and (x is y or _equal(
                                x.args[0] if x.op == 'grp' else x,
                                y.args[0] if y.op == 'grp' else y,
                                facts, budget)):
                            left.pop(j)
                            break
                    else:
                        good = False
                        break
                if good and not left:
                    used.add(m2)
                    hit = True
                    break
            if not hit:
                return False
        return True
    if a.op in ('bfor', 'bsum'):
        if not _equal(a.args[0], b.args[0], facts, budget):
            return False
        k = fresh('k', 'int', 0)
        return _equal(subst(a.args[2], {bv(a.args[1], 0, 'idx'): k}),
                      subst(b.args[2], {bv(b.args[1], 0, 'idx'): k}),
                      facts, budget)
    if a.op == 'proj':
        if a.args[2] != b.args[2]:
            pass
        return _eq_loop(a, b, facts, budget)
    if len(a.args) != len(b.args):
        return False
    if a.op in ('sym', 'bv', 'ref', 'py', 'num', 'str'):
        return False
    if a.op == 'fn' and a.args[0] in ('max',):
        left = list(b.args[1:])
        if a.args[0] != b.args[0]:
            return False
        for x in a.args[1:]:
            for j, y in enumerate(left):
                if _equal(x, y, facts, budget):
                    left.pop(j)
                    break
            else:
                return False
        return True
    for x, y in zip(a.args, b.args):
        if isinstance(x, T) != isinstance(y, T):
            return False
        if isinstance(x, T):
            if not _equal(x, y, facts, budget):
                return False
        elif x != y:
            return False
    return True


def _eq_loop(a, b, facts, budget):
    ca, ja = a.args[0], a.args[1]
    cb, jb = b.args[0], b.args[1]
    if ca is cb:
        return ja == jb
    if ca.op != 'bloop' or cb.op != 'bloop':
        return False
    ka, la, na, kda, xa = ca.args[:5]
    kb, lb, nb, kdb, xb = cb.args[:5]
    if ka != kb or na != nb or na > 6:
        return False
    if ka == 'for' and not _equal(xa, xb, facts, budget):
        return False
    ia, ib = ca.args[5:5 + na], cb.args[5:5 + nb]
    fa, fb = ca.args[5 + na:], cb.args[5 + nb:]
    iv = fresh('i', 'int', 0)
    for perm in itertools.permutations(range(nb)):
        if perm[ja] != jb:
            continue
        if not all(_equal(ia[j], ib[perm[j]], facts, budget)
                   for j in range(na)):
            if budget[0] < 0:
                return False
            continue
        ss = [fresh('s', kda[j]) for j in range(na)]
        ma = {bv(la, j + 1, kda[j]): ss[j] for j in range(na)}
        mb = {bv(lb, perm[j] + 1, kdb[perm[j]]): ss[j] for j in range(na)}
        ma[bv(la, 0, 'idx')] = iv
        mb[bv(lb, 0, 'idx')] = iv
        if ka == 'while' and not _equal(subst(xa, ma), subst(xb, mb), facts,
                                        budget):
            continue
        if all(_equal(subst(fa[j], ma), subst(fb[perm[j]], mb), facts, budget)
               for j in range(na)):
            return True
    return False


# --------------------------------------------------------------------------
def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 14:
        return '…'
    s = lambda x: show(x, depth + 1)
    o = t.op
    if o == 'num':
        v = t.args[0]
        return str(v) if v.denominator == 1 or v.denominator > 10**6 and \
            False else (str(v.numerator) if v.denominator == 1 else
                        str(float(v)) if Fraction(repr(float(v))) == v
                        else str(v))
    if o == 'str':
        return repr(t.args[0])
    if o == 'sym':
        return t.args[0]
    if o == 'bv':
        return '$%d.%d' % (t.args[0], t.args[1])
    if o == 'none':
        return 'None'
    if o in ('true', 'false'):
        return o
    if o == 'poly':
        out = []
        for m, c in t.args[0]:
            f = []
            if c != 1 or not m:
                f.append(s(num(c)))
            for a, e in m:
                x = s(a)
                if a.op == 'grp':
                    x = '(' + s(a.args[0]) + ')'
                f.append(x if e == 1 else x + '^' + str(e))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if o == 'grp':
        return s(t.args[0])
    if o == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(s(a) for a in t.args)
    if o == 'ge0':
        return s(t.args[0]) + '>=0'
    if o == 'gt0':
        return s(t.args[0]) + '>0'
    if o == 'eq0':
        return s(t.args[0]) + '==0'
    if o == 'eq':
        return '(%s == %s)' % (s(t.args[0]), s(t.args[1]))
    if o == 'not':
        return 'not(%s)' % s(t.args[0])
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(s(a) for a in t.args) + ')'
    if o == 'seq':
        return '[' + ', '.join(s(a) for a in t.args) + ']'
    if o == 'e':
        return s(t.args[0])
    if o == 's':
        return '*' + s(t.args[0])
    if o == 'g':
        return '{%s if %s}' % (s(t.args[1]), s(t.args[0]))
    if o == 'bfor':
        return '{%s for $%d<%s}' % (s(t.args[2]), t.args[1], s(t.args[0]))
    if o == 'bsum':
        return 'SUM($%d<%s: %s)' % (t.args[1], s(t.args[0]), s(t.args[2]))
    if o == 'bloop':
        ns = t.args[2]
        return 'LOOP%d[%s %s; init %s; next %s]' % (
            t.args[1], t.args[0], s(t.args[4]),
            ', '.join(s(x) for x in t.args[5:5 + ns]),
            ', '.join(s(x) for x in t.args[5 + ns:]))
    if o == 'proj':
        return '%s#%d' % (s(t.args[0]), t.args[1])
    if o == 'dict':
        return '{' + ', '.join('%s: %s' % (s(k), s(v))
                               for k, v in dict_items(t)) + '}'
    return '%s<%s>' % (o, ', '.join(s(a) for a in t.args))
