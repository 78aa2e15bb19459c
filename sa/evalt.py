"""Random interpretation of value-number terms.

Used only as an alarm filter: two value numbers that the normal form does not
identify are reported as different only when randomly drawn assignments of their
free symbols (and of the uninterpreted library functions they contain) separate
them.  Nothing of the repository is executed here; what is interpreted are the
terms the analysis built from its source.
"""
from fractions import Fraction
import hashlib
import math
import posixpath
import random
import time

from . import terms as X
from .terms import T, SYMINFO


class Bad(Exception):
    """this assignment is outside the domain of the terms"""


class Fail(Bad):
    """evaluating the program's own operation is an error"""


class Endless(Fail):
    """a loop that goes on and on"""


class Opq:
    """value of an uninterpreted symbol/function; its type is fixed on demand"""
    __slots__ = ('key', 'sign', 'isint')

    def __init__(self, key, sign=None, isint=False):
        self.key, self.sign, self.isint = key, sign, isint

    def __repr__(self):
        return 'Opq(%s)' % (self.key,)


class Rec:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


# functions whose meaning is a library's: equal on both sides or not at all
TRUSTED = {'Rbstar', 'Rd', 'h_circular', 'h_annulus_in', 'h_annulus_out',
           'R_cond', 'interp', 'interp1d', 'brentq', 'brentlast', 'polytest', 'monthlen',
           'weekday', 'exc', 'type', 'isinstance', 'format', 'str', 'split',
           'float', 'gfunc', 'const', 'lastiter', 'attribute'}
INTERPRETED = {'floor', 'ceil', 'trunc', 'abs', 'log', 'sqrt', 'exp', 'max',
               'min', 'sin', 'cos', 'pow', 'len', 'index', 'slice', 'store',
               'storeslice', 'sorted', 'sortedby', 'sortedrev', 'reversed',
               'repeat', 'maxseq', 'minseq', 'indexof', 'in', 'dkeys', 'dvals',
               'ditems', 'dget', 'dstore', 'card', 'count', 'round', 'round0',
               'strided', 'removed', 'set', 'zeros', 'fancy', 'tail', 'is',
               'truthy', 'strcat', 'strrep', 'rangelen', 'div0', 'star',
               'KeyError', 'dgtsv', 'strm', 'strtest'}


def opaque_names(t, acc=None, seen=None):
    """names of uninterpreted operators in t that are not trusted ones"""
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == 'fn':
        n = t.args[0]
        if n not in INTERPRETED and n not in TRUSTED:
            acc.add(n)
    elif t.op in ('py', 'ref'):
        acc.add(t.op)
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                opaque_names(a, acc, seen)
    else:
        for a in t.args:
            if isinstance(a, T):
                opaque_names(a, acc, seen)
    return acc


def literals(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'str':
        acc.add(t.args[0])
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                literals(a, acc, seen)
    else:
        for a in t.args:
            if isinstance(a, T):
                literals(a, acc, seen)


def canon(v):
    if isinstance(v, bool):
        return ('n', float(v))
    if isinstance(v, (int, Fraction)):
        return ('n', float('%.9g' % float(v)) + 0.0)
    if isinstance(v, float):
        if v != v:
            raise Bad('nan')
        r = float('%.9g' % v)
        return ('n', (0.0 if abs(r) < 1e-13 else r))
    if isinstance(v, str):
        return ('s', v)
    if v is None:
        return ('none',)
    if isinstance(v, (list, tuple)):
        return ('l',) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ('d',) + tuple(sorted(((k, canon(x)) for k, x in v.items()),
                                     key=repr))
    if isinstance(v, Rec):
        return ('r', v.cls) + tuple((k, canon(x)) for k, x in v.attrs)
    if isinstance(v, Opq):
        if v.key[0] == 'ref':
            raise Bad('object identity')
        return ('o', v.key)
    return ('?', repr(v))


def near(a, b, tol=1e-6):
    """canonical values that agree up to rounding"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1e-9, min(abs(a), abs(b))) \
            and not (a.is_integer() and b.is_integer())
    return type(a) is type(b) and a == b


CMPTOL = 1e-9


# how the values of an uninterpreted function are spread
SAMPLE = {'polytest': lambda r: r.choice([-1, 0, 1])}


class Env(dict):
    """bound variables, with the values of the open terms under them"""
    __slots__ = ('memo', 'outer', 'own')

    def __init__(self, other=()):
        dict.__init__(self, other)
        self.memo = {}
        self.outer = other if isinstance(other, Env) else None
        self.own = set()

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.own.add(k)
        if self.memo:
            self.memo = {}


EMPTY = Env()
_compiled = {}


def compiled(t):
    """a polynomial with whole numbers as integers"""
    r = _compiled.get(t)
    if r is None:
        def whole(x):
            x = Fraction(x)
            return int(x) if x.denominator == 1 else x
        r = _compiled[t] = [
            (whole(c), [(a.args[0] if a.op == 'grp' else a, whole(e))
                        for a, e in m]) for m, c in t.args[0]]
    return r


NOFREE = frozenset()
_free = {}


def free(t):
    """bound variables of a term that are bound outside of it"""
    if not t.syms:
        return NOFREE
    r = _free.get(t)
    if r is not None:
        return r
    if t.op == 'bv':
        r = frozenset([t])
    elif not any(s.op == 'bv' for s in t.syms):
        r = NOFREE
    else:
        r = NOFREE
        if t.op == 'poly':
            parts = [a for m, c in t.args[0] for a, e in m]
        else:
            parts = [a for a in t.args if isinstance(a, T)]
        for a in parts:
            f = free(a)
            if f:
                r = r | f
        if t.op in ('bsum', 'bfor', 'bloop', 'bmap'):
            lv = t.args[1]
            r = frozenset(b for b in r if b.args[0] != lv)
    _free[t] = r
    return r


class Eval:
    def __init__(self, seed, domains=None, pool=(), steps=400000, seqlen=None,
                 near=((), ())):
        self.seed = seed
        # values that a condition of one side compares with
        r = self.rng('near')
        self.near = near[0] if near[0] and r.random() < 0.6 else ()
        self.size = max(0, r.choice(near[1]) + r.choice([-1, 0, 1, 1])) \
            if near[1] and seqlen is None and r.random() < 0.6 else None
        if self.size and self.size > 400:
            # long sequences are expensive
            self.size = None if r.random() < 0.9 else \
                self.size * r.choice([1, 2])
        self.domains = domains or {}
        self.pool = sorted(pool) + ['zz-other', 'Zz.other (2)']
        self.steps = steps
        self.memo = {}
        self.typed = {}
        self.calls = {}
        self.seqlen = seqlen
        self.used = {}
        self.same = {}

    # ---- sampling
    def rng(self, key):
        h = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8)
        return random.Random(int.from_bytes(h.digest(), 'big'))

    def sample_num(self, key, kind='real', lo=None, strict=False, hi=None):
        r = self.rng(key)
        if self.near and r.random() < 0.4:
            v = r.choice(self.near) * r.choice([1, 1, 1, -1]) + r.choice(
                [0, 0, Fraction(1, 10 ** 7), Fraction(-1, 10 ** 7),
                 Fraction(1, 64), Fraction(-1, 64), 1, -1])
            if kind == 'int':
                v = Fraction(round(v))
            if not (lo is not None and (v < lo or strict and v <= lo) or
                    hi is not None and v > hi):
                return int(v) if v.denominator == 1 else v
        if kind == 'int':
            l = -4 if lo is None else int(math.ceil(lo)) + \
                (1 if strict and float(lo).is_integer() else 0)
            h = l + r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
            if hi is not None:
                h = min(h, int(hi))
            return r.randint(l, max(l, h))
        if lo is not None:
            w = r.choice([1, 5, 20])
            v = Fraction(lo) + Fraction(r.randint(1 if strict else 0, w * 16),
                                        16)
            if r.random() < 0.2:
                v += Fraction(r.randint(1, 99999), 10 ** 6)
            if hi is not None and v > hi:
                v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * \
                    Fraction(r.randint(1, 15), 16)
            return v
        c = r.random()
        if c < 0.08:
            return Fraction(0)
        return Fraction(r.randint(-20 * 16, 20 * 16), 16) + (
            Fraction(r.randint(1, 99999), 10 ** 6) if c > 0.85 else 0)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction, float)):
            return v
        if isinstance(v, Opq):
            if v.key[0] == 'ref':
                raise Bad('object identity')
            t = self.typed.setdefault(v.key, 'num')
            if t != 'num':
                raise Bad('typed %s' % t)
            k = ('num', v.key)
            if k not in self.used:
                s = v.sign
                f = SAMPLE.get(v.key[0])
                self.used[k] = f(self.rng(v.key)) if f else self.sample_num(
                    v.key, 'int' if v.isint else 'real',
                    0 if s in ('>0', '>=0') else None, s == '>0')
            return self.used[k]
        raise Bad('not a number: %r' % (v,))

    def seq(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Opq):
            r = self.same.get(id(v))
            if r is not None:
                return r[1]
            if v.key[0] == 'ref':
                raise Bad('object identity')
            t = self.typed.setdefault(v.key, 'seq')
            if t != 'seq':
                raise Bad('typed %s' % t)
            k = ('seq', v.key)
            if k not in self.used:
                r = self.rng(('len', v.key))
                f = SAMPLE.get(v.key[0])
                if f:
                    self.used[k] = f(r)
                    return self.used[k]
                n = self.seqlen or self.size or \
                    r.choice([1, 2, 2, 3, 3, 4, 5])
                key = v.key
                if n > 100:
                    # keys are hashed again and again
                    key = ('seq', hashlib.blake2b(
                        repr(key).encode(), digest_size=12).hexdigest())
                self.used[k] = [Opq((key, i)) for i in range(n)]
            self.same[id(v)] = v, self.used[k]
            return self.used[k]
        raise Bad('not a sequence: %r' % (v,))

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, (list, dict, str)):
            return len(v) > 0
        if isinstance(v, Opq):
            t = self.typed.setdefault(v.key, 'bool')
            if t == 'seq':
                return len(self.seq(v)) > 0
            if t == 'num':
                return self.num(v) != 0
            f = SAMPLE.get(v.key[0])
            r = self.rng(('b', v.key))
            return f(r) if f else r.random() < 0.5
        return True

    # ---- evaluation
    def ev(self, t, env):
        self.steps -= 1
        if self.steps < 0:
            raise Bad('too many steps')
        if t.op == 'bv':
            return self.ev1(t, env)
        m = self.memo_of(t, env)
        r = m.get(t)
        if r is not None:
            return r[0]
        r = self.ev1(t, env)
        m[t] = (r,)
        return r

    def memo_of(self, t, env):
        """where the value of t belongs: the innermost loop it depends on"""
        f = _free.get(t)
        if f is None:
            f = free(t)
        if not f:
            return self.memo
        e = env
        while e is not None:
            if not f.isdisjoint(e.own):
                return e.memo
            e = e.outer
        return {}

    def ev1(self, t, env):
        o = t.op
        if o == 'num':
            v = t.args[0]
            return int(v) if v.denominator == 1 else v
        if o == 'str':
            return t.args[0]
        if o == 'none':
            return None
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'sym':
            return self.symval(t)
        if o == 'bv':
            if t in env:
                return env[t]
            raise Bad('unbound %r' % (t,))
        if o == 'poly':
            s = 0
            for c, m in compiled(t):
                v, bad = c, None
                for a, e in m:
                    try:
                        x = self.ev(a, env)
                        if type(x) is not int and type(x) is not Fraction:
                            x = self.num(x)
                        v = v * x if e == 1 else self.mulpow(v, x, e)
                    except Fail as f:
                        bad = f
                if bad is not None and (v != 0 or not m):
                    # a sum over no terms does not evaluate its body
                    raise bad
                s = s + v
            if isinstance(s, Fraction) and s.denominator == 1:
                s = int(s)
            return s
        if o == 'grp':
            return self.ev(t.args[0], env)
        if o in ('ge0', 'gt0', 'eq0'):
            v = self.num(self.ev(t.args[0], env))
            if isinstance(v, float):
                if v != v:
                    raise Bad('nan')
                if abs(v) < CMPTOL:
                    raise Bad('ambiguous comparison')
            return v >= 0 if o == 'ge0' else v > 0 if o == 'gt0' else v == 0
        if o == 'eq':
            return self.equalv(self.ev(t.args[0], env), self.ev(t.args[1], env))
        if o == 'not':
            return not self.truth(self.ev(t.args[0], env))
        if o == 'and':
            return self.junct(t, env, False)
        if o == 'or':
            return self.junct(t, env, True)
        if o == 'ite':
            return self.ev(t.args[1] if self.truth(self.ev(t.args[0], env))
                           else t.args[2], env)
        if o == 'seq':
            out = []
            for g in t.args:
                self.seg(g, env, out)
            return out
        if o == 'bsum':
            n = self.count(self.ev(t.args[0], env))
            b = X.bv(t.args[1], 0, 'idx')
            e2 = Env(env)
            s = 0
            for k in range(n):
                e2[b] = k
                s = s + self.num(self.ev(t.args[2], e2))
            return s
        if o == 'proj':
            return self.loop(t.args[0], env)[t.args[1]]
        if o == 'dict':
            d = {}
            for i in range(0, len(t.args), 2):
                self.dput(d, self.ev(t.args[i], env), self.ev(t.args[i + 1],
                                                             env))
            return d
        if o == 'obj':
            return Rec(t.args[0].args[0], tuple(
                (t.args[i].args[0], self.ev(t.args[i + 1], env))
                for i in range(2, len(t.args), 2)))
        if o == 'fn':
            return self.fn(t, env)
        if o == 'const':
            return Opq(('const', t.args[0]))
        if o in ('py', 'ref'):
            return Opq((o, t.args[0]))
        raise Bad('op %s' % o)

    def dput(self, d, k, v):
        d[self.dkey(k)] = v

    def dkey(self, k):
        k = canon(k)
        return k

    def symval(self, t):
        nm = t.args[0]
        if t in self.memo:
            return self.memo[t][0]
        f = self.domains.get(nm)
        if f is not None:
            v = f(self.rng(('dom', nm))) if callable(f) else f
        elif t is X.PI:
            v = math.pi
        else:
            i = SYMINFO[t]
            k = i['kind']
            if k in ('real', 'int'):
                v = self.sample_num(nm, k, i['lo'], i['strict'], i['hi'])
            elif k == 'bool':
                v = self.rng(nm).random() < 0.5
            elif k == 'str':
                v = self.rng(nm).choice(self.pool)
            elif k == 'seq':
                v = self.seq(Opq(('sym', nm)))
            else:
                v = Opq(('sym', nm), '>0' if i['lo'] is not None and
                        i['strict'] else '>=0' if i['lo'] is not None else None)
        return v

    def junct(self, t, env, stop):
        # the order of conjuncts is canonical, not the program's: one conjunct
        # may be undefined where another decides
        bad = None
        for a in t.args:
            try:
                if self.truth(self.ev(a, env)) is stop:
                    return stop
            except Bad as e:
                bad = e
        if bad is not None:
            raise bad
        return not stop

    def mulpow(self, v, x, e):
        if type(e) is int:
            if e < 0:
                if x == 0:
                    raise Fail('division by zero')
                if isinstance(x, int):
                    x = Fraction(x)
            if abs(e) > 64:
                raise Bad('power')
            try:
                return v * x ** e
            except OverflowError:
                raise Bad('overflow')
        if x < 0:
            raise Bad('root of a negative')
        if x == 0 and e < 0:
            raise Fail('division by zero')
        try:
            r = float(x) ** float(e)
        except OverflowError:
            raise Bad('overflow')
        return float(v) * r

    def count(self, v, most=20000):
        v = self.num(v)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Bad('count')
            v = round(v)
        if isinstance(v, Fraction):
            if v.denominator != 1:
                raise Bad('count')
            v = int(v)
        if v > most:
            raise Bad('long loop')
        return max(0, v)

    def seg(self, g, env, out):
        o = g.op
        if o == 'e':
            out.append(self.ev(g.args[0], env))
        elif o == 's':
            out.extend(self.seq(self.ev(g.args[0], env)))
        elif o == 'g':
            if self.truth(self.ev(g.args[0], env)):
                if g.args[1].op == 'seq':
                    for h in g.args[1].args:
                        self.seg(h, env, out)
                else:
                    out.extend(self.seq(self.ev(g.args[1], env)))
        elif o == 'bfor':
            b = X.bv(g.args[1], 0, 'idx')
            if b not in g.args[2].syms and len(g.args[2].args) == 1 and \
                    g.args[2].args[0].op == 'e':
                n = self.count(self.ev(g.args[0], env), 20000)
                out.extend([self.ev(g.args[2].args[0].args[0], env)] * n
                           if n else [])
                return
            n = self.count(self.ev(g.args[0], env))
            e2 = Env(env)
            for k in range(n):
                e2[b] = k
                for h in g.args[2].args:
                    self.seg(h, e2, out)
                if len(out) > 20000:
                    raise Bad('long sequence')
        else:
            raise Bad('segment %s' % o)

    def loop(self, c, env):
        if c.op != 'bloop':
            raise Bad('loop')
        kind, lv, ns, kinds, n = c.args[:5]
        key = None
        memo = self.memo_of(c, env)
        if c in memo:
            return memo[c][0]
        key = c
        vals = [self.ev(x, env) for x in c.args[5:5 + ns]]
        nexts = c.args[5 + ns:5 + 2 * ns]
        bvs = [X.bv(lv, j + 1, kinds[j]) for j in range(ns)]
        ib = X.bv(lv, 0, 'idx')
        e2 = Env(env)
        if kind == 'for':
            for i in range(self.count(self.ev(n, env))):
                e2[ib] = i
                for b, v in zip(bvs, vals):
                    e2[b] = v
                vals = [self.ev(x, e2) for x in nexts]
        else:
            need, todo = set(), [n]
            while todo:
                f = free(todo.pop())
                for j, b in enumerate(bvs):
                    if b in f and j not in need:
                        need.add(j)
                        todo.append(nexts[j])
            if len(need) < ns:
                # how often it turns, without what it makes on the way
                self.turns(n, ib, bvs, list(vals), nexts, sorted(need), env)
            i = 0
            while True:
                e2[ib] = i
                for b, v in zip(bvs, vals):
                    e2[b] = v
                if not self.truth(self.ev(n, e2)):
                    break
                vals = [self.ev(x, e2) for x in nexts]
                i += 1
                if i > 400:
                    raise Bad('long while loop')
        memo[key] = (vals,)
        return vals

    def turns(self, cond, ib, bvs, vals, nexts, need, env):
        e2 = Env(env)
        for i in range(3000):
            e2[ib] = i
            for j in need:
                e2[bvs[j]] = vals[j]
            if not self.truth(self.ev(cond, e2)):
                return
            new = [self.ev(nexts[j], e2) for j in need]
            for j, v in zip(need, new):
                vals[j] = v
        raise Endless('a loop that does not end')

    def resolve_str(self, o):
        t = self.typed.setdefault(o.key, 'str')
        if t != 'str':
            raise Bad('typed %s' % t)
        return self.rng(('s', o.key)).choice(self.pool)

    def equalv(self, a, b):
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.key == b.key:
                return True
            if 'num' in (self.typed.get(a.key), self.typed.get(b.key)):
                return self.num(a) == self.num(b)
            return False
        if isinstance(a, Opq):
            a, b = b, a
        if isinstance(b, Opq):
            if isinstance(a, str):
                return self.resolve_str(b) == a
            if isinstance(a, bool):
                return self.truth(b) == a
            if isinstance(a, (int, float, Fraction)):
                return self.equalv(a, self.num(b))
            if isinstance(a, list):
                return self.equalv(a, self.seq(b))
            if a is None:
                return False
            return False
        if isinstance(a, (int, float, Fraction)) and \
                isinstance(b, (int, float, Fraction)):
            if isinstance(a, float) or isinstance(b, float):
                d = float(a) - float(b)
                if d != 0 and abs(d) < CMPTOL:
                    raise Bad('ambiguous equality')
                return d == 0
            return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.equalv(x, y)
                                            for x, y in zip(a, b))
        if type(a) is not type(b):
            return False
        return canon(a) == canon(b)

    def order(self, v):
        return tuple(self.order(x) for x in v) if isinstance(v, list) else \
            self.num(v)

    def intv(self, v):
        v = self.num(v)
        if isinstance(v, float):
            if abs(v - round(v)) < 1e-9:
                return int(round(v))
            raise Bad('index')
        if isinstance(v, Fraction):
            if v.denominator != 1:
                raise Bad('index')
            v = int(v)
        return v

    def at(self, s, i):
        if isinstance(s, dict):
            k = self.dkey(i)
            if k not in s:
                raise Fail('key')
            return s[k]
        s = self.seq(s)
        i = self.intv(i)
        if not -len(s) <= i < len(s):
            raise Fail('index out of range')
        return s[i]

    def floorv(self, v):
        if isinstance(v, float):
            if v != v or abs(v) > 1e12:
                raise Bad('floor')
            r = round(v)
            if abs(v - r) < 1e-7 * max(1.0, abs(v)):
                raise Bad('ambiguous floor')
            return math.floor(v)
        return math.floor(v)

    def snap(self, n, args):
        """arguments that differ by rounding only are the same arguments"""
        known = self.calls.setdefault(n, {})
        if args in known:
            return args
        if len(known) < 400:
            for k in known:
                if near(k, args):
                    return k
        known[args] = True
        return args

    def fn(self, t, env):
        n = t.args[0]
        A = lambda i: self.ev(t.args[i], env)
        N = lambda i: self.num(A(i))
        if n == 'floor':
            return self.floorv(N(1))
        if n == 'ceil':
            return -self.floorv(-N(1))
        if n == 'trunc':
            v = N(1)
            return self.floorv(v) if v >= 0 else -self.floorv(-v)
        if n == 'abs':
            return abs(N(1))
        if n == 'log' and N(1) <= 0:
            raise Fail('logarithm of a number that is not positive')
        if n in ('log', 'sqrt', 'exp', 'sin', 'cos'):
            v = float(N(1))
            try:
                return getattr(math, n)(v)
            except (ValueError, OverflowError):
                raise Bad(n)
        if n == 'max':
            return max(N(i) for i in range(1, len(t.args)))
        if n == 'min':
            return min(N(i) for i in range(1, len(t.args)))
        if n == 'pow':
            a, b = N(1), N(2)
            try:
                if isinstance(b, (int, Fraction)) and \
                        Fraction(b).denominator == 1 and abs(b) < 64:
                    b = int(b)
                    if isinstance(a, int):
                        a = Fraction(a)
                    return a ** b
                r = float(a) ** float(b)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise Bad('pow')
            if isinstance(r, complex):
                raise Bad('pow')
            return r
        if n == 'len':
            v = A(1)
            if isinstance(v, dict):
                return len(v)
            return len(self.seq(v))
        if n == 'card':
            v = A(1)
            if isinstance(v, dict):
                return len(v)
            return len(self.seq(v))
        if n == 'index':
            s, i = A(1), A(2)
            if isinstance(s, Opq) and not isinstance(i, (int, float, Fraction,
                                                         bool)):
                return Opq(('get', s.key, canon(i)))
            return self.at(s, i)
        if n == 'slice':
            s = A(1)
            if not isinstance(s, str):
                s = self.seq(s)
            a = None if t.args[2] is X.NONE else self.intv(A(2))
            b = None if t.args[3] is X.NONE else self.intv(A(3))
            return s[a:b]
        if n == 'strided':
            f = lambda i: None if t.args[i] is X.NONE else self.intv(A(i))
            return self.seq(A(1))[f(2):f(3):f(4)]
        if n == 'store':
            s = A(1)
            if isinstance(s, dict):
                d = dict(s)
                self.dput(d, A(2), A(3))
                return d
            s = list(self.seq(s))
            if X.is_seq(t.args[2]):
                raise Bad('nd store')
            i = self.intv(A(2))
            if not -len(s) <= i < len(s):
                raise Fail('store out of range')
            s[i] = A(3)
            return s
        if n == 'storeslice':
            s = list(self.seq(A(1)))
            a = None if t.args[2] is X.NONE else self.intv(A(2))
            b = None if t.args[3] is X.NONE else self.intv(A(3))
            v = A(4)
            if isinstance(v, list):
                s[a:b] = v
            else:
                L = len(s[a:b])
                s[a:b] = [v] * L
            return s
        if n == 'dgtsv':
            if t.args[1].args[0] != 'x':
                raise Bad('dgtsv')
            l, d, u, b = [[float(self.num(x)) for x in self.seq(A(i))]
                          for i in (2, 3, 4, 5)]
            if not len(l) + 1 == len(u) + 1 == len(d) == len(b):
                raise Fail('size of the system')
            d, b = list(d), list(b)
            try:
                for i in range(1, len(d)):
                    w = l[i - 1] / d[i - 1]
                    d[i] -= w * u[i - 1]
                    b[i] -= w * b[i - 1]
                b[-1] /= d[-1]
                for i in range(len(d) - 2, -1, -1):
                    b[i] = (b[i] - u[i] * b[i + 1]) / d[i]
            except (ZeroDivisionError, OverflowError):
                raise Bad('dgtsv')
            return b
        if n == 'sorted':
            s = self.seq(A(1))
            return sorted(s, key=self.order)
        if n == 'sortedby':
            s, k = self.seq(A(1)), self.seq(A(2))
            if len(s) != len(k):
                raise Bad('sortedby')
            ks = [self.order(x) for x in k]
            return [s[i] for i in sorted(range(len(s)), key=lambda i: ks[i])]
        if n in ('reversed', 'sortedrev'):
            return list(reversed(self.seq(A(1))))
        if n == 'repeat':
            return self.seq(A(1)) * max(0, self.intv(A(2)))
        if n == 'tail':
            return self.seq(A(1))[1:]
        if n == 'maxseq':
            s = self.seq(A(1))
            if not s:
                raise Fail('max of empty')
            if isinstance(s[0], list):
                return max(s, key=self.order)
            return max(self.num(x) for x in s)
        if n == 'minseq':
            s = self.seq(A(1))
            if not s:
                raise Fail('min of empty')
            if isinstance(s[0], list):
                return min(s, key=self.order)
            return min(self.num(x) for x in s)
        if n == 'indexof':
            s, v = self.seq(A(1)), A(2)
            for i, x in enumerate(s):
                if self.equalv(x, v):
                    return i
            raise Fail('not in list')
        if n == 'in':
            v, s = A(1), A(2)
            if isinstance(s, dict):
                return self.dkey(v) in s
            return any(self.equalv(x, v) for x in self.seq(s))
        if n == 'count':
            s, v = self.seq(A(1)), A(2)
            return sum(1 for x in s if self.equalv(x, v))
        if n in ('dkeys', 'dvals', 'ditems', 'dget', 'dstore'):
            d = A(1)
            if isinstance(d, Opq):
                return Opq((n, d.key) + tuple(canon(A(i)) for i in
                                              range(2, len(t.args))))
            if not isinstance(d, dict):
                raise Bad('dict')
            if n == 'dget':
                k = self.dkey(A(2))
                if k not in d:
                    raise Fail('key')
                return d[k]
            if n == 'dstore':
                d = dict(d)
                self.dput(d, A(2), A(3))
                return d
            if n == 'dvals':
                return list(d.values())
            ks = [int(k[1]) if k[0] == 'n' and float(k[1]).is_integer() else
                  k[1] if k[0] in 'ns' else Opq(k) for k in d]
            if n == 'dkeys':
                return ks
            return [[k, v] for k, v in zip(ks, d.values())]
        if n == 'round0':
            v = N(1)
            if isinstance(v, float) and abs(abs(v - math.floor(v)) - .5) < 1e-9:
                raise Bad('round')
            return round(v)
        if n == 'round':
            v, k = N(1), self.intv(A(2))
            return round(v if isinstance(v, (int, Fraction)) else float(v), k)
        if n == 'set':
            out = []
            for x in self.seq(A(1)):
                if not any(self.equalv(x, y) for y in out):
                    out.append(x)
            return sorted(out, key=lambda v: repr(canon(v)))
        if n == 'removed':
            s = list(self.seq(A(1)))
            v = A(2)
            for i, x in enumerate(s):
                if self.equalv(x, v):
                    del s[i]
                    return s
            raise Fail('not in list')
        if n == 'truthy':
            return self.truth(A(1))
        if n == 'div0':
            raise Fail('division by zero')
        if n == 'fancy':
            s, m = self.seq(A(1)), self.seq(A(2))
            return [self.at(s, i) for i in m]
        if n == 'strcat':
            out = ''
            for i in range(1, len(t.args)):
                v = A(i)
                if not isinstance(v, str):
                    out += '<%r>' % (canon(v),)
                else:
                    out += v
            return out
        if n == 'strrep':
            s = A(1)
            if isinstance(s, str):
                return s * max(0, self.intv(A(2)))
        if n in ('strm', 'strtest'):
            m = A(1)
            v = [self.resolve_str(x) if isinstance(x, Opq) else x for x in (
                A(i) for i in range(2, len(t.args)))]
            if m == 'join' and isinstance(v[-1], list) and all(
                    isinstance(x, str) for x in v[-1]):
                return v[0].join(v[-1])
            v = [self.intv(x) if isinstance(x, (int, Fraction)) else x
                 for x in v]
            u = t.args[2]
            if m == 'zfill' and u.op == 'fn' and u.args[0] == 'str':
                # digits of a whole number
                x = self.ev(u.args[1], env)
                if isinstance(x, (int, Fraction)) and x == int(x) >= 0 and \
                        not isinstance(x, bool) and isinstance(v[1], int):
                    return '0' * max(0, v[1] - len(str(int(x)))) + v[0]
            if not all(isinstance(x, (str, int)) and 'fmt' not in str(x)
                       for x in v) or not isinstance(v[0], str):
                raise Bad('text')
            try:
                if m.startswith('os.path.'):
                    m = m[8:].split('.')
                    r = getattr(posixpath, m[0])(*v)
                    return r[int(m[1])] if m[1:] else r
                return getattr(v[0], m)(*v[1:])
            except TypeError:
                raise Fail('text')
        if n == 'rangelen':
            a, b, s = N(1), N(2), N(3)
            if s == 0:
                raise Bad('range')
            return max(0, math.ceil(Fraction(b - a) / Fraction(s)))
        if n == 'is' and len(t.args) > 3:
            pass
        # uninterpreted: a random function of its arguments
        args = tuple(canon(self.ev(a, env)) if isinstance(a, T) else a
                     for a in t.args[1:])
        if n in ('interp', 'interp1d') and 'assume_sorted' not in repr(
                args[2]) and isinstance(args[0], tuple) and \
                isinstance(args[1], tuple) and len(args[0]) == len(args[1]):
            # an interpolant does not depend on the order of its points
            z = sorted(zip(args[0], args[1]), key=repr)
            args = (tuple(a for a, b in z), tuple(b for a, b in z)) + args[2:]
        if n == 'split' or n == 'float' and isinstance(
                args[0], tuple) and args[0][0] == 's':
            v = [A(i) for i in range(1, len(t.args))]
            v = [self.resolve_str(x) if isinstance(x, Opq) else x for x in v]
            try:
                if all(isinstance(x, str) and 'fmt' not in x for x in v):
                    return v[0].split(v[1]) if n == 'split' else \
                        Fraction(v[0])
            except ValueError:
                raise Fail('no number')
            raise Bad('text of a number')
        args = self.snap(n, args)
        if n in ('format', 'str'):
            return 'fmt' + hashlib.md5(repr((n, args)).encode()).hexdigest()[:8]
        return Opq((n, args), X.FNSIGN.get(n), n in X.FNINT or n in X.INTFN)


# attributes that every object carrying them has from the beginning
ATTRIBUTES = set()


def given(v):
    """(name, changed attributes) of an object known by its name only"""
    if isinstance(v, Opq) and v.key[0] == 'sym':
        return v.key[1], {}
    if isinstance(v, Rec):
        d = dict(v.attrs)
        o = d.pop('@', None)
        if isinstance(o, Opq) and o.key[0] == 'sym':
            return o.key[1], d
    return None


def same_object(a, b, ev, tol):
    (n, da), (m, db) = given(a), given(b)
    if n != m:
        return None
    r = True
    for k in sorted(set(da) | set(db)):
        if k in da and k in db:
            c = close(da[k], db[k], ev, tol)
        else:
            # one of the two has it as it was
            s = X.CURRENT.get('%s.%s' % (n, k)) or \
                X.mk('sym', '%s.%s' % (n, k))
            if k.startswith('_') or s not in SYMINFO and k not in ATTRIBUTES:
                c = None
            elif s not in SYMINFO:
                c = False
            else:
                c = close(da[k] if k in da else db[k], ev.symval(s), ev, tol)
        if c is False:
            return False
        if c is None:
            r = None
    return r


def close(a, b, ev, tol=1e-7):
    """are two values the same observable?  None: cannot tell"""
    if (isinstance(a, Rec) or isinstance(b, Rec)) and given(a) and given(b):
        return same_object(a, b, ev, tol)
    if isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key:
        return True
    num = (int, float, Fraction)
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a == b
    if isinstance(a, Opq) and isinstance(b, Opq):
        # different uninterpreted values
        if a.key[0] in ('py', 'ref') or b.key[0] in ('py', 'ref'):
            return None
        return False
    if isinstance(a, num) or isinstance(b, num):
        if isinstance(a, (Opq,) + num) and isinstance(b, (Opq,) + num):
            x, y = ev.num(a), ev.num(b)
            if isinstance(x, float) or isinstance(y, float):
                x, y = float(x), float(y)
                if x != x or y != y:
                    raise Bad('nan')
                return abs(x - y) <= tol * max(1.0, abs(x), abs(y))
            return x == y
        return False
    if isinstance(a, (list, Opq)) and isinstance(b, (list, Opq)) and \
            (isinstance(a, list) or isinstance(b, list)):
        x, y = ev.seq(a), ev.seq(b)
        if len(x) != len(y):
            return False
        r = True
        for p, q in zip(x, y):
            c = close(p, q, ev, tol)
            if c is False:
                return False
            if c is None:
                r = None
        return r
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        r = True
        for k in a:
            c = close(a[k], b[k], ev, tol)
            if c is False:
                return False
            if c is None:
                r = None
        return r
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.cls != b.cls:
            return False
        da, db = dict(a.attrs), dict(b.attrs)
        if set(da) != set(db):
            return None
        r = True
        for k in da:
            c = close(da[k], db[k], ev, tol)
            if c is False:
                return False
            if c is None:
                r = None
        return r
    if isinstance(a, Opq) or isinstance(b, Opq):
        if isinstance(a, Opq):
            a, b = b, a
        if isinstance(a, str):
            return ev.resolve_str(b) == a
        if isinstance(a, bool):
            return ev.truth(b) == a
        return None if a is not None else False
    return canon(a) == canon(b)


def describe(v, ev=None, depth=0):
    if depth > 3:
        return '…'
    if isinstance(v, Fraction):
        return '%.6g' % float(v)
    if isinstance(v, float):
        return '%.6g' % v
    if isinstance(v, list):
        return '[' + ', '.join(describe(x, ev, depth + 1) for x in v[:8]) + \
            (', …(%d)' % len(v) if len(v) > 8 else '') + ']'
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (k[1] if len(k) > 1 else k,
                                           describe(x, ev, depth + 1))
                               for k, x in list(v.items())[:6]) + '}'
    if isinstance(v, Rec):
        return v.cls
    if isinstance(v, Opq):
        return '<%s>' % (v.key[0] if isinstance(v.key, tuple) and
                         isinstance(v.key[0], str) else 'v')
    return repr(v)


def witness(a, b, ev):
    w = {}
    for s in sorted(a.syms | b.syms, key=lambda s: str(s.args)):
        if s.op == 'sym' and s in ev.memo:
            w[s.args[0]] = describe(ev.memo[s][0])
    return w


def constant(a, b):
    """closed interpreted terms with the same value"""
    def interpreted(t, seen):
        if t in seen:
            return True
        seen.add(t)
        if t.op in ('py', 'ref', 'sym') or t.op == 'fn' and \
                t.args[0] not in INTERPRETED:
            return False
        kids = [x for m, c in t.args[0] for x, e in m] if t.op == 'poly' \
            else [x for x in t.args if isinstance(x, T)]
        return all(interpreted(x, seen) for x in kids)
    if not interpreted(a, set()) or not interpreted(b, set()):
        return False
    ev = Eval((0, 0), None, set())
    try:
        return close(ev.ev(a, EMPTY), ev.ev(b, EMPTY), ev) is True
    except (Bad, RecursionError, ArithmeticError, ValueError):
        return False


def thresholds(a, b):
    """the numbers that conditions of only one of two terms compare with"""
    def walk(t, seen):
        if t in seen:
            return
        seen.add(t)
        kids = [x for m, c in t.args[0] for x, e in m] if t.op == 'poly' \
            else [x for x in t.args if isinstance(x, T)]
        for x in kids:
            walk(x, seen)
    sa, sb = set(), set()
    walk(a, sa)
    walk(b, sb)
    vals, lens = set(), set()
    for t in sa ^ sb:
        if t.op in ('ge0', 'gt0', 'eq0'):
            p = X.poly_of(t.args[0])
        elif t.op == 'fn' and t.args[0] in ('max', 'min', 'slice'):
            p = {}
            for x in t.args[2 if t.args[0] == 'slice' else 1:]:
                if x.op == 'num':
                    vals.add(abs(x.args[0]))
                    if t.args[0] == 'slice':
                        lens.add(abs(x.args[0]))
                elif x.op == 'poly':
                    p = X.poly_of(x)
                    for m, c in p.items():
                        if any(y.op == 'fn' and y.args[0] == 'len'
                               for y, e in m):
                            lens.add(abs(Fraction(p.get((), 0)) / Fraction(c)))
            continue
        else:
            continue
        c0 = p.get((), 0)
        for m, c in p.items():
            if not m:
                continue
            v = abs(Fraction(c0) / Fraction(c))
            vals.add(v)
            if any(x.op == 'fn' and x.args[0] == 'len' or x.op == 'bsum'
                   for x, e in m):
                lens.add(v)
    vals = sorted(v for v in vals if 0 < v < 10 ** 7)[:40]
    lens = sorted({int(v) for v in lens if 1 <= v <= 10000})[:12]
    return vals, lens


def separate(a, b, assume=(), domains=None, tries=240, want=2, seed=1,
             cmp=None, seqlen=None, seconds=None):
    """search an assignment on which the values of a and b differ.

    returns dict(status='differ'|'agree'|'unknown', valid=.., differing=..,
    witness=.., a=.., b=..)"""
    pool = set()
    for t in [a, b] + list(assume):
        literals(t, pool, set())
    near = thresholds(a, b)
    valid = diff = unk = fails = 0
    wit = None
    t0 = time.monotonic()
    for i in range(tries):
        if seconds and i >= 24 and time.monotonic() - t0 > \
                seconds * (3 if diff else 1):
            break
        ev = Eval((seed, i), domains, pool, seqlen=seqlen,
                  near=near if i % 2 else ((), ()))
        try:
            if not all(ev.truth(ev.ev(c, EMPTY)) for c in assume):
                continue
            vb = ev.ev(b, EMPTY)
            try:
                va = ev.ev(a, EMPTY)
            except Fail as e:
                fails += 1
                if fails >= 4:
                    if wit is None:
                        wit = (witness(a, b, ev), 'an error: %s' % e,
                               describe(vb))
                    diff = max(diff, want)
                    valid += 1
                    break
                continue
            c = (cmp or close)(va, vb, ev)
        except Bad:
            continue
        except RecursionError:
            continue
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        valid += 1
        if c is None:
            unk += 1
        elif c is False:
            diff += 1
            if wit is None:
                wit = (witness(a, b, ev), describe(va), describe(vb))
        if diff >= want:
            break
    st = 'differ' if diff >= want else 'agree' if valid >= 8 and not diff and \
        not unk else 'unknown'
    return dict(status=st, valid=valid, differing=diff,
                witness=wit and wit[0], a=wit and wit[1], b=wit and wit[2])
