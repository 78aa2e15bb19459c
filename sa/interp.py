"""Interprocedural gated value numbering for the Python subset ghedt uses.

The interpreter makes ONE forward pass over every function body it reaches:
branches are joined with gated (``ite``) values, loops are summarised by solving
the header equations (closed forms where the recurrences allow, fold terms
otherwise) and calls are inlined context-sensitively.  Nothing is executed and
no path is enumerated; the result is a value graph plus a log of effects (calls,
raises, warnings, writes) with the gate under which each one happens.
"""
import ast
import builtins
import os
from .terms import *
from . import terms as tm


class Undecided(Exception):
    """construct outside the analysable subset (the verdict becomes unknown)"""


class AnalysisBroken(Exception):
    """an anchor the rule needs has disappeared"""


class Dead(Exception):
    """the current path cannot continue (every path raised)"""


# ---------------------------------------------------------------- python values
PYVALS = []


def py(v):
    for n, x in enumerate(PYVALS):
        if x is v or (type(x) is type(v) and x == v and
                      isinstance(v, (Ext, Builtin))):
            return mk('py', n)
    PYVALS.append(v)
    return mk('py', len(PYVALS) - 1)


def pyval(t):
    return PYVALS[t.args[0]] if t.op == 'py' else None


class Ext:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Builtin:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.vars = {}
        self.loaded = False


class Class:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.methods = {}
        self.attrs = {}

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def mro(self):
        # C3 is unnecessary for this code base: depth-first, last duplicate kept
        out = []

        def go(c):
            out.append(c)
            if isinstance(c, Class):
                for b in c.bases:
                    go(b)
        go(self)
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        return res

    def find(self, name):
        for c in self.mro():
            if isinstance(c, Class):
                if name in c.methods:
                    return c, c.methods[name]
                if name in c.attrs:
                    return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, Class)]

    def __repr__(self):
        return 'Class(%s)' % self.qual


class Func:
    def __init__(self, name, node, module, closure=None, cls=None, kind=None,
                 defaults=None, kwdefaults=None):
        self.name, self.node, self.module = name, node, module
        self.closure, self.cls, self.kind = closure, cls, kind
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}

    @property
    def qual(self):
        if self.cls is not None:
            return self.cls.qual + '.' + self.name
        return self.module.name + '.' + self.name

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Method:
    """method of a non-class value (list.append, opaque.foo)"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


# ---------------------------------------------------------------- heap cells
class Frame:
    __slots__ = ('vars', 'parent')

    def __init__(self, vars_, parent):
        self.vars, self.parent = vars_, parent


class Obj:
    __slots__ = ('cls', 'attrs', 'name')

    def __init__(self, cls, attrs, name=None):
        self.cls, self.attrs, self.name = cls, attrs, name


class Lst:
    __slots__ = ('val', 'kind')

    def __init__(self, val, kind):
        self.val, self.kind = val, kind


class Dct:
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


class Event:
    __slots__ = ('kind', 'name', 'args', 'kwargs', 'cond', 'loops', 'node',
                 'func', 'res', 'extra')

    def __init__(self, kind, name, args, cond, node, func, res=None,
                 kwargs=None, extra=None):
        self.kind, self.name, self.args, self.cond = kind, name, args, cond
        self.node, self.func, self.res = node, func, res
        self.loops = []
        self.kwargs = kwargs or {}
        self.extra = extra

    def __repr__(self):
        return '<%s %s%s if %s%s>' % (
            self.kind, self.name, [show(a) if isinstance(a, T) else a
                                   for a in self.args],
            show(self.cond),
            ' in ' + str([(show(a), show(b)) for a, b in self.loops])
            if self.loops else '')

    def line(self):
        return getattr(self.node, 'lineno', 0)


class State:
    __slots__ = ('heap', 'path', 'facts')

    def __init__(self, heap=None, path=(), facts=()):
        self.heap = heap if heap is not None else {}
        self.path = path
        self.facts = facts

    def fork(self):
        return State(dict(self.heap), self.path, self.facts)

    def assume(self, c):
        if c is TRUE:
            return self
        self.path = self.path + (c,)
        self.facts = self.facts + tuple(f for f in flat_facts(c)
                                        if f not in self.facts)
        return self

    def cond(self, base=0):
        return and_(*self.path[base:])

    def become(self, o):
        self.heap, self.path, self.facts = o.heap, o.path, o.facts


class Out:
    def __init__(self, fall=None):
        self.fall = fall
        self.rets = []
        self.brks = []
        self.conts = []


MISSING = object()


class Interp:
    def __init__(self, repo, unroll_lit=16, unroll_range=4):
        self.repo = repo
        self.modules = {}
        self.events = []
        self.nid = 0
        self.cuts = {}          # qualname -> handler(interp, func, args, kw, st)
        self.shapes = {}        # (lazy object name or class name, attr) -> maker
        self.depth = 0
        self.stack = []
        self.raise_stack = [[]]
        self.muted = 0
        self.functions = set()  # quals analysed
        self.notes = []
        self.unroll_lit = unroll_lit
        self.unroll_range = unroll_range
        self.cur_module = None
        self.trace_calls = set()
        self.trace_attrs = False
        from . import models
        self.models = models
        self.budget = 400000
        self.lazies = {}
        self.objref = {}
        self.views = {}         # arrays that are parts of another
        self.viewed = {}
        self.objterms = set()   # objects whose identity a loop hides
        self.temps = {}         # cells made for parts of frozen values

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def add_source(self, name, text):
        """register an in-memory module (reference definitions)"""
        m = Module(name, '<%s>' % name, ast.parse(text))
        self.modules[name] = m
        self._load(m)
        return m

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        p = self.module_path(name)
        if p is None:
            return None
        with open(p, encoding='utf8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
        m = Module(name, p, tree)
        self.modules[name] = m
        self._load(m)
        return m

    def _load(self, m):
        m.loaded = True
        is_pkg = m.path.endswith('__init__.py')
        pkg = m.name if is_pkg else m.name.rpartition('.')[0]
        self._load_body(m, m.tree.body, pkg)

    def _load_body(self, m, body, pkg):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.vars[a.asname] = self.ext_or_module(a.name)
                    else:
                        top = a.name.split('.')[0]
                        m.vars[top] = self.ext_or_module(top)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    b = pkg.split('.')
                    b = b[:len(b) - (n.level - 1)]
                    base = '.'.join(b + ([n.module] if n.module else []))
                for a in n.names:
                    m.vars[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                m.vars[n.name] = ('def', n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.vars[t.id] = ('expr', n.value)
                    elif isinstance(t, ast.Tuple):
                        for j, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.vars[e.id] = ('exprj', n.value, j)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    m.vars[n.target.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._load_body(m, n.body, pkg)
                for h in getattr(n, 'handlers', []):
                    pass

    def ext_or_module(self, name):
        if self.module_path(name) or name in self.modules:
            return ('mod', name)
        return py(Ext(name))

    def mod_attr(self, mod, name, st=None):
        v = mod.vars.get(name)
        if v is None:
            sub = mod.name + '.' + name
            if self.module_path(sub):
                return py(self.module(sub))
            return None
        if isinstance(v, T):
            return v
        if v[0] == 'mod':
            r = py(self.module(v[1]))
        elif v[0] == 'from':
            base, nm = v[1], v[2]
            if self.module_path(base) or base in self.modules:
                r = None
                bm = self.module(base)
                if bm is not None and bm is not mod or nm != name:
                    r = self.mod_attr(bm, nm)
                if r is None:
                    sub = base + '.' + nm
                    if self.module_path(sub):
                        r = py(self.module(sub))
                if r is None:
                    r = self.models.ext_attr(self, Ext(base), nm)
            else:
                r = self.models.ext_attr(self, Ext(base), nm)
        elif v[0] == 'def':
            n = v[1]
            if isinstance(n, ast.FunctionDef):
                f = Func(n.name, n, mod)
                r = py(f)
                mod.vars[name] = r
                self._defaults(f, State(), mod)
            else:
                r = py(self.make_class(n, mod))
        elif v[0] == 'expr':
            r = self.module_const(mod, v[1], name)
        elif v[0] == 'exprj':
            x = self.module_const(mod, v[1], name)
            r = index(x, num(v[2]))
        else:
            return None
        mod.vars[name] = r
        return r

    def module_const(self, mod, node, name):
        st = State()
        fid = self.new_frame(st, {}, None)
        try:
            old = self.cur_module
            self.cur_module = mod
            v = self.eval(node, st, fid, mod)
            return self.freeze(v, st, None)
        except (Undecided, Dead):
            return sym('%s.%s' % (mod.name, name), 'any')
        finally:
            self.cur_module = old

    def make_class(self, node, mod):
        bases = []
        for b in node.bases:
            st = State()
            fid = self.new_frame(st, {}, None)
            v = pyval(self.eval(b, st, fid, mod))
            if isinstance(v, (Class, Ext)):
                bases.append(v)
            elif isinstance(v, Builtin):
                if v.name != 'object':
                    bases.append(Ext('builtins.' + v.name))
        c = Class(node.name, mod, node, bases)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                kind = None
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id in (
                            'staticmethod', 'classmethod', 'property'):
                        kind = d.id
                f = Func(n.name, n, mod, cls=c, kind=kind)
                c.methods[n.name] = f
                self._defaults(f, State(), mod)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = self.module_const(mod, n.value,
                                                          node.name + '.' +
                                                          t.id)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                c.attrs[n.target.id] = self.module_const(
                    mod, n.value, node.name + '.' + n.target.id)
        return c

    def _defaults(self, f, st, mod, fid=None):
        a = f.node.args
        if fid is None:
            fid = self.new_frame(st, {}, None)

        def ev(d):
            try:
                v = self.eval(d, st, fid, mod)
                if v.op == 'ref' and v.args[0] not in ():
                    return self.freeze(v, st, None)
                return v
            except Undecided:
                return fresh('default')
        f.defaults = [ev(d) for d in a.defaults]
        f.kwdefaults = {k.arg: ev(d) for k, d in zip(a.kwonlyargs,
                                                     a.kw_defaults)
                        if d is not None}

    def lookup(self, dotted):
        """public anchor: module.attr[.attr]; raises AnalysisBroken"""
        parts = dotted.split('.')
        for k in range(len(parts), 0, -1):
            m = self.module('.'.join(parts[:k]))
            if m is not None:
                v = py(m)
                for p in parts[k:]:
                    pv = pyval(v)
                    if isinstance(pv, Module):
                        v = self.mod_attr(pv, p)
                    elif isinstance(pv, Class):
                        _, f = pv.find(p)
                        v = py(f) if isinstance(f, Func) else f
                    else:
                        v = None
                    if v is None:
                        raise AnalysisBroken('anchor %s not found' % dotted)
                return v
        raise AnalysisBroken('anchor %s not found' % dotted)

    # ------------------------------------------------------------ heap
    def alloc(self, st, cell):
        self.nid += 1
        st.heap[self.nid] = cell
        return mk('ref', self.nid)

    def new_frame(self, st, vars_, parent):
        self.nid += 1
        st.heap[self.nid] = Frame(vars_, parent)
        return self.nid

    def newlist(self, st, val, kind='list'):
        return self.alloc(st, Lst(val, kind))

    def newdict(self, st, val=EMPTYDICT):
        return self.alloc(st, Dct(val))

    def cell(self, t, st):
        if t.op == 'ref':
            return st.heap.get(t.args[0])
        return None

    def lazy(self, st, name, cls=None):
        """symbolic object whose attributes materialise on first read"""
        return self.alloc(st, Obj(cls, {}, name))

    def freeze(self, t, st, only, memo=None):
        """replace references (to cells in `only`, or all when None) by values"""
        if memo is None:
            memo = {}
        if t.op not in ('ref',) and not self._has_ref(t):
            return t
        if t in memo:
            return memo[t]
        memo[t] = t
        r = t
        if t.op == 'ref':
            if only is not None and t.args[0] not in only:
                r = t
            else:
                c = st.heap.get(t.args[0])
                if isinstance(c, Lst):
                    r = self.freeze(c.val, st, only, memo)
                elif isinstance(c, Dct):
                    r = self.freeze(c.val, st, only, memo)
                elif isinstance(c, Obj):
                    flat = []
                    for k in sorted(c.attrs):
                        v = self.freeze(c.attrs[k], st, only, memo)
                        if c.name is not None and self.pristine(
                                t.args[0], k, c.attrs[k], v):
                            continue
                        flat += [string(k), v]
                    if c.name is not None:
                        flat = [string('@'), sym(c.name, 'obj')] + flat
                    nm = c.cls.qual if isinstance(c.cls, Class) else \
                        (c.cls.name if isinstance(c.cls, Ext) else 'lazy')
                    if c.name is not None and len(flat) == 2:
                        r = flat[1]
                        self.objref.setdefault(r, t)
                    else:
                        r = mk('obj', string(nm), py(c.cls) if c.cls is not None
                               else NONE, *flat)
        elif t.op == 'poly':
            r = t
        elif t.op == 'seq':
            r = seq([self.freeze(a, st, only, memo) for a in t.args])
        elif t.op in ('e', 's', 'g', 'ite', 'fn', 'dict', 'obj'):
            args = [self.freeze(a, st, only, memo) if isinstance(a, T) else a
                    for a in t.args]
            if t.op == 'ite':
                r = ite(*args)
            elif t.op == 'fn':
                r = rebuild_fn(args[0], args[1:])
            elif t.op == 'g':
                r = mk('g', args[0], args[1])
            elif t.op == 'dict':
                r = mk('dict', *args)
            else:
                r = mk(t.op, *args)
        elif t.op in ('bfor', 'bsum', 'proj', 'bloop'):
            m = {}
            for x in t.syms:
                if x.op == 'ref' and x.args[0] in st.heap and (
                        only is None or x.args[0] in only):
                    v = self.freeze(x, st, only, memo)
                    if v is not x and x not in v.syms:
                        m[x] = v
            r = subst(t, m) if m else t
        memo[t] = r
        return r

    def pristine(self, i, name, v, frozen):
        """a symbolic object's attribute still has its initial value"""
        got = self.lazies.get((i, name))
        if got is None or got[0] is not v:
            return False
        if v.op != 'ref':
            return True
        c = got[1].get(v.args[0])
        if c is None:
            return False
        if isinstance(c, Obj):
            return c.name is not None and frozen is sym(c.name, 'obj')
        return frozen is c.val

    _refmemo = {}

    def _has_ref(self, t):
        r = self._refmemo.get(t)
        if r is None:
            if t.op == 'ref':
                r = True
            elif t.op == 'poly':
                r = any(self._has_ref(a) for m, c in t.args[0] for a, e in m)
            else:
                r = any(self._has_ref(a) for a in t.args if isinstance(a, T))
            self._refmemo[t] = r
        return r

    def reach(self, t, st, seen=None):
        """cells reachable from a value"""
        seen = set() if seen is None else seen
        if t.op == 'ref':
            i = t.args[0]
            if i in seen:
                return seen
            seen.add(i)
            for _, v in self.cell_items(st.heap.get(i)):
                if isinstance(v, T):
                    self.reach(v, st, seen)
        elif self._has_ref(t):
            for a in ([a for m, c in t.args[0] for a, e in m]
                      if t.op == 'poly' else t.args):
                if isinstance(a, T):
                    self.reach(a, st, seen)
        return seen

    def thaw(self, t, st):
        """a frozen value bound to a variable: give containers a cell again"""
        if t.op == 'obj':
            attrs = {}
            name = None
            for i in range(2, len(t.args), 2):
                if t.args[i].args[0] == '@':
                    name = t.args[i + 1].args[0]
                    continue
                attrs[t.args[i].args[0]] = self.thaw(t.args[i + 1], st)
            c = pyval(t.args[1])
            return self.alloc(st, Obj(c, attrs, name))
        if t in self.objref and self.objref[t].args[0] in st.heap:
            return self.objref[t]
        if t.op == 'ite' and any(x.op == 'obj' for x in self.objleaves(t)):
            return ite(t.args[0], self.thaw(t.args[1], st),
                       self.thaw(t.args[2], st))
        if is_seq(t):
            return self.newlist(st, t)
        if t.op == 'dict' or t in self.models.DICTSYMS:
            return self.newdict(st, t)
        return t

    def objleaves(self, v, out=None):
        """the alternatives of a value"""
        out = [] if out is None else out
        if v.op == 'ite':
            self.objleaves(v.args[1], out)
            self.objleaves(v.args[2], out)
        else:
            out.append(v)
        return out

    def objectlike(self, v, st):
        """one of the alternatives is an object of the program"""
        if not isinstance(v, T):
            return False
        return any(x.op == 'obj' or x in self.objterms or
                   (x.op == 'ref' and isinstance(st.heap.get(x.args[0]), Obj))
                   for x in self.objleaves(v))

    # ------------------------------------------------------------ variables
    def getvar(self, name, st, fid, mod):
        f = fid
        while f is not None:
            fr = st.heap[f]
            if name in fr.vars:
                v = fr.vars[name]
                if v is MISSING:
                    break
                return v
            f = fr.parent
        if mod is not None:
            v = self.mod_attr(mod, name)
            if v is not None:
                return v
        if name in self.models.BUILTINS:
            return py(Builtin(name))
        raise Undecided('unbound name %s' % name)

    def setvar(self, name, v, st, fid, mod=None):
        fr = st.heap[fid]
        nonl = fr.vars.get('__nonlocal__')
        if nonl and name in nonl:
            f = fr.parent
            while f is not None:
                if name in st.heap[f].vars:
                    fid = f
                    fr = st.heap[f]
                    break
                f = st.heap[f].parent
        d = dict(fr.vars)
        d[name] = v
        st.heap[fid] = Frame(d, fr.parent)

    # ------------------------------------------------------------ merging
    def merge_val(self, conds, vals):
        """gated value from exhaustive alternatives"""
        first = vals[0]
        if all(v is first for v in vals):
            return first
        r = vals[-1]
        if r is MISSING:
            nm = [v for v in vals if v is not MISSING]
            r = nm[-1] if nm else MISSING
        for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            if v is MISSING or v is r:
                continue
            r = ite(c, v, r)
        return r

    def merge(self, sts, base):
        """join alternative states forked from a common ancestor; base = length
        of the common path prefix"""
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        conds = []
        known = list(sts[0].facts[:0])
        for s in sts:
            c = s.cond(base)
            conds.append(c)
        # simplify c_k under not c_1..c_{k-1}
        sc = []
        neg_ = []
        for c in conds:
            sc.append(simp(c, neg_) if neg_ else c)
            neg_ = neg_ + flat_facts(not_(c))
        out = State({}, sts[0].path[:base], ())
        allc = or_(*conds)
        # facts common to all
        common = [f for f in sts[0].facts if all(f in s.facts
                                                 for s in sts[1:])]
        out.facts = tuple(common)
        if allc is not TRUE:
            out.path = out.path + (allc,)
            for f in flat_facts(allc):
                if f not in out.facts:
                    out.facts = out.facts + (f,)
        ids = set()
        for s in sts:
            ids.update(s.heap)
        for i in ids:
            cells = [s.heap.get(i) for s in sts]
            pres = [c for c in cells if c is not None]
            c0 = pres[0]
            if all(c is c0 for c in pres):
                out.heap[i] = c0
                continue
            cc = [(sc[k], c) for k, c in enumerate(cells) if c is not None]
            cs = [a for a, _ in cc]
            cells = [b for _, b in cc]
            if isinstance(c0, Frame):
                names = {}
                for c in cells:
                    for n in c.vars:
                        names[n] = 1
                d = {}
                for n in names:
                    vs = [c.vars.get(n, MISSING) for c in cells]
                    if n == '__nonlocal__':
                        d[n] = vs[0]
                        continue
                    d[n] = self.merge_val(cs, vs)
                out.heap[i] = Frame(d, c0.parent)
            elif isinstance(c0, Obj):
                names = {}
                for c in cells:
                    for n in c.attrs:
                        names[n] = 1
                d = {}
                for n in names:
                    vs = []
                    for c in cells:
                        v = c.attrs.get(n, MISSING)
                        if v is MISSING and c.name is not None:
                            t = State(dict(out.heap))
                            t.heap[i] = c
                            v = self.materialise_attr(i, n, t)
                            for k, x in self.lazies[(i, n)][1].items():
                                out.heap.setdefault(k, x)
                        vs.append(v)
                    d[n] = self.merge_val(cs, vs)
                out.heap[i] = Obj(c0.cls, d, c0.name)
            elif isinstance(c0, Lst):
                out.heap[i] = Lst(self.merge_val(cs, [c.val for c in cells]),
                                  c0.kind)
            else:
                out.heap[i] = Dct(self.merge_val(cs, [c.val for c in cells]))
        return out

    def merge_rets(self, rets, base):
        """[(state,value)] -> (state, value)"""
        if not rets:
            raise Dead()
        if len(rets) == 1:
            return rets[0]
        conds = []
        neg_ = []
        for s, v in rets:
            c = s.cond(base)
            conds.append(simp(c, neg_) if neg_ else c)
            neg_ = neg_ + flat_facts(not_(c))
        st = self.merge([s for s, _ in rets], base)
        return st, self.join_values(conds, [v for _, v in rets], st)

    def join_values(self, conds, vals, st):
        """gated value; equal-length tuples are joined component-wise"""
        if all(v.op == 'seq' and all(g.op == 'e' for g in v.args)
               for v in vals) and len({len(v.args) for v in vals}) == 1:
            n = len(vals[0].args)
            return lit([self.merge_val(conds, [v.args[k].args[0]
                                               for v in vals])
                        for k in range(n)])
        return self.merge_val(conds, vals)

    # ------------------------------------------------------------ split on ite
    def on_alternatives(self, v, st, f):
        """apply f(v, st)->value where v may be a gated choice of references"""
        if v.op == 'ite' and self._has_ref_or_py(v):
            c = simp(v.args[0], st.facts)
            if c is TRUE:
                return self.on_alternatives(v.args[1], st, f)
            if c is FALSE:
                return self.on_alternatives(v.args[2], st, f)
            base = len(st.path)
            rets = []
            for cc, vv in ((c, v.args[1]), (not_(c), v.args[2])):
                s2 = st.fork().assume(cc)
                try:
                    r = self.on_alternatives(vv, s2, f)
                    rets.append((s2, r))
                except Dead:
                    pass
            s3, r = self.merge_rets(rets, base)
            st.become(s3)
            return r
        return f(v, st)

    def _has_ref_or_py(self, v):
        if v.op == 'ite':
            return self._has_ref_or_py(v.args[1]) or \
                self._has_ref_or_py(v.args[2])
        return v.op in ('ref', 'py', 'obj')

    # ------------------------------------------------------------ events
    def log(self, kind, name, args, st, node=None, res=None, kwargs=None,
            extra=None):
        e = Event(kind, name, args, st.cond(), node,
                  self.stack[-1] if self.stack else None, res, kwargs, extra)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fid, mod):
        out = Out()
        cur = st
        for n in stmts:
            if cur is None:
                break
            o = self.stmt(n, cur, fid, mod)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            cur = o.fall
        out.fall = cur
        return out

    def stmt(self, n, st, fid, mod):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('analysis budget exhausted')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(n).__name__)
        try:
            r = m(n, st, fid, mod)
        except Dead:
            return Out(None)
        return r if r is not None else Out(st)

    def s_Pass(self, n, st, fid, mod):
        return Out(st)

    def s_Expr(self, n, st, fid, mod):
        if isinstance(n.value, ast.Constant):
            return Out(st)
        self.eval(n.value, st, fid, mod)
        return Out(st)

    def s_Assign(self, n, st, fid, mod):
        v = self.eval(n.value, st, fid, mod)
        for t in n.targets:
            self.assign(t, v, st, fid, mod)
        return Out(st)

    def s_AnnAssign(self, n, st, fid, mod):
        if n.value is not None:
            v = self.eval(n.value, st, fid, mod)
            self.assign(n.target, v, st, fid, mod)
        return Out(st)

    def s_AugAssign(self, n, st, fid, mod):
        load = ast.copy_location(_as_load(n.target), n)
        a = self.eval(load, st, fid, mod)
        b = self.eval(n.value, st, fid, mod)
        c = self.cell(a, st)
        if isinstance(c, Lst) and c.kind == 'list' and \
                isinstance(n.op, ast.Add):
            # in-place extend
            st.heap[a.args[0]] = Lst(concat(c.val, self.seqval(b, st)),
                                     c.kind)
            return Out(st)
        if c is None and isinstance(n.op, ast.Add):
            if a.op == 'ite' and self._has_ref_or_py(a):
                # in-place extend of one of several lists
                alts = []
                if self.leaves(a, TRUE, alts) and all(isinstance(
                        self.cell(v, st), Lst) and self.cell(v, st).kind ==
                        'list' for _, v in alts):
                    x = self.seqval(b, st)
                    for k, v in alts:
                        l = self.cell(v, st)
                        st.heap[v.args[0]] = Lst(
                            ite(k, concat(l.val, x), l.val), l.kind)
                    return Out(st)
                if any(isinstance(self.cell(v, st), Lst) for _, v in alts):
                    raise Undecided('in-place extend of one of several values')
        r = self.binop(n.op, a, b, st, n)
        if isinstance(c, Lst) and (c.kind == 'array' or isinstance(
                n.op, ast.Mult)):
            # in place
            rc = self.cell(r, st)
            if isinstance(rc, Lst):
                self.check_views(a, st)
                st.heap[a.args[0]] = Lst(rc.val, c.kind)
                self.refresh_views(a.args[0], st)
                return Out(st)
        self.assign(n.target, r, st, fid, mod)
        return Out(st)

    def leaves(self, v, k, out):
        """(condition, value) of the alternatives; distinct references"""
        if v.op == 'ite':
            return self.leaves(v.args[1], and_(k, v.args[0]), out) & \
                self.leaves(v.args[2], and_(k, not_(v.args[0])), out)
        out.append((k, v))
        return v not in [x for _, x in out[:-1]]

    def s_Delete(self, n, st, fid, mod):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, MISSING, st, fid)
            elif isinstance(t, ast.Subscript):
                # del x[a:b] is x[a:b] = [], del x[i] is x.pop(i)
                if isinstance(t.slice, ast.Slice):
                    new = ast.Assign([ast.Subscript(t.value, t.slice,
                                                    ast.Store())],
                                     ast.List([], ast.Load()))
                else:
                    new = ast.Expr(ast.Call(ast.Attribute(
                        t.value, 'pop', ast.Load()), [t.slice], []))
                ast.copy_location(new, n)
                ast.fix_missing_locations(new)
                st = self.stmt(new, st, fid, mod).fall
            else:
                raise Undecided('del of a component')
        return Out(st)

    def s_Return(self, n, st, fid, mod):
        v = self.eval(n.value, st, fid, mod) if n.value is not None else NONE
        o = Out(None)
        o.rets.append((st, v))
        return o

    def s_Break(self, n, st, fid, mod):
        o = Out(None)
        o.brks.append(st)
        return o

    def s_Continue(self, n, st, fid, mod):
        o = Out(None)
        o.conts.append(st)
        return o

    def s_Global(self, n, st, fid, mod):
        raise Undecided('global statement')

    def s_Nonlocal(self, n, st, fid, mod):
        fr = st.heap[fid]
        d = dict(fr.vars)
        d['__nonlocal__'] = tuple(n.names) + tuple(d.get('__nonlocal__', ()))
        st.heap[fid] = Frame(d, fr.parent)
        return Out(st)

    def s_Import(self, n, st, fid, mod):
        for a in n.names:
            v = self.ext_or_module(a.name if a.asname else
                                   a.name.split('.')[0])
            if isinstance(v, tuple):
                v = py(self.module(v[1]))
            self.setvar(a.asname or a.name.split('.')[0], v, st, fid)
        return Out(st)

    def s_ImportFrom(self, n, st, fid, mod):
        for a in n.names:
            base = n.module or ''
            if n.level:
                is_pkg = mod.path.endswith('__init__.py')
                pkg = mod.name if is_pkg else mod.name.rpartition('.')[0]
                b = pkg.split('.')
                b = b[:len(b) - (n.level - 1)]
                base = '.'.join(b + ([n.module] if n.module else []))
            bm = self.module(base)
            v = self.mod_attr(bm, a.name) if bm is not None else None
            if v is None:
                v = self.models.ext_attr(self, Ext(base), a.name)
            self.setvar(a.asname or a.name, v, st, fid)
        return Out(st)

    def s_FunctionDef(self, n, st, fid, mod):
        f = Func(n.name, n, mod, closure=fid)
        self._defaults(f, st, mod, fid)
        self.setvar(n.name, py(f), st, fid)
        return Out(st)

    def s_ClassDef(self, n, st, fid, mod):
        self.setvar(n.name, py(self.make_class(n, mod)), st, fid)
        return Out(st)

    def s_Raise(self, n, st, fid, mod):
        name = 'Exception'
        v = None
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
            if isinstance(n.exc, ast.Call):
                try:
                    v = [self.eval(a, st, fid, mod) for a in n.exc.args]
                except Undecided:
                    v = None
        self.do_raise(name, st, n, v or [])
        raise Dead()

    def do_raise(self, name, st, node, args=()):
        e = self.log('raise', name, list(args), st, node)
        self.raise_stack[-1].append((st.fork(), name, e))

    def s_Assert(self, n, st, fid, mod):
        try:
            c = self.truth(self.eval(n.test, st, fid, mod), st)
        except Undecided:
            return Out(st)
        c = simp(c, st.facts)
        if c is TRUE:
            return Out(st)
        bad = st.fork().assume(not_(c))
        self.do_raise('AssertionError', bad, n)
        if c is FALSE:
            return Out(None)
        st.assume(c)
        return Out(st)

    def s_With(self, n, st, fid, mod):
        for it in n.items:
            v = self.eval(it.context_expr, st, fid, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fid, mod)
        return self.block(n.body, st, fid, mod)

    def s_If(self, n, st, fid, mod):
        c = self.truth(self.eval(n.test, st, fid, mod), st)
        c = simp(c, st.facts)
        if c is TRUE:
            return self.block(n.body, st, fid, mod)
        if c is FALSE:
            return self.block(n.orelse, st, fid, mod)
        base = len(st.path)
        s1 = st.fork().assume(c)
        s2 = st.fork().assume(not_(c))
        o1 = self.block(n.body, s1, fid, mod)
        o2 = self.block(n.orelse, s2, fid, mod)
        out = Out()
        out.rets = o1.rets + o2.rets
        out.brks = o1.brks + o2.brks
        out.conts = o1.conts + o2.conts
        falls = [s for s in (o1.fall, o2.fall) if s is not None]
        out.fall = self.merge(falls, base)
        return out

    def s_Try(self, n, st, fid, mod):
        base = len(st.path)
        self.raise_stack.append([])
        try:
            o = self.block(n.body, st.fork(), fid, mod)
        finally:
            raised = self.raise_stack.pop()
        out = Out()
        out.rets, out.brks, out.conts = o.rets, o.brks, o.conts
        falls = []
        if o.fall is not None:
            if n.orelse:
                o2 = self.block(n.orelse, o.fall, fid, mod)
                out.rets += o2.rets
                out.brks += o2.brks
                out.conts += o2.conts
                if o2.fall is not None:
                    falls.append(o2.fall)
            else:
                falls.append(o.fall)
        for s, name, ev in raised:
            handled = False
            for h in n.handlers:
                if self._matches(h.type, name):
                    handled = True
                    ev.kind = 'caught'
                    if h.name:
                        self.setvar(h.name, fresh('exc'), s, fid)
                    o2 = self.block(h.body, s, fid, mod)
                    out.rets += o2.rets
                    out.brks += o2.brks
                    out.conts += o2.conts
                    if o2.fall is not None:
                        falls.append(o2.fall)
                    break
            if not handled:
                self.raise_stack[-1].append((s, name, ev))
        fall = self.merge(falls, base) if falls else None
        if n.finalbody:
            def fin(s):
                return self.block(n.finalbody, s, fid, mod).fall
            if fall is not None:
                fall = fin(fall)
            out.rets = [(fin(s), v) for s, v in out.rets]
            out.brks = [fin(s) for s in out.brks]
            out.conts = [fin(s) for s in out.conts]
        out.fall = fall
        return out

    def _matches(self, t, name):
        if t is None:
            return True
        names = []
        for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
            names.append(e.id if isinstance(e, ast.Name) else
                         getattr(e, 'attr', ''))
        if name in names or 'Exception' in names or 'BaseException' in names:
            return True
        return any(name in SUBEXC.get(x, ()) for x in names)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fid, mod):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fid, mod)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                raise Undecided('starred target')
            for k, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, num(k), st), st, fid, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fid, mod)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fid, mod)
            self.setitem_node(t, o, v, st, fid, mod)
        else:
            raise Undecided('assignment target')

    def setattr(self, o, name, v, st, node=None):
        def f(o, st):
            c = self.cell(o, st)
            if isinstance(c, Obj):
                d = dict(c.attrs)
                d[name] = v
                st.heap[o.args[0]] = Obj(c.cls, d, c.name)
                if self.trace_attrs:
                    self.log('setattr', name, [o, v], st, node)
                return NONE
            if isinstance(c, Lst) and c.kind == 'array':
                return NONE
            raise Undecided('attribute store %s on %s' % (name, o.op))
        self.on_alternatives(o, st, f)

    def setitem_node(self, t, o, v, st, fid, mod):
        sl = t.slice
        if isinstance(sl, ast.Slice):
            a = self.eval(sl.lower, st, fid, mod) if sl.lower else NONE
            b = self.eval(sl.upper, st, fid, mod) if sl.upper else NONE
            if sl.step is not None:
                raise Undecided('strided slice store')

            def f(o, st):
                c = self.cell(o, st)
                if not isinstance(c, Lst):
                    raise Undecided('slice store on non-list')
                self.check_views(o, st)
                self.store_slice(o, c, a, b, v, st)
                self.refresh_views(o.args[0], st)
                return NONE
            self.on_alternatives(o, st, f)
            return
        i = self.subscript_index(sl, st, fid, mod)
        self.setitem(o, i, v, st, t, fid, mod)

    def store_slice(self, o, c, a, b, v, st):
        vv = self.seqval(v, st) if self.is_container(v, st) else v
        if a is NONE and b is NONE:
            if self.is_container(v, st):
                st.heap[o.args[0]] = Lst(vv, c.kind)
            else:
                k = fresh('k', 'int', 0)
                st.heap[o.args[0]] = Lst(seqfor(length(c.val), k, lit([vv])),
                                         c.kind)
            return
        lo = ZERO if a is NONE else a
        n = length(c.val)
        hi = n if b is NONE else b
        if is_num(lo) and nval(lo) < 0:
            lo = add(n, lo)
        if is_num(hi) and nval(hi) < 0:
            hi = add(n, hi)
        if not self.is_container(v, st):
            k = fresh('k', 'int', 0)
            vv = seqfor(sub(hi, lo), k, lit([vv]))
        if is_num(lo) and is_num(hi) and is_num(n) and \
                0 <= nval(lo) <= nval(hi) <= nval(n):
            st.heap[o.args[0]] = Lst(concat(
                slice_(c.val, NONE, lo), vv, slice_(c.val, hi, NONE)), c.kind)
            return
        st.heap[o.args[0]] = Lst(mk('fn', 'storeslice', c.val, lo, hi, vv),
                                 c.kind)

    def check_views(self, o, st):
        i = o.args[0]
        if i in self.views and self.views[i][0] in st.heap:
            raise Undecided('store into a view of an array')

    def refresh_views(self, i, st):
        """the parts of an array follow the array"""
        for v in self.viewed.get(i, ()):
            if v in st.heap:
                _, a, b = self.views[v]
                st.heap[v] = Lst(slice_(st.heap[i].val, a, b), 'array')
                self.refresh_views(v, st)

    def setitem(self, o, i, v, st, t=None, fid=None, mod=None):
        def f(o, st):
            c = self.cell(o, st)
            if isinstance(c, Lst):
                self.check_views(o, st)
                ii = i
                if is_num(ii) and nval(ii) < 0 and c.val.op != 'seq':
                    ii = add(length(c.val), ii)
                if c.kind == 'grid':
                    self.models.grid_store(self, c, ii, v, st)
                    return NONE
                st.heap[o.args[0]] = Lst(self.models.store_nd(c.val, ii, v),
                                         c.kind)
                self.refresh_views(o.args[0], st)
                if self.trace_attrs:
                    self.log('setitem', '[]', [o, i, v], st, t)
                return NONE
            if isinstance(c, Dct):
                st.heap[o.args[0]] = Dct(dstore(c.val, i, v))
                return NONE
            # nested frozen container: rebuild through the parent target
            if t is not None and isinstance(t.value, ast.Subscript):
                if is_seq(o):
                    nv = store(o, i, v)
                else:
                    nv = dstore(o, i, v)
                self.assign(t.value, nv, st, fid, mod)
                return NONE
            raise Undecided('item store on %s' % show(o))
        self.on_alternatives(o, st, f)

    # ------------------------------------------------------------ expressions
    def eval(self, n, st, fid, mod):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(n).__name__)
        return m(n, st, fid, mod)

    def e_Constant(self, n, st, fid, mod):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return NONE
        return mk('const', repr(v))

    def e_Name(self, n, st, fid, mod):
        try:
            return self.getvar(n.id, st, fid, mod)
        except Undecided:
            if self.never_bound(n.id, st, fid, mod):
                self.do_raise('NameError', st, n)
                raise Dead()
            raise

    def never_bound(self, name, st, fid, mod):
        """no path to here gives the name a value"""
        f = fid
        while f is not None:
            if name in st.heap[f].vars:
                return False
            f = st.heap[f].parent
        if mod is None or mod.tree is None or hasattr(builtins, name) or \
                name.startswith('__'):
            return False
        if not hasattr(mod, 'dynamic'):
            # names bound other than by plain assignments and loops
            d = mod.dynamic = set()
            for n in ast.walk(mod.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        d.add(a.name if a.name == '*' else
                              (a.asname or a.name).split('.')[0])
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    d.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    d.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    d.update(n.names)
                elif isinstance(n, (ast.NamedExpr, ast.Delete, ast.With,
                                    ast.Match)):
                    d.update(x.id for x in ast.walk(n)
                             if isinstance(x, ast.Name) and
                             not isinstance(x.ctx, ast.Load))
                    d.update(x.name for x in ast.walk(n)
                             if hasattr(x, 'name') and
                             isinstance(x.name, str))
                elif isinstance(n, ast.Name) and n.id in (
                        'exec', 'eval', 'globals', 'locals'):
                    d.add('*')
        return name not in mod.dynamic and '*' not in mod.dynamic

    def never_set(self, cls, name):
        """an object of this class that lacks the attribute lacks it for good"""
        if not isinstance(cls, Class) or name.startswith('__'):
            return False
        for c in cls.mro():
            if not isinstance(c, Class) or '__getattr__' in c.methods or \
                    '__getattribute__' in c.methods or c.node is None or \
                    c.node.decorator_list:
                return False
            # what a stand-in leaves out is not known
            if any(q.startswith(c.qual + '.') for q in self.cuts):
                return False
            if any(isinstance(n, ast.Name) and n.id in ('setattr', 'vars') or
                   isinstance(n, ast.Attribute) and n.attr == '__dict__'
                   for n in ast.walk(c.module.tree)):
                return False
        return True

    def e_Tuple(self, n, st, fid, mod):
        return lit([self.eval(e, st, fid, mod) for e in n.elts])

    def e_List(self, n, st, fid, mod):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs += segs_of(self.seqval(self.eval(e.value, st, fid, mod),
                                            st))
            else:
                segs.append(elem(self.eval(e, st, fid, mod)))
        return self.newlist(st, mk('seq', *segs))

    def e_Set(self, n, st, fid, mod):
        return mk('fn', 'set', lit([self.eval(e, st, fid, mod)
                                    for e in n.elts]))

    def e_Dict(self, n, st, fid, mod):
        d = EMPTYDICT
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, st, fid, mod)
                c = self.cell(x, st)
                dv = c.val if isinstance(c, Dct) else x
                if dv.op != 'dict':
                    raise Undecided('dict splat')
                for kk, vv in dict_items(dv):
                    d = dstore(d, kk, vv)
                continue
            d = dstore(d, self.eval(k, st, fid, mod),
                       self.eval(v, st, fid, mod))
        return self.newdict(st, d)

    def e_JoinedStr(self, n, st, fid, mod):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.eval(v.value, st, fid, mod)
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st, fid, mod)
                    if sp.op == 'str':
                        parts.append(self.models.fmt(self, x, sp.args[0], st))
                    else:
                        parts.append(mk('fn', 'format', x, sp))
                else:
                    parts.append(self.models.tostr(self, x, st))
        return self.models.strcat(parts)

    def e_Lambda(self, n, st, fid, mod):
        node = ast.FunctionDef(name='<lambda>', args=n.args, body=[
            ast.copy_location(ast.Return(value=n.body), n)],
            decorator_list=[], returns=None)
        ast.copy_location(node, n)
        f = Func('<lambda>', node, mod, closure=fid)
        self._defaults(f, st, mod, fid)
        return py(f)

    def e_UnaryOp(self, n, st, fid, mod):
        v = self.eval(n.operand, st, fid, mod)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st))
        if isinstance(n.op, ast.USub):
            if self.is_array(v, st):
                return self.elementwise(lambda a: neg(a), [v], st)
            return neg(self.numval(v))
        if isinstance(n.op, ast.UAdd):
            return v
        return mk('fn', 'invert', v)

    def numval(self, v):
        if v.op in ('ref', 'py', 'none', 'str', 'dict', 'obj'):
            raise Undecided('arithmetic on %s' % v.op)
        return v

    def e_BinOp(self, n, st, fid, mod):
        a = self.eval(n.left, st, fid, mod)
        b = self.eval(n.right, st, fid, mod)
        return self.binop(n.op, a, b, st, n)

    def is_container(self, v, st):
        c = self.cell(v, st)
        return isinstance(c, Lst) or is_seq(v)

    def is_array(self, v, st):
        if v.op == 'ite':
            return self.is_array(v.args[1], st) and \
                self.is_array(v.args[2], st)
        c = self.cell(v, st)
        return isinstance(c, Lst) and c.kind == 'array'

    def seqval(self, v, st):
        """sequence term of a list-like value"""
        c = self.cell(v, st)
        if isinstance(c, Lst):
            return c.val
        if isinstance(c, Dct):
            return dkeys(c.val)
        if isinstance(c, Obj):
            raise Undecided('object used as a sequence')
        if v.op == 'dict':
            return dkeys(v)
        if v.op == 'ite':
            return ite(v.args[0], self.seqval(v.args[1], st),
                       self.seqval(v.args[2], st))
        if v.op == 'fn' and v.args[0] in ('range', 'enumerate', 'zip', 'map',
                                          'reversedit', 'filter'):
            return self.models.materialise(self, v, st)
        return v

    def elementwise(self, f, vals, st):
        """map f over arrays with scalar broadcasting; result is an array"""
        seqs = []
        n = None
        for v in vals:
            if self.is_container(v, st):
                s = self.seqval(v, st)
                seqs.append(s)
                if n is None:
                    n = length(s)
            else:
                seqs.append(None)
        # all literals
        if all(s is None or (s.op == 'seq' and all(g.op == 'e' for g in s.args))
               for s in seqs):
            L = max(len(s.args) for s in seqs if s is not None)
            out = []
            for k in range(L):
                args = []
                for v, s in zip(vals, seqs):
                    if s is None:
                        args.append(v)
                    elif len(s.args) == 1:
                        args.append(s.args[0].args[0])
                    elif k < len(s.args):
                        args.append(s.args[k].args[0])
                    else:
                        raise Undecided('broadcast')
                out.append(f(*args))
            return self.newlist(st, lit(out), 'array')
        # same segment structure: zip segment-wise
        z = self.models.zipmap(f, [(v if s is None else None, s)
                                   for v, s in zip(vals, seqs)])
        if z is not None:
            return self.newlist(st, z, 'array')
        k = fresh('k', 'int', 0)
        args = [v if s is None else index(s, k) for v, s in zip(vals, seqs)]
        return self.newlist(st, seqfor(n, k, lit([f(*args)])), 'array')

    def binop(self, op, a, b, st, node=None):
        if a.op == 'ite' and self._has_ref_or_py(a):
            return self.on_alternatives(a, st, lambda x, s: self.binop(
                op, x, b, s, node))
        if b.op == 'ite' and self._has_ref_or_py(b):
            return self.on_alternatives(b, st, lambda x, s: self.binop(
                op, a, x, s, node))
        o = type(op).__name__
        if not self.cuts and 'none' in (a.op, b.op) and {a.op, b.op} <= {
                'none', 'num', 'str', 'poly'} or o in (
                    'Sub', 'Div', 'FloorDiv', 'Pow') and 'str' in (
                        a.op, b.op) and {a.op, b.op} <= {
                            'str', 'num', 'poly', 'none'}:
            self.do_raise('TypeError', st, node)
            raise Dead()
        if self.is_array(a, st) or self.is_array(b, st):
            f = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div,
                 'Pow': power, 'Mod': mod,
                 'FloorDiv': lambda x, y: floor(div(x, y))}.get(o)
            if f is None:
                raise Undecided('array operator %s' % o)

            def ff(x, y):
                # nested rows
                if is_seq(x) or is_seq(y):
                    raise Undecided('nested array arithmetic')
                return f(self.numval(x), self.numval(y))
            return self.elementwise(ff, [a, b], st)
        ca, cb = self.is_container(a, st), self.is_container(b, st)
        if o == 'Add':
            if ca and cb:
                return self.newlist(st, concat(self.seqval(a, st),
                                               self.seqval(b, st)))
            if a.op in ('str',) or b.op == 'str' or \
                    (a.op == 'fn' and a.args[0] in self.models.STRFN) or \
                    (b.op == 'fn' and b.args[0] in self.models.STRFN):
                return self.models.strcat([a, b])
            if ca or cb:
                raise Undecided('list + scalar')
            return add(self.numval(a), self.numval(b))
        if o == 'Sub':
            return sub(self.numval(a), self.numval(b))
        if o == 'Mult':
            if ca or cb:
                s, k = (a, b) if ca else (b, a)
                return self.newlist(st, self.models.repeat(
                    self.seqval(s, st), k))
            if a.op == 'str' or b.op == 'str':
                s, k = (a, b) if a.op == 'str' else (b, a)
                if is_num(k):
                    return string(s.args[0] * int(nval(k)))
                return mk('fn', 'strrep', s, k)
            return mul(self.numval(a), self.numval(b))
        if o == 'Div':
            return div(self.numval(a), self.numval(b))
        if o == 'FloorDiv':
            return floor(div(self.numval(a), self.numval(b)))
        if o == 'Mod':
            if a.op == 'str':
                return self.models.percent(self, a, b, st)
            return mod(self.numval(a), self.numval(b))
        if o == 'Pow':
            return power(self.numval(a), self.numval(b))
        if o == 'BitAnd' and is_bool(a) and is_bool(b):
            return and_(a, b)
        if o == 'BitOr' and is_bool(a) and is_bool(b):
            return or_(a, b)
        if o == 'MatMult':
            return self.models.dot(self, a, b, st)
        return mk('fn', 'op' + o, a, b)

    def e_BoolOp(self, n, st, fid, mod):
        # value semantics of and/or with short-circuit facts
        vals = []
        base = len(st.path)
        cur = st.fork()
        is_and = isinstance(n.op, ast.And)
        conds = []
        res = None
        states = []
        for k, e in enumerate(n.values):
            v = self.eval(e, cur, fid, mod)
            c = simp(self.truth(v, cur), cur.facts)
            vals.append((v, c))
            if k == len(n.values) - 1:
                break
            if is_and:
                if c is FALSE:
                    break
                cur.assume(c)
            else:
                if c is TRUE:
                    break
                cur.assume(not_(c))
        # heap effects inside boolean operands are rare; keep those that happen
        st.heap = cur.heap
        if all(is_bool(v) for v, _ in vals):
            return and_(*[c for _, c in vals]) if is_and else \
                or_(*[c for _, c in vals])
        r = vals[-1][0]
        for v, c in reversed(vals[:-1]):
            r = ite(c, r, v) if is_and else ite(c, v, r)
        return r

    def e_Compare(self, n, st, fid, mod):
        left = self.eval(n.left, st, fid, mod)
        cs = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fid, mod)
            cs.append(self.compare(op, left, right, st))
            left = right
        if len(cs) == 1:
            return cs[0]
        return and_(*cs)

    def compare(self, op, a, b, st):
        o = type(op).__name__
        if o in ('Is', 'IsNot', 'Eq', 'NotEq'):
            if self.is_array(a, st) or self.is_array(b, st):
                if o in ('Eq', 'NotEq'):
                    f = (lambda x, y: eq(x, y)) if o == 'Eq' else \
                        (lambda x, y: not_(eq(x, y)))
                    return self.elementwise(f, [a, b], st)
            x, y = a, b
            if o in ('Eq', 'NotEq'):
                if self.is_container(a, st):
                    x = self.freeze(self.seqval(a, st), st, None)
                if self.is_container(b, st):
                    y = self.freeze(self.seqval(b, st), st, None)
            pa, pb = pyval(x), pyval(y)
            if pa is not None and pb is not None:
                r = TRUE if (pa is pb or pa == pb) else FALSE
            else:
                r = eq(x, y)
            return r if o in ('Is', 'Eq') else not_(r)
        if o in ('In', 'NotIn'):
            r = self.models.contains(self, a, b, st)
            return r if o == 'In' else not_(r)
        if self.is_array(a, st) or self.is_array(b, st):
            f = {'Lt': lt, 'LtE': le, 'Gt': lambda x, y: lt(y, x),
                 'GtE': lambda x, y: le(y, x)}[o]
            return self.elementwise(f, [a, b], st)
        a, b = self.numval(a), self.numval(b)
        if is_seq(a) or is_seq(b):
            return mk('fn', 'cmp' + o, a, b)
        if o == 'Lt':
            return lt(a, b)
        if o == 'LtE':
            return le(a, b)
        if o == 'Gt':
            return lt(b, a)
        return le(b, a)

    def e_IfExp(self, n, st, fid, mod):
        c = simp(self.truth(self.eval(n.test, st, fid, mod), st), st.facts)
        if c is TRUE:
            return self.eval(n.body, st, fid, mod)
        if c is FALSE:
            return self.eval(n.orelse, st, fid, mod)
        base = len(st.path)
        rets = []
        for cc, e in ((c, n.body), (not_(c), n.orelse)):
            s = st.fork().assume(cc)
            try:
                rets.append((s, self.eval(e, s, fid, mod)))
            except Dead:
                pass
        s, v = self.merge_rets(rets, base)
        st.become(s)
        return v

    def e_Attribute(self, n, st, fid, mod):
        o = self.eval(n.value, st, fid, mod)
        return self.getattr(o, n.attr, st)

    def e_Starred(self, n, st, fid, mod):
        raise Undecided('starred expression')

    def e_Subscript(self, n, st, fid, mod):
        o = self.eval(n.value, st, fid, mod)
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            a = self.eval(sl.lower, st, fid, mod) if sl.lower else NONE
            b = self.eval(sl.upper, st, fid, mod) if sl.upper else NONE
            if sl.step is not None:
                stp = self.eval(sl.step, st, fid, mod)
                if is_num(stp) and nval(stp) == -1 and a is NONE and b is NONE:
                    return self.newlist(st, self.models.reverse(
                        self.seqval(o, st)))
                if stp is not ONE and stp is not NONE:
                    return self.newlist(st, self.models.strided(
                        self.seqval(o, st), a, b, stp))
            return self.getslice(o, a, b, st)
        i = self.subscript_index(n.slice, st, fid, mod)
        return self.getitem(o, i, st)

    def subscript_index(self, sl, st, fid, mod):
        if isinstance(sl, ast.Tuple):
            parts = []
            for e in sl.elts:
                if isinstance(e, ast.Slice):
                    a = self.eval(e.lower, st, fid, mod) if e.lower else NONE
                    b = self.eval(e.upper, st, fid, mod) if e.upper else NONE
                    parts.append(mk('fn', 'slice2', a, b))
                else:
                    parts.append(self.eval(e, st, fid, mod))
            return lit(parts)
        return self.eval(sl, st, fid, mod)

    def getslice(self, o, a, b, st):
        def f(o, st):
            c = self.cell(o, st)
            kind = c.kind if isinstance(c, Lst) else 'list'
            s = self.seqval(o, st)
            if s.op == 'str' or (s.op == 'fn' and s.args[0] in
                                 self.models.STRFN):
                return slice_(s, a, b)
            r = self.newlist(st, slice_(s, a, b), kind)
            if kind == 'array' and o.op == 'ref':
                # shares its elements with the array
                self.views[r.args[0]] = (o.args[0], a, b)
                self.viewed.setdefault(o.args[0], []).append(r.args[0])
            return r
        return self.on_alternatives(o, st, f)

    def getitem(self, o, i, st):
        def f(o, st):
            c = self.cell(o, st)
            if isinstance(c, Dct):
                r = dget(c.val, i)
                if r.op == 'fn' and r.args[0] == 'KeyError':
                    self.do_raise('KeyError', st, None)
                    raise Dead()
                return r
            if o.op == 'dict':
                return dget(o, i)
            pv = pyval(i)
            if i.op == 'fn' and i.args[0] == 'sliceobj':
                return self.getslice(o, i.args[1], i.args[2], st)
            if isinstance(c, Lst):
                if c.kind == 'grid':
                    return self.models.grid_get(self, c, i, st)
                if is_seq(i) and i.op == 'seq':
                    return self.models.getitem_nd(self, c, i, st)
                ic = self.cell(i, st)
                if isinstance(ic, Lst):
                    return self.models.fancy(self, c, ic, st)
                r = index(c.val, i)
                if r.op == 'fn' and r.args[0] == 'index' and \
                        r.args[1].op == 'seq' and is_num(i) and \
                        all(g.op == 'e' for g in r.args[1].args):
                    self.do_raise('IndexError', st, None)
                    raise Dead()
                return r
            if isinstance(c, Obj):
                m = self.find_method(c, '__getitem__')
                if m is not None:
                    return self.call_func(m, [o, i], {}, st)
            if o.op == 'fn' and o.args[0] in ('range', 'zip', 'enumerate'):
                return index(self.seqval(o, st), i)
            if o.op == 'none':
                raise Undecided('subscript of None')
            return index(o, i)
        return self.on_alternatives(o, st, f)

    def find_method(self, c, name):
        if isinstance(c.cls, Class):
            _, f = c.cls.find(name)
            if isinstance(f, Func):
                return f
        return None

    def getattr(self, o, name, st):
        def f(o, st):
            if o.op == 'sym' and o in self.objref:
                o = self.thaw(o, st)
            pv = pyval(o)
            if pv is not None:
                if isinstance(pv, Module):
                    v = self.mod_attr(pv, name)
                    if v is None:
                        raise Undecided('no attribute %s in module %s' %
                                        (name, pv.name))
                    return v
                if isinstance(pv, Ext):
                    return self.models.ext_attr(self, pv, name)
                if isinstance(pv, Class):
                    if name == '__name__':
                        return string(pv.name)
                    _, m = pv.find(name)
                    if isinstance(m, Func):
                        return py(m)
                    if m is not None:
                        return m
                    for b in pv.ext_bases():
                        return py(Ext(b.name + '.' + name))
                    raise Undecided('class attribute %s' % name)
                if isinstance(pv, Func) and name == '__name__':
                    return string(pv.name)
                return py(Method(o, name))
            c = self.cell(o, st)
            if isinstance(c, Obj):
                if name in c.attrs and c.attrs[name] is not MISSING:
                    return c.attrs[name]
                if name == '__class__' and c.cls is not None:
                    return py(c.cls)
                if isinstance(c.cls, Class):
                    owner, m = c.cls.find(name)
                    if isinstance(m, Func):
                        if m.kind == 'property':
                            return self.call_func(m, [o], {}, st)
                        if m.kind == 'staticmethod':
                            return py(m)
                        if m.kind == 'classmethod':
                            return py(Bound(m, py(c.cls)))
                        return py(Bound(m, o))
                    if m is not None:
                        return m
                mk_ = None
                if isinstance(c.cls, (Class, Ext)):
                    bases = c.cls.mro() if isinstance(c.cls, Class) else \
                        [c.cls]
                    if any(isinstance(b, Ext) and self.models.has_ext_method(
                            b.name, name) for b in bases):
                        return py(Method(o, name))
                if name in ('__repr__', '__str__'):
                    return py(Method(o, name))
                if c.name is not None:
                    return self.materialise_attr(o.args[0], name, st)
                if isinstance(c.cls, Ext) or (isinstance(c.cls, Class) and
                                              c.cls.ext_bases()):
                    return py(Method(o, name))
                if name not in c.attrs and self.never_set(c.cls, name):
                    self.do_raise('AttributeError', st, None)
                    raise Dead()
                raise Undecided('missing attribute %s' % name)
            if o.op == 'obj':
                for k in range(2, len(o.args), 2):
                    if o.args[k].args[0] == name:
                        return o.args[k + 1]
                r = self.thaw(o, st)
                self.temps[r.args[0]] = dict(st.heap[r.args[0]].attrs)
                return self.getattr(r, name, st)
            if o in self.objterms:
                raise Undecided('attribute %s of an object chosen in a loop'
                                % name)
            if isinstance(c, Lst) and c.kind == 'array':
                r = self.models.array_attr(self, o, c, name, st)
                if r is not None:
                    return r
            if o.op == 'fn' and o.args[0] == 'interp1d' and name in ('x', 'y'):
                return self.newlist(st, o.args[1 if name == 'x' else 2],
                                    'array')
            if o.op in ('sym', 'bv', 'fn', 'proj') and maybe_num(o) and \
                    name not in self.models.METHOD_NAMES and \
                    not (o.op == 'fn' and o.args[0] in NUMFN):
                # a method or an attribute of an opaque value: decided at call
                return py(Method(o, name))
            return py(Method(o, name))
        return self.on_alternatives(o, st, f)

    def materialise_attr(self, i, name, st):
        """first read of an attribute of a symbolic object; the same value on
        every path"""
        got = self.lazies.get((i, name))
        if got is None:
            c = st.heap[i]
            ids = set(st.heap)
            v = self.lazy_attr(mk('ref', i), c, name, st)
            got = (v, {k: x for k, x in st.heap.items() if k not in ids})
            self.lazies[(i, name)] = got
        v, cells = got
        for k, x in cells.items():
            st.heap.setdefault(k, x)
        c = st.heap[i]
        d = dict(c.attrs)
        d[name] = v
        st.heap[i] = Obj(c.cls, d, c.name)
        return v

    def lazy_attr(self, o, c, name, st):
        key = (c.name, name)
        mk_ = self.shapes.get(key)
        if mk_ is None and c.cls is not None:
            bases = c.cls.mro() if isinstance(c.cls, Class) else [c.cls]
            for b in bases:
                mk_ = self.shapes.get((b.name, name))
                if mk_ is not None:
                    break
        if mk_ is None:
            mk_ = self.shapes.get(('*', name))
        if mk_ is None:
            return sym('%s.%s' % (c.name, name), 'any')
        if callable(mk_):
            return mk_(self, st, '%s.%s' % (c.name, name))
        kind = mk_
        return self.make_input('%s.%s' % (c.name, name), kind, st)

    def make_input(self, name, kind, st):
        """symbolic input of a given kind: pos nonneg real int posint seq array
        str bool any obj"""
        if kind == 'pos':
            return sym(name, 'real', 0, True)
        if kind == 'nonneg':
            return sym(name, 'real', 0)
        if kind == 'posint':
            return sym(name, 'int', 1)
        if kind == 'nat':
            return sym(name, 'int', 0)
        if kind == 'seq':
            return self.newlist(st, sym(name, 'seq'))
        if kind == 'array':
            return self.newlist(st, sym(name, 'seq'), 'array')
        if kind == 'dict':
            d = sym(name, 'any')
            self.models.DICTSYMS.add(d)
            return self.newdict(st, d)
        if kind == 'obj':
            return self.lazy(st, name)
        return sym(name, kind)

    # comprehensions are turned into the equivalent loop
    def e_ListComp(self, n, st, fid, mod):
        return self.comp(n, st, fid, mod, 'list')

    def e_GeneratorExp(self, n, st, fid, mod):
        return self.comp(n, st, fid, mod, 'list')

    def e_SetComp(self, n, st, fid, mod):
        return mk('fn', 'set', self.seqval(self.comp(n, st, fid, mod, 'list'),
                                           st))

    def e_DictComp(self, n, st, fid, mod):
        return self.comp(n, st, fid, mod, 'dict')

    def comp(self, n, st, fid, mod, kind):
        acc = '__acc%d__' % (self.nid + 1)
        f2 = self.new_frame(st, {}, fid)
        target = self.newlist(st, EMPTYSEQ) if kind == 'list' else \
            self.newdict(st)
        self.setvar(acc, target, st, f2)
        if kind == 'list':
            body = [ast.Expr(ast.Call(ast.Attribute(
                ast.Name(acc, ast.Load()), 'append', ast.Load()), [n.elt],
                []))]
        else:
            body = [ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), n.key,
                                              ast.Store())], n.value)]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            ast.copy_location(b, n)
            for x in ast.walk(b):
                if not hasattr(x, 'lineno'):
                    x.lineno = n.lineno
                    x.col_offset = n.col_offset
        o = self.block(body, st, f2, mod)
        if o.fall is None:
            raise Dead()
        if o.fall is not st:
            st.become(o.fall)
        return target

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        if is_bool(v):
            return v
        o = v.op
        if o == 'ite':
            return ite(v.args[0], self.truth(v.args[1], st),
                       self.truth(v.args[2], st))
        if o == 'none':
            return FALSE
        if o == 'num':
            return TRUE if v.args[0] else FALSE
        if o == 'str':
            return TRUE if v.args[0] else FALSE
        c = self.cell(v, st)
        if isinstance(c, Lst):
            return gt0(length(c.val))
        if isinstance(c, Dct):
            if c.val.op == 'dict':
                return TRUE if c.val.args else FALSE
            if c.val.op == 'fn' and c.val.args[0] == 'dstore':
                return TRUE
            return gt0(mk('fn', 'card', c.val))
        if isinstance(c, Obj) or o == 'py':
            return TRUE
        if is_seq(v):
            return gt0(length(v))
        if o in ('sym', 'bv') and SYMINFO[v]['kind'] in ('any', 'obj', 'str'):
            return mk('fn', 'truthy', v)
        if o == 'fn' and v.args[0] not in NUMFN:
            return mk('fn', 'truthy', v)
        return not_(eq0(v))

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fid, mod):
        # super()
        if isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and \
                n.func.value.func.id == 'super':
            return self.super_call(n, st, fid, mod)
        f = self.eval(n.func, st, fid, mod)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.eval(a.value, st, fid, mod)
                if s.op == 'fn' and s.args[0] == 'zip':
                    s = self.seqval(s, st)
                sv = self.seqval(s, st)
                if sv.op == 'seq' and all(g.op == 'e' for g in sv.args):
                    args += [g.args[0] for g in sv.args]
                else:
                    args.append(mk('fn', 'star', sv))
            else:
                args.append(self.eval(a, st, fid, mod))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st, fid, mod)
            if k.arg is None:
                c = self.cell(v, st)
                dv = c.val if isinstance(c, Dct) else v
                if dv.op != 'dict':
                    raise Undecided('** of unknown dict')
                for kk, vv in dict_items(dv):
                    kw[kk.args[0]] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, n)

    def super_call(self, n, st, fid, mod):
        f = fid
        cls = None
        selfv = None
        while f is not None:
            fr = st.heap[f]
            if '__class_ctx__' in fr.vars:
                cls = pyval(fr.vars['__class_ctx__'])
                selfv = fr.vars.get('__self_ctx__')
                break
            f = fr.parent
        if cls is None:
            raise Undecided('super outside a method')
        args = [self.eval(a, st, fid, mod) for a in n.args]
        kw = {k.arg: self.eval(k.value, st, fid, mod) for k in n.keywords}
        o = self.cell(selfv, st)
        mro = o.cls.mro() if isinstance(o, Obj) and isinstance(o.cls, Class) \
            else cls.mro()
        k = mro.index(cls)
        for c in mro[k + 1:]:
            if isinstance(c, Class):
                if n.func.attr in c.methods:
                    return self.call_func(c.methods[n.func.attr],
                                          [selfv] + args, kw, st, n)
            else:
                return self.call(py(Ext(c.name + '.' + n.func.attr)),
                                 [selfv] + args, kw, st, n)
        return NONE

    def call(self, f, args, kw, st, node=None):
        if f.op == 'ite' and self._has_ref_or_py(f):
            return self.on_alternatives(
                f, st, lambda x, s: self.call(x, args, kw, s, node))
        pv = pyval(f)
        if isinstance(pv, Func):
            return self.call_func(pv, args, kw, st, node)
        if isinstance(pv, Bound):
            r = self.call_func(pv.func, [pv.self_] + args, kw, st, node)
            if pv.self_.op == 'ref' and pv.self_.args[0] in self.temps:
                now = st.heap[pv.self_.args[0]].attrs
                for k, v in self.temps[pv.self_.args[0]].items():
                    if now.get(k) is not v:
                        raise Undecided('method changes an element in place')
            return r
        if isinstance(pv, Class):
            return self.instantiate(pv, args, kw, st, node)
        if isinstance(pv, Builtin):
            return self.models.call_builtin(self, pv.name, args, kw, st, node)
        if isinstance(pv, Ext):
            return self.models.call_ext(self, pv.name, args, kw, st, node)
        if isinstance(pv, Method):
            return self.on_alternatives(
                pv.obj, st, lambda o, s: self.models.call_method(
                    self, o, pv.name, args, kw, s, node))
        c = self.cell(f, st)
        if isinstance(c, Obj):
            m = self.find_method(c, '__call__')
            if m is not None:
                return self.call_func(m, [f] + args, kw, st, node)
        return self.models.call_opaque(self, f, args, kw, st, node)

    def instantiate(self, cls, args, kw, st, node=None):
        h = self.cuts.get(cls.qual)
        if h is not None:
            return h(self, cls, args, kw, st, node)
        if any(isinstance(b, Ext) and b.name.startswith('builtins.')
               and b.name.endswith(('Exception', 'Error'))
               for b in cls.mro()):
            return mk('fn', 'exc', string(cls.name))
        o = self.alloc(st, Obj(cls, {}))
        _, init = cls.find('__init__')
        if isinstance(init, Func):
            self.call_func(init, [o] + args, kw, st, node)
        elif cls.ext_bases():
            self.call(py(Ext(cls.ext_bases()[0].name + '.__init__')),
                      [o] + args, kw, st, node)
        return o

    def bind(self, fn_, args, kw, st):
        a = fn_.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            raise Undecided('too many arguments for %s' % fn_.qual)
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = lit(args[len(names):])
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                vals[n] = kw.pop(n)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.newdict(st, dict_norm(
                [(string(k), v) for k, v in kw.items()]))
            kw = {}
        if kw:
            raise Undecided('unexpected keyword %s for %s' %
                            (sorted(kw), fn_.qual))
        nd = len(fn_.defaults)
        for n, d in zip(names[len(names) - nd:], fn_.defaults):
            if n not in vals:
                vals[n] = self.thaw(d, st) if d.op in ('seq', 'dict') and \
                    d.op != 'seq' else (self.newlist(st, d) if d.op == 'seq'
                                        else d)
        for x in a.kwonlyargs:
            if x.arg not in vals and x.arg in fn_.kwdefaults:
                vals[x.arg] = fn_.kwdefaults[x.arg]
        for n in names:
            if n not in vals:
                raise Undecided('missing argument %s of %s' % (n, fn_.qual))
        order = names + [n for n in vals if n not in names]
        return {n: vals[n] for n in order}

    def call_func(self, f, args, kw, st, node=None):
        if any(a.op == 'fn' and a.args[0] == 'star' for a in args):
            raise Undecided('* of unknown length')
        h = self.cuts.get(f.qual)
        if h is not None:
            return h(self, f, args, kw, st, node)
        if f.qual in self.stack and self.stack.count(f.qual) > 1 or \
                len(self.stack) > 40:
            raise Undecided('recursion in %s' % f.qual)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom))
               for x in ast.walk(f.node)) and not isinstance(f.node, ast.Lambda):
            f = self.generator_to_list(f)
        self.functions.add(f.qual)
        if f.qual in self.trace_calls:
            self.log('call', f.qual, list(args), st, node, kwargs=dict(kw))
        vals = self.bind(f, args, kw, st)
        if f.cls is not None and f.kind not in ('staticmethod',) and args:
            vals['__class_ctx__'] = py(f.cls)
            vals['__self_ctx__'] = args[0]
        base = len(st.path)
        fid = self.new_frame(st, vals, f.closure)
        self.stack.append(f.qual)
        try:
            o = self.block(f.node.body, st.fork(), fid, f.module)
        finally:
            self.stack.pop()
        rets = list(o.rets)
        if o.fall is not None:
            rets.append((o.fall, NONE))
        if not rets:
            raise Dead()
        s, v = self.merge_rets(rets, base)
        st.become(s)
        return v

    def generator_to_list(self, f):
        g = getattr(f, '_gen', None)
        if g is not None:
            return g

        class R(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            def visit_Expr(self, n):
                if isinstance(n.value, ast.Yield):
                    return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(
                        ast.Name('__gen__', ast.Load()), 'append',
                        ast.Load()), [n.value.value or ast.Constant(None)],
                        [])), n)
                if isinstance(n.value, ast.YieldFrom):
                    return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(
                        ast.Name('__gen__', ast.Load()), 'extend',
                        ast.Load()), [n.value.value], [])), n)
                return n

            def visit_Return(self, n):
                return ast.copy_location(ast.Return(
                    ast.Name('__gen__', ast.Load())), n)
        import copy as _c
        node = _c.deepcopy(f.node)
        body = [R().visit(b) for b in node.body]
        init = ast.Assign([ast.Name('__gen__', ast.Store())],
                          ast.List([], ast.Load()))
        ret = ast.Return(ast.Name('__gen__', ast.Load()))
        node.body = [init] + body + [ret]
        for x in ast.walk(node):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                x.lineno = f.node.lineno
                x.col_offset = 0
        if any(isinstance(x, (ast.Yield, ast.YieldFrom))
               for b in node.body for x in ast.walk(b)):
            raise Undecided('generator expression yield')
        g = Func(f.name, node, f.module, f.closure, f.cls, f.kind, f.defaults,
                 f.kwdefaults)
        f._gen = g
        return g

    # ------------------------------------------------------------ loops
    def iterspec(self, v, st):
        """(count, element(i) -> T) of an iterable value"""
        if v.op == 'ite' and v.size < 3000 and not is_seq(v):
            pass
        c = self.cell(v, st)
        if v.op == 'fn':
            k = v.args[0]
            if k == 'range':
                a, b, s = v.args[1:4]
                if s is ONE:
                    d = sub(b, a)
                    return self.nonneg(d, st), (lambda i: add(a, i))
                if is_num(s) and nval(s) != 0:
                    return self.nonneg(ceil(div(sub(b, a), s)), st), \
                        (lambda i: add(a, mul(i, s)))
                return mk('fn', 'rangelen', a, b, s), \
                    (lambda i: add(a, mul(i, s)))
            if k == 'enumerate':
                n, e = self.iterspec(v.args[1], st)
                s0 = v.args[2]
                return n, (lambda i: lit([add(s0, i), e(i)]))
            if k == 'zip':
                specs = [self.iterspec(a, st) for a in v.args[1:]]
                n = specs[0][0]
                for m, _ in specs[1:]:
                    if m is not n:
                        n = fmin(n, m)
                return n, (lambda i: lit([e(i) for _, e in specs]))
            if k == 'reversedit':
                n, e = self.iterspec(v.args[1], st)
                return n, (lambda i: e(sub(sub(n, ONE), i)))
            if k == 'ditems':
                d = v.args[1]
                if d.op == 'dict':
                    its = lit([lit([a, b]) for a, b in dict_items(d)])
                    return length(its), (lambda i: index(its, i))
                return mk('fn', 'card', d), \
                    (lambda i: lit([index(dkeys(d), i), index(dvals(d), i)]))
        s = self.seqval(v, st)
        n = length(s)
        return n, (lambda i: index(s, i))

    def nonneg(self, d, st):
        if sgn(d) in ('>0', '>=0', '0'):
            return d
        if is_num(d):
            return num(max(0, nval(d)))
        if implied(ge0(d), st.facts) is True:
            return d
        return fmax(d, ZERO)

    def s_For(self, n, st, fid, mod):
        itv = self.eval(n.iter, st, fid, mod)
        if itv.op == 'ite' and self._has_ref_or_py(itv) and False:
            pass
        count, el = self.iterspec(itv, st)
        small = is_num(count) and nval(count) <= (
            self.unroll_range if (itv.op == 'fn' and itv.args[0] == 'range')
            else self.unroll_lit)
        if small:
            return self.unroll(n, st, fid, mod, int(nval(count)), el)
        # break-free concatenation of literal + comprehension: index form
        ivar = fresh('i', 'int', 0)

        def header(s):
            s.assume(gt0(sub(count, ivar)))
            self.assign(n.target, el(ivar), s, fid, mod)
            return TRUE
        return self.loop('for', n, st, fid, mod, count, ivar, header)

    def unroll(self, n, st, fid, mod, k, el):
        out = Out()
        cur = st
        base = len(st.path)
        brks = []
        for j in range(k):
            if cur is None:
                break
            self.assign(n.target, el(num(j)), cur, fid, mod)
            o = self.block(n.body, cur, fid, mod)
            out.rets += o.rets
            brks += o.brks
            nxt = [s for s in [o.fall] + o.conts if s is not None]
            b2 = base
            cur = self.merge(nxt, b2) if nxt else None
        if cur is not None and n.orelse:
            o = self.block(n.orelse, cur, fid, mod)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            cur = o.fall
        falls = [s for s in brks + [cur] if s is not None]
        out.fall = self.merge(falls, base) if falls else None
        return out

    def s_While(self, n, st, fid, mod):
        def header(s):
            c = self.truth(self.eval(n.test, s, fid, mod), s)
            return simp(c, s.facts)
        ev0 = len(self.events)
        rs0 = len(self.raise_stack[-1])

        def restart():
            del self.events[ev0:]
            del self.raise_stack[-1][rs0:]
        forever = isinstance(n.test, ast.Constant)
        if not forever or n.test.value:
            r = self.unroll_while(n, st.fork(), fid, mod, header)
            if r is not None:
                return r
            restart()
        ivar = fresh('i', 'int', 0)
        try:
            return self.loop('while', n, st, fid, mod, None, ivar, header)
        except Counted as e:
            counters, count = e.counters, subst(e.count, {ivar: ZERO})
        restart()
        ivar = fresh('i', 'int', 0)

        def counted(s):
            for loc, (a, d) in counters.items():
                self.setloc(s, loc, add(a, mul(d, ivar)))
            s.assume(gt0(sub(count, ivar)))
            c = header(s)
            if c is not TRUE:
                s.assume(c)
            return TRUE
        return self.loop('for', n, st, fid, mod, count, ivar, counted)

    def unroll_while(self, n, cur, fid, mod, header):
        """the iterations, when every test has a known value"""
        base = len(cur.path)
        out, brks = Out(), []
        for j in range(self.unroll_range + 1):
            c = header(cur)
            if c is FALSE:
                break
            if c is not TRUE or j == self.unroll_range:
                return None
            o = self.block(n.body, cur, fid, mod)
            out.rets += o.rets
            brks += o.brks
            nxt = [s for s in [o.fall] + o.conts if s is not None]
            cur = self.merge(nxt, base) if nxt else None
            if cur is None:
                break
            if isinstance(n.test, ast.Constant) and (brks or out.rets):
                return None           # leaves the loop on some paths only
        if cur is not None and n.orelse:
            o = self.block(n.orelse, cur, fid, mod)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            cur = o.fall
        falls = [s for s in brks + [cur] if s is not None]
        out.fall = self.merge(falls, base) if falls else None
        return out

    def counted(self, cond, live, nexts, inits, ivar):
        cnt = self.while_count(cond, live, nexts, inits, ivar)
        if cnt is None:
            return
        cs = {}
        for loc, ph in live.items():
            if nexts[loc] is ph or not maybe_num(nexts[loc]) or \
                    not maybe_num(inits[loc]) or is_seq(inits[loc]):
                continue
            d = sub(nexts[loc], ph)
            if is_num(d):
                cs[loc] = (inits[loc], d)
        if cs:
            raise Counted(cs, cnt)

    def loop(self, kind, n, st, fid, mod, count, ivar, header):
        base = len(st.path)
        heap0 = dict(st.heap)
        ids0 = set(heap0)
        phis = {}            # loc -> sym
        rounds = 0
        ev0 = len(self.events)
        rs0 = len(self.raise_stack[-1])
        nid_before = self.nid
        while True:
            rounds += 1
            if rounds > 16:
                raise Undecided('loop header does not stabilise')
            del self.events[ev0:]
            del self.raise_stack[-1][rs0:]
            s = st.fork()
            for loc, ph in phis.items():
                if self.array_loc(loc, ph, st):
                    self.setloc(s, loc, self.newlist(s, ph, 'array'))
                else:
                    self.setloc(s, loc, ph)
            hs = s.fork()
            cond = header(s)
            if cond is FALSE:
                return Out(st)
            if cond is not TRUE:
                s.assume(cond)
            bbase = len(s.path)
            o = self.block(n.body, s, fid, mod)
            ends = [x for x in [o.fall] + o.conts if x is not None]
            allends = ends + o.brks + [x for x, _ in o.rets]
            new = {}
            retype = False
            for e in allends:
                for i in ids0:
                    c0, c1 = hs.heap.get(i), e.heap.get(i)
                    if c0 is c1:
                        continue
                    for nm, v in self.cell_items(c1):
                        ov = self.cell_get(c0, nm)
                        if v is not ov:
                            loc = (i, nm)
                            if loc not in phis:
                                new[loc] = (ov, v)
            lz = [loc for loc, (ov, v) in new.items()
                  if ov is MISSING and isinstance(heap0[loc[0]], Obj) and
                  heap0[loc[0]].name is not None]
            if lz:
                # attributes of symbolic objects first read (or written) in
                # the body: they had a value before the loop
                for i, nm in lz:
                    self.materialise_attr(i, nm, st)
                heap0 = dict(st.heap)
                ids0 = set(heap0)
                continue
            if not new:
                # kind adjustment: an int-typed phi whose next is not int
                for loc, ph in list(phis.items()):
                    if SYMINFO[ph]['kind'] == 'int':
                        for e in ends:
                            v = self.getloc(e, loc)
                            if v is not MISSING and v is not ph and \
                                    maybe_num(v) and not is_int(v):
                                phis[loc] = fresh(self.locname(loc), 'real')
                                retype = True
                                break
                if retype:
                    continue
                break
            for loc, (ov, v) in new.items():
                phis[loc] = self.make_phi(loc, ov, v, heap0, s)
        # ---- recurrences
        has_exit = bool(o.brks or o.rets)
        endst = self.merge(ends, bbase) if ends else None
        alloc = lambda e: {i for i in e.heap if i not in ids0}
        if not has_exit:
            if endst is None:
                raise Undecided('loop body never completes')
            nexts = {}
            only = alloc(endst)
            for loc, ph in phis.items():
                v = self.getloc(endst, loc)
                v = ph if v is MISSING else self.freeze(v, endst, only)
                nexts[loc] = v
            brk = None
            return self.solve(kind, n, st, fid, mod, count, ivar, phis, nexts,
                              cond, endst, ev0, heap0)
        return self.solve_exits(kind, n, st, fid, mod, count, ivar, phis, cond,
                                o, ends, bbase, ev0, heap0, base)

    # locations -----------------------------------------------------------
    def cell_items(self, c):
        if isinstance(c, Frame):
            return [(k, v) for k, v in c.vars.items() if k != '__nonlocal__']
        if isinstance(c, Obj):
            return list(c.attrs.items())
        if c is None:
            return []
        return [('', c.val)]

    def cell_get(self, c, nm):
        if isinstance(c, Frame):
            return c.vars.get(nm, MISSING)
        if isinstance(c, Obj):
            return c.attrs.get(nm, MISSING)
        if c is None:
            return MISSING
        return c.val

    def getloc(self, st, loc):
        return self.cell_get(st.heap.get(loc[0]), loc[1])

    def setloc(self, st, loc, v):
        i, nm = loc
        c = st.heap[i]
        if isinstance(c, Frame):
            d = dict(c.vars)
            d[nm] = v
            st.heap[i] = Frame(d, c.parent)
        elif isinstance(c, Obj):
            d = dict(c.attrs)
            d[nm] = v
            st.heap[i] = Obj(c.cls, d, c.name)
        elif isinstance(c, Lst):
            st.heap[i] = Lst(v, c.kind)
        else:
            st.heap[i] = Dct(v)

    def array_loc(self, loc, ph, st):
        """a variable that holds an array before the loop"""
        if ph is MISSING_SYM or isinstance(st.heap.get(loc[0]), (Lst, Dct)):
            return False
        v = self.getloc(st, loc)
        return v is not MISSING and self.is_array(v, st)

    def locname(self, loc):
        return loc[1] or 'cell%d' % loc[0]

    def make_phi(self, loc, init, nxt, heap0, st):
        r = self.make_phi_(loc, init, nxt, heap0, st)
        if r is not MISSING_SYM and (self.objectlike(init, st) or
                                     self.objectlike(nxt, st)):
            self.objterms.add(r)
        return r

    def make_phi_(self, loc, init, nxt, heap0, st):
        nm = self.locname(loc)
        c = heap0[loc[0]]
        if isinstance(c, Lst):
            return fresh(nm, 'seq')
        if isinstance(c, Dct):
            d = fresh(nm, 'any')
            self.models.DICTSYMS.add(d)
            return d
        if init is MISSING:
            if isinstance(c, Obj) and c.name is not None:
                return fresh(nm, 'any')
            return MISSING_SYM
        if is_bool(init) and is_bool(nxt):
            return fresh(nm, 'bool')
        if maybe_num(init) and maybe_num(nxt) and not self._has_ref_or_py(init):
            if is_int(init):
                return fresh(nm, 'int')
            if init.op in ('num', 'poly') or nxt.op in ('num', 'poly'):
                return fresh(nm, 'real')
            return fresh(nm, 'any')
        if is_seq(init) or self.is_array(init, st):
            return fresh(nm, 'seq')
        return fresh(nm, 'any')

    # solving -------------------------------------------------------------
    def solve(self, kind, n, st, fid, mod, count, ivar, phis, nexts, cond,
              endst, ev0, heap0):
        st0 = st
        inits = {}
        live = {}
        for loc, ph in phis.items():
            if ph is MISSING_SYM:
                continue
            v = self.getloc(st, loc)
            inits[loc] = NONE if v is MISSING else self.freeze_init(v, st, loc, phis)
            live[loc] = ph
        if kind == 'while':
            self.counted(cond, live, nexts, inits, ivar)
            cnt = self.while_count(cond, live, nexts, inits, ivar)
            if cnt is None:
                return self.finish_fold(kind, n, st, fid, mod, None, ivar,
                                        live, phis, nexts, inits, cond, endst,
                                        ev0)
            count = cnt
        # closed forms
        solved = {}           # phi -> header value h(ivar)
        finals = {}
        pending = dict(live)
        progress = True
        while pending and progress:
            progress = False
            psyms = set(pending.values())
            for loc, ph in list(pending.items()):
                nx = subst(nexts[loc], solved) if solved else nexts[loc]
                r = self.closed(ph, nx, inits[loc], ivar, count, psyms)
                if r is not None:
                    h, fin = r
                    solved[ph] = h
                    finals[loc] = fin
                    del pending[loc]
                    progress = True
        if pending:
            locs = list(pending)
            phs = [pending[l] for l in locs]
            nx = [subst(nexts[l], solved) if solved else nexts[l]
                  for l in locs]
            for j, l in enumerate(locs):
                use = self.closure(j, phs, nx)
                core_n = loop_core('for', count, ivar, [phs[u] for u in use],
                                   [inits[locs[u]] for u in use],
                                   [nx[u] for u in use])
                core_i = loop_core('for', ivar, fresh('i', 'int', 0), [], [],
                                   []) if False else None
                kd = self.proj_kind(phs[j], nx[j])
                finals[l] = self.mkproj(core_n, use.index(j), kd, phs[j])
                jv = fresh('j', 'int', 0)
                ci = loop_core('for', ivar, jv, [phs[u] for u in use],
                               [inits[locs[u]] for u in use],
                               [subst(nx[u], {ivar: jv}) for u in use])
                solved[phs[j]] = self.mkproj(ci, use.index(j), kd, phs[j])
        for e in self.events[ev0:]:
            self.close_event(e, solved, ivar, count)
        out = st.fork()
        for loc in phis:
            if phis[loc] is MISSING_SYM:
                v = nexts[loc]
                if v is MISSING_SYM:
                    continue
                fv = self.last_value(subst(v, solved) if solved else v, ivar,
                                     count)
                self.setloc(out, loc, self.thaw(fv, out))
                continue
            fv = finals[loc]
            c = heap0[loc[0]]
            if isinstance(c, (Lst, Dct)):
                self.setloc(out, loc, fv)
            else:
                orig = self.getloc(st, loc)
                if orig is not MISSING and fv is inits[loc]:
                    continue
                end = self.getloc(endst, loc)
                if is_seq(fv) and end is not MISSING and \
                        self.is_array(end, endst):
                    self.setloc(out, loc, self.newlist(out, fv, 'array'))
                    continue
                self.setloc(out, loc, self.thaw(fv, out))
        return self.loop_else(n, out, fid, mod)

    def loop_else(self, n, st, fid, mod):
        if n.orelse:
            return self.block(n.orelse, st, fid, mod)
        return Out(st)

    def freeze_init(self, v, st, loc, mut=()):
        c = st.heap[loc[0]]
        if self._has_ref(v) and v.op != 'ref' and \
                not (self.reach(v, st) & {l[0] for l in mut}):
            v = self.freeze(v, st, None)
        if isinstance(c, (Lst, Dct)):
            return v
        if v.op == 'ref':
            cc = st.heap.get(v.args[0])
            if isinstance(cc, Lst):
                return cc.val
        return v

    def last_value(self, v, ivar, count):
        if ivar in v.syms:
            return subst(v, {ivar: sub(count, ONE)})
        return v

    def proj_kind(self, ph, nx):
        k = SYMINFO[ph]['kind']
        if k == 'any' and is_seq(nx):
            return 'seq'
        return k

    def mkproj(self, core, j, kd, ph):
        p = proj(core, j, kd)
        if ph in self.objterms:
            self.objterms.add(p)
        if kd == 'int':
            pass
        if ph in self.models.DICTSYMS:
            self.models.DICTSYMS.add(p)
        return p

    def closure(self, j, phs, nx):
        """indices of the states the j-th one depends on, in dependency order"""
        order = [j]
        k = 0
        while k < len(order):
            for u, p in enumerate(phs):
                if u not in order and p in nx[order[k]].syms:
                    order.append(u)
            k += 1
        return order

    def closed(self, ph, nx, init, ivar, count, psyms):
        if nx is ph:
            return init, init
        others = psyms - {ph}
        if nx.op in ('and', 'or') and ph in nx.args and is_bool(init):
            rest = [a for a in nx.args if a is not ph]
            f = and_ if nx.op == 'and' else or_
            rest = f(*rest)
            if not rest.syms & psyms:
                k = fresh('k', 'int', 0)
                rk = subst(rest, {ivar: k})
                if nx.op == 'and':
                    s = lambda c: and_(init, not_(exists(not_(rk), [(k, c)])))
                else:
                    s = lambda c: or_(init, exists(rk, [(k, c)]))
                return s(ivar), s(count)
        if is_seq(nx) or is_seq(ph):
            return self.closed_seq(ph, nx, init, ivar, count, psyms)
        if ph in self.models.DICTSYMS:
            if nx.op == 'fn' and nx.args[0] == 'dstore' and nx.args[1] is ph:
                pass
            return None
        if ph not in nx.syms:
            if nx.syms & psyms:
                return None
            if ivar not in nx.syms:
                h = ite(eq0(ivar), init, nx)
            else:
                h = ite(eq0(ivar), init, subst(nx, {ivar: sub(ivar, ONE)}))
            last = self.last_value(nx, ivar, count)
            if sgn(count) == '>0':
                fin = last
            else:
                fin = ite(gt0(count), last, init)
            return h, fin
        if ivar not in nx.syms and not (nx.syms & others) and \
                not init.syms & psyms:
            # settles after one step
            s1 = subst(nx, {ph: init})
            if ph not in s1.syms and s1.size <= nx.size and \
                    subst(nx, {ph: s1}) is s1:
                return ite(eq0(ivar), init, s1), ite(eq0(count), init, s1)
        if maybe_num(nx) and maybe_num(init):
            d = sub(nx, ph)
            if ph not in d.syms and not (d.syms & psyms):
                k = fresh('k', 'int', 0)
                dk = subst(d, {ivar: k})
                h = add(init, bsum(ivar, k, dk))
                fin = add(init, bsum(count, k, dk))
                return h, fin
            # conditional increment  ite(c, ph + a, ph + b)
            d = self.cond_delta(nx, ph)
            if d is not None and ph not in d.syms and not (d.syms & psyms):
                k = fresh('k', 'int', 0)
                dk = subst(d, {ivar: k})
                return add(init, bsum(ivar, k, dk)), \
                    add(init, bsum(count, k, dk))
            # running max / min
            r = self.running_max(ph, nx, init, ivar, count, psyms)
            if r is not None:
                return r
        return None

    def cond_delta(self, nx, ph):
        if nx.op == 'ite' and ph not in nx.args[0].syms:
            a = self.cond_delta(nx.args[1], ph)
            b = self.cond_delta(nx.args[2], ph)
            if a is None or b is None:
                return None
            return ite(nx.args[0], a, b)
        if not maybe_num(nx):
            return None
        d = sub(nx, ph)
        return d if ph not in d.syms else None

    def running_max(self, ph, nx, init, ivar, count, psyms):
        if nx.op == 'fn' and nx.args[0] == 'max' and ph in nx.args[1:]:
            rest = [a for a in nx.args[1:] if a is not ph]
            e = fmax(*rest)
            if (e.syms & psyms):
                return None
            k = fresh('k', 'int', 0)
            s = lambda c: self.models.maxseq(concat(lit([init]), seqfor(
                c, k, lit([subst(e, {ivar: k})]))))
            return s(ivar), s(count)
        return None

    def closed_seq(self, ph, nx, init, ivar, count, psyms):
        segs = segs_of(nx)
        hits = [k for k, g in enumerate(segs)
                if g.op == 's' and g.args[0] is ph]
        if len(hits) == 1:
            pre, post = segs[:hits[0]], segs[hits[0] + 1:]
            if not any(g.syms & psyms for g in pre + post):
                if not pre:
                    k = fresh('k', 'int', 0)
                    body = mk('seq', *post)
                    bk = subst(body, {ivar: k})
                    h = concat(init, seqfor(ivar, k, bk))
                    f = concat(init, seqfor(count, k, bk))
                    return h, f
                if not post:
                    k = fresh('k', 'int', 0)
                    body = mk('seq', *pre)
                    f = lambda c: concat(seqfor(c, k, subst(
                        body, {ivar: sub(sub(c, ONE), k)})), init)
                    return f(ivar), f(count)
        # stores
        if nx.op == 'ite' and ph in nx.args[1:] and \
                not nx.args[0].syms & (psyms | {ivar}):
            # one test for all iterations
            o = nx.args[2] if nx.args[1] is ph else nx.args[1]
            r = self.closed_seq(ph, o, init, ivar, count, psyms)
            if r is not None:
                f = (lambda v: ite(nx.args[0], init, v)) \
                    if nx.args[1] is ph else \
                    (lambda v: ite(nx.args[0], v, init))
                return f(r[0]), f(r[1])
        s = self.as_store(nx, ph)
        if s is not None:
            idx, v = s
            d = sub(idx, ivar)
            if ivar not in d.syms and not (d.syms & psyms) and \
                    sgn(d) in ('>0', '>=0', '0'):
                # cells not yet written still hold the initial value
                v2 = subst(v, {index(ph, idx): index(init, idx)}) \
                    if ph in v.syms else v
                if not (v2.syms & psyms):
                    k = fresh('k', 'int', 0)
                    vk = subst(v2, {ivar: k})

                    def f(c):
                        mid = seqfor(c, k, lit([vk]))
                        pre = EMPTYSEQ if d is ZERO else \
                            slice_(init, NONE, d)
                        tail_from = add(d, c)
                        if tail_from is length(init):
                            post = EMPTYSEQ
                        else:
                            post = slice_(init, tail_from, NONE)
                        return concat(pre, mid, post)
                    return f(ivar), f(count)
        if ph not in nx.syms and not (nx.syms & psyms):
            h = ite(eq0(ivar), init, subst(nx, {ivar: sub(ivar, ONE)}))
            last = self.last_value(nx, ivar, count)
            fin = last if sgn(count) == '>0' else ite(gt0(count), last, init)
            return h, fin
        return None

    def as_store(self, nx, ph):
        """nx as a single conditional store into ph: (index, value)"""
        if nx.op == 'fn' and nx.args[0] == 'store' and nx.args[1] is ph:
            return nx.args[2], nx.args[3]
        if nx.op == 'ite' and ph not in nx.args[0].syms:
            a = ph if nx.args[1] is ph else self.as_store(nx.args[1], ph)
            b = ph if nx.args[2] is ph else self.as_store(nx.args[2], ph)
            if a is None or b is None:
                return None
            if a is ph and b is ph:
                return None
            ia = a[0] if a is not ph else b[0]
            ib = b[0] if b is not ph else a[0]
            if ia is not ib:
                return None
            va = index(ph, ia) if a is ph else a[1]
            vb = index(ph, ib) if b is ph else b[1]
            return ia, ite(nx.args[0], va, vb)
        return None

    def while_count(self, cond, live, nexts, inits, ivar):
        q = as_ineq(cond)
        if q is None:
            return None
        p, k, strict = q
        full = dict(p)
        full[()] = k
        t = from_poly(full)
        # loop variables in the condition
        vs = [(loc, ph) for loc, ph in live.items() if ph in t.syms and
              nexts[loc] is not ph]
        sub_ = {}
        steps = {}
        for loc, ph in vs:
            d = sub(nexts[loc], ph) if maybe_num(nexts[loc]) else None
            if d is None or not is_num(d):
                return None
            steps[ph] = d
            sub_[ph] = add(inits[loc], mul(d, ivar))
        for loc, ph in live.items():
            if ph in t.syms and nexts[loc] is ph:
                sub_[ph] = inits[loc]
        if not steps:
            return None
        ti = subst(t, sub_)
        pi = poly_of(ti)
        lin = {m: c for m, c in pi.items() if any(a is ivar for a, e in m)}
        if len(lin) != 1 or ((ivar, 1),) not in lin:
            return None
        a = lin[((ivar, 1),)]
        if a >= 0:
            return None
        K = from_poly({m: c for m, c in pi.items() if m != ((ivar, 1),)})
        if ivar in K.syms:
            return None
        if strict:
            c = ceil(mul(K, num(-1 / a)))
        else:
            c = add(floor(mul(K, num(-1 / a))), ONE)
        return c if sgn(c) in ('>0', '>=0', '0') else fmax(c, ZERO)

    def finish_fold(self, kind, n, st, fid, mod, count, ivar, live, phis,
                    nexts, inits, cond, endst, ev0):
        locs = list(live)
        phs = [live[l] for l in locs]
        # drop invariants, substitute counters (constant step)
        solved = {}
        # a hidden iteration counter turns constant-step states into polynomials
        for l in locs:
            if nexts[l] is live[l]:
                solved[live[l]] = inits[l]
        act = [l for l in locs if live[l] not in solved]
        nx = {l: subst(nexts[l], solved) if solved else nexts[l] for l in act}
        cc = subst(cond, solved) if solved else cond
        aph = [live[l] for l in act]
        anx = [nx[l] for l in act]
        # states needed: those in the condition plus the closure of each
        need = [k for k, p in enumerate(aph) if p in cc.syms]
        finals = {}
        hd = {}
        for j, l in enumerate(act):
            use = [j]
            for u in need:
                if u not in use:
                    use.append(u)
            k = 0
            while k < len(use):
                for u, p in enumerate(aph):
                    if u not in use and p in anx[use[k]].syms:
                        use.append(u)
                k += 1
            core = loop_core('while', cc, None, [aph[u] for u in use],
                             [inits[act[u]] for u in use],
                             [anx[u] for u in use])
            kd = self.proj_kind(aph[j], anx[j])
            finals[l] = self.mkproj(core, 0, kd, aph[j])
        for e in self.events[ev0:]:
            if e.kind == 'raise':
                c = exists(e.cond, e.loops)
                self.raise_in_fold(e, subst(c, solved) if solved else c, cc,
                                   aph, [inits[l] for l in act], anx)
                continue
            e.loops.insert(0, (mk('fn', 'whileiter', cc), mk('fn', 'while',
                                                             cc)))
            e.extra = dict(e.extra or {}, phis={live[l]: l[1] for l in locs},
                           inits={live[l]: inits[l] for l in locs},
                           finals={live[l]: finals.get(l, inits[l])
                                   for l in locs},
                           nexts={live[l]: nexts[l] for l in locs}, cond=cond)
        out = st.fork()
        for l in act:
            fv = finals[l]
            c = st.heap[l[0]]
            if isinstance(c, (Lst, Dct)):
                self.setloc(out, l, fv)
            else:
                orig = self.getloc(st, l)
                if orig is not MISSING and self.cell(orig, st) is not None and\
                        isinstance(self.cell(orig, st), Lst):
                    self.setloc(out, l, self.newlist(
                        out, fv, self.cell(orig, st).kind))
                else:
                    self.setloc(out, l, fv)
        # loop-local temporaries
        for loc, ph in phis.items():
            if ph is MISSING_SYM:
                v = nexts[loc]
                r = mk('fn', 'lastiter', v) if v is not MISSING_SYM else NONE
                if v is not MISSING_SYM and self.objectlike(v, out):
                    self.objterms.add(r)
                self.setloc(out, loc, r)
        # the exit condition holds afterwards
        ex = not_(subst(cc, {live[l]: finals[l] for l in act}))
        if not any(s.op == 'bv' for s in ex.syms):
            out.facts = out.facts + tuple(f for f in flat_facts(ex))
        return self.loop_else(n, out, fid, mod)

    def raise_in_fold(self, e, c, cc, states, ini, nx):
        """the exception leaves the loop: one more exit state"""
        rz = fresh('raised', 'bool')
        cond = and_(not_(rz), cc)
        sts, ins, nxs = [rz], [FALSE], [or_(rz, c)]
        k = 0
        while k < len(nxs) or k == 0:
            for u, p in enumerate(states):
                if p not in sts and (p in nxs[k].syms or p in cc.syms) and \
                        nx[u] is not p:
                    sts.append(p)
                    ins.append(ini[u])
                    nxs.append(nx[u])
            k += 1
        e.cond = proj(loop_core('while', cond, None, sts, ins, nxs), 0, 'bool')
        e.loops = []

    def close_event(self, e, solved, ivar, count):
        if solved:
            sb = lambda a: subst(a, solved) if isinstance(a, T) else a
            e.args = [sb(a) for a in e.args]
            e.kwargs = {k: sb(v) for k, v in e.kwargs.items()}
            e.cond = sb(e.cond)
            if isinstance(e.res, T):
                e.res = sb(e.res)
            e.loops = [(sb(a), sb(b)) for a, b in e.loops]
        e.loops.insert(0, (ivar, count))

    def solve_exits(self, kind, n, st, fid, mod, count, ivar, phis, cond, o,
                    ends, bbase, ev0, heap0, base):
        """loops with break / return: fold with an exit flag"""
        flag = fresh('exit', 'bool')
        rflag = fresh('ret', 'bool')
        rval = fresh('rv', 'any')
        alts = []
        for s in ends:
            alts.append((s, FALSE, FALSE, NONE))
        for s in o.brks:
            alts.append((s, TRUE, FALSE, NONE))
        for s, v in o.rets:
            alts.append((s, TRUE, TRUE, v))
        conds = []
        neg_ = []
        for s, *_ in alts:
            c = s.cond(bbase)
            conds.append(simp(c, neg_) if neg_ else c)
            neg_ = neg_ + flat_facts(not_(c))
        merged = self.merge([a[0] for a in alts], bbase)
        only = {i for i in merged.heap if i not in heap0}
        for a in alts:
            only |= {i for i in a[0].heap if i not in heap0}
        nexts = {}
        inits = {}
        live = {}
        for loc, ph in phis.items():
            v = self.getloc(merged, loc)
            nexts[loc] = ph if v is MISSING else self.freeze(v, merged, only)
            if ph is MISSING_SYM:
                continue
            iv = self.getloc(st, loc)
            inits[loc] = NONE if iv is MISSING else \
                self.freeze_init(iv, st, loc, phis)
            live[loc] = ph
        # loop-local values read after the loop need a state too
        for loc, ph in list(phis.items()):
            if ph is MISSING_SYM and nexts[loc] is not MISSING_SYM:
                v = nexts[loc]
                kd = 'seq' if is_seq(v) else ('bool' if is_bool(v) else
                                              ('int' if is_int(v) else 'any'))
                p2 = fresh(self.locname(loc), kd)
                if self.objectlike(v, merged):
                    self.objterms.add(p2)
                live[loc] = p2
                inits[loc] = ZERO if kd == 'int' else (
                    EMPTYSEQ if kd == 'seq' else
                    (FALSE if kd == 'bool' else NONE))
        if kind == 'while' and ends:
            m = self.merge(ends, bbase) if len(ends) < len(alts) else merged
            nn = {}
            for loc in live:
                v = self.getloc(m, loc)
                nn[loc] = live[loc] if v is MISSING else v
            self.counted(cond, live, nn, inits, ivar)
        fx = self.merge_val(conds, [a[1] for a in alts])
        has_ret = bool(o.rets)
        if has_ret:
            rf = self.merge_val(conds, [a[2] for a in alts])
            rv = self.merge_val(conds, [
                self.freeze(a[3], a[0], only) for a in alts if True])
        states, ini, nx = [], [], []
        locs = list(live)
        for l in locs:
            states.append(live[l])
            ini.append(inits[l])
            nx.append(nexts[l])
        names = list(locs)
        states.append(flag)
        ini.append(FALSE)
        nx.append(fx)
        if has_ret:
            if self.objectlike(rv, merged):
                self.objterms.add(rval)
            states += [rflag, rval]
            ini += [FALSE, NONE]
            nx += [rf, rv]
        if kind == 'for':
            cnt = fresh('n', 'int', 0)
            states.append(cnt)
            ini.append(ZERO)
            nx = [subst(x, {ivar: cnt}) for x in nx]
            nx.append(add(cnt, ONE))
            cc = and_(not_(flag), gt0(sub(count, cnt)))
        else:
            cc = and_(not_(flag), cond)
        finals = {}
        need = [k for k, p in enumerate(states) if p in cc.syms]
        for j, p in enumerate(states):
            if nx[j] is p:
                finals[p] = ini[j]
                continue
            use = [j]
            for u in need:
                if u not in use:
                    use.append(u)
            k = 0
            while k < len(use):
                for u, q in enumerate(states):
                    if u not in use and q in nx[use[k]].syms:
                        use.append(u)
                k += 1
            core = loop_core('while', cc, None, [states[u] for u in use],
                             [ini[u] for u in use], [nx[u] for u in use])
            kd = SYMINFO[p]['kind']
            if kd == 'any' and is_seq(nx[j]):
                kd = 'seq'
            finals[p] = self.mkproj(core, 0, kd, p)
        for e in self.events[ev0:]:
            if e.kind == 'raise':
                c = exists(e.cond, e.loops)
                if kind == 'for':
                    c = subst(c, {ivar: cnt})
                self.raise_in_fold(e, c, cc, states, ini, nx)
                continue
            e.loops.insert(0, (mk('fn', 'whileiter', cc),
                               mk('fn', 'while', cc)))
            e.extra = dict(e.extra or {}, phis={live[l]: l[1] for l in locs},
                           inits={live[l]: inits[l] for l in locs},
                           finals={live[l]: finals[live[l]] for l in locs},
                           nexts={live[l]: nexts[l] for l in locs}, cond=cond,
                           flag=flag)
        out = st.fork()
        for l in locs:
            fv = finals[live[l]]
            c = heap0[l[0]]
            if isinstance(c, (Lst, Dct)):
                self.setloc(out, l, fv)
            else:
                orig = self.getloc(st, l)
                if orig is not MISSING and isinstance(
                        self.cell(orig, st), Lst) and fv is not inits[l]:
                    self.setloc(out, l, self.newlist(
                        out, fv, self.cell(orig, st).kind))
                elif orig is not MISSING and fv is inits[l]:
                    pass
                else:
                    self.setloc(out, l, self.thaw(fv, out)
                                if fv.op in ('obj',) else fv)
        res = Out()
        if has_ret:
            rc = finals[rflag]
            s1 = out.fork().assume(rc)
            v = finals[rval]
            if all(is_seq(a[3]) for a in alts if a[2] is TRUE) and o.rets:
                # tuple results: component-wise
                pass
            res.rets.append((s1, v))
            s2 = out.fork().assume(not_(rc))
        else:
            s2 = out
        if n.orelse:
            fl = finals[flag]
            b2 = len(s2.path)
            s3 = s2.fork().assume(not_(fl))
            s4 = s2.fork().assume(fl)
            o2 = self.block(n.orelse, s3, fid, mod)
            res.rets += o2.rets
            res.brks += o2.brks
            res.conts += o2.conts
            falls = [x for x in (s4, o2.fall) if x is not None]
            res.fall = self.merge(falls, b2)
        else:
            res.fall = s2
        return res


class Counted(Exception):
    """a while loop that counts"""
    def __init__(self, counters, count):
        self.counters, self.count = counters, count


MISSING_SYM = sym('undefined', 'any')


SUBEXC = {'Exception': ('ValueError', 'KeyError', 'AssertionError'),
          'LookupError': ('KeyError', 'IndexError'),
          'ArithmeticError': ('ZeroDivisionError',)}


def _as_load(t):
    import copy as _c
    t = _c.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return t
