"""effect analysis: no function of the package writes a place that outlives the
call and its objects, or lets the clock, chance or the environment into what it
returns, stores or decides"""
import ast
import os

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop',
            'popitem', 'remove', 'discard', 'clear', 'sort', 'reverse',
            'appendleft', '__setitem__', '__setattr__', '__delitem__'}
CLOCK = {'random', 'secrets', 'uuid', 'time', 'datetime'}
CHANCE = {'os.environ', 'os.getenv', 'os.getpid', 'os.urandom',
          'numpy.random', 'os.times', 'sys.argv', 'os.getcwd'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}
FRESH = {'list', 'dict', 'set', 'sorted', 'tuple', 'copy.deepcopy',
         'copy.copy'}


class Module:
    def __init__(self, path, name):
        self.path, self.name = path, name
        with open(path) as f:
            self.tree = ast.parse(f.read())
        self.imports, self.globals, self.classes = {}, {}, {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = \
                        a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = '%s.%s' % (
                        n.module or '', a.name)
        for n in self.tree.body:
            for t in ast.walk(n) if isinstance(n, (
                    ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.If,
                    ast.Try, ast.With)) else ():
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    self.globals[t.id] = n
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = n

    def functions(self):
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                yield n.name, n, None
            elif isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        yield '%s.%s' % (n.name, m.name), m, n


def modules(repo):
    top = os.path.join(repo, 'ghedt')
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in (
            'examples', 'tests', 'test', 'validation', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith('test'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                yield Module(p, rel)


def chain(e):
    """a.b.c as ['a', 'b', 'c'], through subscripts; None for other forms"""
    out = []
    while True:
        if isinstance(e, ast.Attribute):
            out.append(e.attr)
            e = e.value
        elif isinstance(e, (ast.Subscript, ast.Starred)):
            e = e.value
        elif isinstance(e, ast.Name):
            return [e.id] + out[::-1]
        elif isinstance(e, ast.Call):
            f = chain(e.func)
            if f == ['type'] and e.args:
                return chain(e.args[0]) and chain(e.args[0]) + ['__class__']
            if f and f[-1] in ('get', 'setdefault') and len(f) > 1:
                return f[:-1]
            if f == ['getattr'] and e.args:
                return chain(e.args[0])
            return None
        else:
            return None


def text(mod, e):
    c = chain(e)
    if not c:
        return ''
    return '.'.join([mod.imports.get(c[0], c[0])] + c[1:])


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + \
        [x.arg for x in (a.vararg, a.kwarg) if x]


def bound(f):
    """names local to f, and those declared global"""
    out, glob = set(params(f)), set()
    for n in ast.walk(f):
        if isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            out.add(n.name)
            if isinstance(n, ast.FunctionDef):
                out |= set(params(n))
        elif isinstance(n, ast.Lambda):
            out |= set(params(n))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out - glob, glob


def imported_in(f):
    return {a.asname or a.name.split('.')[0] for n in ast.walk(f)
            if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}


class Effects:
    """the places outside of its own objects that a function may change"""

    def __init__(self, mod, name, f, cls, world):
        self.mod, self.name, self.f, self.cls, self.world = \
            mod, name, f, cls, world
        self.local, self.glob = bound(f)
        self.local -= imported_in(f)
        self.alias = {}
        self.found = []
        self.defaults = {}
        pos = f.args.posonlyargs + f.args.args
        for a, d in list(zip(pos[::-1], f.args.defaults[::-1])) + [
                (a, d) for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults)]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                              ast.DictComp)) or \
                    isinstance(d, ast.Call) and chain(d.func) in (
                        ['list'], ['dict'], ['set']):
                self.defaults[a.arg] = d

    def shared(self, e, depth=0):
        """the name of the lasting place an expression refers to, or None"""
        c = chain(e)
        if not c:
            return None
        r = c[0]
        if r in self.alias and depth < 5:
            return self.alias[r]
        if r in self.defaults:
            return 'default of parameter %s' % r
        if r == 'cls' and self.is_class_method():
            return 'class ' + self.cls.name
        if '__class__' in c:
            return 'class of ' + r
        if r == 'self' and self.cls is not None:
            if len(c) > 1 and c[1] in self.class_places() and \
                    not isinstance(e, ast.Attribute) or \
                    len(c) > 2 and c[1] in self.class_places():
                return 'class attribute %s.%s' % (self.cls.name, c[1])
            return None
        if r in self.local:
            return None
        if r in self.glob or r in self.mod.globals:
            return 'module variable ' + r
        if r in self.mod.classes or r in {
                n for n, _, k in self.mod.functions() if k is None}:
            return 'attribute of ' + '.'.join(c[:2]) if len(c) > 1 else None
        if r in self.mod.imports and len(c) > 1:
            full = '.'.join([self.mod.imports[r]] + c[1:])
            if full.split('.')[0] == 'ghedt':
                return 'module variable ' + full
            return None
        return None

    def is_class_method(self):
        return self.cls is not None and any(
            chain(d) == ['classmethod'] for d in self.f.decorator_list)

    def class_places(self):
        """mutable class attributes no constructor replaces"""
        own = {}
        for m in self.cls.body:
            if isinstance(m, (ast.Assign, ast.AnnAssign)) and m.value is not \
                    None and not isinstance(m.value, ast.Constant):
                for t in m.targets if isinstance(m, ast.Assign) else [m.target]:
                    if isinstance(t, ast.Name):
                        own[t.id] = m
        for m in self.cls.body:
            if isinstance(m, ast.FunctionDef) and m.name == '__init__':
                for n in ast.walk(m):
                    if isinstance(n, ast.Attribute) and \
                            isinstance(n.ctx, ast.Store) and \
                            chain(n.value) == ['self']:
                        own.pop(n.attr, None)
        return own

    def aliases(self):
        for _ in range(3):
            for n in ast.walk(self.f):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Name) and \
                        n.targets[0].id not in self.glob:
                    v = n.value
                    if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript,
                                      ast.Call)):
                        s = self.place(v)
                        if s:
                            self.alias[n.targets[0].id] = s

    def place(self, v):
        """a mutable lasting value, not an element copied out of it"""
        s = self.shared(v)
        if not s or s.startswith('attribute of'):
            # a function or class of the module itself
            return s if s and isinstance(v, (ast.Attribute, ast.Subscript)) \
                else None
        return s

    def report(self, node, what):
        self.found.append((node.lineno, what))

    def run(self):
        if self.f.name in ('__repr__', '__str__') or True:
            self.aliases()
        stored_params = set()
        for n in ast.walk(self.f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                              ast.Delete, ast.For)):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) \
                    else [n.target]
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, (ast.Attribute, ast.Subscript)) and \
                                isinstance(x.ctx, (ast.Store, ast.Del)):
                            s = self.shared(x)
                            if s and not (isinstance(x, ast.Attribute) and
                                          chain(x)[0] in self.alias and
                                          s.startswith('class attribute')):
                                self.write(n, s, x)
                        elif isinstance(x, ast.Name) and isinstance(
                                x.ctx, (ast.Store, ast.Del)) and \
                                x.id in self.glob:
                            self.write(n, 'module variable ' + x.id, x)
                        elif isinstance(x, ast.Name) and isinstance(
                                n, ast.AugAssign) and x.id in self.defaults:
                            self.report(n, 'changes the default of '
                                        'parameter %s' % x.id)
                v = getattr(n, 'value', None)
                if isinstance(v, ast.Name) and v.id in self.defaults and any(
                        isinstance(t, ast.Attribute) for t in tg):
                    stored_params.add((n, v.id))
            elif isinstance(n, ast.Return) and isinstance(n.value, ast.Name) \
                    and n.value.id in self.defaults:
                stored_params.add((n, n.value.id))
            elif isinstance(n, ast.Call):
                c = chain(n.func)
                if isinstance(n.func, ast.Attribute) and \
                        n.func.attr in MUTATORS:
                    s = self.shared(n.func.value)
                    if s and not (s.startswith('attribute of') and
                                  len(chain(n.func.value)) < 2):
                        self.write(n, s, n.func)
                if c and c[-1] in ('setattr', 'delattr') and n.args:
                    s = self.shared(n.args[0])
                    a = n.args[0]
                    if isinstance(a, ast.Name) and a.id in self.mod.classes \
                            and a.id not in self.local:
                        s = 'attribute of ' + a.id
                    if s:
                        self.write(n, s, n)
        for n, p in stored_params:
            self.report(n, 'lets the default of parameter %s, which all calls '
                        'share, out of the call' % p)
        self.decorated()
        self.chance()
        return self.found

    # ------------------------------------------------------------- memos
    def reads(self):
        """what the result is computed from: chains rooted at parameters"""
        out = set()

        def visit(n):
            if isinstance(n, ast.Attribute):
                c = chain(n)
                if c and c[0] in params(self.f) and \
                        isinstance(n.ctx, ast.Load):
                    out.add(tuple(c))
                    e = n
                    while not isinstance(e, ast.Name):
                        if isinstance(e, ast.Subscript):
                            visit(e.slice)
                        if isinstance(e, ast.Call):
                            for a in e.args:
                                visit(a)
                        e = e.value if not isinstance(e, ast.Call) else e.func
                    return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in params(self.f):
                out.add((n.id,))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                c = chain(n.func)
                if c and c[0] in params(self.f):
                    # a method may read anything of its object
                    out.add(tuple(c[:-1]))
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        visit(a)
                    return
            for k in ast.iter_child_nodes(n):
                visit(k)
        for s in self.f.body:
            visit(s)
        return out

    def covered(self, key):
        """does a memo key fix everything the function reads?"""
        local = {}
        for n in ast.walk(self.f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                local.setdefault(n.targets[0].id, []).append(n.value)
        have = set()

        def visit(e, depth=0):
            if isinstance(e, (ast.Tuple, ast.List)):
                for x in e.elts:
                    visit(x, depth)
            elif isinstance(e, ast.Name) and len(local.get(e.id, ())) == 1 \
                    and e.id not in params(self.f) and depth < 5:
                visit(local[e.id][0], depth + 1)
            elif isinstance(e, ast.Call):
                c = chain(e.func)
                if c in (['tuple'], ['frozenset'], ['float'], ['map'],
                         ['str'], ['repr']):
                    for x in e.args:
                        visit(x, depth)
                elif isinstance(e.func, ast.Attribute) and \
                        e.func.attr in ('tobytes', 'tolist'):
                    visit(e.func.value, depth)
            elif isinstance(e, ast.GeneratorExp):
                for g in e.generators:
                    if not g.ifs:
                        visit(g.iter, depth)
            elif isinstance(e, (ast.Name, ast.Attribute)):
                c = chain(e)
                if c:
                    have.add(tuple(c))
        visit(key)
        used = {r for r in self.reads()}
        # reads made only to build the key, or to enter the memo, are covered
        return all(any(r[:len(h)] == h and (len(r) == len(h) or len(h) > 1)
                       for h in have) for r in used)

    def write(self, node, place, target):
        key = None
        if isinstance(target, ast.Subscript):
            key = target.slice
        elif isinstance(node, ast.Call) and isinstance(
                node.func, ast.Attribute) and node.func.attr == 'setdefault' \
                and node.args:
            key = node.args[0]
        if key is not None and not isinstance(node, (ast.Delete,
                                                     ast.AugAssign)) and \
                not place.startswith('default') and self.covered(key):
            v = getattr(node, 'value', None)
            if self.growing(v) and any(
                    isinstance(n, ast.Return) and n.value is not None and
                    (ast.dump(n.value) == ast.dump(v) or
                     self.shared(n.value) == place)
                    for n in ast.walk(self.f)):
                self.report(node, 'hands the same changeable object of the '
                            '%s to every caller' % place)
            return
        if 'parameter' in place:
            self.report(node, 'changes the ' + place)
        else:
            self.report(node, 'writes the %s, which outlives the call' % place)

    def growing(self, v, depth=0):
        """a list, dictionary or set made here"""
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)):
            return True
        if isinstance(v, ast.Call):
            return chain(v.func) in (['list'], ['dict'], ['set'], ['sorted'])\
                or isinstance(v.func, ast.Attribute) and \
                v.func.attr == 'tolist'
        if isinstance(v, ast.Name) and depth < 3:
            return any(isinstance(n, (ast.Assign, ast.AnnAssign)) and
                       n.value is not None and
                       any(isinstance(t, ast.Name) and t.id == v.id for t in (
                           n.targets if isinstance(n, ast.Assign)
                           else [n.target])) and
                       self.growing(n.value, depth + 1)
                       for n in ast.walk(self.f))
        return False

    def decorated(self):
        for d in self.f.decorator_list:
            t = text(self.mod, d.func if isinstance(d, ast.Call) else d)
            if t not in CACHES:
                continue
            moving = self.world
            for r in sorted(self.reads()):
                if len(r) > 1 and (set(r[1:]) & moving):
                    self.report(d, 'remembers its first result although %s '
                                'can change' % '.'.join(r))
                    break
            for n in ast.walk(self.f):
                if isinstance(n, ast.Return) and self.growing(n.value):
                    self.report(d, 'hands the same changeable object to '
                                'every caller')
                    break

    # ------------------------------------------------------------- chance
    def source(self, e):
        t = text(self.mod, e)
        c = chain(e)
        if not c:
            return None
        if c[0] in self.local and c[0] not in self.mod.imports:
            return None
        if c in (['id'], ['hash'], ['input']):
            return c[0]
        if t.split('.')[0] in CLOCK and c[0] in self.mod.imports:
            return t
        for s in CHANCE:
            if t == s or t.startswith(s + '.'):
                return t
        return None

    def chance(self):
        taint = {}

        def dirty(e):
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and n.id in taint:
                    return taint[n.id]
                if isinstance(n, ast.Call):
                    s = self.source(n.func)
                    if s:
                        return s
                if isinstance(n, (ast.Attribute, ast.Subscript)):
                    t = text(self.mod, n)
                    for s in CHANCE:
                        if t == s or t.startswith(s + '.'):
                            return t
            return None
        for _ in range(4):
            for n in ast.walk(self.f):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) \
                        and n.value is not None:
                    s = dirty(n.value)
                    if s:
                        for t in n.targets if isinstance(n, ast.Assign) else \
                                [n.target]:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name):
                                    taint.setdefault(x.id, s)
        for n in ast.walk(self.f):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                s = dirty(n.value)
                if s:
                    self.report(n, 'returns what %s gives' % s)
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                s = dirty(n.test)
                if s:
                    self.report(n, 'decides by what %s gives' % s)
            elif isinstance(n, (ast.Assign, ast.AugAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                s = dirty(n.value)
                if s and any(isinstance(t, (ast.Attribute, ast.Subscript))
                             for t in tg):
                    self.report(n, 'stores what %s gives' % s)


def moving(mods):
    """attributes that code outside of constructors assigns"""
    out = {'H'}
    for m in mods:
        for name, f, cls in m.functions():
            if f.name == '__init__':
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
    return out


def rules(C):
    mods = list(modules(C.repo))
    world = moving(mods)
    for m in mods:
        if '.peak_load' not in m.name and m.name.count('.') > 1:
            continue
        for name, f, cls in m.functions():
            if name.count('.') and cls is None:
                continue
            dotted = '%s.%s' % (m.name, name)

            def go(ob, m=m, name=name, f=f, cls=cls):
                C.functions.add('%s.%s' % (m.name, name))
                found = Effects(m, name, f, cls, world).run()
                if not found:
                    return None
                ob.line = found[0][0]
                return '; '.join('line %d %s' % x for x in sorted(set(found)))
            try:
                C.judge('effects of ' + dotted, dotted,
                        'no write to a place that outlives the call, no '
                        'clock, chance or environment in a result', go)
            except Exception as e:
                if type(e).__name__ != 'AnalysisBroken':
                    raise
