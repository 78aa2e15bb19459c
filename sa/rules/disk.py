"""stand-ins for files: what is written where, and what is read from where"""
from ..oblig import *
from ..interp import Ext
from .world import frozen

evalt.TRUSTED.update({'json-text', 'json-text-of-some', 'json-value', 'file-content', 'pickled',
                      'unpickled', 'no-directory'})
X.BOOLFN.add('no-directory')
SOURCE = '''
class File:
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode
    def write(self, data):
        wrote(self.path, self.mode, data)
    def read(self):
        return content(self.path, self.mode)
    def close(self):
        return None
    def flush(self):
        return None

def wrote(path, mode, data):
    pass

def content(path, mode):
    pass
'''


def param(args, kw, n, name, default=NONE):
    return args[n] if len(args) > n else kw.get(name, default)


def bytes_of(mode):
    return TRUE if mode.op == 'str' and 'b' in mode.args[0] else FALSE


def opened(I, name, args, kw, st, node):
    mode = param(args, kw, 1, 'mode', string('r'))
    if mode.op == 'str':
        mode = string(mode.args[0].replace('t', ''))
    return I.call(I.lookup('disk.File'), [args[0], mode], {}, st, node)


def unordered(t):
    """the order of the keys of a JSON object means nothing"""
    if t.op == 'dict':
        ks = [t.args[i:i + 2] for i in range(0, len(t.args), 2)]
        if all(k.op == 'str' for k, v in ks):
            ks = sorted(ks, key=lambda p: p[0].args[0])
        return mk('dict', *[x for k, v in ks for x in (k, unordered(v))])
    if t.op == 'seq':
        return mk('seq', *[mk(s.op, *[unordered(a) if isinstance(a, T) else a
                                      for a in s.args]) if s.op == 'e' else s
                           for s in t.args])
    return t


def text(I, v, kw, st):
    if kw.get('skipkeys', FALSE) is not FALSE:
        return mk('fn', 'json-text-of-some', frozen(I, v, st))
    return mk('fn', 'json-text', unordered(frozen(I, v, st)),
              frozen(I, kw.get('indent', NONE), st))


def json_dump(I, name, args, kw, st, node):
    f = param(args, kw, 1, 'fp')
    I.call(I.getattr(f, 'write', st),
           [text(I, param(args, kw, 0, 'obj'), kw, st)], {}, st, node)
    return NONE


def json_dumps(I, name, args, kw, st, node):
    return text(I, param(args, kw, 0, 'obj'), kw, st)


def pickle_dump(I, name, args, kw, st, node):
    f = param(args, kw, 1, 'file')
    I.call(I.getattr(f, 'write', st), [mk('fn', 'pickled', frozen(
        I, param(args, kw, 0, 'obj'), st))], {}, st, node)
    return NONE


def pickle_dumps(I, name, args, kw, st, node):
    return mk('fn', 'pickled', frozen(I, param(args, kw, 0, 'obj'), st))


def loads(name):
    def h(I, f, args, kw, st, node):
        return mk('fn', name, frozen(I, args[0], st))
    return h


def load(name):
    def h(I, f, args, kw, st, node):
        v = I.call(I.getattr(args[0] if args else list(kw.values())[0],
                             'read', st), [], {}, st, node)
        return mk('fn', name, v)
    return h


def wrote(I, f, args, kw, st, node):
    I.log('disk', 'write', [frozen(I, a, st) for a in args], st, node)
    return NONE


def content(I, f, args, kw, st, node):
    return mk('fn', 'file-content', frozen(I, args[0], st), bytes_of(args[1]))


def present(I, f, args, kw, st, node):
    return not_(mk('fn', 'no-directory', frozen(I, args[0], st)))


def made(I, f, args, kw, st, node):
    """asking for a directory that is there already changes nothing"""
    d = frozen(I, args[0], st)
    ok = param(args, kw, 2, 'exist_ok', FALSE)
    s = st.fork().assume(mk('fn', 'no-directory', d)) if ok is TRUE else st
    I.log('disk', 'directory', [d], s, node)
    return NONE


DISK = {'builtins.open': opened, 'io.open': opened, 'json.dump': json_dump,
        'json.dumps': json_dumps, 'json.load': load('json-value'),
        'json.loads': loads('json-value'), 'pickle.dump': pickle_dump,
        'pickle.dumps': pickle_dumps, 'pickle.load': load('unpickled'),
        'pickle.loads': loads('unpickled'), 'disk.wrote': wrote,
        'disk.content': content, 'os.path.exists': present,
        'os.path.isdir': present, 'os.makedirs': made}


def effects(v, run):
    """the returned value and all that happened to files, in order"""
    out = []
    for e in run.events:
        if e.kind == 'disk':
            if e.loops:
                raise Undecided('files in a loop')
            out.append(ite(e.cond, lit([string(e.name)] + list(e.args)),
                           NONE))
    return lit([v, lit([x for x in out if x is not NONE])])
