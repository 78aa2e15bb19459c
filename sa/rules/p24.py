"""P24: what an analysis is given comes back as it was.

Every scenario the other rules set up (construct, inputs, stand-ins) is
interpreted again; this time its *inputs* after the call are compared with those
the reference leaves behind.  A reference changes an input only where that is
the purpose of the construct."""
import importlib

from ..oblig import *

SOURCES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
           20, 21, 22, 25, 26, 27, 28, 29, 30, 31, 32]
# the object a method belongs to may change
RECEIVERS = {'self', 's'}
OWN = {('BaseGHE.compute_g_functions', 'g'),
       ('ground_loads.synthetic_load_function', 'year')}

# what an object was made from: not its own to change
GIVEN = {'hourly_extraction_ground_loads', 'sim_params', 'coordinates_domain',
         'coordinates_domain_nested', 'soil', 'fluid', 'pipe', 'grout',
         'GFunction', 'hybrid_load', 'bore_locations', 'log_time', 'g_lts',
         'r_b_values', 'D_values', 'geometric_constraints', 'borehole_g'}


def components(I, st, obj, path, depth, out):
    """the given parts of an object, as they are bound before the call"""
    c = I.cell(obj, st)
    if not isinstance(c, Obj) or depth > 3:
        return
    for k in sorted(c.attrs):
        v = c.attrs[k]
        if k in GIVEN and v.op == 'ref':
            out.append(('%s.%s' % (path, k), v))
        components(I, st, v, '%s.%s' % (path, k), depth + 1, out)


class Inputs:
    """passes the scenarios of another rule on to a checker of inputs"""

    def __init__(self, C, pid):
        self.C, self.pid = C, pid

    def __getattr__(self, name):
        return getattr(self.C, name)

    def judge(self, *a, **k):
        return None

    def equiv(self, name, where, spec, inputs, code=None, kwargs=None,
              shapes=None, cuts=None, assume=None, domains=None, seqlen=None,
              setup=None, ikw=None, **other):
        f = pyval(self.C.interp().lookup(where))
        tail = '.'.join(where.split('.')[-2:])
        keep = [i for i, (n, k) in enumerate(inputs)
                if n not in RECEIVERS and (tail, n) not in OWN]
        if code is None and isinstance(f, Func) and f.node.args.args and \
                f.node.args.args[0].arg == 'self':
            keep = [i for i in keep if i]
        # numbers and texts cannot be changed
        keep = [i for i in keep if inputs[i][1] not in (
            'pos', 'nonneg', 'real', 'int', 'posint', 'nat', 'str', 'bool')]
        owners = [i for i in range(len(inputs)) if i not in keep and
                  callable(inputs[i][1])]

        def given(I, st, args):
            I.given = []
            for i in owners:
                components(I, st, args[i], inputs[i][0], 0, I.given)

        def mark(I, st, args):
            if setup is not None:
                setup(I, st, args)
            given(I, st, args)
        I, st = self.C.interp(shapes, cuts, **(ikw or {})), State()
        given(I, st, [k(I, st, n) if i in owners else None
                      for i, (n, k) in enumerate(inputs)])
        parts = [n for n, v in I.given]
        if not keep and not parts:
            return None

        def left(v, run):
            return lit([run.I.freeze(run.args[i], run.st, None)
                        for i in keep] +
                       [run.I.freeze(v, run.st, None)
                        for n, v in run.I.given])
        return self.C.equiv(
            '%s: %s' % (self.pid, name), where, spec, inputs, code=code,
            kwargs=kwargs, shapes=shapes, cuts=cuts, assume=assume,
            domains=domains, seqlen=seqlen, setup=mark, ikw=ikw, pick=left,
            raises=False, rule='the inputs %s are left as by reference %s' % (
                ', '.join([inputs[i][0] for i in keep] + parts), spec))


def rules(C):
    for n in SOURCES:
        pid = 'P%02d' % n
        C.sources = []
        importlib.import_module('sa.rules.p%02d' % n).rules(Inputs(C, pid))
