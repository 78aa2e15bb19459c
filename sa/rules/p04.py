"""nested searches: which list of candidates is searched, and what is left"""
from fractions import Fraction

from ..oblig import *
from ..interp import Dct
from .world import *

SPEC = '''
import copy
import ghedt as dt

class Nested(dt.search_routines.Bisection1D):
    def __init__(self, nested, V, borehole, bhe_object, fluid, pipe, grout,
                 soil, sim_params, loads, method, flow, max_iter):
        super().__init__(
            nested[0], V, borehole, bhe_object, fluid, pipe, grout, soil,
            sim_params, loads, method=method, flow=flow, max_iter=max_iter,
            disp=False, search=False)
        self.coordinates_domain_nested = []
        self.calculated_temperatures_nested = []
        outer = [nested[0][0]]
        for d in nested:
            outer.append(d[-1])
        self.coordinates_domain = outer
        key, selected = self.search()
        self.calculated_temperatures_nested.append(
            copy.deepcopy(self.calculated_temperatures))
        if key > 0:
            key -= 1
        self.coordinates_domain = nested[key]
        self.calculated_temperatures = {}
        self.selection_key, self.selected_coordinates = self.search()

class Successive(dt.search_routines.Bisection1D):
    def __init__(self, nested, V, borehole, bhe_object, fluid, pipe, grout,
                 soil, sim_params, loads, method, flow, max_iter):
        super().__init__(
            nested[0], V, borehole, bhe_object, fluid, pipe, grout, soil,
            sim_params, loads, method=method, flow=flow, max_iter=max_iter,
            disp=False, search=False)
        self.coordinates_domain_nested = nested
        self.calculated_temperatures_nested = {}
        outer = [nested[0][0]]
        for d in nested:
            outer.append(d[-1])
        self.coordinates_domain = outer
        self.selection_key_outer, self.selected_coordinates_outer = \\
            self.search()
        if self.selection_key_outer > 0:
            self.selection_key_outer -= 1
        self.calculated_heights = {}
        self.selection_key, self.selected_coordinates = \\
            self.search_successive()

    def search_successive(self):
        return successive(self, None)

def successive(s, max_iter):
    nested = s.coordinates_domain_nested
    if max_iter is None:
        max_iter = s.selection_key_outer + 7
    i = s.selection_key_outer
    old = 99999
    while i < len(nested) and i < max_iter:
        s.coordinates_domain = nested[i]
        s.calculated_temperatures = {}
        try:
            key, field = s.search()
        except ValueError:
            break
        s.calculated_temperatures_nested[i] = \\
            copy.deepcopy(s.calculated_temperatures)
        s.ghe.compute_g_functions()
        s.ghe.size(method='hybrid')
        drilling = len(field) * s.ghe.bhe.b.H
        s.calculated_heights[i] = drilling
        if old < drilling:
            break
        else:
            old = drilling
        i += 1
    keys = list(s.calculated_heights.keys())
    values = list(s.calculated_heights.values())
    best = keys[values.index(min(values))]
    s.calculated_temperatures = \\
        copy.deepcopy(s.calculated_temperatures_nested[best])
    keys = list(s.calculated_temperatures.keys())
    values = list(s.calculated_temperatures.values())
    ok = [values[i] for i in range(len(values)) if values[i] <= 0.0]
    key = keys[values.index(max(ok))]
    field = nested[best][key]
    s.initialize_ghe(field, s.sim_params.max_Height)
    s.ghe.compute_g_functions()
    s.ghe.size(method='hybrid')
    return key, field

def heights(s):
    return (s.search_successive(), s.ghe.state, s.ghe.bhe.b.H)

def heights_spec(s):
    return (successive(s, None), s.ghe.state, s.ghe.bhe.b.H)

def made(cls, nested, V, borehole, bhe_object, fluid, pipe, grout,
         soil, sim_params, loads, method, flow, max_iter):
    return cls(nested, V, borehole, bhe_object, fluid, pipe, grout, soil,
               sim_params, loads, method=method, flow=flow, max_iter=max_iter)

def two(*a):
    s = made(Nested, *a)
    return (s.selection_key, s.selected_coordinates, s.ghe.state, s.ghe.origin,
            s.calculated_temperatures, s.calculated_temperatures_nested)

def two_code(*a):
    s = made(dt.search_routines.Bisection2D, *a)
    return (s.selection_key, s.selected_coordinates, s.ghe.state, s.ghe.origin,
            s.calculated_temperatures, s.calculated_temperatures_nested)

def zoned(*a):
    s = made(Successive, *a)
    return (s.selection_key_outer, s.selection_key, s.selected_coordinates,
            s.ghe.state, s.ghe.origin)

def zoned_code(*a):
    s = made(dt.search_routines.BisectionZD, *a)
    return (s.selection_key_outer, s.selection_key, s.selected_coordinates,
            s.ghe.state, s.ghe.origin)
'''

for _n in ('nosolution', 'key', 'selection', 'excess-of', 'withg', 'sized',
           'height', 'started', 'best'):
    evalt.TRUSTED.add(_n)
X.FNINT.add('key')
X.BOOLFN.add('nosolution')
X.SEQFN.add('selection')
X.FNSIGN['key'] = '>=0'
evalt.SAMPLE['nosolution'] = lambda r: r.random() < 0.08
evalt.SAMPLE['key'] = lambda r: r.choice([0, 1, 1, 2])
evalt.SAMPLE['excess-of'] = lambda r: r.choice([-3, -2, -1, 0, 1, 2, -4, -5])
evalt.SAMPLE['height'] = lambda r: r.choice(
    [60] * 8 + [40, 80, 90, Fraction(604, 10), Fraction(596, 10)])
# two boreholes more often than not, so that drilling stays the same for long
evalt.SAMPLE['selection'] = lambda r: [
    [r.randint(0, 99), r.randint(0, 99)] for _ in range(
        r.choice([1, 2, 2, 2, 2, 2, 2, 3]))]
X.FNSIGN['height'] = '>0'
U1 = BHE + 'SingleUTube'


def start(I, f, args, kw, st, node):
    d = I.bind(f, args, kw, st)
    me = d.pop('self')
    a = {k: frozen(I, v, st) for k, v in d.items() if k != 'disp'}
    g = instance(GHE, origin=mk('fn', 'started', *a.values()),
                 bhe=instance(U1))(I, st, 'ghe')
    for k in ('V_flow', 'method', 'flow', 'max_iter', 'disp', 'sim_params',
              'coordinates_domain', 'bhe_object',
              'hourly_extraction_ground_loads'):
        I.setattr(me, k, d[k], st)
    I.setattr(me, 'ghe', g, st)
    I.setattr(me, 'calculated_temperatures', I.newdict(st), st)
    if d['search'] is not FALSE:
        raise Undecided('search while starting')
    return NONE


def place(I, f, args, kw, st, node):
    s, c, h = args_of(I, f, args, kw, st)[:3]
    g = I.getattr(s, 'ghe', st)
    I.setattr(I.getattr(I.getattr(g, 'bhe', st), 'b', st), 'H', h, st)
    I.setattr(g, 'state', mk('fn', 'ghe', frozen(I, c, st), h), st)
    return NONE


def search(I, f, args, kw, st, node):
    s = args_of(I, f, args, kw, st)[0]
    dom = frozen(I, I.getattr(s, 'coordinates_domain', st), st)
    no = mk('fn', 'nosolution', dom)
    c = simp(no, st.facts)
    if c is not FALSE:
        s2 = st.fork()
        s2.assume(c)
        I.do_raise('ValueError', s2, node)
        st.assume(not_(c))
    t = I.getattr(s, 'calculated_temperatures', st)
    for k in (ZERO, mk('fn', 'key', dom), X.sub(X.length(dom), ONE)):
        I.setitem(t, k, mk('fn', 'excess-of', dom, k), st)
    sel = mk('fn', 'selection', dom)
    h = I.getattr(I.getattr(s, 'sim_params', st), 'max_Height', st)
    g = I.getattr(s, 'ghe', st)
    I.setattr(I.getattr(I.getattr(g, 'bhe', st), 'b', st), 'H', h, st)
    I.setattr(g, 'state', mk('fn', 'ghe', sel, h), st)
    return lit([mk('fn', 'key', dom), I.newlist(st, sel)])


def with_g(I, f, args, kw, st, node):
    g = args_of(I, f, args, kw, st)[0]
    I.setattr(g, 'state', mk('fn', 'withg', I.getattr(g, 'state', st)), st)
    return NONE


def size(I, f, args, kw, st, node):
    g, m = args_of(I, f, args, kw, st)[:2]
    s = mk('fn', 'sized', I.getattr(g, 'state', st), m)
    I.setattr(g, 'state', s, st)
    I.setattr(I.getattr(I.getattr(g, 'bhe', st), 'b', st), 'H',
              mk('fn', 'height', s), st)
    return NONE


CUTS = {B1 + '.__init__': start, B1 + '.initialize_ghe': place,
        B1 + '.search': search, BASE + '.compute_g_functions': with_g,
        GHE + '.size': size}


def nested(r):
    from fractions import Fraction
    n = r.choice([1, 2, 3, 4, 10, 12])
    return [[[Fraction(10 * i + j)] * (1 + (i + j) % 2) for j in range(3 + i % 3)]
            for i in range(n)]


def rules(C):
    C.load(SPEC)
    inputs = [('nested', 'seq'), ('V', 'pos'), ('borehole', 'obj'),
              ('bhe_object', opaque_class(U1)), ('fluid', 'obj'),
              ('pipe', 'obj'), ('grout', 'obj'), ('soil', 'obj'),
              ('sim_params', 'obj'), ('loads', 'seq'), ('method', 'str'),
              ('flow', 'str'), ('max_iter', 'posint')]
    dom = {'nested': nested,
           's.selection_key_outer': lambda r: r.choice([0, 0, 1, 2])}
    C.equiv('nested search', B2 + '.__init__', 'two', inputs,
            code='spec.two_code', cuts=CUTS, domains=dom)

    def succ(I, f, args, kw, st, node):
        s = args_of(I, f, args, kw, st)[0]
        d = frozen(I, I.getattr(s, 'coordinates_domain_nested', st), st)
        k = frozen(I, I.getattr(s, 'selection_key_outer', st), st)
        g = I.getattr(s, 'ghe', st)
        I.setattr(g, 'state', mk('fn', 'best', d, k,
                                 I.getattr(g, 'state', st)), st)
        return lit([mk('fn', 'key', d), mk('fn', 'selection', d)])
    C.equiv('successive search starts', BZ + '.__init__', 'zoned', inputs,
            code='spec.zoned_code', domains=dom,
            cuts=dict(CUTS, **{BZ + '.search_successive': succ,
                               'spec.Successive.search_successive': succ}))
    me = instance(BZ, coordinates_domain_nested=lambda I, st, n: I.make_input(
        'nested', 'seq', st), selection_key_outer='nat',
        calculated_temperatures_nested=empty_dict,
        calculated_heights=empty_dict, calculated_temperatures=empty_dict,
        ghe=instance(GHE, bhe=instance(U1), state='any'))
    C.equiv('least drilling over successive lists', BZ + '.search_successive',
            'heights_spec', [('s', me)], code='spec.heights', cuts=CUTS,
            domains=dom)
