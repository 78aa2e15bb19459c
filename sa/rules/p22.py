"""the design front end: what is demanded, which fields are searched and how"""
from ..oblig import *
from .world import *

SPEC = '''
import math
import ghedt
from ghedt.design import Design
from ghedt.media import GeometricConstraints
from ghedt import domains, search_routines

def found(V, b, bhe, fluid, pipe, grout, soil, sim, gc, loads, method, routine,
          flow, disp):
    need = {'near-square': ('B', 'length'),
            'rectangle': ('width', 'length', 'B_min', 'B_max_x'),
            'bi-rectangle': ('width', 'length', 'B_min', 'B_max_x',
                             'B_max_y'),
            'bi-zoned': ('width', 'length', 'B_min', 'B_max_x', 'B_max_y')}
    if routine not in need:
        raise ValueError('routine')
    for n in need[routine]:
        assert getattr(gc, n) is not None
    if routine == 'near-square':
        fields = domains.square_and_near_square(
            1, 1 + int(math.floor(gc.length / gc.B)), gc.B)
        search = search_routines.Bisection1D
    elif routine == 'rectangle':
        fields = domains.rectangular(gc.length, gc.width, gc.B_min, gc.B_max_x)
        search = search_routines.Bisection1D
    elif routine == 'bi-rectangle':
        fields = domains.bi_rectangle_nested(
            gc.length, gc.width, gc.B_min, gc.B_max_x, gc.B_max_y)
        search = search_routines.Bisection2D
    else:
        fields = domains.bi_rectangle_zoned_nested(
            gc.length, gc.width, gc.B_min, gc.B_max_x, gc.B_max_y)
        search = search_routines.BisectionZD
    return search(fields, V, b, bhe, fluid, pipe, grout, soil, sim, loads,
                  method=method, flow=flow)

def found_code(V, b, bhe, fluid, pipe, grout, soil, sim, gc, loads, method,
               routine, flow, disp):
    return Design(V, b, bhe, fluid, pipe, grout, soil, sim, gc, loads,
                  method=method, routine=routine, flow=flow).find_design(
                      disp=disp)

def usual(V, b, bhe, fluid, pipe, grout, soil, sim, gc, loads):
    return found(V, b, bhe, fluid, pipe, grout, soil, sim, gc, loads, 'hybrid',
                 'near-square', 'borehole', False)

def usual_code(V, b, bhe, fluid, pipe, grout, soil, sim, gc, loads):
    return Design(V, b, bhe, fluid, pipe, grout, soil, sim, gc,
                  loads).find_design()

def limits(a, b, c, d, e, f, g, h):
    return {'length': a, 'width': b, 'B': c, 'B_min': d, 'B_max_x': e,
            'B_max_y': f, 'outer_constraints': g, 'no_go': h}

def limits_code(a, b, c, d, e, f, g, h):
    x = GeometricConstraints(length=a, width=b, B=c, B_min=d, B_max_x=e,
                             B_max_y=f, outer_constraints=g, no_go=h)
    return {'length': x.length, 'width': x.width, 'B': x.B, 'B_min': x.B_min,
            'B_max_x': x.B_max_x, 'B_max_y': x.B_max_y,
            'outer_constraints': x.outer_constraints, 'no_go': x.no_go}
'''
DOM = 'ghedt.domains.'
GC = 'ghedt.media.GeometricConstraints'
SILENT = ('disp', 'max_iter', 'search')


def heard(name, new=False):
    """a call is a function of its arguments by name, whatever it prints"""
    evalt.TRUSTED.add(name)

    def h(I, f, args, kw, st, node):
        d = I.bind(f.find('__init__')[1], [NONE] + list(args), kw, st) \
            if new else I.bind(f, args, kw, st)
        return mk('fn', name, *[frozen(I, v, st) for k, v in d.items()
                                if k != 'disp' and not (new and v is NONE
                                                        and k == 'self')])
    return h


CUTS = {DOM + 'square_and_near_square': heard('near-square-fields'),
        DOM + 'rectangular': heard('rectangular-fields'),
        DOM + 'bi_rectangle_nested': heard('bi-fields'),
        DOM + 'bi_rectangle_zoned_nested': heard('zoned-fields'),
        B1: heard('search-1', True), B2: heard('search-2', True),
        BZ: heard('search-zoned', True)}
FIELDS = ('B', 'length', 'width', 'B_min', 'B_max_x', 'B_max_y')


def limits(missing):
    return instance(GC, outer_constraints='any', no_go='any', **{
        n: fixed(NONE) if n in missing else 'pos' for n in FIELDS})


def rules(C):
    C.load(SPEC)
    base = [('V', 'pos'), ('b', 'obj'), ('bhe', lambda I, st, n:
                                         sym(n, 'any')), ('fluid', 'obj'),
            ('pipe', 'obj'), ('grout', 'obj'), ('soil', 'obj'), ('sim', 'obj')]
    where = 'ghedt.design.Design.find_design'
    for r in ('near-square', 'rectangle', 'bi-rectangle', 'bi-zoned', 'other'):
        for disp in (TRUE, FALSE):
            for method in ('hybrid', 'hourly'):
                C.equiv('%s, %s, %s' % (r, method, 'talking' if disp is TRUE
                                        else 'silent'),
                        where, 'found', base + [
                    ('gc', limits(())), ('loads', 'seq'),
                    ('method', fixed(string(method))),
                    ('routine', fixed(string(r))), ('flow', 'str'),
                    ('disp', fixed(disp))], code='spec.found_code', cuts=CUTS)
        for m in FIELDS:
            C.equiv('%s without %s' % (r, m), GC + '.check_inputs', 'found',
                    base + [('gc', limits((m,))), ('loads', 'seq'),
                            ('method', fixed(string('hybrid'))),
                            ('routine', fixed(string(r))), ('flow', 'str'),
                            ('disp', fixed(FALSE))], code='spec.found_code',
                    cuts=CUTS)
    C.equiv('nothing asked for', where, 'usual', base + [
        ('gc', limits(())), ('loads', 'seq')], code='spec.usual_code',
        cuts=CUTS)
    C.equiv('limits as given', GC + '.__init__', 'limits',
            [(n, 'any') for n in 'abcdefgh'], code='spec.limits_code')
    for i, n in enumerate('abcdefgh'):
        C.equiv('limits as given without the %dth' % (i + 1),
                GC + '.__init__', 'limits',
                [(m, fixed(NONE) if m == n else 'any') for m in 'abcdefgh'],
                code='spec.limits_code')
        C.equiv('limits as given with the %dth alone' % (i + 1),
                GC + '.__init__', 'limits',
                [(m, 'any' if m == n else fixed(NONE)) for m in 'abcdefgh'],
                code='spec.limits_code')
