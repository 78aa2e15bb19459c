"""flow-rate specification is carried consistently into every model"""
from ..oblig import *
from .world import *

SPEC = '''
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
import math

def flows(s, coordinates, rho):
    n = len(coordinates)
    if s.flow == 'borehole':
        return s.V_flow * n, s.V_flow * rho / 1000
    elif s.flow == 'system':
        return s.V_flow, s.V_flow / n * rho / 1000
    raise ValueError('flow')

def spacing(borehole, coordinates):
    if len(coordinates) == 1:
        return borehole.r_b
    (x0, y0) = coordinates[0]
    (x1, y1) = coordinates[1]
    return max(borehole.r_b, math.sqrt((x1 - x0) ** 2 + (y1 - y0) ** 2))

def candidate(s, coordinates, H):
    bhe = s.ghe.bhe
    system, flow = s.retrieve_flow(coordinates, bhe.fluid.rho)
    bhe.b.H = H
    B = dt.utilities.borehole_spacing(bhe.b, coordinates)
    g = dt.gfunction.compute_live_g_function(
        B, [H], [bhe.b.r_b], [bhe.b.D], flow, s.bhe_object, s.log_time,
        coordinates, bhe.fluid, bhe.pipe, bhe.grout, bhe.soil)
    s.ghe = dt.ground_heat_exchangers.GHE(
        system, B, s.bhe_object, bhe.fluid, bhe.b, bhe.pipe, bhe.grout,
        bhe.soil, g, s.sim_params, s.hourly_extraction_ground_loads)

class Start(dt.search_routines.Bisection1D):
    def __init__(self, domain, V, borehole, bhe_object, fluid, pipe, grout,
                 soil, sim_params, loads, method, flow, max_iter):
        self.V_flow = V
        self.flow = flow
        self.method = method
        self.max_iter = max_iter
        self.log_time = dt.utilities.Eskilson_log_times()
        self.calculated_temperatures = {}
        field = domain[0]
        system, per_bore = self.retrieve_flow(field, fluid.rho)
        B = dt.utilities.borehole_spacing(borehole, field)
        g = dt.gfunction.compute_live_g_function(
            B, [borehole.H], [borehole.r_b], [borehole.D], per_bore,
            bhe_object, self.log_time, field, fluid, pipe, grout, soil)
        self.ghe = dt.ground_heat_exchangers.GHE(
            system, B, bhe_object, fluid, borehole, pipe, grout, soil, g,
            sim_params, loads)
        self.selection_key = None
        self.selected_coordinates = None
        if True:
            self.selection_key, self.selected_coordinates = self.search()

def start(domain, V, borehole, bhe_object, fluid, pipe, grout, soil,
          sim_params, loads, method, flow, max_iter):
    return seen(Start(domain, V, borehole, bhe_object, fluid, pipe, grout,
                      soil, sim_params, loads, method, flow, max_iter))

def start_code(domain, V, borehole, bhe_object, fluid, pipe, grout, soil,
               sim_params, loads, method, flow, max_iter):
    return seen(dt.search_routines.Bisection1D(
        domain, V, borehole, bhe_object, fluid, pipe, grout, soil, sim_params,
        loads, method=method, flow=flow, max_iter=max_iter))

def seen(s):
    return (s.ghe, s.selection_key, s.selected_coordinates, s.method, s.flow,
            s.V_flow, s.max_iter, s.calculated_temperatures)

def asked(nested, V, borehole, bhe_object, fluid, pipe, grout, soil,
          sim_params, loads, method, flow, max_iter):
    return V, flow, method, max_iter, sim_params, loads

def asked_two(nested, V, borehole, bhe_object, fluid, pipe, grout, soil,
              sim_params, loads, method, flow, max_iter):
    return settings(dt.search_routines.Bisection2D(
        nested, V, borehole, bhe_object, fluid, pipe, grout, soil, sim_params,
        loads, method=method, flow=flow, max_iter=max_iter))

def asked_zoned(nested, V, borehole, bhe_object, fluid, pipe, grout, soil,
                sim_params, loads, method, flow, max_iter):
    return settings(dt.search_routines.BisectionZD(
        nested, V, borehole, bhe_object, fluid, pipe, grout, soil, sim_params,
        loads, method=method, flow=flow, max_iter=max_iter))

def settings(s):
    return (s.V_flow, s.flow, s.method, s.max_iter, s.sim_params,
            s.hourly_extraction_ground_loads)

def exchanger(system, B, bhe_function, fluid, borehole, pipe, grout, soil, g,
              sim_params, loads):
    n = len(g.bore_locations)
    bhe = bhe_function(system / n * fluid.rho / 1000, fluid, borehole, pipe,
                       grout, soil)
    return (bhe, system / n, n, system, B, loads)

def exchanger_code(system, B, bhe_function, fluid, borehole, pipe, grout,
                   soil, g, sim_params, loads):
    s = dt.ground_heat_exchangers.BaseGHE(
        system, B, bhe_function, fluid, borehole, pipe, grout, soil, g,
        sim_params, loads)
    return (s.bhe, s.V_flow_borehole, s.nbh, s.V_flow_system, s.B_spacing,
            s.hourly_extraction_ground_loads)
'''

U1 = BHE + 'SingleUTube'
POS = ('k', 'rhoCp', 'r_b', 'rho')


def searched(I, f, args, kw, st, node):
    s = args_of(I, f, args, kw, st)[0]
    g = frozen(I, I.getattr(s, 'ghe', st), st)
    return lit([mk('fn', 'key', g), mk('fn', 'selection', g)])


evalt.TRUSTED.update({'selection', 'key'})


def seeflow(I, f, args, kw, st, node):
    """what the flow split is entitled to depend on"""
    b = args_of(I, f, args, kw, st)
    V = I.getattr(b[0], 'V_flow', st)
    m = I.getattr(b[0], 'flow', st)
    n = X.length(I.seqval(b[1], st))
    return lit([mk('fn', 'system-flow', V, m, n),
                mk('fn', 'borehole-flow', V, m, n, b[2])])


evalt.TRUSTED.update({'system-flow', 'borehole-flow'})
nonempty = lambda name: (lambda run, I: X.gt0(X.length(sym(name, 'seq'))))


def grid_points(r):
    """different points with equal coordinates"""
    p = [[x, y] for x in (0, 5, 10) for y in (0, 5, 10, 20)]
    r.shuffle(p)
    return p[:r.randint(1, 12)]


def rules(C):
    C.load(SPEC)
    me = instance(B1, V_flow='pos', flow='str')
    C.equiv('flow split', B1 + '.retrieve_flow', 'flows',
            [('s', me), ('coordinates', 'seq'), ('rho', 'pos')],
            assume=[nonempty('coordinates')])
    C.equiv('nominal spacing', 'ghedt.utilities.borehole_spacing', 'spacing',
            [('borehole', 'obj'), ('coordinates', 'seq')],
            assume=[nonempty('coordinates')],
            domains={'coordinates': point_list})
    cuts = {LIVE: all_args('live-g'), GHE: built('ghe'),
            B1 + '.retrieve_flow': seeflow,
            'ghedt.utilities.borehole_spacing': all_args('spacing')}
    C.equiv('candidate field', B1 + '.initialize_ghe', 'candidate',
            [('s', instance(B1, V_flow='pos', flow='str', bhe_object=
                            opaque_class(U1), log_time='seq',
                            ghe=instance(GHE, bhe=instance(U1)))),
             ('coordinates', 'seq'), ('H', 'pos')], cuts=cuts,
            pick=outcome('ghe'))
    domain = lambda I, st, n: I.make_input(n, 'seq', st)
    inputs = [('domain', 'seq'), ('V', 'pos'), ('borehole', 'obj'),
              ('bhe_object', opaque_class(U1)), ('fluid', 'obj'),
              ('pipe', 'obj'), ('grout', 'obj'), ('soil', 'obj'),
              ('sim_params', 'obj'), ('loads', 'seq'), ('method', 'str'),
              ('flow', 'str'), ('max_iter', 'posint')]
    C.equiv('start of a search', B1 + '.__init__', 'start', inputs,
            code='spec.start_code', cuts=dict(cuts, **{
                B1 + '.search': searched}))
    inputs[0] = ('nested', 'seq')
    from . import p04
    cuts2 = dict(p04.CUTS)
    cuts2[BZ + '.search_successive'] = lambda *a: lit([ZERO, ZERO])
    for cls, code in ((B2, 'asked_two'), (BZ, 'asked_zoned')):
        C.equiv('flow of a %s' % cls.split('.')[-1], cls + '.__init__',
                'asked', inputs, code='spec.' + code, cuts=cuts2,
                raises=False, domains={'nested': p04.nested})
    inputs = [('system', 'pos'), ('B', 'pos'),
              ('bhe_function', opaque_class(U1)), ('fluid', 'obj'),
              ('borehole', 'obj'), ('pipe', 'obj'), ('grout', 'obj'),
              ('soil', 'obj'), ('g', 'obj'), ('sim_params', 'obj'),
              ('loads', 'seq')]
    C.equiv('flow through each borehole', BASE + '.__init__', 'exchanger',
            inputs, code='spec.exchanger_code', cuts={
                U1: built('bhe'),
                PL + 'equivalance.compute_equivalent': all_args('equivalent'),
                RNB: built('radial'),
                RNB + '.calc_sts_g_functions': all_args('short-step')},
            shapes={'bore_locations': 'seq'}, domains={
                'g.bore_locations': grid_points})
