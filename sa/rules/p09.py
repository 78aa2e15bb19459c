"""the hourly ground loads are split into extraction and rejection"""
from ..oblig import *
from .world import *

SPEC = '''
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat

def split(hourly, units):
    if units == 'W':
        scale = 1000.
    elif units == 'kW':
        scale = 1.
    else:
        raise ValueError('units')
    return ([0. if q >= 0 else -q / scale for q in hourly],
            [q / scale if q >= 0 else 0. for q in hourly])

def split_default(hourly):
    return split(hourly, 'W')

def split_default_code(hourly):
    return plat.ground_loads.HybridLoad.split_heat_and_cool(hourly)

def exchanger(system, B, bhe_function, fluid, borehole, pipe, grout, soil, g,
              sim_params, loads):
    n = len(g.bore_locations)
    bhe = bhe_function(system / n * fluid.rho / 1000, fluid, borehole, pipe,
                       grout, soil)
    eq = plat.equivalance.compute_equivalent(bhe)
    radial = plat.radial_numerical_borehole.RadialNumericalBH(eq)
    radial.calc_sts_g_functions(eq)
    rejection, extraction = split(loads, 'W')
    return plat.ground_loads.HybridLoad(rejection, extraction, eq, radial,
                                        sim_params), loads

def exchanger_code(system, B, bhe_function, fluid, borehole, pipe, grout,
                   soil, g, sim_params, loads):
    s = dt.ground_heat_exchangers.GHE(
        system, B, bhe_function, fluid, borehole, pipe, grout, soil, g,
        sim_params, loads)
    return s.hybrid_load, s.hourly_extraction_ground_loads

def statistics(rejection, extraction, bhe, radial, sim_params, cop_r, cop_e,
               year):
    import math
    k2 = 2. * math.pi * bhe.soil.k
    Rb = bhe.compute_effective_borehole_resistance()
    return (plat.ground_loads.Loads(rejection, radial.g_sts, radial.t_s, k2,
                                    Rb, year=year),
            plat.ground_loads.Loads(extraction, radial.g_sts, radial.t_s, k2,
                                    Rb, year=year),
            sim_params.start_month, sim_params.end_month)

def statistics_code(rejection, extraction, bhe, radial, sim_params, cop_r,
                    cop_e, year):
    s = plat.ground_loads.HybridLoad(
        rejection, extraction, bhe, radial, sim_params, COP_rejection=cop_r,
        COP_extraction=cop_e, year=year)
    return s.rejection, s.extraction, s.startmonth, s.endmonth
'''
# an hourly simulation reads the loads and leaves them as they were given
KEPT = '''
def kept(s, method):
    return s.hourly_extraction_ground_loads

def kept_code(s, method):
    s.simulate(method=method)
    return s.hourly_extraction_ground_loads
'''
HL = PL + 'ground_loads.HybridLoad'
LO = PL + 'ground_loads.Loads'
U1 = BHE + 'SingleUTube'


def radial(I, cls, args, kw, st, node):
    d = ctor_args(I, cls, args, kw, st)
    return instance(RNB, origin=mk('fn', 'radial', *[
        frozen(I, v, st) for v in d.values()]), state=NONE)(I, st, 'radial')


def rules(C):
    C.load(SPEC)
    sp = HL + '.split_heat_and_cool'
    C.equiv('signs and units', sp, 'split',
            [('hourly', 'seq'), ('units', 'str')])
    C.equiv('watts by default', sp, 'split_default', [('hourly', 'seq')],
            code='spec.split_default_code')
    C.load(KEPT, 'kept')
    for m in ('hybrid', 'hourly'):
        C.equiv('loads after a %s simulation' % m, GHE + '.simulate',
                'kept.kept', [('s', sim_ghe), ('method', fixed(string(m)))],
                code='kept.kept_code', cuts=SIM, raises=False)
    inputs = [('system', 'pos'), ('B', 'pos'),
              ('bhe_function', opaque_class(U1)), ('fluid', 'obj'),
              ('borehole', 'obj'), ('pipe', 'obj'), ('grout', 'obj'),
              ('soil', 'obj'), ('g', 'obj'), ('sim_params', 'obj'),
              ('loads', 'seq')]
    C.equiv('loads given to the hybrid time step', GHE + '.__init__',
            'exchanger', inputs, code='spec.exchanger_code', cuts={
                U1: built('bhe'), HL: built('hybrid-load'), RNB: radial,
                PL + 'equivalance.compute_equivalent': all_args('equivalent'),
                RNB + '.calc_sts_g_functions': short_step},
            shapes={'bore_locations': 'seq'})
    C.equiv('both sides are analysed', HL + '.__init__', 'statistics',
            [('rejection', 'seq'), ('extraction', 'seq'),
             ('bhe', instance(U1)), ('radial', 'obj'), ('sim_params', 'obj'),
             ('cop_r', 'pos'), ('cop_e', 'pos'), ('year', 'posint')],
            code='spec.statistics_code', cuts={
                LO: built('loads'),
                HL + '.process_monthly_loads': lambda *a: NONE,
                BHE + 'BasePipe.compute_effective_borehole_resistance':
                    lambda *a: sym('Rb', 'real', 0, True)})
