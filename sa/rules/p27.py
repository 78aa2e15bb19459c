"""what is printed"""
from ..oblig import *
from .world import *
from .. import models
from .p19 import parts

SPEC = r'''
import numpy as np
import pandas as pd
from ghedt.peak_load_analysis_tool import ground_loads
from ghedt.peak_load_analysis_tool import media
from ghedt.peak_load_analysis_tool import borehole_heat_exchangers as bh

def line(label, value, unit=''):
    return label.ljust(40) + '= ' + str(value) + unit + '\n'

def r4(x):
    return str(round(x, 4))

def thermal(x):
    k = r4(x.k) if type(x.k) == float else str(x.k)
    return (str(x.__class__) + '\n'
            + line('Thermal conductivity', k, ' (W/m.K)')
            + line('Volumetric heat capacity', r4(x.rhoCp), ' (J/K.m3)'))

def shown(x):
    return repr(x)

def soil(x):
    return thermal(x) + line('Undisturbed ground temperature', r4(x.ugt),
                             ' (degrees Celsius)')

def pipe(x):
    out = thermal(x) + line('Pipe Positions (Center of pipes)', x.pos)
    if type(x.r_in) == float:
        out += line('Pipe inner radius', r4(x.r_in), ' (m)')
        out += line('Pipe outer radius', r4(x.r_out), ' (m)')
    else:
        out += line('Pipe inner radii', x.r_in, ' (m)')
        out += line('Pipe outer radii', x.r_out, ' (m)')
    return (out + line('Shank spacing (pipe to pipe)', r4(x.s), ' (m)')
            + line('Pipe roughness', x.eps, ' (m)')
            + line('Number of pipes', x.n_pipes))

def period(x):
    return (str(x.__class__) + '\n'
            + line('Start month', x.start_month, ' (months)')
            + line('End month', x.end_month, '(months)')
            + line('Max EFT Allowable', x.max_EFT_allowable,
                   ' (degrees Celsius)')
            + line('Min EFT Allowable', x.min_EFT_allowable,
                   ' (degrees Celsius)')
            + line('Maximum height', x.max_Height, ' (m)')
            + line('Minimum height', x.min_Height, ' (m)'))

def tube(x):
    Re = bh.compute_Reynolds(x.m_flow_pipe, x.pipe.r_in, x.pipe.eps, x.fluid)
    return (str(x.__class__) + '\n' + 50 * '-' + '\n'
            + line('Mass flow borehole', r4(x.m_flow_borehole), ' (kg/s)')
            + line('Mass flow pipe', r4(x.m_flow_pipe), ' (kg/s)')
            + repr(x.borehole) + '\n' + repr(x.soil) + repr(x.grout)
            + repr(x.pipe) + repr(x.fluid) + '\n'
            + line('Reynolds number', r4(Re))
            + line('Convection coefficient', r4(x.h_f), ' (W/m2.K)')
            + line('Pipe resistance', r4(x.R_p), ' (m.K/W)')
            + line('Fluid resistance', r4(x.R_f), ' (m.K/W)')
            + effective(x))

def effective(x):
    return line('Effective borehole resistance',
                r4(x.effective_borehole_thermal_resistance(
                    x.m_flow_borehole, x.fluid.cp)), ' (m.K/W)')

def tubes(x):
    return tube(x) + line('Config', x.config)

def coaxial(x):
    inner = bh.compute_Reynolds(x.m_flow_pipe, x.r_in_in, x.eps, x.fluid)
    ring = bh.compute_Reynolds_concentric(x.m_flow_pipe, x.r_in_out,
                                          x.r_out_in, x.fluid)
    return (str(x.__class__) + '\n' + 50 * '-' + '\n'
            + line('Mass flow borehole', r4(x.m_flow_borehole), ' (kg/s)')
            + line('Mass flow pipe', r4(x.m_flow_pipe), ' (kg/s)')
            + repr(x.b) + '\n' + repr(x.soil) + repr(x.grout)
            + repr(x.pipe) + repr(x.fluid) + '\n'
            + line('Inner pipe resistance', r4(x.R_p_in), ' (m.K/W)')
            + line('Outer pipe resistance', r4(x.R_p_out), ' (m.K/W)')
            + line('Grout resistance', r4(x.R_grout), ' (m.K/W)')
            + line('Reynolds annulus', r4(ring))
            + line('Inner annulus convection coef', r4(x.h_fluid_a_in),
                   ' (W/m2.K)')
            + line('Outer annulus convection coef', r4(x.h_fluid_a_out),
                   ' (W/m2.K)')
            + line('Inner annulus resistance', r4(x.R_f_a_in), ' (m.K/W)')
            + line('Outer annulus resistance', r4(x.R_f_a_out), ' (m.K/W)')
            + line('Reynolds inner', r4(inner))
            + line('Inner Convection coefficient', r4(x.h_fluid_in),
                   ' (W/m2.K)')
            + line('Fluid-to-fluid resistance', r4(x.R_ff), ' (m.K/W)')
            + line('Fluid-to-pipe resistance', r4(x.R_fp), ' (m.K/W)')
            + effective(x))

def new_tube(m, fluid, b, pipe, grout, soil):
    return tube(bh.SingleUTube(m, fluid, b, pipe, grout, soil))

def new_tube_code(m, fluid, b, pipe, grout, soil):
    return repr(bh.SingleUTube(m, fluid, b, pipe, grout, soil))

def new_tubes(m, fluid, b, pipe, grout, soil, config):
    return tubes(bh.MultipleUTube(m, fluid, b, pipe, grout, soil,
                                  config=config))

def new_tubes_code(m, fluid, b, pipe, grout, soil, config):
    return repr(bh.MultipleUTube(m, fluid, b, pipe, grout, soil,
                                 config=config))

def new_coaxial(m, fluid, b, pipe, grout, soil):
    return coaxial(bh.CoaxialPipe(m, fluid, b, pipe, grout, soil))

def new_coaxial_code(m, fluid, b, pipe, grout, soil):
    return repr(bh.CoaxialPipe(m, fluid, b, pipe, grout, soil))

MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']

def analysis(x):
    a, b = x.rejection, x.extraction
    columns = []
    for n in ('Total', 'Peak', 'Average', 'Peak Day', 'Peak Duration'):
        columns.append((n, 'rejection'))
        columns.append((n, 'extraction'))
    rows = []
    for i in range(1, 13):
        rows.append([a.monthly_total[i], b.monthly_total[i],
                     a.monthly_peak[i], b.monthly_peak[i],
                     a.monthly_average[i], b.monthly_average[i],
                     a.monthly_peak_day[i], b.monthly_peak_day[i],
                     a.monthly_peak_duration[i], b.monthly_peak_duration[i]])
    return pd.DataFrame(np.array(rows), index=MONTHS,
                        columns=pd.MultiIndex.from_tuples(
                            columns, names=['Fields', 'Load Type']))

def analysis_code(x):
    return x.create_dataframe_of_peak_analysis()

def loads(x):
    return str(x.__class__) + '\n' + x.create_dataframe_of_peak_analysis() \
        .to_string()

def month(i):
    return MONTHS[i - 1]

def month_code(i):
    return ground_loads.number_to_month(i)

def title(s, g=None):
    bar = 50 * '-' + '\n'
    return bar + '|' + s.center(48) + '|\n' + bar

def title_code(s, g):
    return g.header(s)

def pairs(x, per):
    g = x.grab_g_function(x.B_spacing / x.bhe.b.H)
    n = g.x.size - 27
    step = max(1, n // per)
    at = [i for i in range(0, n, step)] + [i for i in range(n, g.x.size)]
    return [(g.x[i], g.y[i]) for i in at]

def design(x):
    bar = 50 * '-' + '\n'
    out = bar + title('GHEDT GHE Output - Version 0.1') + bar
    out += line('Number of borheoles', len(x.GFunction.bore_locations))
    out += line('Depth of the borehole', r4(x.bhe.b.H), ' (m)')
    out += line('Bore hole spacing', r4(x.B_spacing), ' (m)')
    out += title('Borehole Heat Exchanger') + repr(x.bhe)
    out += title('Equivalent Borehole Heat Exchanger') + repr(x.bhe_eq)
    out += title('Simulation parameters') + repr(x.sim_params)
    out += title('Simulation Results')
    if len(x.HPEFT) > 0:
        hot, cold = max(x.HPEFT), min(x.HPEFT)
        out += line('Max HP entering temp', r4(hot), ' (degrees Celsius)')
        out += line('Min HP entering temp', r4(cold), ' (degrees Celsius)')
        out += line('Excess fluid temperature', r4(x.cost(hot, cold)),
                    ' (degrees Celsius)')
    out += title('Peak Load Analysis') + repr(x.hybrid_load) + '\n'
    out += title('GFunction Information')
    out += 'Coordinates\nx(m)\ty(m)\n'
    for p in x.GFunction.bore_locations:
        px, py = p
        out += str(px) + '\t' + str(py) + '\n'
    out += 'G-Function\nln(t/ts)\tg\n'
    for t, g in pairs(x, 50):
        out += r4(t) + '\t' + r4(g) + '\n'
    return out
'''
M = PL + 'media.'
GLM = PL + 'ground_loads.'
LO = GLM + 'Loads'
HY = GLM + 'HybridLoad'


def months(name):
    def f(I, st, n):
        return I.newlist(st, lit([ZERO] + [sym('%s%d' % (n, i), 'real')
                                           for i in range(1, 13)]))
    return f


def numbers(k):
    return lambda I, st, n: I.newlist(st, lit(
        [sym('%s%d' % (n, i), 'real') for i in range(k)]))


def places(I, st, n):
    return I.newlist(st, lit([lit([sym('x%d' % i, 'real'),
                                   sym('y%d' % i, 'real')])
                              for i in range(3)]))


def typed(kind, pytype):
    """a number of the given Python type"""
    def f(I, st, n):
        v = I.make_input('%s-%s' % (n, pytype), kind, st)
        models.PYTYPE[v.args[0]] = pytype
        return v
    return f


def curve(n, given=None):
    """a combined g-function of n points"""
    def h(I, f, args, kw, st, node):
        a = frozen(I, args_of(I, f, args, kw, st)[1], st)
        return I.call(py(Ext('scipy.interpolate.interp1d')), [
            I.newlist(st, lit([mk('fn', c, num(i), a) for i in range(n)]))
            for c in ('curve-x', 'curve-y')], {}, st)
    return h


evalt.TRUSTED.update({'curve-x', 'curve-y'})
flt = typed('pos', 'float')
whole = typed('posint', 'int')


def rules(C):
    C.load(SPEC)
    for n, k in (('float', flt), ('int', whole), ('list', 'seq')):
        C.equiv('thermal property, conductivity ' + n,
                M + 'ThermalProperty.__repr__', 'thermal',
                [('x', instance(M + 'ThermalProperty', k=k, rhoCp='pos'))],
                code='spec.shown')
        C.equiv('grout, conductivity ' + n, M + 'Grout', 'thermal',
                [('x', instance(M + 'Grout', k=k, rhoCp='pos'))],
                code='spec.shown')
    C.equiv('soil', M + 'Soil.__repr__', 'soil',
            [('x', instance(M + 'Soil', k=flt, rhoCp='pos', ugt='real'))],
            code='spec.shown')
    C.equiv('pipe', M + 'Pipe.__repr__', 'pipe',
            [('x', instance(M + 'Pipe', k=flt, rhoCp='pos', pos='seq',
                            r_in=flt, r_out=flt, s='pos', eps='pos',
                            n_pipes='posint'))], code='spec.shown')
    C.equiv('coaxial pipe', M + 'Pipe.__repr__', 'pipe',
            [('x', instance(M + 'Pipe', k='seq', rhoCp='pos', pos='any',
                            r_in='seq', r_out='seq', s='pos', eps='pos',
                            n_pipes=ONE))], code='spec.shown')
    C.equiv('period and limits', M + 'SimulationParameters.__repr__',
            'period', [('x', instance(
                M + 'SimulationParameters', start_month='posint',
                end_month='posint', max_EFT_allowable='real',
                min_EFT_allowable='real', max_Height='pos',
                min_Height='pos'))], code='spec.shown')
    C.equiv('single U-tube', BHE + 'SingleUTube.__repr__', 'new_tube',
            parts(1), code='spec.new_tube_code')
    for n in (2, 3):
        for config in ('series', 'parallel'):
            C.equiv('%d U-tubes in %s' % (n, config),
                    BHE + 'MultipleUTube.__repr__', 'new_tubes',
                    parts(n) + [('config', fixed(string(config)))],
                    code='spec.new_tubes_code')
    C.equiv('coaxial', BHE + 'CoaxialBase.__repr__', 'new_coaxial',
            parts(1, True), code='spec.new_coaxial_code')
    load = instance(LO, **{n: months(n) for n in (
        'monthly_total', 'monthly_peak', 'monthly_average',
        'monthly_peak_day', 'monthly_peak_duration')})
    hybrid = instance(HY, rejection=load, extraction=load)
    C.equiv('table of the load analysis',
            HY + '.create_dataframe_of_peak_analysis', 'analysis',
            [('x', hybrid)], code='spec.analysis_code',
            ikw=dict(unroll_range=16))
    C.equiv('load analysis', HY + '.__repr__', 'loads', [('x', hybrid)],
            code='spec.shown', cuts={
                HY + '.create_dataframe_of_peak_analysis': all_args('table')})
    for i in range(1, 13):
        C.equiv('name of month %d' % i, GLM + 'number_to_month', 'month',
                [('i', fixed(num(i)))], code='spec.month_code')
    C.equiv('header', BASE + '.header', 'title',
            [('s', 'str'), ('g', instance(GHE))], code='spec.title_code')
    for n in (27, 28, 60, 127, 128, 180, 230):
        for sim in (0, 2):
            C.equiv('design of %d values, %ssimulated' % (
                n, '' if sim else 'not '), GHE + '.__repr__', 'design', [
                ('x', instance(
                    GHE, bhe='obj', bhe_eq='obj', sim_params='obj',
                    hybrid_load='obj', B_spacing='pos', HPEFT=numbers(sim),
                    GFunction=instance(GF, bore_locations=places)))],
                code='spec.shown', cuts={BASE + '.grab_g_function': curve(n)},
                ikw=dict(unroll_range=300, unroll_lit=300))
