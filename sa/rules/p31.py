"""descriptions keep the values they are given"""
from ..oblig import *
from .world import *

SPEC = '''
from ghedt.peak_load_analysis_tool import media
from ghedt import gfunction

def kept(*values):
    return list(values)

def thermal(k, rhoCp):
    x = media.ThermalProperty(k, rhoCp)
    return [x.k, x.rhoCp]

def grout(k, rhoCp):
    x = media.Grout(k, rhoCp)
    return [x.k, x.rhoCp]

def soil(k, rhoCp, ugt):
    x = media.Soil(k, rhoCp, ugt)
    return [x.k, x.rhoCp, x.ugt]

def period(start, end, hot, cold, high, low):
    x = media.SimulationParameters(start, end, hot, cold, high, low)
    return [x.start_month, x.end_month, x.max_EFT_allowable,
            x.min_EFT_allowable, x.max_Height, x.min_Height]

def named(a, b, c, d, e, f):
    return [b, a, d, c, f, e]

def period_named(a, b, c, d, e, f):
    x = media.SimulationParameters(
        end_month=a, start_month=b, min_EFT_allowable=c,
        max_EFT_allowable=d, min_Height=e, max_Height=f)
    return [x.start_month, x.end_month, x.max_EFT_allowable,
            x.min_EFT_allowable, x.max_Height, x.min_Height]

def curves(B, r, D, g, t, where):
    x = gfunction.GFunction(B, r, D, g, t, where)
    return [x.B, x.r_b_values, x.D_values, x.g_lts, x.log_time,
            x.bore_locations]

def curves_named(B, r, D, g, t, where):
    x = gfunction.GFunction(bore_locations=where, log_time=t, g_lts=g,
                            D_values=D, r_b_values=r, B=B)
    return [x.B, x.r_b_values, x.D_values, x.g_lts, x.log_time,
            x.bore_locations]

def two(k, rhoCp, k2, rhoCp2):
    return [k, rhoCp, k2, rhoCp2]

def two_code(k, rhoCp, k2, rhoCp2):
    x = media.Grout(k, rhoCp)
    y = media.Grout(k2, rhoCp2)
    return [x.k, x.rhoCp, y.k, y.rhoCp]
'''
M = PL + 'media.'


def rules(C):
    C.load(SPEC)
    for name, where, code, n in (
            ('conductivity and capacity', 'ThermalProperty', 'thermal',
             'k rhoCp'),
            ('grout', 'Grout', 'grout', 'k rhoCp'),
            ('soil', 'Soil', 'soil', 'k rhoCp ugt'),
            ('period and limits', 'SimulationParameters', 'period',
             'start end hot cold high low')):
        C.equiv(name, M + where + '.__init__', 'kept',
                [(x, 'any') for x in n.split()], code='spec.' + code)
    C.equiv('period and limits by name', M + 'SimulationParameters.__init__',
            'named', [(x, 'any') for x in 'abcdef'], code='spec.period_named')
    for c in ('curves', 'curves_named'):
        C.equiv('g-functions, %s' % c, GF + '.__init__', 'kept',
                [(x, 'any') for x in 'B r D g t where'.split()],
                code='spec.' + c)
    C.equiv('two grouts', M + 'Grout.__init__', 'two',
            [(x, 'any') for x in 'k rhoCp k2 rhoCp2'.split()],
            code='spec.two_code')
