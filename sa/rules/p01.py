"""excess temperature and extremes of a simulation"""
from ..oblig import *
from .world import *

SPEC = '''
def cost(s, hot, cold):
    return max(hot - s.sim_params.max_EFT_allowable,
               s.sim_params.min_EFT_allowable - cold)

def extremes(s, method):
    s.simulate(method=method)
    return (max(s.HPEFT), min(s.HPEFT))

def observed(s, method):
    return s.simulate(method=method)

def excess(s, coordinates, H):
    s.initialize_ghe(coordinates, H)
    hot, cold = s.ghe.simulate(method=s.method)
    return max(hot - s.ghe.sim_params.max_EFT_allowable,
               s.ghe.sim_params.min_EFT_allowable - cold)
'''


def place(I, f, args, kw, st, node):
    """the search's heat exchanger is replaced by one for these coordinates"""
    s, c, h = args_of(I, f, args, kw, st)[:3]
    g = I.getattr(s, 'ghe', st)
    b = I.getattr(I.getattr(g, 'bhe', st), 'b', st)
    I.setattr(b, 'H', h, st)
    I.setattr(g, 'state', mk('fn', 'ghe', frozen(I, c, st), h), st)
    return NONE


def rules(C):
    C.load(SPEC)
    C.equiv('excess temperature', BASE + '.cost',
            'cost', [('s', 'obj'), ('hot', 'real'), ('cold', 'real')])
    for m in ('hybrid', 'hourly'):
        C.equiv('extremes of a %s simulation' % m, GHE + '.simulate',
                'extremes', [('s', sim_ghe), ('method', fixed(string(m)))],
                code='spec.observed', cuts=SIM)
    C.equiv('excess of a candidate field', B1 + '.calculate_excess', 'excess',
            [('s', instance(B1, ghe=ghe, method='str')),
             ('coordinates', 'seq'), ('H', 'pos')],
            cuts={B1 + '.initialize_ghe': place, GHE + '.simulate': simulate},
            pick=outcome('ghe.state', 'ghe.simulated'))
