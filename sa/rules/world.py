"""stand-ins shared by the rules about simulations, sizing and searches: a call
of a construct that has its own property becomes an uninterpreted function of
exactly what that construct is entitled to depend on"""
from ..oblig import *
from ..interp import Ext
from ..terms import fresh

TOP = 'ghedt.'
PL = 'ghedt.peak_load_analysis_tool.'
GHE = 'ghedt.ground_heat_exchangers.GHE'
BASE = 'ghedt.ground_heat_exchangers.BaseGHE'
BHE = PL + 'borehole_heat_exchangers.'
RNB = PL + 'radial_numerical_borehole.RadialNumericalBH'
B1 = 'ghedt.search_routines.Bisection1D'
B2 = 'ghedt.search_routines.Bisection2D'
BZ = 'ghedt.search_routines.BisectionZD'
LIVE = 'ghedt.gfunction.compute_live_g_function'
GF = 'ghedt.gfunction.GFunction'

for _n in ('fluid-temperatures', 'wall-temperatures', 'combined-g',
           'resistances', 'equivalent', 'short-step', 'ghe', 'excess',
           'hottest', 'coldest', 'root', 'spacing', 'live-g', 'nosolution',
           'excess-of', 'key', 'withg', 'sized', 'height', 'split-rejection',
           'split-extraction', 'radial', 'hybrid-load'):
    evalt.TRUSTED.add(_n)
X.SEQFN.update({'fluid-temperatures', 'wall-temperatures',
                'split-rejection', 'split-extraction'})


def args_of(I, f, args, kw, st):
    return list(I.bind(f, args, kw, st).values())


def frozen(I, v, st):
    return I.freeze(v, st, None)


def detailed(I, f, args, kw, st, node):
    a = [frozen(I, x, st) for x in args_of(I, f, args, kw, st)[1:4]]
    return lit([I.newlist(st, mk('fn', 'fluid-temperatures', *a)),
                I.newlist(st, mk('fn', 'wall-temperatures', *a))])


def update(I, f, args, kw, st, node):
    """the resistances become those of the present height and flow"""
    me = args_of(I, f, args, kw, st)[0]
    flow = frozen(I, I.getattr(me, 'm_flow_borehole', st), st)
    H = I.getattr(I.getattr(me, 'b', st), 'H', st)
    I.setattr(me, 'state', mk('fn', 'resistances', flow, H), st)
    return NONE


def equivalent(I, f, args, kw, st, node):
    bhe = args_of(I, f, args, kw, st)[0]
    return mk('fn', 'equivalent', frozen(I, I.getattr(bhe, 'state', st), st))


def short_step(I, f, args, kw, st, node):
    b = args_of(I, f, args, kw, st)
    I.setattr(b[0], 'state', mk('fn', 'short-step', frozen(I, b[1], st)), st)
    return NONE


def grab(I, f, args, kw, st, node):
    b = args_of(I, f, args, kw, st)
    r = I.getattr(b[0], 'radial_numerical', st)
    return mk('fn', 'combined-g', frozen(I, b[1], st),
              frozen(I, I.getattr(r, 'state', st), st))


SIM = {BASE + '._simulate_detailed': detailed,
       BASE + '.grab_g_function': grab,
       BHE + 'SingleUTube.update_thermal_resistance': update,
       BHE + 'BasePipe.update_thermal_resistance': update,
       PL + 'equivalance.compute_equivalent': equivalent,
       RNB + '.calc_sts_g_functions': short_step}


def simulate(I, f, args, kw, st, node):
    """(hottest, coldest) temperature of a simulation at the present height"""
    b = args_of(I, f, args, kw, st)
    me, m = b[0], b[1] if len(b) > 1 else string('hybrid')
    H = I.getattr(I.getattr(I.getattr(me, 'bhe', st), 'b', st), 'H', st)
    I.setattr(me, 'simulated', lit([H, m]), st)
    return lit([mk('fn', 'hottest', H, m), mk('fn', 'coldest', H, m)])


def solve_root(I, f, args, kw, st, node):
    """a bracketing solver: the objective is left evaluated at its result"""
    d = I.bind(f, args, kw, st)
    names = list(d)
    x, obj = d[names[0]], d[names[1]]
    lo, hi = d.get('lower', NONE), d.get('upper', NONE)
    k = fresh('h', 'real')
    s2 = st.fork()
    val = I.call(obj, [k], {}, s2)
    lv = X.bv(1, 0, 'any')
    body = subst(frozen(I, val, s2), {k: X.bv(9, 1, 'any')})
    r = mk('fn', 'root', body, lo, hi)
    I.call(obj, [r], {}, st)
    return r


ghe = instance(GHE, bhe=instance(BHE + 'SingleUTube', state='any'),
               radial_numerical=instance(RNB, state='any'))
sim_ghe = instance(
    GHE, bhe=instance(BHE + 'SingleUTube', state='any'),
    radial_numerical=instance(RNB, state='any'),
    hourly_extraction_ground_loads='seq')


def ctor_args(I, cls, args, kw, st):
    """arguments of a constructor by parameter name, in signature order"""
    _, init = cls.find('__init__')
    d = I.bind(init, [NONE] + list(args), kw, st)
    return dict(list(d.items())[1:])


def built(name):
    """constructing an object is a function of all the constructor is given"""
    evalt.TRUSTED.add(name)

    def h(I, cls, args, kw, st, node):
        d = ctor_args(I, cls, args, kw, st)
        return mk('fn', name, *[frozen(I, v, st) for v in d.values()])
    return h


def all_args(name):
    evalt.TRUSTED.add(name)

    def h(I, f, args, kw, st, node):
        return mk('fn', name, *[frozen(I, v, st)
                                for v in args_of(I, f, args, kw, st)])
    return h


def opaque_class(dotted):
    """a reference to a class of the repository"""
    return lambda I, st, n: I.lookup(dotted)
