"""sizing: the final height and the results left with it"""
from ..oblig import *
from .world import *

SPEC = '''
import warnings
from scipy.optimize import brentq
from ghedt.peak_load_analysis_tool.equivalance import solve_root

def objective(x):
    return 0.0

def root_observed(x, lower, upper):
    return solve_root(x, objective, lower=lower, upper=upper)

def root_specified(x, lower, upper):
    return root(x, objective, lower, upper)

def root_default(x):
    return solve_root(x, objective)

def root_default_specified(x):
    return root(x, objective, None, None)

def size(s, method):
    def excess(H):
        s.bhe.b.H = H
        hot, cold = s.simulate(method=method)
        return s.cost(hot, cold)
    lo = s.sim_params.min_Height
    hi = s.sim_params.max_Height
    if excess(lo) > 0:
        at_lo = excess(lo)
        at_hi = excess(hi)
        if at_hi < 0:
            brentq(excess, lo, hi, xtol=1e-6, rtol=1e-6, maxiter=50)

def size_warns(s, method):
    size(s, method)
    if s.bhe.b.H == s.sim_params.min_Height:
        warnings.warn('too long')
    if s.bhe.b.H == s.sim_params.max_Height:
        warnings.warn('too short')

def size_default(s):
    return size(s, 'hybrid')

def root(x, f, lower, upper):
    lo = x / 100 if lower is None else lower
    hi = 10 * x if upper is None else upper
    a = f(lo)
    b = f(hi)
    if a == 0:
        return lo
    if b == 0:
        return hi
    low = 1 if a > 0 else -1
    high = 1 if b > 0 else -1
    if high != low:
        return brentq(f, lo, hi, xtol=1e-6, rtol=1e-6, maxiter=50)
    elif high == -1 and low == -1:
        return hi
    elif high == 1 and low == 1:
        return lo
    return x
'''

SR = PL + 'equivalance.solve_root'


def warned(v, run):
    c = FALSE
    for e in run.events:
        if e.name == 'warnings.warn':
            c = or_(c, exists(e.cond, e.loops))
    return ite(c, ONE, ZERO)


def rules(C):
    C.load(SPEC)
    cuts = {GHE + '.simulate': simulate}
    pick = outcome('bhe.b.H', 'simulated', value=False)
    rng = lambda run, I: X.gt0(X.sub(sym('s.sim_params.max_Height'),
                                     sym('s.sim_params.min_Height')))
    for m in ('hybrid', 'hourly'):
        C.equiv('height of a %s sizing' % m, GHE + '.size', 'size',
                [('s', ghe), ('method', fixed(string(m)))], cuts=cuts,
                pick=pick, assume=[rng])
    C.equiv('method when none is asked for', GHE + '.size', 'size_default',
            [('s', ghe)], cuts=cuts, pick=pick, assume=[rng])
    C.equiv('warning when a height limit binds', GHE + '.size', 'size_warns',
            [('s', ghe), ('method', fixed(string('hybrid')))], cuts=cuts,
            pick=warned, assume=[rng])
    obj = {'spec.objective': Token('objective', 1)}
    C.equiv('root in given bounds', SR, 'root_specified',
            [('x', 'pos'), ('lower', 'pos'), ('upper', 'pos')],
            code='spec.root_observed', cuts=obj)
    C.equiv('root in default bounds', SR, 'root_default_specified',
            [('x', 'pos')], code='spec.root_default', cuts=obj)
