"""the g-function a simulation uses joins the short and the long time steps"""
from fractions import Fraction
from ..oblig import *
from .world import *

SPEC = '''
from scipy.interpolate import interp1d
from ghedt.ground_heat_exchangers import BaseGHE

def joined(lts, g_lts, sts, g_sts):
    first = min(lts)
    if max(sts) < first:
        times = sts + lts
        values = g_sts + g_lts
    else:
        i = 0
        value = sts[i]
        while value < first:
            i += 1
            value = sts[i]
        times = sts[:i] + lts
        values = g_sts[:i] + g_lts
    return interp1d(times, values)

def joined_code(lts, g_lts, sts, g_sts):
    return BaseGHE.combine_sts_lts(lts, g_lts, sts, g_sts)

def grab(s, ratio):
    g, rb, D, H = s.GFunction.g_function_interpolation(ratio)
    g = s.GFunction.borehole_radius_correction(g, rb, s.bhe.b.r_b)
    return s.combine_sts_lts(
        s.GFunction.log_time, g, [t for t in s.radial_numerical.lntts],
        [t for t in s.radial_numerical.g])
'''
evalt.TRUSTED.update({'g-at', 'rb-at', 'D-at', 'g-corrected', 'joined'})
X.SEQFN.update({'g-at', 'g-corrected'})


def interpolation(I, f, args, kw, st, node):
    a = args_of(I, f, args, kw, st)
    a = [frozen(I, x, st) for x in a[1:]]
    return lit([I.newlist(st, mk('fn', 'g-at', *a)), mk('fn', 'rb-at', *a),
                mk('fn', 'D-at', *a), mk('fn', 'H-at', *a)])


def correction(I, f, args, kw, st, node):
    return I.newlist(st, mk('fn', 'g-corrected', *[
        frozen(I, x, st) for x in args_of(I, f, args, kw, st)]))


def ascending(lo):
    def f(r):
        out = [Fraction(lo + r.randint(0, 4))]
        for _ in range(5):
            out.append(out[-1] + r.randint(1, 3))
        return out
    return f


def samples(name, n):
    """a list of as many values as there are times"""
    def f(I, st, _):
        k = X.fresh('k', 'int', 0)
        return I.newlist(st, X.seqfor(sym(n, 'int', 1, False), k, lit(
            [X.index(sym(name, 'seq'), k)])))
    return f


def rules(C):
    C.load(SPEC)
    dom = {'lts': ascending(-4), 'sts': ascending(-8)}
    dom.update((n, lambda r: [Fraction(r.randint(0, 9)) for _ in range(6)])
               for n in ('g_lts', 'g_sts'))
    dom.update((n, lambda r: r.randint(1, 6)) for n in ('L', 'S'))
    C.equiv('joining the time steps', BASE + '.combine_sts_lts', 'joined',
            [('lts', samples('lts', 'L')), ('g_lts', samples('g_lts', 'L')),
             ('sts', samples('sts', 'S')), ('g_sts', samples('g_sts', 'S'))], code='spec.joined_code', domains=dom)
    C.equiv('g-function of a simulation', BASE + '.grab_g_function', 'grab',
            [('s', instance(GHE, GFunction=instance(
                GF, log_time='seq'), bhe=instance(BHE + 'SingleUTube'),
                radial_numerical=instance(RNB, lntts='array', g='array'))),
             ('ratio', 'pos')],
            cuts={GF + '.g_function_interpolation': interpolation,
                  GF + '.borehole_radius_correction': correction,
                  BASE + '.combine_sts_lts': all_args('joined')})
