"""what the g-function package is asked for, and how its answers are keyed"""
from ..oblig import *
from .world import *
from ..models import fz

SPEC = '''
import numpy as np
import pygfunction as gt
from ghedt.gfunction import GFunction

def computed(m, bhe, times, coords, b, fluid, pipe, grout, soil, nSegments,
             end, segments, solver, boundary, ratios, disp):
    if segments in ('equal', 'EQUAL'):
        options = {'nSegments': nSegments, 'disp': disp}
    elif segments in ('unequal', 'Unequal'):
        if ratios is None:
            ratios = gt.utilities.segment_ratios(nSegments,
                                                 end_length_ratio=end)
        options = {'nSegments': nSegments, 'segment_ratios': ratios,
                   'disp': disp}
    else:
        raise ValueError('segments')
    if boundary not in ('UHTR', 'UBWT', 'MIFT'):
        raise ValueError('boundary')
    field = [gt.boreholes.Borehole(b.H, b.D, b.r_b, x, y, b.tilt,
                                   b.orientation) for x, y in coords]
    alpha = soil.k / soil.rhoCp
    if boundary == 'MIFT':
        pipes = [bhe(m, fluid, gt.boreholes.Borehole(
            b.H, b.D, b.r_b, x, y, b.tilt, b.orientation), pipe, grout, soil)
            for x, y in coords]
        what = gt.networks.Network(field, pipes, m_flow_network=len(coords) * m,
                                   cp_f=fluid.cp)
    else:
        what = field
    return gt.gfunction.gFunction(what, alpha, time=times, method=solver,
                                  boundary_condition=boundary, options=options)

def live(B, Hs, rs, Ds, m, bhe, logt, coords, fluid, pipe, grout, soil,
         nSegments, segments, solver, boundary, ratios, disp):
    g = {}
    rb = {}
    depth = {}
    for i in sorted(range(len(Hs)), key=lambda i: Hs[i]):
        H = Hs[i]
        b = gt.boreholes.Borehole(H, Ds[i], rs[i], 0., 0.)
        ts = H ** 2 / (9 * soil.k / soil.rhoCp)
        times = [np.exp(l) * ts for l in logt]
        g[H] = calculate(m, bhe, times, coords, b, fluid, pipe, grout, soil,
                         nSegments=nSegments, segments=segments,
                         solver=solver, boundary=boundary,
                         segment_ratios=ratios, disp=disp).gFunc.tolist()
        rb[H] = rs[i]
        depth[H] = Ds[i]
    return GFunction(B, rb, depth, g, logt, coords)

def calculate(*a, **k):
    from ghedt.gfunction import calculate_g_function
    return calculate_g_function(*a, **k)

def configured(data):
    g = data['g']
    parts = [[float(x) for x in k.split('_')] for k in g]
    named = {}
    for k in g:
        named[float(k.split('_')[1])] = k
    heights = sorted(named)
    try:
        depth = {h: float(named[h].split('_')[3]) for h in heights}
    except IndexError:
        depth = {h: 2. for h in heights}
    return {'B': parts[0][0],
            'r_b_values': {h: float(named[h].split('_')[2]) for h in heights},
            'D_values': depth, 'g_lts': {h: g[named[h]] for h in heights},
            'log_time': data['logtime'],
            'bore_locations': data['bore_locations']}

def live_code(B, Hs, rs, Ds, m, bhe, logt, coords, fluid, pipe, grout, soil,
              nSegments, segments, solver, boundary, ratios, disp):
    from ghedt.gfunction import compute_live_g_function
    return compute_live_g_function(
        B, Hs, rs, Ds, m, bhe, logt, coords, fluid, pipe, grout, soil,
        nSegments=nSegments, segments=segments, solver=solver,
        boundary=boundary, segment_ratios=ratios, disp=disp)

def computed_code(m, bhe, times, coords, b, fluid, pipe, grout, soil,
                  nSegments, end, segments, solver, boundary, ratios, disp):
    from ghedt.gfunction import calculate_g_function
    return calculate_g_function(
        m, bhe, times, coords, b, fluid, pipe, grout, soil,
        nSegments=nSegments, end_length_ratio=end, segments=segments,
        solver=solver, boundary=boundary, segment_ratios=ratios, disp=disp)
'''
SIGS = {
    'pygfunction.boreholes.Borehole':
        ('bore', 'H D r_b x y tilt orientation'.split(),
         dict(tilt=ZERO, orientation=ZERO)),
    'pygfunction.networks.Network':
        ('network', 'boreholes pipes bore_connectivity m_flow_network cp_f '
         'nSegments segment_ratios'.split(), {}),
    'pygfunction.gfunction.gFunction':
        ('gfunction', 'boreholes_or_network alpha time method '
         'boundary_condition m_flow_borehole m_flow_network cp_f options'
         .split(), dict(method=string('equivalent'))),
    'pygfunction.utilities.segment_ratios':
        ('segment-ratios', 'nSegments end_length_ratio'.split(),
         dict(end_length_ratio=num(0.02))),
}


def external(name, params, defaults, fields=False):
    """an external call is a function of its arguments by name"""
    evalt.TRUSTED.add(name)

    def h(I, f, args, kw, st, node):
        d = dict(zip(params, args))
        d.update(kw)
        if set(d) - set(params):
            raise Undecided('unknown argument of %s' % name)
        t = mk('fn', name, *[frozen(I, d.get(p, defaults.get(p, NONE)), st)
                             for p in params])
        return t
    return h


EXT = {n: external(*v) for n, v in SIGS.items()}
EXTRA = {}


def rules(C):
    C.load(SPEC)
    calc = 'ghedt.gfunction.calculate_g_function'
    base = [('m', 'pos'), ('bhe', opaque_bhe), ('times', 'any'),
            ('coords', points), ('b', 'obj'), ('fluid', 'obj'),
            ('pipe', 'obj'), ('grout', 'obj'), ('soil', 'obj'),
            ('nSegments', 'posint'), ('end', 'pos')]
    for boundary in ('MIFT', 'UHTR', 'UBWT', 'other'):
        for seg in ('equal', 'Unequal', 'other'):
            for ratios in ('none', 'given'):
                if ratios == 'given' and seg != 'Unequal':
                    continue
                C.equiv('%s, %s segments, %s' % (boundary, seg, ratios), calc,
                        'computed', base + [
                            ('segments', fixed(string(seg))),
                            ('solver', 'str'),
                            ('boundary', fixed(string(boundary))),
                            ('ratios', fixed(NONE) if ratios == 'none'
                             else 'any'), ('disp', 'any')],
                        code='spec.computed_code', cuts=EXT)


    for hs in ((24.25,), (48, 96.5), (96, 24), (24, 192, 48, 384, 96)):
        n = len(hs)
        C.equiv('live g-function at %d heights from %s' % (n, hs[0]),
                LIVE, 'live',
                [('B', 'pos'), ('Hs', fixed_list(hs)),
                 ('rs', lit_list('r', n)), ('Ds', lit_list('D', n)),
                 ('m', 'pos'), ('bhe', opaque_bhe), ('logt', 'array'),
                 ('coords', points), ('fluid', 'obj'), ('pipe', 'obj'),
                 ('grout', 'obj'), ('soil', 'obj'), ('nSegments', 'posint'),
                 ('segments', 'str'), ('solver', 'str'), ('boundary', 'str'),
                 ('ratios', 'any'), ('disp', 'any')], code='spec.live_code',
                cuts=dict(EXT, **{calc: result,
                                  GF: built('g-object')}),
                ikw=dict(unroll_range=16))
    for i, keys in enumerate(KEYSETS):
        C.equiv('database %d' % i, GF + '.configure_database_file_for_usage',
                'configured', [('data', database(keys))])


KEYSETS = [('5.0_24.0_0.075_2.0',),
           ('5._24._0.075_2.0', '5._48._0.08_4.0', '5._96._0.1_3.0'),
           ('6.5_384.0_0.075_2.0', '6.5_24.0_0.09_1.0', '6.5_192_0.08_2.5',
            '6.5_96_0.085_2.2', '6.5_48.25_0.07_7'),
           ('5.0_9.5_0.075', '5.0_24.0_0.1'),
           ('5.0_100_0.075_3', '5.0_24.0_0.1')]


def result(I, f, args, kw, st, node):
    return I.alloc(st, Obj(Ext('pygfunction.gfunction.gFunction'), {
        'gFunc': mk('fn', 'computed-g', *[
            frozen(I, v, st) for v in args_of(I, f, args, kw, st)])}, None))


evalt.TRUSTED.add('computed-g')


def lit_list(name, n):
    def f(I, st, _):
        return I.newlist(st, lit([sym('%s%d' % (name, i), 'real', 0, True)
                                  for i in range(n)]))
    return f


def fixed_list(v):
    return lambda I, st, n: I.newlist(st, lit([num(x) for x in v]))


def database(keys):
    def f(I, st, n):
        d = []
        for i, k in enumerate(keys):
            d += [string(k), I.newlist(st, sym('g%d' % i, 'seq'))]
        return I.newdict(st, mk('dict', string('g'),
                                I.newdict(st, mk('dict', *d)),
                                string('logtime'), I.make_input('log', 'seq', st),
                                string('bore_locations'),
                                I.make_input('bores', 'seq', st)))
    return f


def opaque_bhe(I, st, n):
    return sym(n, 'any')


def points(I, st, n):
    k = X.fresh('k', 'int', 0)
    s = sym('coords', 'seq')
    return I.newlist(st, X.seqfor(sym('nbh', 'int', 0, True), k, lit(
        [lit([mk('fn', 'x', k), mk('fn', 'y', k)])])))
