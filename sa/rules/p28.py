"""a plot shows the data of its object"""
from ..oblig import *
from .world import *
from . import disk, figure
from .p27 import LO, HY, places

SPEC = r'''
import os
from matplotlib import pyplot
from ghedt import coordinates, domains, gfunction

def field(points):
    ax = pyplot.subplots()[1]
    ax.scatter([p[0] for p in points], [p[1] for p in points])
    ax.set_xlabel('x (m)')
    ax.set_ylabel('y (m)')

def field_code(points):
    coordinates.visualize_coordinates(points)

def own_field(g):
    field(g.bore_locations)

def own_field_code(g):
    g.visualize_borefield()

def other_field(g, points):
    field(points)

def other_field_code(g, points):
    g.visualize_borefield(points)

def curves(g):
    ax = pyplot.subplots()[1]
    ax.text(2.75, 135, 'B/H')
    for h in reversed(list(g.g_lts.keys())):
        ax.plot(g.log_time, g.g_lts[h],
                label=str(int(g.B)) + '/' + str(int(h)))
        ax.annotate(str(round(g.B / h, 4)))
    ax.set_ylabel('g-function')
    ax.set_xlabel('ln(t/t$_s$)')

def curves_code(g):
    g.visualize_g_functions()

def land(edge, points, hole):
    ax = pyplot.subplots()[1]
    if len(edge) > 0:
        closed = edge + [edge[0]]
        ax.plot([p[0] for p in closed], [p[1] for p in closed], 'g')
    if len(points) > 0:
        ax.scatter([p[0] for p in points], [p[1] for p in points])
    if hole is not None:
        closed = hole + [hole[0]]
        ax.plot([p[0] for p in closed], [p[1] for p in closed], 'r')
    ax.set_xlabel('x (m)')
    ax.set_ylabel('y (m)')

def land_code(edge, points, hole):
    gfunction.GFunction.visualize_area_and_constraints(
        edge, points, no_go=hole)

def fields(domain, folder):
    if not os.path.exists(folder):
        os.makedirs(folder)
    for i in range(len(domain)):
        f, ax = pyplot.subplots()
        ax.scatter([p[0] for p in domain[i]], [p[1] for p in domain[i]])
        ax.set_xlabel('x (m)')
        ax.set_ylabel('y (m)')
        f.savefig(folder + '/' + str(i).zfill(3))

def fields_code(domain, folder):
    domains.visualize_domain(domain, folder)

def year(h):
    out = [(i, x) for i, x in enumerate(h.extraction.hourly) if x != 0]
    back = [(i, -x) for i, x in enumerate(h.rejection.hourly) if x != 0]
    ax = pyplot.subplots()[1]
    if len(out) > 0:
        t, q = zip(*out)
        ax.scatter(t, q,
                   label='Building in heating mode (ground heat extraction)')
    if len(back) > 0:
        t, q = zip(*back)
        ax.scatter(t, q,
                   label='Building in cooling mode (ground heat rejection)')
    ax.set_ylabel('Ground extraction loads (kW)')
    ax.set_xlabel('Hours in one year')

def year_code(h):
    h.visualize_hourly_heat_extraction()

def month(h, m, out, back):
    ax = pyplot.subplots()[1]
    for on, side, name in ((out, h.extraction, 'Extraction'),
                           (back, h.rejection, 'Rejection')):
        if on:
            hours = [i for i in range(49)]
            real = side.monthly_two_day_fluid_temps_nm[m]
            ax.plot(hours, side.monthly_two_day_fluid_temps_pk[m],
                    label='Peak ' + name)
            ax.plot(hours, real, label=name)
            hot = max(real)
            lasts = side.monthly_peak_duration[m]
            ax.plot([lasts, real.index(hot)], [hot, hot])
            ax.scatter(lasts, hot)
    ax.set_xlabel('Time (hours)')
    ax.set_ylabel('Change in fluid temperature, $\\Delta$T$_f$ ($\\degree$C)')

def month_code(h, m, out, back):
    h.visualize_fluid_simulation_results(m, extraction=out, rejection=back)
'''


def hourly(I, st, n):
    return I.newlist(st, lit([sym('%s%d' % (n, i), 'real')
                              for i in range(4)]))


def points(k):
    return lambda I, st, n: I.newlist(st, lit([
        lit([sym('%sx%d' % (n, i), 'real'), sym('%sy%d' % (n, i), 'real')])
        for i in range(k)]))


def groups(*ks):
    return lambda I, st, n: I.newlist(st, lit([
        points(k)(I, st, '%s.%d' % (n, i)) for i, k in enumerate(ks)]))


def heights(*hs):
    return lambda I, st, n: I.newdict(st, mk('dict', *[
        x for h in hs for x in (num(h), I.newlist(st, sym(
            'g%d' % h, 'seq')))]))


def table(k):
    """temperatures of two days for some months"""
    return lambda I, st, n: I.newlist(st, lit([I.newlist(st, sym(
        '%s.%d' % (n, i), 'seq')) for i in range(k)]))


def rules(C):
    C.load(SPEC)
    C.load(disk.SOURCE, 'disk')
    C.load(figure.SOURCE, 'figure')
    cuts = dict(disk.DISK, **figure.FIGURE)

    def see(name, where, spec, inputs, **kw):
        C.equiv(name, where, spec, inputs, code='spec.%s_code' % spec,
                cuts=cuts, pick=figure.picture, **kw)
    for k in (1, 2, 5):
        see('field of %d' % k, 'ghedt.coordinates.visualize_coordinates',
            'field', [('points', points(k))])
    g = instance(GF, bore_locations=places, B='pos', log_time='seq',
                 g_lts=heights(8, 24, 96))
    see('field of a g-function', GF + '.visualize_borefield', 'own_field',
        [('g', g)])
    see('field given', GF + '.visualize_borefield', 'other_field',
        [('g', g), ('points', points(2))])
    see('g-functions', GF + '.visualize_g_functions', 'curves', [('g', g)])
    for a, b, c in ((4, 3, 4), (3, 2, None), (0, 2, 3), (4, 0, None)):
        see('land of %d corners, %d boreholes, %s' % (
            a, b, 'no building' if c is None else 'building'),
            GF + '.visualize_area_and_constraints', 'land',
            [('edge', points(a)), ('points', points(b)),
             ('hole', fixed(NONE) if c is None else points(c))])
    see('domain', 'ghedt.domains.visualize_domain', 'fields',
        [('domain', groups(1, 2, 3)), ('folder', 'str')])
    for ks in ((1, 2, 3), (2,), (3, 3), ()):
        see('domain of %d fields' % len(ks), 'ghedt.domains.visualize_domain',
            'fields', [('domain', groups(*ks)),
                       ('folder', fixed(string('shown')))])
    see('hourly loads', HY + '.visualize_hourly_heat_extraction', 'year',
        [('h', instance(HY, rejection=instance(LO, hourly=hourly),
                        extraction=instance(LO, hourly=hourly)))])
    side = instance(LO, monthly_two_day_fluid_temps_nm=table(3),
                    monthly_two_day_fluid_temps_pk=table(3),
                    monthly_peak_duration=hourly)
    for out in (TRUE, FALSE):
        for back in (TRUE, FALSE):
            for m in (1, 2):
                see('month %d,%s%s' % (m, ' extraction' if out is TRUE else '',
                                       ' rejection' if back is TRUE else ''),
                    HY + '.visualize_fluid_simulation_results', 'month',
                    [('h', instance(HY, rejection=side, extraction=side)),
                     ('m', fixed(num(m))), ('out', fixed(out)),
                     ('back', fixed(back))])
