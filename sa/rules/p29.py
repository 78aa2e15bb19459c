"""plan geometry and statistics helpers"""
from fractions import Fraction

from ..oblig import *
from .world import *

SPEC = '''
import math
from ghedt import utilities as u

def area(corners):
    s = 0
    n = len(corners)
    for i in range(n):
        x, y = corners[i]
        x2, y2 = corners[(i + 1) % n]
        s += x * y2 - x2 * y
    return abs(s) / 2

def area_code(corners):
    return u.polygonal_area(corners)

def rectangle(lx, ly, x, y):
    return [[x, y], [x + lx, y], [x + lx, y + ly], [x, y + ly]]

def rectangle_code(lx, ly, x, y):
    return u.make_rectangle_perimeter(lx, ly, origin=(x, y))

def at_origin(lx, ly):
    return rectangle(lx, ly, 0, 0)

def at_origin_code(lx, ly):
    return u.make_rectangle_perimeter(lx, ly)

def count(L, B):
    return math.ceil(L / B) + 1, math.floor(L / B) + 1, math.ceil(L / B) + 1

def count_code(L, B):
    return (u.number_of_boreholes(L, B),
            u.number_of_boreholes(L, B, func=math.floor),
            u.number_of_boreholes(L, B, func=math.ceil))

def side(n, B):
    return (n - 1) * B, B, n

def side_code(n, B):
    L = u.length_of_side(n, B)
    b = u.spacing_along_length(L, n)
    return L, b, 1 + (u.length_of_side(n, b) / b)

def length(n, B):
    return (n - 1) * B

def length_code(n, B):
    return u.length_of_side(n, B)

def spaced(L, n):
    return L / (n - 1)

def spaced_code(L, n):
    return u.spacing_along_length(L, n)

def distance(b, coordinates):
    if len(coordinates) == 0:
        raise ValueError('none')
    if len(coordinates) == 1:
        return b.r_b
    x0, y0 = coordinates[0]
    x1, y1 = coordinates[1]
    return max(b.r_b, math.hypot(x1 - x0, y1 - y0))

def distance_code(b, coordinates):
    return u.borehole_spacing(b, coordinates)

def mpe(actual, predicted):
    assert len(actual) == len(predicted)
    return 100 * sum([(predicted[i] - actual[i]) / actual[i]
                      for i in range(len(actual))]) / len(actual)

def mpe_code(actual, predicted):
    return u.compute_mpe(actual, predicted)

def times():
    return [-8.5, -7.8, -7.2, -6.5, -5.9, -5.2, -4.5, -3.963, -3.27,
            -2.864, -2.577, -2.171, -1.884, -1.191, -0.497, -0.274, -0.051,
            0.196, 0.419, 0.642, 0.873, 1.112, 1.335, 1.679, 2.028, 2.275,
            3.003]

def times_code():
    return u.Eskilson_log_times()

def again(x):
    return times()

def again_code(x):
    a = u.Eskilson_log_times()
    a[0] = x
    a.append(x)
    return u.Eskilson_log_times()
'''
U = 'ghedt.utilities.'


def values(name, n=None, negative=0):
    """a sequence of numbers other than 0, some of them negative"""
    def f(I, st, _):
        if n is not None:
            v = [sym('%s%d' % (name, i), 'real', 0, True) for i in range(n)]
            return I.newlist(st, lit([X.neg(x) if i < negative else x
                                      for i, x in enumerate(v)]))
        k = X.fresh('k', 'int', 0)
        return I.newlist(st, X.seqfor(sym('N', 'int', 0, True), k, lit(
            [X.index(sym(name, 'seq'), k)])))
    return f


def side_length(r):
    """lengths at, near and away from a whole number of spacings"""
    return 5 * r.randint(1, 9) + r.choice([
        Fraction(0), Fraction(1, 10 ** 6), Fraction(-1, 10 ** 6),
        Fraction(r.randint(1, 499), 100), Fraction(1, 10 ** 7),
        Fraction(-1, 10 ** 7)])


def corners(n):
    def f(I, st, name):
        return I.newlist(st, lit([lit([sym('x%d' % i, 'real'),
                                       sym('y%d' % i, 'real')])
                                  for i in range(n)]))
    return f


def rules(C):
    C.load(SPEC)
    for n in (3, 4, 5, 8):
        C.equiv('area of %d corners' % n, U + 'polygonal_area', 'area',
                [('corners', corners(n))], code='spec.area_code',
                ikw=dict(unroll_range=16))
    C.equiv('rectangle at a corner', U + 'make_rectangle_perimeter',
            'rectangle', [('lx', 'pos'), ('ly', 'pos'), ('x', 'real'),
                          ('y', 'real')], code='spec.rectangle_code')
    C.equiv('rectangle at the origin', U + 'make_rectangle_perimeter',
            'at_origin', [('lx', 'pos'), ('ly', 'pos')],
            code='spec.at_origin_code')
    C.equiv('boreholes along a side', U + 'number_of_boreholes', 'count',
            [('L', 'pos'), ('B', 'pos')], code='spec.count_code', domains={
                'L': side_length, 'B': lambda r: Fraction(5)})
    C.equiv('side of a row of boreholes', U + 'length_of_side', 'side',
            [('n', 'posint'), ('B', 'pos')], code='spec.side_code',
            assume=[lambda r, I: X.gt0(X.sub(r.args[0], ONE))])
    C.equiv('side of one or more boreholes', U + 'length_of_side', 'length',
            [('n', 'posint'), ('B', 'pos')], code='spec.length_code')
    C.equiv('spacing along a side', U + 'spacing_along_length', 'spaced',
            [('L', 'pos'), ('n', 'posint')], code='spec.spaced_code',
            assume=[lambda r, I: X.gt0(X.sub(r.args[1], ONE))])
    for n in (0, 1, 2, 3):
        C.equiv('spacing of %d boreholes' % n, U + 'borehole_spacing',
                'distance', [('b', 'obj'), ('coordinates', corners(n))],
                code='spec.distance_code')
    for n in (1, 2, 5, 27):
        C.equiv('mean percentage error of %d values' % n, U + 'compute_mpe',
                'mpe', [('actual', values('actual', n, n // 2)),
                        ('predicted', values('predicted', n))],
                code='spec.mpe_code', ikw=dict(unroll_range=32))
    for n, m in ((3, 2), (2, 3), (0, 1)):
        C.equiv('mean percentage error of %d and %d values' % (n, m),
                U + 'compute_mpe', 'mpe', [
                    ('actual', values('actual', n)),
                    ('predicted', values('predicted', m))],
                code='spec.mpe_code')
    C.equiv('times of Eskilson', U + 'Eskilson_log_times', 'times', [],
            code='spec.times_code')
    C.equiv('times of Eskilson, again', U + 'Eskilson_log_times', 'again',
            [('x', 'real')], code='spec.again_code')
