"""near-square and rectangular field domains"""
from ..oblig import *

SPEC = '''
import math

def grid(nx, ny, bx, by):
    return [(i * bx, j * by) for i in range(nx) for j in range(ny)]

def oriented(field, turned):
    if turned:
        return [(p[1], p[0]) for p in field]
    return field

def near_square(lower, upper, b):
    if lower < 1 or upper < 1 or upper < lower:
        raise ValueError('limits')
    fields = []
    for i in range(lower, upper + 1):
        fields.append(grid(i, i, b, b))
        if i < upper:
            fields.append(grid(i, i + 1, b, b))
    return fields

def rectangular(length_x, length_y, b_min, b_max):
    turned = length_x < length_y
    long = length_y if turned else length_x
    short = length_x if turned else length_y
    n_first = math.ceil(long / b_max + 1)
    n_last = math.floor(long / b_min + 1)
    fields = []
    rows = 1
    for n in range(n_first, n_last + 1):
        b = long / (n - 1)
        m = math.floor(short / b + 1)
        if n == n_first:
            for i in range(1, n_first):
                fields.append(oriented(grid(i, 1, b, b), turned))
            for j in range(1, m):
                fields.append(oriented(grid(n_first, j, b, b), turned))
        if m != rows:
            fields.append(oriented(grid(n, m, b, b), turned))
            rows = m
    return fields

def spacing(bh, coordinates):
    if len(coordinates) == 0:
        raise IndexError('no boreholes')
    if len(coordinates) == 1:
        return bh.r_b
    dx = coordinates[1][0] - coordinates[0][0]
    dy = coordinates[1][1] - coordinates[0][1]
    return max(bh.r_b, math.sqrt(dx * dx + dy * dy))

def number_of_boreholes(length, b):
    return math.ceil(length / b) + 1

def number_code_floor(length, b):
    import ghedt.utilities
    import numpy as np
    return ghedt.utilities.number_of_boreholes(length, b, func=np.floor)

def number_floor(length, b):
    return math.floor(length / b) + 1

def side(n, b):
    return (n - 1) * b

def side_spacing(length, n):
    return length / (n - 1)
'''

D = 'ghedt.domains.'
U = 'ghedt.utilities.'


def land(lo, hi):
    from fractions import Fraction
    tiny = [Fraction(k, 2000) for k in (-1, -1, 1)]
    return lambda r: (Fraction(r.randint(lo * 4, hi * 4), 4)
                      if r.random() < .5 else r.randint(lo, hi)) + (
                          r.choice(tiny) if r.random() < .25 else 0)


LAND = {'L': land(8, 40), 'W': land(8, 40), 'Bmin': land(3, 6),
        'Bmax': land(6, 14), 'B1': land(6, 14), 'B2': land(6, 14)}


def rules(C):
    C.load(SPEC)
    ij = lambda r: r.randint(1, 6)
    C.equiv('near-square domain', D + 'square_and_near_square', 'near_square',
            [('lo', 'int'), ('up', 'int'), ('B', 'pos')],
            domains={'lo': lambda r: r.randint(-1, 3),
                     'up': lambda r: r.randint(-1, 6)})
    C.equiv('rectangular domain', D + 'rectangular', 'rectangular',
            [('L', 'pos'), ('W', 'pos'), ('Bmin', 'pos'), ('Bmax', 'pos')],
            domains=LAND)
    C.equiv('nominal spacing', U + 'borehole_spacing', 'spacing',
            [('bh', 'obj'), ('c', 'seq')], domains={'c': point_list},
            raises=False,
            assume=[gt0(X.length(sym('c', 'seq')))])
    C.equiv('boreholes along a side (ceil)', U + 'number_of_boreholes',
            'number_of_boreholes', [('length', 'pos'), ('B', 'pos')])
    C.equiv('boreholes along a side (floor)', U + 'number_of_boreholes',
            'number_floor', [('length', 'pos'), ('B', 'pos')],
            code='spec.number_code_floor')
    C.equiv('length of a side', U + 'length_of_side', 'side',
            [('N', 'posint'), ('B', 'pos')])
    C.equiv('spacing along a side', U + 'spacing_along_length', 'side_spacing',
            [('L', 'pos'), ('N', 'posint')])
