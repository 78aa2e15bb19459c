"""bi-rectangular and bi-zoned domains"""
from ..oblig import *
from .p06 import land, LAND
from .p05 import SPEC as SHAPES_SPEC

SPEC = SHAPES_SPEC + '''
import math

def oriented(field, turned):
    if turned:
        return transpose(field)
    return field

def bi_rectangular(length_x, length_y, b_min, b_max_x, b_max_y, turned):
    swap = length_x < length_y
    long = length_y if swap else length_x
    short = length_x if swap else length_y
    b_max_long = b_max_y if swap else b_max_x
    b_max_short = b_max_x if swap else b_max_y
    n_first = math.ceil(long / b_max_long + 1)
    n_last = math.floor(long / b_min + 1)
    m = math.ceil(short / b_max_short + 1)
    b_short = short / (m - 1)
    fields = []
    for n in range(n_first, n_last + 1):
        b_long = long / (n - 1)
        if n == n_first:
            for i in range(1, n):
                fields.append(oriented(rectangle(i, 1, b_long, b_short), turned))
            for j in range(1, m):
                fields.append(oriented(rectangle(n, j, b_long, b_short), turned))
        fields.append(oriented(rectangle(n, m, b_long, b_short), turned))
    return fields

def bi_nested(length_x, length_y, b_min, b_max_x, b_max_y):
    turned = length_x < length_y
    long = length_y if turned else length_x
    short = length_x if turned else length_y
    b_max_long = b_max_y if turned else b_max_x
    b_max_short = b_max_x if turned else b_max_y
    m_first = math.ceil(short / b_max_short + 1)
    m_last = math.floor(short / b_min + 1)
    return [bi_rectangular(long, short, b_min, b_max_long, short / (m - 1), turned)
            for m in range(m_first, m_last + 1)]

def zoned(length_x, length_y, n_x, n_y, turned):
    swap = length_x < length_y
    long = length_y if swap else length_x
    short = length_x if swap else length_y
    n = n_y if swap else n_x
    m = n_x if swap else n_y
    b_long = long / (n - 1)
    b_short = short / (m - 1)
    i = 1
    j = 1
    fields = [oriented(zoned_rectangle(n, m, b_long, b_short, 1, 1), turned)]
    while i < n - 2 or j < m - 2:
        ratio_i = (long / (i + 1)) / (short / (j + 2))
        if ratio_i > b_long / b_short:
            i += 1
        else:
            j += 1
        fields.append(oriented(zoned_rectangle(n, m, b_long, b_short, i, j), turned))
    return fields

def first_fields(n, m, b_long, b_short, turned):
    fields = []
    for i in range(1, n + 1):
        fields.append(oriented(rectangle(i, 1, b_long, b_short), turned))
    for j in range(2, m + 1):
        fields.append(oriented(L_shape(n, j, b_long, b_short), turned))
    for j in range(2, m + 1):
        fields.append(oriented(lop_U(n, m, b_long, b_short, j), turned))
    for i in range(1, n - 1):
        fields.append(oriented(C_shape(n, m, b_long, b_short, i), turned))
    return fields

def zoned_nested(length_x, length_y, b_min, b_max_x, b_max_y):
    turned = length_x < length_y
    long = length_y if turned else length_x
    short = length_x if turned else length_y
    b_max_long = b_max_y if turned else b_max_x
    b_max_short = b_max_x if turned else b_max_y
    n_first = math.ceil(long / b_max_long + 1)
    n_last = math.floor(long / b_min + 1)
    m_first = math.ceil(short / b_max_short + 1)
    m_last = math.floor(short / b_min + 1)
    n_values = list(range(n_first, n_last + 1))
    m_values = list(range(m_first, m_last + 1))
    j = 0
    k = 0
    nested = []
    for i in range(len(n_values) + len(m_values) - 1):
        domain = []
        if i == 0:
            domain.extend(first_fields(n_first, m_first, long / (n_first - 1),
                                       short / (m_first - 1), turned))
        domain.extend(zoned(long, short, n_values[j], m_values[k], turned))
        nested.append(domain)
        if i % 2 == 0:
            if j < len(n_values) - 1:
                j += 1
            else:
                k += 1
        else:
            if k < len(m_values) - 1:
                k += 1
            else:
                j += 1
    return nested
'''

D = 'ghedt.domains.'
LW = [('L', 'pos'), ('W', 'pos')]
B3 = [('Bmin', 'pos'), ('B1', 'pos'), ('B2', 'pos')]


def rules(C):
    C.load(SPEC)
    C.equiv('one bi-rectangular list', D + 'bi_rectangular', 'bi_rectangular',
            LW + B3 + [('turned', 'bool')], domains=LAND)
    C.equiv('nested bi-rectangular lists', D + 'bi_rectangle_nested',
            'bi_nested', LW + B3, domains=LAND,
            cuts={D + 'bi_rectangular': Token('bi-rectangular list', 6),
                  'spec.bi_rectangular': Token('bi-rectangular list', 6)})
    C.equiv('one zoned list', D + 'zoned_rectangle_domain', 'zoned',
            LW + [('nx', 'posint'), ('ny', 'posint'), ('turned', 'bool')],
            raises=False,
            domains=dict(LAND, nx=lambda r: r.randint(3, 7),
                         ny=lambda r: r.randint(3, 7)))
    C.equiv('nested bi-zoned lists', D + 'bi_rectangle_zoned_nested',
            'zoned_nested', LW + B3, raises=False,
            domains=dict(LAND, L=land(18, 40), W=land(18, 40)),
            cuts=dict([(D + 'zoned_rectangle_domain', Token('zoned list', 5)),
                       ('spec.zoned', Token('zoned list', 5))] + [
                (m + f, Token(f, n)) for f, n in
                (('L_shape', 4), ('lop_U', 5), ('C_shape', 5))
                for m in ('ghedt.coordinates.', 'spec.')]))
