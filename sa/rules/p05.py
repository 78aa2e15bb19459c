"""field shape generators"""
from ..oblig import *

SPEC = '''
def rectangle(nx, ny, bx, by):
    return [(i * bx, j * by) for i in range(nx) for j in range(ny)]

def rectangle_at(nx, ny, bx, by, ox, oy):
    return [(ox + i * bx, oy + j * by) for i in range(nx) for j in range(ny)]

def rectangle_at_code(nx, ny, bx, by, ox, oy):
    import ghedt.coordinates as c
    return c.rectangle(nx, ny, bx, by, origin=(ox, oy))

def open_rectangle(nx, ny, bx, by):
    if nx <= 2 or ny <= 2:
        return rectangle(nx, ny, bx, by)
    bottom = [(i * bx, 0) for i in range(nx)]
    sides = []
    for j in range(1, ny - 1):
        sides += [(0, j * by), ((nx - 1) * bx, j * by)]
    top = [(i * bx, (ny - 1) * by) for i in range(nx)]
    return bottom + sides + top

def L_shape(nx, ny, bx, by):
    return [(i * bx, 0) for i in range(nx)] + [(0, j * by) for j in range(1, ny)]

def lop_U(nx, ny1, bx, by, ny2):
    return L_shape(nx, ny1, bx, by) + [((nx - 1) * bx, j * by) for j in range(1, ny2)]

def C_shape(nx1, ny, bx, by, nx2):
    return lop_U(nx1, ny, bx, by, ny) + [(i * bx, (ny - 1) * by) for i in range(1, nx2 + 1)]

def U_shape(nx, ny, bx, by):
    if nx <= 2 or ny <= 1:
        return rectangle(nx, ny, bx, by)
    r = [(i * bx, 0) for i in range(nx)]
    for j in range(1, ny):
        r += [(0, j * by), ((nx - 1) * bx, j * by)]
    return r

def zoned_rectangle(nx, ny, bx, by, nix, niy):
    if nix > nx - 2 or niy > ny - 2:
        raise ValueError('too many interior boreholes')
    six = (nx - 1) * bx / (nix + 1)
    siy = (ny - 1) * by / (niy + 1)
    return open_rectangle(nx, ny, bx, by) + rectangle_at(nix, niy, six, siy, six, siy)

def transpose(c):
    return [(p[1], p[0]) for p in c]
'''

XY = [('nx', 'posint'), ('ny', 'posint'), ('bx', 'pos'), ('by', 'pos')]
M = 'ghedt.coordinates.'


def rules(C):
    C.load(SPEC)
    same = dict(cmp=points)
    C.equiv('rectangle', M + 'rectangle', 'rectangle', XY, **same)
    C.equiv('rectangle with origin', M + 'rectangle', 'rectangle_at',
            XY + [('ox', 'real'), ('oy', 'real')],
            code='spec.rectangle_at_code', **same)
    C.equiv('empty rectangle', M + 'rectangle', 'rectangle',
            [('nx', 'nat'), ('ny', 'nat'), ('bx', 'pos'), ('by', 'pos')], **same)
    C.equiv('open rectangle', M + 'open_rectangle', 'open_rectangle', XY, **same)
    C.equiv('L', M + 'L_shape', 'L_shape', XY, **same)
    C.equiv('lopsided U', M + 'lop_U', 'lop_U', XY + [('n2', 'posint')], **same)
    C.equiv('C', M + 'C_shape', 'C_shape', XY + [('n2', 'posint')], **same)
    C.equiv('U', M + 'U_shape', 'U_shape', XY, **same)
    C.equiv('zoned rectangle', M + 'zoned_rectangle', 'zoned_rectangle',
            XY + [('nix', 'nat'), ('niy', 'nat')], **same)
    C.equiv('transposed field', M + 'transpose_coordinates', 'transpose',
            [('c', 'seq')], domains={'c': point_list})
