"""land boundaries, buildings, and the order of a domain"""
from ..oblig import *

SPEC = '''
import cv2
import numpy as np
from ghedt import domains, feature_recognition

def cutout(coordinates, boundary, inside, contour):
    scale = 10000.
    outline = np.array([(x * scale, y * scale) for (x, y) in boundary],
                       dtype=np.uint64)
    kept = []
    for (x, y) in coordinates:
        d = cv2.pointPolygonTest(outline, (x * scale, y * scale), False)
        if inside:
            keep = not (d > 0.0 or (d == 0.0 and not contour))
        else:
            keep = not (d < 0.0 or (d == 0.0 and not contour))
        if keep:
            kept.append((x, y))
    return kept

def largest(boundary):
    w = max([0] + [p[0] for p in boundary])
    h = max([0] + [p[1] for p in boundary])
    return [[0, 0], [w, 0], [w, h], [0, h], [0, 0]]

def constrained(boundary, B_min, B_max_x, B_max_y, building):
    outer = feature_recognition.determine_largest_rectangle(boundary)
    length = max([p[0] for p in outer])
    width = max([p[1] for p in outer])
    nested = domains.bi_rectangle_nested(length, width, B_min, B_max_x,
                                         B_max_y)
    out = []
    for domain in nested:
        fields = []
        for field in domain:
            inside = feature_recognition.remove_cutout(
                field, boundary=boundary, remove_inside=False,
                keep_contour=True)
            if len(inside) == 0:
                continue
            if building is not None and len(building) > 0:
                inside = feature_recognition.remove_cutout(
                    inside, boundary=building, remove_inside=True,
                    keep_contour=False)
            if len(inside) == 0:
                continue
            fields.append(inside)
        out.append(sorted(fields, key=len))
    return out

def unconstrained(boundary, B_min, B_max_x, B_max_y):
    return constrained(boundary, B_min, B_max_x, B_max_y, None)

def reordered(domain):
    return sorted(domain, key=len)

def scaled(coordinates, scale):
    return [(x * scale, y * scale) for (x, y) in coordinates]

def cut_default(coordinates, boundary):
    return cutout(coordinates, boundary, True, True)

def cut_default_code(coordinates, boundary):
    return feature_recognition.remove_cutout(coordinates, boundary=boundary)

def excess(domain):
    return ([domain[i + 1] - domain[i] for i in range(len(domain) - 1)],
            not any([domain[i + 1] - domain[i] > 0
                     for i in range(len(domain) - 1)]))
'''
F = 'ghedt.feature_recognition.'
D = 'ghedt.domains.'


def polygon(r):
    from fractions import Fraction
    return [[Fraction(r.randint(0, 9), 2), Fraction(r.randint(0, 9), 2)]
            for _ in range(r.randint(3, 6))]


def fields(r):
    return [[point_list(r) for _ in range(r.randint(0, 4))]
            for _ in range(r.randint(1, 3))]


def ragged(r):
    return [[[k, i] for i in range(r.randint(1, 4))]
            for k in range(r.randint(1, 5))]


def cut_token(I, f, args, kw, st, node):
    d = I.bind(f, args, kw, st)
    v = [I.freeze(x, st, None) for x in list(d.values())[:4]]
    return I.newlist(st, mk('fn', 'cutout', *v))


evalt.TRUSTED.update({'cutout', 'nested-fields', 'outer'})
X.SEQFN.update({'cutout', 'nested-fields'})


def rules(C):
    C.load(SPEC)
    pts = {'coordinates': point_list, 'boundary': polygon,
           'building': polygon}
    C.equiv('scaled coordinates', F + 'scale_coordinates', 'scaled',
            [('coordinates', 'seq'), ('scale', 'pos')], domains=pts)
    for i in (True, False):
        for k in (True, False):
            C.equiv('cut-out: remove %s, %s contour' % (
                'inside' if i else 'outside', 'keep' if k else 'drop'),
                F + 'remove_cutout', 'cutout',
                [('coordinates', 'seq'), ('boundary', 'seq'),
                 ('inside', fixed(TRUE if i else FALSE)),
                 ('contour', fixed(TRUE if k else FALSE))], domains=pts)
    C.equiv('cut-out by default', F + 'remove_cutout', 'cut_default',
            [('coordinates', 'seq'), ('boundary', 'seq')],
            code='spec.cut_default_code', domains=pts)
    C.equiv('bounding rectangle', F + 'determine_largest_rectangle',
            'largest', [('boundary', 'seq')], domains=pts)
    C.equiv('reordered domain', D + 'reorder_domain', 'reordered',
            [('domain', 'seq')], domains={'domain': ragged})
    nested = Token('nested-fields', 5)
    cuts = {F + 'remove_cutout': cut_token, D + 'bi_rectangle_nested': nested}
    inputs = [('boundary', 'seq'), ('B_min', 'pos'), ('B_max_x', 'pos'),
              ('B_max_y', 'pos')]
    C.equiv('land and building', D + 'polygonal_land_constraint',
            'constrained', inputs + [('building', 'seq')], cuts=cuts,
            domains=pts)
    C.equiv('land without a building', D + 'polygonal_land_constraint',
            'unconstrained', inputs, cuts=cuts, domains=pts)
    C.equiv('unimodal domain', D + 'verify_excess', 'excess',
            [('domain', 'seq')])
