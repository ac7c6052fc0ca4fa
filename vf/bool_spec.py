"""Postconditions of relations and boolean operations (oracle side)."""

import operator
from itertools import combinations

from . import bridge, gen, oracle as o

OPS = {
    'and': operator.and_,
    'or': operator.or_,
    'sub': operator.sub,
    'xor': operator.xor,
}
TRUTH = {
    'and': lambda x, y: x and y,
    'or': lambda x, y: x or y,
    'sub': lambda x, y: x and not y,
    'xor': lambda x, y: x != y,
}


def in_rings(p, mid):
    """Inside of border and outside of holes, whatever their orientation"""
    return (
        o.locate_in_edges(o.ring_edges(p[0]), mid) == 1
        and all(o.locate_in_edges(o.ring_edges(h), mid) == -1 for h in p[1])
    )


def rings_of(*gs):
    res = []
    for g in gs:
        if g[0] in o.SHAPED:
            for border, holes in [g[1]] if g[0] == 'P' else g[1]:
                res.extend((border, *holes))
    return res


def invalid_geometry(r, *sources):
    """Why ``r`` is not a valid result of an operation, if it is not

    Rings of operands may be handed over in their own orientation.
    """
    kept = rings_of(*sources)
    k = r[0]
    if k == 'S' and r[1][0] == r[1][1]:
        return 'degenerate segment'
    if k == 'M':
        if len(r[1]) < 2:
            return 'multisegment of less than two segments'
        for s in r[1]:
            if s[0] == s[1]:
                return 'degenerate segment'
        for s, t in combinations(r[1], 2):
            rel = gen.seg_rel_simple(s, t)
            if rel not in (None, 'touch'):
                return f'segments {s} and {t} of the result: {rel}'
    if k in o.SHAPED:
        polys = [r[1]] if k == 'P' else r[1]
        if k == 'MP' and len(polys) < 2:
            return 'multipolygon of less than two polygons'
        for border, holes in polys:
            if o.signed_area2(border) <= 0 and border not in kept:
                return f'border {border} is not counterclockwise'
            be = o.ring_edges(border)
            for h in holes:
                if o.signed_area2(h) >= 0 and h not in kept:
                    return f'hole {h} is not clockwise'
                if any(o.locate_in_edges(be, v) < 0 for v in h):
                    return f'hole {h} is outside of border {border}'
            for ring in (border, *holes):
                if not gen.ring_is_simple(ring):
                    return f'ring {ring} is not simple'
            for g, h in combinations(holes, 2):
                for x, y in ((g, h), (h, g)):
                    ye = o.ring_edges(y)
                    if any(o.locate_in_edges(ye, v) == 1 for v in x):
                        return f'holes {g} and {h} overlap'
        for p, q in combinations(polys, 2):
            if (True, True) in o.Arrangement([('P', p), ('P', q)]).faces:
                return f'polygons {p} and {q} overlap'
    return None


def wrong_result(a, b, op, r):
    la, lb = a[0] in o.LINEAR, b[0] in o.LINEAR
    f = TRUTH[op]
    arr = o.Arrangement([a, b, r])
    if not la and not lb:
        if r[0] in o.LINEAR:
            return f'linear result {r}'
        for x, y, z in arr.faces:
            if z != f(x, y):
                return (
                    f'region (in first: {x}, in second: {y}) has {z}'
                    f' in the result {r}'
                )
        for mid, on, below, above in arr.edges:
            if on[2] > 1:
                return f'result {r} has overlapping edges'
            if on[2] == 1 and below[2] == above[2]:
                return f'result {r} has edges inside or outside of itself'
    else:
        if r[0] in o.SHAPED:
            return f'shaped result {r}'
        for mid, on, below, above in arr.edges:
            ia = on[0] > 0 if la else bool(on[0] or below[0] or above[0])
            ib = on[1] > 0 if lb else bool(on[1] or below[1] or above[1])
            if on[2] > 1:
                return f'result {r} has overlapping segments'
            if (on[2] == 1) != f(ia, ib):
                return (
                    f'part around {arr.unshear(mid)} (in first: {ia}, in'
                    f' second: {ib}) has {on[2] == 1} in the result {r}'
                )
    return None


def check_op(case):
    a, b, op = case
    x, y = bridge.to_rene(a), bridge.to_rene(b)
    r = bridge.from_rene(OPS[op](x, y))
    if bridge.from_rene(x) != a or bridge.from_rene(y) != b:
        return 'operands were changed'
    return wrong_result(a, b, op, r) or invalid_geometry(r, a, b)


def check_chain(case):
    """Results are valid operands of further operations"""
    a, b, c, op1, op2 = case
    x, y, z = (bridge.to_rene(g) for g in (a, b, c))
    r = OPS[op1](x, y)
    rn = bridge.from_rene(r)
    bad = wrong_result(a, b, op1, rn) or invalid_geometry(rn, a, b)
    if bad:
        return bad
    if rn[0] == 'E':
        want = {'and': ('E',), 'sub': ('E',), 'or': c, 'xor': c}[op2]
        got = bridge.from_rene(OPS[op2](r, z))
        return None if got == want else f'with empty result: {got}'
    s = bridge.from_rene(OPS[op2](r, z))
    return wrong_result(rn, c, op2, s) or invalid_geometry(s, rn, c)


COMPLEMENT = {
    'COMPONENT': 'COMPOSITE',
    'COMPOSITE': 'COMPONENT',
    'COVER': 'WITHIN',
    'WITHIN': 'COVER',
    'ENCLOSED': 'ENCLOSES',
    'ENCLOSES': 'ENCLOSED',
    'CROSS': 'CROSS',
    'DISJOINT': 'DISJOINT',
    'EQUAL': 'EQUAL',
    'OVERLAP': 'OVERLAP',
    'TOUCH': 'TOUCH',
}


def check_relation(case):
    a, b = case
    x, y = bridge.to_rene(a), bridge.to_rene(b)
    want = o.relation(a, b)
    got = x.relate_to(y)
    if got.name != want:
        return f'relation is {got.name}, expected {want}'
    back = y.relate_to(x)
    if back.name != COMPLEMENT[want]:
        return f'reversed relation is {back.name}, expected {COMPLEMENT[want]}'
    if got.complement is not back or back.complement is not got:
        return f'complement of {got.name} is {got.complement.name}'
    if bridge.from_rene(x) != a or bridge.from_rene(y) != b:
        return 'operands were changed'
    return None
