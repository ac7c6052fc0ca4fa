"""Contracts of predicates, points, boxes and single segments (all inputs)."""

import itertools

from .. import basic_spec as bs, bool_spec as bo, bridge, misc_spec as ms
from .common import Contract, Q, gen, o, point, points, segment


def _utils():
    from rene import _utils

    return _utils


def _points(ps):
    from rene.exact import Point

    return [Point(*p) for p in ps]


def _context():
    from rene.exact import Segment

    return Segment._context


def _sign(v):
    return (v > 0) - (v < 0)


# --------------------------------------------------------------------- P01
def triangle_orientation(c):
    """Contour.orientation of any three points off a line is the sign of
    their signed area"""
    from rene.exact import Contour

    vs = points(c, 3)
    s = _sign(o.cross(*vs))
    c.assume(s != 0)
    got = Contour(_points(vs)).orientation.name
    want = 'COUNTERCLOCKWISE' if s > 0 else 'CLOCKWISE'
    return None if got == want else f'orientation is {got}, expected {want}'


def orienteer(c):
    """context.orient is the sign of the signed area"""
    a, b, d = points(c, 3)
    pa, pb, pd = _points((a, b, d))
    got = _context().orient(pa, pb, pd).name
    want = ('CLOCKWISE', 'COLLINEAR', 'COUNTERCLOCKWISE')[
        _sign(o.cross(a, b, d)) + 1
    ]
    return None if got == want else f'orientation is {got}, expected {want}'


def cross_multiply(c):
    """cross_multiply is the exact vector product"""
    a, b, d, e = points(c, 4)
    got = _utils().cross_multiply(*_points((a, b, d, e)))
    want = (b[0] - a[0]) * (e[1] - d[1]) - (b[1] - a[1]) * (e[0] - d[0])
    return None if bridge.q(got) == want else f'{got}, expected {want}'


def in_circle(c):
    """the in-circle predicate is the sign of the exact determinant"""
    from ..tri_spec import incircle

    ps = points(c, 4)
    got = _utils().locate_point_in_point_point_point_circle(*_points(ps)).name
    s = _sign(incircle(*ps[1:], ps[0]))
    want = ('EXTERIOR', 'BOUNDARY', 'INTERIOR')[s + 1]
    return None if got == want else f'{got}, expected {want}'


def crossing_point(c):
    """the point at which any two segments cross is on both lines"""
    s, t = segment(c), segment(c)
    (p, q), (r, w) = s, t
    za, zb = _sign(o.cross(p, q, r)), _sign(o.cross(p, q, w))
    c.assume(za * zb < 0)
    zc, zd = _sign(o.cross(r, w, p)), _sign(o.cross(r, w, q))
    c.assume(zc * zd < 0)
    m = _context().intersect_segments(*_points((p, q, r, w)))
    m = bridge.from_point(m)
    if o.cross(p, q, m) != 0 or o.cross(r, w, m) != 0:
        return f'crossing point {m} is off the lines'
    return None


def crossing_scale(c):
    """scale * (end - start) leads to the crossing of the lines"""
    s, t = segment(c), segment(c)
    (p, q), (r, w) = s, t
    den = (q[0] - p[0]) * (w[1] - r[1]) - (q[1] - p[1]) * (w[0] - r[0])
    c.assume(den != 0)
    k = bridge.q(
        _context().to_segments_intersection_scale(*_points((p, q, r, w)))
    )
    m = (p[0] + k * (q[0] - p[0]), p[1] + k * (q[1] - p[1]))
    if o.cross(r, w, m) != 0:
        return 'not on the second line'
    return None


def contour_orientation(n, fixed):
    def body(c):
        vs = tuple(point(c) if v is None else v for v in fixed)
        c.assume(gen.ring_is_simple(vs))
        return bs.check_orientation(('C', vs))

    body.__doc__ = (
        f'Contour.orientation of simple rings of {n} vertices (None: any'
        f' point): {fixed}'
    )
    return body


# --------------------------------------------------------------------- P02
def point_order(c):
    """<, <=, >, >=, ==, != of any two points are the lexicographic order"""
    from rene.exact import Point

    v, w = points(c, 2)
    p, q = Point(*v), Point(*w)
    lt = v[0] < w[0] or (v[0] == w[0] and v[1] < w[1])
    eq = v[0] == w[0] and v[1] == w[1]
    got = (p < q, p <= q, p > q, p >= q, p == q, p != q)
    want = (lt, lt or eq, not (lt or eq), not lt, eq, not eq)
    if got != want:
        return f'comparisons are {got}, expected {want}'
    if eq and hash(p) != hash(q):
        return 'equal points with different hashes'
    if eq is not (q == p) or lt is not (q > p):
        return 'comparison is not symmetric'
    if bridge.from_point(p) != v:
        return 'coordinates'
    return None


def point_transitivity(c):
    """the order of any three points is transitive and total"""
    from rene.exact import Point

    p, q, r = (Point(*v) for v in points(c, 3))
    if p < q and q < r and not p < r:
        return 'order is not transitive'
    if p == q and q == r and not p == r:
        return 'equality is not transitive'
    if not (p < q or p == q or p > q):
        return 'order is not total'
    if min(p, q, r) > max(p, q, r):
        return 'extremes'
    return None


# --------------------------------------------------------------------- P03
def _boxes(c):
    a = tuple(c.real() for _ in range(4))
    b = tuple(c.real() for _ in range(4))
    for v in (a, b):
        c.assume(v[0] <= v[1] and v[2] <= v[3])
    return a, b


def box_method(kind, method):
    def body(c):
        from rene.exact import Box

        a, b = _boxes(c)
        got = getattr(Box(*a), method)(Box(*b))
        want = ms.box_spec(a, b)[kind]
        return None if got is want else f'{method} is {got}, expected {want}'

    body.__doc__ = f'Box.{method} of any two valid boxes'
    return body


def box_relation(c):
    """Box.relate_to of any two boxes with inner points, both orders"""
    from rene.exact import Box

    a, b = _boxes(c)
    c.assume(a[0] < a[1] and a[2] < a[3] and b[0] < b[1] and b[2] < b[3])
    x, y = Box(*a), Box(*b)
    r = x.relate_to(y).name
    if not ms.box_spec(a, b)[r]:
        return f'relate_to is {r}'
    s = y.relate_to(x).name
    if s != bo.COMPLEMENT[r]:
        return f'reversed relation is {s}'
    return None


def box_degenerate(c):
    """Box.relate_to tells disjoint and equal valid boxes, proper or not"""
    from rene.exact import Box

    a, b = _boxes(c)
    r = Box(*a).relate_to(Box(*b)).name
    spec = ms.box_spec(a, b)
    for k in ('DISJOINT', 'EQUAL'):
        if (r == k) is not spec[k]:
            return f'relate_to is {r}, {k} is {spec[k]}'
    return None


def box_value(c):
    """sides, validity, equality and hash of any two boxes, valid or not"""
    from rene.exact import Box

    a = tuple(c.real() for _ in range(4))
    b = tuple(c.real() for _ in range(4))
    x, y = Box(*a), Box(*b)
    got = tuple(bridge.q(v) for v in (x.min_x, x.max_x, x.min_y, x.max_y))
    if got != a:
        return 'sides'
    if x.is_valid() is not (a[0] <= a[1] and a[2] <= a[3]):
        return f'is_valid() is {x.is_valid()}'
    eq = all(u == v for u, v in zip(a, b))
    if (x == y) is not eq or (x != y) is eq:
        return f'equality is {x == y}, expected {eq}'
    if eq and hash(x) != hash(y):
        return 'equal boxes with different hashes'
    return None


def box_prefilter(name):
    """Prefilters of operations keep whatever may have common points"""

    def body(c):
        from rene.exact import Box

        a, b = _boxes(c)
        got = getattr(_utils(), name)(Box(*a), Box(*b))
        dx = min(a[1], b[1]) - max(a[0], b[0])
        dy = min(a[3], b[3]) - max(a[2], b[2])
        area = dx > 0 and dy > 0
        continuum = (dx > 0 and dy >= 0) or (dx >= 0 and dy > 0)
        # degenerate boxes (of axis-parallel segments) may run inside
        needed = area if name.endswith('area') else continuum
        if '_no_' in name:
            got = not got
        return f'{name} rejects boxes with it' if needed and not got else None

    body.__doc__ = f'{name} of any two valid boxes'
    return body


# --------------------------------------------------------------------- P04
def segment_locate(c):
    """Segment.locate and `in` of any segment and point, both directions"""
    from rene.exact import Point, Segment

    p, q = segment(c)
    r = point(c)
    want = o.on_segment(p, q, r)
    for u, v in ((p, q), (q, p)):
        s = Segment(Point(*u), Point(*v))
        got = s.locate(Point(*r)).name
        if got != ('BOUNDARY' if want else 'EXTERIOR'):
            return f'locate is {got}, on segment: {want}'
        if (Point(*r) in s) is not want:
            return f'membership is {not want}'
    return None


# ----------------------------------------------------------------- P05, 06
def segments_relation(c):
    """relate_to of any two segments, both orders"""
    return bo.check_relation((('S', segment(c)), ('S', segment(c))))


def segments_direction(c):
    """relate_to does not depend on the directions of any two segments"""
    a, b = segment(c), segment(c)
    rs = {
        bridge.to_rene(('S', x)).relate_to(bridge.to_rene(('S', y))).name
        for x in (a, a[::-1])
        for y in (b, b[::-1])
    }
    return None if len(rs) == 1 else f'relations {sorted(rs)}'


def segments_op(op):
    def body(c):
        return bo.check_op((('S', segment(c)), ('S', segment(c)), op))

    body.__doc__ = f'{op} of any two segments'
    return body


def segments_common(op, shared):
    """Two segments with a common end point / on one line"""

    def body(c):
        if shared == 'end':
            p, q, r = points(c, 3)
            s, t = (p, q), (r, p)
        else:
            p, d = points(c, 2)
            k = [c.real() for _ in range(3)]
            s = (p, (p[0] + d[0], p[1] + d[1]))
            t = tuple((p[0] + d[0] * x, p[1] + d[1] * x) for x in k[:2])
        for u in (s, t):
            c.assume(not (u[0][0] == u[1][0] and u[0][1] == u[1][1]))
        if op is None:
            return bo.check_relation((('S', s), ('S', t)))
        return bo.check_op((('S', s), ('S', t), op))

    body.__doc__ = f'{op or "relate_to"} of segments with common {shared}'
    return body


# --------------------------------------------------------------------- P12
def empty_with(kind, make):
    def body(c):
        return ms.check_empty((make(c), point(c)))

    body.__doc__ = f'operations of the empty geometry with {kind}'
    return body


def _ring(c, n):
    return points(c, n)


def empty_with_any(kind):
    names = {
        'C': 'Contour', 'M': 'Multisegment', 'MP': 'Multipolygon',
        'P': 'Polygon', 'S': 'Segment',
    }

    def body(c):
        import rene.exact as ex

        e = ex.Empty()
        # nothing is known about the operand but its type
        x = object.__new__(getattr(ex, names[kind]))
        a, b = x, e
        p = ex.Point(*point(c))
        for text, got in (
            ('x & empty', a & b), ('empty & x', b & a), ('empty - x', b - a),
        ):
            if type(got) is not ex.Empty:
                return f'{text} is not empty: {type(got).__name__}'
        for text, got in (
            ('x | empty', a | b), ('empty | x', b | a), ('x - empty', a - b),
            ('x ^ empty', a ^ b), ('empty ^ x', b ^ a),
        ):
            if got is not a:
                return f'{text} is not x: {type(got).__name__}'
        for text, got in (
            ('relation to empty', a.relate_to(b)),
            ('relation of empty', b.relate_to(a)),
        ):
            if got.name != 'DISJOINT':
                return f'{text} is {got.name}'
        if b.locate(p).name != 'EXTERIOR' or p in b:
            return 'empty has a point'
        if a == b or b == a or not a != b or not b != a:
            return 'equals to empty'
        return None

    body.__doc__ = (
        f'operations of the empty geometry with any {names[kind]} (its'
        ' components are never read)'
    )
    return body


EMPTY_OPERANDS = {
    'empty': lambda c: ('E',),
    'segment': lambda c: ('S', segment(c)),
    'contour': lambda c: ('C', _ring(c, 3)),
    'contour4': lambda c: ('C', _ring(c, 4)),
    'multisegment': lambda c: ('M', (segment(c), segment(c))),
    'polygon': lambda c: ('P', (_ring(c, 3), ())),
    'polygon_hole': lambda c: ('P', (_ring(c, 4), (_ring(c, 3),))),
    'multipolygon': lambda c: (
        'MP', ((_ring(c, 3), ()), (_ring(c, 3), (_ring(c, 3),)))
    ),
}


def p01():
    G = 'rene._geometries.'
    res = [
        Contract('triangle_orientation', ['rene.exact.Contour.orientation'],
                 triangle_orientation),
        Contract('orienteer', ['rene._context.Context.orient'], orienteer,
                 public=False),
        Contract('cross_multiply', ['rene._utils.cross_multiply'],
                 cross_multiply, public=False),
        Contract('in_circle',
                 ['rene._utils.locate_point_in_point_point_point_circle'],
                 in_circle, public=False),
        Contract('crossing_point',
                 ['rene._context.Context.intersect_segments'],
                 crossing_point, public=False),
        Contract('crossing_scale',
                 ['rene._context.Context.to_segments_intersection_scale'],
                 crossing_scale, public=False),
    ]
    for i, fixed in enumerate((
        ((0, 0), (4, 0), (3, 3), None),
        ((0, 0), None, (3, 3), (1, 4)),
        ((0, 0), (4, 0), (2, 1), (4, 4), None),
        ((2, 0), (0, 1), None, (1, 5), (4, 2)),
    )):
        res.append(Contract(
            f'contour_orientation_{i}', [G + 'base_contour.orientation'],
            contour_orientation(len(fixed), fixed), kind='shape',
        ))
    for i, fixed in enumerate((
        ((0, 0), None, (3, 3), None),
        ((0, 0), (4, 0), None, None),
        ((0, 0), (4, 0), (5, 3), None, (0, 3), (2, 1)),
    )):
        res.append(Contract(
            f'contour_orientation_t{i}', [G + 'base_contour.orientation'],
            contour_orientation(len(fixed), fixed), kind='shape',
            thorough=True,
        ))
    return res


def p02():
    return [
        Contract('point_order', ['rene.exact.Point.__lt__'], point_order),
        Contract('point_transitivity', ['rene.exact.Point.__lt__'],
                 point_transitivity),
    ]


def p03():
    res = [
        Contract(m, [f'rene.exact.Box.{m}'], box_method(k, m))
        for k, m in ms.BOX_METHODS.items()
    ]
    res += [
        Contract('relate_to', ['rene.exact.Box.relate_to'], box_relation),
        Contract('relate_to_degenerate', ['rene.exact.Box.relate_to'],
                 box_degenerate),
        Contract('value', ['rene.exact.Box'], box_value),
    ]
    return res


PREFILTERS = (
    'do_boxes_have_common_area', 'do_boxes_have_no_common_area',
    'do_boxes_have_common_continuum', 'do_boxes_have_no_common_continuum',
)


def prefilters():
    return [
        Contract(n, [f'rene._utils.{n}'], box_prefilter(n), public=False)
        for n in PREFILTERS
    ]


def p04():
    return [
        Contract('segment_locate', ['rene.exact.Segment.locate',
                                    'rene.exact.Segment.__contains__'],
                 segment_locate),
    ]


def p05():
    return [
        Contract('segments_relation', ['rene.exact.Segment.relate_to'],
                 segments_relation),
        Contract('segments_direction', ['rene.exact.Segment.relate_to'],
                 segments_direction),
    ]


def p06():
    return [
        Contract(f'segments_{op}', [f'rene.exact.Segment.__{op}__'],
                 segments_op(op))
        for op in bo.OPS
    ] 


def p12():
    return [
        Contract(f'empty_{k}', ['rene.exact.Empty'], empty_with(k, f),
                 kind='proof' if k in ('empty', 'segment') else 'shape')
        for k, f in EMPTY_OPERANDS.items()
    ] + [
        Contract(f'empty_any_{k}', ['rene.exact.Empty'], empty_with_any(k),
                 public=False)
        for k in ('C', 'M', 'MP', 'P', 'S')
    ]
