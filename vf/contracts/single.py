"""Contracts of operations on single geometries of a bounded shape.

Coordinates marked None (or shifts of parts) are any rational numbers.
"""

import itertools

from .. import basic_spec as bs, bridge, misc_spec as ms, tri_spec as ts
from .common import (
    Contract, Q, gen, moved, o, permuted_ring, point, points, segment,
)

LOC = ts.LOC


def filled(c, vs):
    return tuple(
        point(c) if v is None else (c.lift(v[0]), c.lift(v[1])) for v in vs
    )


# --------------------------------------------------------------------- P07
def _eq_ring(u, v):
    """Same ring up to rotation and direction?"""
    n = len(u)
    if len(v) != n:
        return False
    for w in (tuple(v), tuple(v)[::-1]):
        for k in range(n):
            x = w[k:] + w[:k]
            if all(
                p[0] == q[0] and p[1] == q[1] for p, q in zip(u, x)
            ):
                return True
    return False


def _same(a, b, g, want):
    x, y = bridge.to_rene(a), bridge.to_rene(b)
    if (x == y) is not want or (y == x) is not want or (x != y) is want:
        return f'equality of {g} is {x == y}, expected {want}'
    if want and hash(x) != hash(y):
        return f'equal {g} have different hashes'
    return None


def eq_segments(c):
    """Segments are equal iff they have the same ends in either order"""
    (p, q), (r, s) = a, b = segment(c), segment(c)

    def eq(u, v):
        return u[0] == v[0] and u[1] == v[1]

    want = (eq(p, r) and eq(q, s)) or (eq(p, s) and eq(q, r))
    return _same(('S', a), ('S', b), 'segments', want)


def _distinct(c, vs):
    for p, q in itertools.combinations(vs, 2):
        c.assume(not (p[0] == q[0] and p[1] == q[1]))


def _ring(c, n):
    vs = points(c, n)
    if n == 3:
        c.assume(o.cross(*vs) != 0)
    else:
        c.assume(gen.ring_is_simple(vs))
    return vs


def eq_ring_variant(n, k, reverse):
    def body(c):
        vs = points(c, n)
        if n == 3:
            c.assume(o.cross(*vs) != 0)
        else:
            # enough for the order of vertices to be known
            _distinct(c, vs)
            for i in range(n):
                c.assume(o.cross(vs[i - 2], vs[i - 1], vs[i]) != 0)
        ws = permuted_ring(vs, k, reverse)
        return (
            _same(('C', vs), ('C', ws), 'contours', True)
            or _same(('P', (vs, ())), ('P', (ws, ())), 'polygons', True)
        )

    body.__doc__ = (
        f'ring of any {n} vertices is equal to itself starting at {k}'
        f'{", reversed" if reverse else ""}'
    )
    return body


def eq_ring_order(n):
    """Rings over the same fixed vertices in all orders"""

    def body(c):
        d = c.real()
        base = ((0, 0), (6, 1), (8, 5), (4, 9), (1, 6), (-3, 3))[:n]
        vs = tuple((x + d, y) for x, y in base)
        for order in itertools.permutations(range(1, n)):
            ws = (vs[0],) + tuple(vs[i] for i in order)
            bad = _same(
                ('C', vs), ('C', ws), f'contours in order {order}',
                _eq_ring(vs, ws),
            )
            if bad:
                return bad
        return None

    body.__doc__ = f'contours over {n} vertices in every order'
    return body


def eq_ring_moved_vertex(fixed):
    def body(c):
        p, q = points(c, 2)
        a = tuple(p if v is None else v for v in fixed)
        b = tuple(q if v is None else v for v in fixed)
        for vs in (a, b):
            c.assume(gen.ring_is_simple(vs))
        for k in (0, 1):
            w = permuted_ring(b, k, k == 1)
            want = p[0] == q[0] and p[1] == q[1] or _eq_ring(a, w)
            bad = _same(('C', a), ('C', w), 'contours', want)
            if bad:
                return bad
        return None

    body.__doc__ = f'contours {fixed} that differ in one vertex'
    return body


def eq_multisegments(n):
    def body(c):
        fixed = (((4, 1), (0, 3)), ((0, 3), (2, 5)))[:n - 1]
        ss = ((point(c), (0, 3)), *fixed)
        t = segment(c)
        c.assume(not (ss[0][0][0] == 0 and ss[0][0][1] == 3))

        def eq(u, v):
            def e(p, q):
                return p[0] == q[0] and p[1] == q[1]

            return (e(u[0], v[0]) and e(u[1], v[1])) or (
                e(u[0], v[1]) and e(u[1], v[0])
            )

        for x, y in itertools.combinations(ss, 2):
            c.assume(not eq(x, y))
        for x in ss[1:]:
            c.assume(not eq(x, t))
        rev = tuple(s[::-1] if i % 2 else s for i, s in enumerate(ss))[::-1]
        return _same(('M', ss), ('M', rev), 'multisegments', True) or _same(
            ('M', ss), ('M', (t[::-1], *ss[1:])), 'multisegments',
            eq(t, ss[0]),
        )

    body.__doc__ = (
        f'multisegments of {n} segments in other order and direction;'
        ' with one of them replaced by any segment'
    )
    return body


BORDER = ((0, 0), (10, 0), (10, 10), (0, 10))
HOLES = (
    ((1, 1), (1, 2), (2, 1)), ((4, 4), (4, 6), (6, 4)),
    ((7, 7), (7, 8), (8, 7)),
)


def eq_polygons(c):
    """Polygons with holes in any order; with one hole moved"""
    t, u = c.real(), c.real()
    c.assume(t >= -1 and u >= -1 and t < 1 and u < 1)
    a = ('P', (BORDER, HOLES))
    h = gen.transform(('C', HOLES[0]), lambda p: (p[0] + t, p[1] + u))[1]
    b = ('P', (
        permuted_ring(BORDER, 2, True),
        (HOLES[2], permuted_ring(h, 1, True), HOLES[1]),
    ))
    return (
        _same(a, b, 'polygons', t == 0 and u == 0)
        or _same(a, ('P', (BORDER, HOLES[1:])), 'polygons', False)
        or _same(a, ('C', BORDER), 'polygon and contour', False)
    )


def eq_multipolygons(c):
    """Multipolygons with polygons in any order; with one of them moved"""
    t, u = c.real(), c.real()
    a = ('MP', ((BORDER, HOLES), (((20, 0), (25, 0), (20, 5)), ())))
    q = tuple((20 + x + t, y + u) for x, y in ((0, 0), (5, 0), (0, 5)))
    b = ('MP', (
        (permuted_ring(q, 2, True), ()),
        (permuted_ring(BORDER, 1, False), HOLES[::-1]),
    ))
    return _same(a, b, 'multipolygons', t == 0 and u == 0)


def p07():
    E = 'rene.exact.'
    res = [
        Contract('segments', [E + 'Segment.__eq__', E + 'Segment.__hash__'],
                 eq_segments),
        Contract('polygons', [E + 'Polygon.__eq__', E + 'Polygon.__hash__'],
                 eq_polygons, kind='shape'),
        Contract('multipolygons', [E + 'Multipolygon.__eq__'],
                 eq_multipolygons, kind='shape'),
        Contract('multisegments2', [E + 'Multisegment.__eq__'],
                 eq_multisegments(2), kind='shape'),
        Contract('multisegments3', [E + 'Multisegment.__eq__'],
                 eq_multisegments(3), kind='shape', thorough=True),
    ]
    for n in (3, 4, 5):
        for k in range(n):
            for rev in (False, True):
                if k or rev:
                    res.append(Contract(
                        f'ring{n}_{k}{"r" if rev else ""}',
                        [E + 'Contour.__eq__', E + 'Contour.__hash__'],
                        eq_ring_variant(n, k, rev), kind='shape',
                        thorough=n > 3,
                    ))
    for n in (3, 4, 5, 6):
        res.append(Contract(
            f'orders{n}', [E + 'Contour.__eq__'], eq_ring_order(n),
            kind='shape', thorough=n == 6,
        ))
    for i, f in enumerate((
        ((0, 0), (4, 0), None), ((0, 0), None, (3, 3), (1, 4)),
        ((0, 0), (4, 0), (2, 1), (4, 4), None),
    )):
        res.append(Contract(
            f'moved_vertex_{i}', [E + 'Contour.__eq__'],
            eq_ring_moved_vertex(f), kind='shape', thorough=i > 1,
        ))
    return res


# --------------------------------------------------------------------- P08
def box_of(make):
    def body(c):
        g = make(c)
        x = bridge.to_rene(g)
        pts = [p for s in o.edges_of(g) for p in s]
        want = (
            min(p[0] for p in pts), max(p[0] for p in pts),
            min(p[1] for p in pts), max(p[1] for p in pts),
        )
        b = x.bounding_box
        got = tuple(bridge.q(v) for v in (b.min_x, b.max_x, b.min_y, b.max_y))
        if got != want:
            return f'bounding box {got}, expected {want}'
        return None

    body.__doc__ = make.__doc__
    return body


def _b_segment(c):
    """bounding box of any segment"""
    return ('S', segment(c))


def _b_ring(n):
    def make(c):
        return ('C', points(c, n))

    make.__doc__ = f'bounding box of any contour of {n} vertices'
    return make


def _b_multi(n):
    def make(c):
        return ('M', tuple(segment(c) for _ in range(n)))

    make.__doc__ = f'bounding box of any multisegment of {n} segments'
    return make


def _b_poly(c):
    """bounding box of any triangle with a fixed hole"""
    return ('P', (points(c, 3), (HOLES[0],)))


def _b_box_poly(c):
    """bounding box of a polygon never depends on holes"""
    vs = points(c, 3)
    return ('P', (vs, ()))


def _b_mpoly(c):
    """bounding box of multipolygon with any triangle and a fixed one"""
    return ('MP', (
        (points(c, 3), ()), (((0, 0), (2, 1), (1, 3)), ()),
    ))


def p08():
    res = []
    for name, make, kind, th in (
        ('segment', _b_segment, 'proof', False),
        ('contour3', _b_ring(3), 'shape', False),
        ('contour4', _b_ring(4), 'shape', True),
        ('multisegment2', _b_multi(2), 'shape', True),
        ('polygon', _b_box_poly, 'shape', False),
        ('multipolygon', _b_mpoly, 'shape', True),
    ):
        res.append(Contract(
            name, ['rene.exact.*.bounding_box'], box_of(make), kind=kind,
            thorough=th,
        ))
    return res


# ---------------------------------------------------------------- P09, P10
def located(make, doc):
    """any point is located exactly"""

    def body(c):
        from rene.exact import Point

        g = make(c)
        p = point(c)
        want = LOC[o.locate(g, p)]
        x = bridge.to_rene(g)
        got = x.locate(Point(*p)).name
        if got != want:
            return f'locate is {got}, expected {want}'
        if (Point(*p) in x) is not (want != 'EXTERIOR'):
            return f'membership is {want == "EXTERIOR"}'
        return None

    body.__doc__ = f'location of any point in {doc}'
    return body


TRI = ((0, 0), (4, 0), (1, 3))
SQUARE = ((0, 0), (4, 0), (4, 4), (0, 4))
ARROW = ((0, 0), (3, 1), (6, 0), (3, 5))
ELL = ((0, 0), (5, 0), (5, 2), (2, 2), (2, 5), (0, 5))
COMB = (
    (0, 0), (7, 0), (7, 4), (6, 1), (5, 4), (4, 1), (3, 4), (2, 1), (0, 4),
)
DONUT = (((0, 0), (8, 0), (8, 8), (0, 8)), (((2, 2), (2, 6), (6, 6), (6, 2)),))
TWO_HOLES = (
    ((0, 0), (9, 0), (9, 6), (0, 6)),
    (((1, 1), (1, 3), (3, 1)), ((5, 2), (6, 5), (8, 3))),
)
TOUCHING = (((0, 0), (8, 0), (8, 8), (0, 8)), (((0, 0), (2, 5), (5, 2)),))

POLYGONS = {
    'triangle': (TRI, ()),
    'clockwise': (TRI[::-1], ()),
    'square': (SQUARE, ()),
    'arrow': (ARROW, ()),
    'ell': (ELL, ()),
    'comb': (COMB, ()),
    'donut': DONUT,
    'donut_reversed': (DONUT[0][::-1], (DONUT[1][0][::-1],)),
    'two_holes': TWO_HOLES,
    'touching': TOUCHING,
}
MULTIS = {
    'star': (((0, 0), (2, 2)), ((4, 0), (2, 2)), ((2, 2), (1, 5))),
    'apart': (((0, 0), (3, 1)), ((0, 2), (0, 5)), ((5, 1), (1, 4))),
    'chain': (((0, 0), (2, 0)), ((2, 0), (4, 0)), ((4, 0), (4, 3))),
}
MULTIPOLYGONS = {
    'pair': ((TRI, ()), (((5, 0), (9, 1), (6, 4)), ())),
    'island': (DONUT, (((3, 3), (5, 3), (4, 5)), ())),
    'touching': ((TRI, ()), (((4, 0), (8, 0), (6, 3)), ())),
}


def p09():
    res = []
    T = ['rene.exact.Contour.locate', 'rene.exact.Contour.__contains__']
    for k in ('triangle', 'arrow', 'ell', 'comb'):
        vs = POLYGONS[k][0]
        res.append(Contract(
            f'contour_{k}', T,
            located(lambda c, vs=vs: ('C', vs), f'contour {vs}'),
            kind='shape',
        ))
    res.append(Contract(
        'contour_free_vertex', T,
        located(lambda c: ('C', ((0, 0), (4, 1), point(c))),
                'contours with two fixed vertices'), kind='shape',
    ))
    res.append(Contract(
        'contour_any', T,
        located(lambda c: ('C', points(c, 3)), 'any contour of 3 vertices'),
        kind='shape', thorough=True,
    ))
    T = ['rene.exact.Multisegment.locate', 'rene.exact.Multisegment.__contains__']
    for k, ss in MULTIS.items():
        res.append(Contract(
            f'multisegment_{k}', T,
            located(lambda c, ss=ss: ('M', ss), f'multisegment {ss}'),
            kind='shape',
        ))
    res.append(Contract(
        'multisegment_any', T,
        located(lambda c: ('M', (segment(c), segment(c))),
                'any multisegment of 2 segments'),
        kind='shape', thorough=True,
    ))
    return res


def p10():
    res = []
    T = ['rene.exact.Polygon.locate', 'rene.exact.Polygon.__contains__']
    for k, p in POLYGONS.items():
        res.append(Contract(
            f'polygon_{k}', T,
            located(lambda c, p=p: ('P', p), f'polygon {p}'), kind='shape',
        ))

    def triangle(c):
        return ('P', (_ring(c, 3), ()))

    def free_vertex(vs):
        def make(c):
            r = filled(c, vs)
            c.assume(gen.ring_is_simple(r))
            return ('P', (r, ()))

        return make

    res.append(Contract(
        'triangle_free_vertex', T,
        located(free_vertex(((0, 0), (4, 1), None)),
                'triangles with two fixed vertices'), kind='shape',
    ))
    res.append(Contract(
        'triangle_any', T, located(triangle, 'any triangle'), kind='shape',
        thorough=True,
    ))
    res.append(Contract(
        'quadrilateral', T,
        located(free_vertex(((0, 0), (4, 1), (3, 5), None)),
                'quadrilaterals with three fixed vertices'), kind='shape',
        thorough=True,
    ))

    def hole(c):
        t, u = c.real(), c.real()
        c.assume(t > -1 and u > -1 and t < 3 and u < 3)
        h = tuple((x + t, y + u) for x, y in ((1, 1), (2, 5), (5, 2)))
        return ('P', (DONUT[0], (h,)))

    res.append(Contract(
        'hole_moved', T, located(hole, 'squares with a hole anywhere'),
        kind='shape', thorough=True,
    ))
    T = ['rene.exact.Multipolygon.locate',
         'rene.exact.Multipolygon.__contains__']
    for k, p in MULTIPOLYGONS.items():
        res.append(Contract(
            f'multipolygon_{k}', T,
            located(lambda c, p=p: ('MP', p), f'multipolygon {p}'),
            kind='shape',
        ))
    return res


# --------------------------------------------------------------------- P11
def view_of(make, doc):
    def body(c):
        return ms.check_views((make(c),))

    body.__doc__ = f'views of {doc}'
    return body


def p11():
    E = 'rene._exact.'
    res = []
    for name, make, doc in (
        ('segment', lambda c: ('S', points(c, 2)), 'any segment'),
        ('contour', lambda c: ('C', points(c, 3)), 'contours of any 3 points'),
        ('contour4', lambda c: ('C', ((0, 0), (3, 0), *points(c, 2))),
         'contours of any 4 points, two fixed'),
        ('multisegment',
         lambda c: ('M', ((point(c), (0, 0)), ((1, 1), point(c)))),
         'multisegments of any 2 segments with fixed starts'),
        ('polygon',
         lambda c: ('P', (BORDER, (points(c, 3), HOLES[1]))),
         'polygons with any triangle as a hole'),
    ):
        res.append(Contract(
            name, [E + name.rstrip('4')], view_of(make, doc),
            kind='proof' if name == 'segment' else 'shape',
            thorough=name in ('contour4', 'polygon'),
        ))
    return res


# --------------------------------------------------------------------- P19
def valid_contour(fixed):
    def body(c):
        vs = filled(c, fixed)
        n = len(vs)
        # consecutive vertices of the operand differ
        for i in range(n):
            p, q = vs[i - 1], vs[i]
            c.assume(not (p[0] == q[0] and p[1] == q[1]))
        return bs.check_valid(('C', vs))

    body.__doc__ = f'Contour.is_valid of {fixed} (None: any point)'
    return body


def valid_multisegment(fixed):
    def body(c):
        ss = []
        for s in fixed:
            p, q = filled(c, s)
            c.assume(not (p[0] == q[0] and p[1] == q[1]))
            ss.append((p, q))
        return bs.check_valid(('M', tuple(ss)))

    body.__doc__ = f'Multisegment.is_valid of {fixed} (None: any point)'
    return body


def p19():
    N = None
    res = []
    T = ['rene.exact.Contour.is_valid', 'rene._bentley_ottmann.base.sweep']
    for i, (vs, th) in enumerate((
        ((N, N, N), False),
        (((0, 0), (4, 0), (3, 3), N), False),
        (((0, 0), (4, 0), (2, 1), (4, 4), N), False),
        (((0, 0), N, (6, 2), (3, 1), (5, 5)), False),
        (((2, 0), (0, 1), N, (1, 5), (4, 2), (6, 3)), False),
        (((0, 0), (4, 1), N, N), True),
        (((0, 0), N, (3, 3), N), True),
    )):
        res.append(Contract(
            f'contour_{i}', T, valid_contour(vs),
            kind='shape', thorough=th,
        ))
    T = ['rene.exact.Multisegment.is_valid',
         'rene._bentley_ottmann.base.sweep']
    for i, (ss, th) in enumerate((
        (((N, N), (N, N)), False),
        ((((0, 0), (4, 2)), ((4, 2), (6, 0)), (N, N)), True),
        ((((0, 0), (4, 2)), ((4, 2), (6, 0)), ((2, 3), N)), False),
        ((((0, 0), (4, 2)), ((1, 4), (6, 1)), ((3, -1), N)), False),
        ((((0, 0), (0, 4)), ((2, 0), (2, 4)), ((-1, 2), N)), False),
        ((((0, 0), (4, 2)), ((0, 2), (4, 0)), ((0, 0), N)), False),
    )):
        res.append(Contract(
            f'multisegment_{i}', T, valid_multisegment(ss),
            kind='shape', thorough=th,
        ))
    return res


# --------------------------------------------------------------------- P20
def delaunay(fixed):
    def body(c):
        return ts.check_delaunay(list(filled(c, fixed)))

    body.__doc__ = f'Delaunay triangulation of {fixed} (None: any point)'
    return body


def p20():
    N = None
    T = ['rene.exact.DelaunayTriangulation.from_points',
         'rene._triangulation.delaunay.Delaunay', 'rene._triangulation.mesh']
    res = []
    for i, (ps, th) in enumerate((
        ((N, N, N), False),
        (((0, 0), (4, 0), (1, 3), N), False),
        (((0, 0), (2, 0), (2, 2), (0, 2), N), False),
        (((0, 0), (2, 0), (5, 0), N), False),
        (((0, 0), (1, 2), (2, 4), (3, 0), N), False),
        (((0, 0), (4, 1), (5, 5), (1, 4), (3, 2), N), True),
        (((3, 4), (-4, 3), (0, -5), (5, 0), (0, 0), N), True),
        (((0, 0), (4, 0), N, N), True),
    )):
        res.append(Contract(
            f'points_{i}', T, delaunay(ps), kind='shape', thorough=th,
        ))
    return res


# --------------------------------------------------------------------- P21
def triangulated(border, holes=()):
    def body(c):
        vs = filled(c, border)
        c.assume(gen.ring_is_simple(vs))
        if holes:
            g = gen.Gen(None, touching=False)
            c.assume(all(
                gen.seg_rel_simple(s, t) is None
                for h in holes
                for s in o.ring_edges(h)
                for t in o.ring_edges(vs)
            ))
            c.assume(all(
                o.locate_in_edges(o.ring_edges(vs), h[0]) == 1 for h in holes
            ))
        return ts.check_cdt(
            ('P', (vs, tuple(filled(c, h) for h in holes)))
        )

    body.__doc__ = (
        f'constrained Delaunay triangulation of polygons {border} (None: any'
        f' point) with holes {holes}'
    )
    return body


def p21():
    N = None
    T = ['rene.exact.ConstrainedDelaunayTriangulation.from_polygon',
         'rene._triangulation.constrained_delaunay', 'rene._triangulation.mesh']
    res = []
    for i, (b, h, th) in enumerate((
        ((N, N, N), (), False),
        (((0, 0), (4, 0), (3, 3), N), (), False),
        (((0, 0), N, (4, 4), (0, 4)), (), False),
        (((0, 0), (6, 0), (6, 5), (3, 1), N), (), False),
        (((0, 0), (9, 0), N, (0, 9)), (((1, 1), (1, 3), (3, 1)),), True),
        (((0, 0), (3, 2), (6, 0), (6, 6), (3, 4), N), (), True),
    )):
        res.append(Contract(
            f'polygon_{i}', T, triangulated(b, h), kind='shape', thorough=th,
        ))
    return res


# --------------------------------------------------------------------- P22
def trapezoidation(g, seed):
    def body(c):
        from rene.exact import Point, Trapezoidation

        p = point(c)
        want = LOC[o.locate(g, p)]
        r = bridge.to_rene(g)
        make = (
            Trapezoidation.from_multisegment if g[0] == 'M'
            else Trapezoidation.from_polygon
        )
        t = make(r, seeder=lambda: seed)
        got = t.locate(Point(*p)).name
        if got != want:
            return f'locate is {got}, expected {want}'
        if (Point(*p) in t) is not (want != 'EXTERIOR'):
            return f'membership is {want == "EXTERIOR"}'
        return None

    body.__doc__ = f'trapezoidation of {g} with seed {seed} at any point'
    return body


def trapezoidation_of(make, seed, queries):
    def body(c):
        from rene.exact import Point, Trapezoidation

        g = make(c)
        r = bridge.to_rene(g)
        t = (
            Trapezoidation.from_multisegment if g[0] == 'M'
            else Trapezoidation.from_polygon
        )(r, seeder=lambda: seed)
        for p in queries:
            want = LOC[o.locate(g, p)]
            got = t.locate(Point(*p)).name
            if got != want:
                return f'locate({p}) is {got}, expected {want}'
        return None

    body.__doc__ = f'trapezoidations with one free vertex, seed {seed}'
    return body


def p22():
    T = ['rene.exact.Trapezoidation', 'rene._seidel.trapezoidation']
    res = []
    for k, p in POLYGONS.items():
        for seed in range(6):
            res.append(Contract(
                f'polygon_{k}_{seed}', T, trapezoidation(('P', p), seed),
                kind='shape', thorough=seed > 1,
            ))
    for k, ss in MULTIS.items():
        for seed in range(6):
            res.append(Contract(
                f'multisegment_{k}_{seed}', T,
                trapezoidation(('M', ss), seed), kind='shape',
                thorough=seed > 2,
            ))

    def free(vs):
        def make(c):
            r = filled(c, vs)
            c.assume(gen.ring_is_simple(r))
            return ('P', (r, ()))

        return make

    grid = tuple(
        (Q(x, 2), Q(y, 2)) for x in (1, 4, 7) for y in (1, 4, 7)
    )
    for i, vs in enumerate((
        ((0, 0), (4, 0), None), ((0, 0), (4, 0), (4, 4), None),
        ((0, 0), (4, 1), (2, 2), None, (1, 5)),
    )):
        for seed in range(4):
            res.append(Contract(
                f'free_vertex_{i}_{seed}', T,
                trapezoidation_of(free(vs), seed, grid[i::3]), kind='shape',
                thorough=seed > 0 or i > 1,
            ))
    return res
