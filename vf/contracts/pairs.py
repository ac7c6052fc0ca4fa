"""Contracts of binary operations over parametric families of operands.

Each family has operands with some free rational parameters (a shift, a scale,
a free vertex, a free segment); the postcondition is discharged for every value
of the parameters for which operands are valid.
"""

from .. import bool_spec as bo, gen, oracle as o, valid
from .common import Contract, Q, moved, point, points, scaled, segment
from .single import (
    ARROW, COMB, DONUT, ELL, MULTIPOLYGONS, MULTIS, SQUARE, TOUCHING, TRI,
    TWO_HOLES,
)

TRI2 = ((0, 0), (3, 1), (1, 2))
SQ1 = ((0, 0), (2, 0), (2, 2), (0, 2))
DIAMOND = ((2, 0), (4, 2), (2, 4), (0, 2))
RIGHT = ((0, 0), (2, 0), (0, 2))


def P(vs, *holes):
    return ('P', (tuple(vs), tuple(holes)))


def C(vs):
    return ('C', tuple(vs))


def S(p, q):
    return ('S', (p, q))


def M(*ss):
    return ('M', tuple(ss))


def MP(*ps):
    return ('MP', tuple(ps))


# ------------------------------------------------ makers: ctx -> (a, b)
def shifted(a, b, x=None, y=None):
    """b moved by any vector / along one axis / along a fixed direction"""

    def make(c):
        dx = c.real() if x is None else x
        dy = c.real() if y is None else y
        return a, moved(b, dx, dy)

    return make


def along(a, b, d, start=(0, 0)):
    """b moved by any multiple of a vector"""

    def make(c):
        t = c.real()
        return a, moved(b, start[0] + d[0] * t, start[1] + d[1] * t)

    return make


def resized(a, b, dx=0, dy=0):
    def make(c):
        k = c.real()
        c.assume(k > 0)
        return a, scaled(b, k, dx, dy)

    return make


def vertex(a, b, old, swap=False):
    """b with one vertex anywhere it is still valid"""

    def make(c):
        new = point(c)
        g = gen.transform(b, lambda p: new if p == old else p)
        c.assume(valid.valid(g))
        return (g, a) if swap else (a, g)

    return make


def vertex_on(a, b, old, start, d):
    """b with one vertex anywhere on a line"""

    def make(c):
        t = c.real()
        new = (start[0] + d[0] * t, start[1] + d[1] * t)
        g = gen.transform(b, lambda p: new if p == old else p)
        c.assume(valid.valid(g))
        return a, g

    return make


def any_segment(a):
    def make(c):
        return a, ('S', segment(c))

    return make


def segment_from(a, p):
    """any segment with a fixed end"""

    def make(c):
        q = point(c)
        c.assume(not (q[0] == p[0] and q[1] == p[1]))
        return a, ('S', (p, q))

    return make


def swapped(make):
    def f(c):
        a, b = make(c)
        return b, a

    return f


def relation(make, doc):
    def body(c):
        return bo.check_relation(make(c))

    body.__doc__ = f'relate_to, both orders: {doc}'
    return body


def operation(make, op, doc):
    def body(c):
        a, b = make(c)
        return bo.check_op((a, b, op))

    body.__doc__ = f'{op}: {doc}'
    return body


def relations(families):
    res = []
    for name, make, th in families:
        res.append(Contract(
            name, ['rene.exact.*.relate_to'], relation(make, name),
            kind='shape', thorough=th,
        ))
    return res


def operations(families, ops):
    res = []
    for name, make, quick in families:
        for op in ops:
            res.append(Contract(
                f'{name}_{op}', [f'rene.exact.*.__{op}__'],
                operation(make, op, name), kind='shape',
                thorough=op not in quick,
            ))
    return res


ALL = ('and', 'or', 'sub', 'xor')
Z = ()

# ----------------------------------------------------------------- shaped
SHAPED = [
    # name, maker, quick operations, quick relation
    ('triangles', shifted(P(TRI), P(TRI2)), ('and', 'xor'), True),
    ('squares', shifted(P(SQUARE), P(SQ1)), ('or', 'sub'), True),
    ('equal_squares', shifted(P(SQUARE), P(SQUARE)), ('xor',), True),
    ('square_diamond', shifted(P(SQUARE), P(DIAMOND)), Z, False),
    ('arrow_along', along(P(ARROW), P(TRI), (1, 2), (-3, -3)), ALL, True),
    ('ell_square_x', shifted(P(ELL), P(SQ1), y=1), ALL, True),
    ('ell_square_y', shifted(P(ELL), P(SQ1), x=2), ('and', 'or'), True),
    ('ell_triangle', shifted(P(ELL), P(TRI2)), Z, False),
    ('donut_square_x', shifted(P(*DONUT[:1], *DONUT[1]), P(SQ1), y=3), ALL,
     True),
    ('donut_triangle_x', shifted(P(DONUT[0], *DONUT[1]), P(TRI), y=3),
     ('or', 'sub'), True),
    ('donut_resized', resized(P(DONUT[0], *DONUT[1]), P(SQUARE), 2, 2), ALL,
     True),
    ('donut_resized_center',
     resized(P(DONUT[0], *DONUT[1]),
             P(((-1, -1), (1, -1), (1, 1), (-1, 1))), 4, 4), ALL, True),
    ('donuts_x', shifted(P(DONUT[0], *DONUT[1]), P(DONUT[0], *DONUT[1]), y=0),
     ('and', 'or'), True),
    ('donuts_diagonal',
     along(P(DONUT[0], *DONUT[1]), P(DONUT[0], *DONUT[1]), (1, 1)),
     ('sub', 'xor'), True),
    ('donut_clockwise_x',
     shifted(P(DONUT[0][::-1], DONUT[1][0][::-1]), P(SQ1[::-1]), y=1),
     ('sub',), True),
    ('two_holes_triangle', along(P(*TWO_HOLES[:1], *TWO_HOLES[1]), P(TRI),
                                 (1, 0), (-2, 1)), ALL, True),
    ('touching_hole', along(P(TOUCHING[0], *TOUCHING[1]), P(TRI2), (1, 1),
                            (-2, -1)), ('and', 'sub'), True),
    ('comb_square_x', shifted(P(COMB), P(SQ1), y=1), ('and', 'sub'), True),
    ('comb_bar_y', shifted(P(COMB), P(((-1, 0), (8, 0), (8, 1), (-1, 1))),
                           x=0), ('or', 'xor'), True),
    ('triangle_vertex', vertex(P(TRI), P(TRI2), (1, 2)), ('and',), True),
    ('square_vertex', vertex(P(SQ1), P(((1, 1), (5, 1), (3, 4))), (3, 4)),
     Z, False),
    ('square_vertex_on', vertex_on(P(SQUARE), P(((1, 1), (6, 1), (3, 7))),
                                   (3, 7), (-3, 4), (1, 0)), ALL, True),
    ('resized_corner', resized(P(SQUARE), P(RIGHT)), ALL, True),
    ('resized_triangles', resized(P(TRI), P(TRI2), 1, 1), ('or', 'xor'),
     True),
    ('multi_square', shifted(MP(*MULTIPOLYGONS['pair']), P(SQ1), y=1), ALL,
     True),
    ('multi_square_y', shifted(MP(*MULTIPOLYGONS['pair']), P(SQ1), x=3),
     ('xor',), True),
    ('multi_triangle', shifted(MP(*MULTIPOLYGONS['pair']), P(TRI2)), Z,
     False),
    ('multis_x', shifted(MP(*MULTIPOLYGONS['pair']),
                         MP(*MULTIPOLYGONS['pair']), y=0), ALL, True),
    ('multis_along', along(MP(*MULTIPOLYGONS['touching']),
                           MP(*MULTIPOLYGONS['pair']), (1, 1), (0, -1)),
     ('and', 'or'), True),
    ('island_square', shifted(MP(*MULTIPOLYGONS['island']), P(SQ1), y=2),
     ALL, True),
    ('island_resized', resized(MP(*MULTIPOLYGONS['island']), P(SQUARE), 2, 2),
     ('and', 'sub'), True),
    ('polygon_multi', swapped(shifted(MP(*MULTIPOLYGONS['touching']),
                                      P(TRI2), y=0)), ALL, True),
    ('polygon_island', swapped(resized(
        MP(*MULTIPOLYGONS['island']), P(((-1, -1), (1, -1), (1, 1), (-1, 1))),
        4, 4)), ('or', 'sub'), True),
    # parts of operands apart or equal
    ('multi_same_part', along(
        MP(((RIGHT), ()), (tuple((x + 5, y) for x, y in RIGHT), ())),
        MP(((RIGHT), ()), (tuple((x + 5, y) for x, y in SQ1), ())), (1, 0)),
     ALL, True),
    ('multi_disjoint_part', along(
        MP((RIGHT, ()), (tuple((x + 3, y + 3) for x, y in SQ1), ())),
        MP((tuple((x + 8, y) for x, y in RIGHT), ()),
           (tuple((x + 4, y + 4) for x, y in TRI2), ())), (1, 1), (-3, -3)),
     ALL, True),
    ('polygon_right_parts', along(
        P(RIGHT),
        MP((tuple((x + 1, y) for x, y in RIGHT), ()),
           (tuple((x + 8, y) for x, y in SQ1), ())), (1, 0), (-1, 0)),
     ALL, True),
]


def p13():
    return operations([(n, m, q) for n, m, q, _ in SHAPED], ALL)


def p18():
    return relations([(n, m, not r) for n, m, _, r in SHAPED])


# ----------------------------------------------------------------- linear
STAR, APART, CHAIN = (M(*MULTIS[k]) for k in ('star', 'apart', 'chain'))
CROSSES = M(((0, 0), (2, 0)), ((2, 0), (2, 2)), ((2, 0), (2, -2)),
            ((2, 0), (5, 0)))
GRID = M(((0, 0), (0, 4)), ((2, 0), (2, 4)), ((4, 1), (4, 3)))
LINEAR = [
    ('triangle_segment_from', segment_from(C(TRI), (1, 1)), ALL, True),
    ('triangle_segment_vertex', segment_from(C(TRI), (0, 0)), ALL, True),
    ('triangle_segment', any_segment(C(TRI)), Z, False),
    ('arrow_segment', shifted(C(ARROW), S((0, 0), (5, 3))), ('and', 'sub'),
     True),
    ('segment_contour', swapped(shifted(C(ELL), S((0, 0), (0, 6)))),
     ('or', 'sub'), True),
    ('star_segment', segment_from(STAR, (0, 4)), ('or', 'xor'), True),
    ('star_segment_center', segment_from(STAR, (2, 2)), ('and', 'or'), True),
    ('segment_star', swapped(segment_from(STAR, (4, 0))), ('sub', 'xor'),
     True),
    ('apart_segment', shifted(APART, S((0, 0), (6, 2))), ('or', 'sub'), True),
    ('chain_segment', shifted(CHAIN, S((1, 0), (3, 0)), y=0), ALL, True),
    ('chain_segment2', any_segment(CHAIN), Z, False),
    ('segment_chain', swapped(shifted(CHAIN, S((-1, 0), (5, 0)), y=0)), ALL,
     True),
    ('grid_segment', segment_from(GRID, (-1, 2)), ('and', 'or'), True),
    ('crosses_segment', shifted(CROSSES, S((0, -1), (2, 1))), ('xor',), True),
    ('triangles', shifted(C(TRI), C(TRI2)), Z, False),
    ('triangles_x', shifted(C(TRI), C(TRI2), y=0), ALL, True),
    ('triangles_along', along(C(TRI), C(TRI), (1, 3), (-1, -3)), ALL, True),
    ('squares', shifted(C(SQUARE), C(SQ1)), ('and', 'xor'), True),
    ('squares_reversed', shifted(C(SQUARE), C(SQ1[::-1]), y=0),
     ('or', 'sub'), True),
    ('ell_arrow', along(C(ELL), C(ARROW), (2, 1), (-4, -1)), ('and', 'or'),
     True),
    ('triangle_star', along(C(TRI), STAR, (1, 1), (-3, -3)), ALL, True),
    ('star_triangle', swapped(shifted(C(TRI), STAR, y=0)), ('or', 'sub'),
     True),
    ('square_grid', shifted(C(SQUARE), GRID, y=0), ALL, True),
    ('grid_square', swapped(shifted(C(SQUARE), GRID, x=0)), ('and', 'xor'),
     True),
    ('chain_contour', shifted(C(SQUARE), CHAIN, y=0), ALL, True),
    ('contour_vertex', vertex(C(TRI), C(TRI2), (1, 2)), Z, False),
    ('contour_vertex_on', vertex_on(C(SQUARE), C(((1, 0), (3, 0), (2, 5))),
                                    (2, 5), (-3, 4), (1, 0)), ALL, True),
    ('stars', shifted(STAR, STAR), Z, False),
    ('stars_x', shifted(STAR, STAR, y=0), ('and', 'or'), True),
    ('stars_along', along(STAR, STAR, (1, 1)), ALL, True),
    ('apart_chain', shifted(APART, CHAIN, x=0), ALL, True),
    ('chain_crosses', along(CHAIN, CROSSES, (1, 0), (-4, 0)), ALL, True),
    ('crosses', along(CROSSES, CROSSES, (0, 1)), ALL, True),
    ('resized', resized(C(SQUARE), C(TRI2)), ALL, True),
    ('resized_multi', resized(C(SQUARE), CHAIN, 0, 1), ALL, True),
    ('multi_vertex', vertex(CHAIN, M(((0, 2), (2, 2)), ((1, 5), (3, 3))),
                            (2, 2)), ('and', 'or'), True),
    # one segment equal to the whole other operand, others apart
    ('part_whole', along(
        M(((0, 0), (1, 1)), ((2, 0), (4, 0))),
        M(((2, 0), (3, 0)), ((3, 0), (4, 0))), (1, 0), (-3, 0)), ALL, True),
    ('right_parts', along(
        M(((0, 0), (2, 1)), ((1, 2), (3, 2))),
        M(((0, 1), (2, 0)), ((7, 0), (8, 3))), (1, 0), (-4, 0)), ALL, True),
]


def p14():
    return operations([(n, m, q) for n, m, q, _ in LINEAR], ALL)


def p16():
    return relations([(n, m, not r) for n, m, _, r in LINEAR])


# ------------------------------------------------------------------ mixed
DON = P(DONUT[0], *DONUT[1])
TWO = P(TWO_HOLES[0], *TWO_HOLES[1])
PAIR, ISLAND, TOUCH = (
    MP(*MULTIPOLYGONS[k]) for k in ('pair', 'island', 'touching')
)
# linear first (swap gives the other order)
MIXED = [
    ('segment_triangle', swapped(any_segment(P(TRI))), Z, False),
    ('segment_from_triangle', swapped(segment_from(P(TRI), (1, 1))),
     ('and',), True),
    ('segment_corner_triangle', swapped(segment_from(P(TRI), (4, 0))),
     ('and',), True),
    ('segment_arrow', swapped(shifted(P(ARROW), S((0, 0), (4, 3)))),
     ('and',), True),
    ('segment_ell_y', swapped(shifted(P(ELL), S((0, 0), (0, 6)))), ('and',),
     True),
    ('segment_ell_x', swapped(shifted(P(ELL), S((6, 0), (0, 0)))), ('and',),
     True),
    ('segment_donut', swapped(shifted(DON, S((0, 0), (6, 6)))), ('and',),
     True),
    ('segment_donut_from', swapped(segment_from(DON, (4, 4))), ('and',),
     True),
    ('segment_two', swapped(segment_from(TWO, (0, 2))), ('and',), True),
    ('segment_comb', swapped(shifted(P(COMB), S((0, 0), (7, 0)), x=0)),
     ('and',), True),
    ('segment_touching', swapped(segment_from(
        P(TOUCHING[0], *TOUCHING[1]), (0, 0))), ('and',), True),
    ('segment_clockwise', swapped(segment_from(
        P(DONUT[0][::-1], DONUT[1][0][::-1]), (0, 4))), ('and',), True),
    ('segment_pair', swapped(shifted(PAIR, S((0, 0), (7, 1)))), ('and',),
     True),
    ('segment_pair_from', swapped(segment_from(PAIR, (1, 3))), ('and',),
     True),
    ('segment_island', swapped(segment_from(ISLAND, (0, 3))), ('and',), True),
    ('segment_touch', swapped(segment_from(TOUCH, (4, 0))), ('and',), True),
    ('contour_triangle', swapped(shifted(P(TRI), C(TRI2))), Z, False),
    ('contour_triangle_x', swapped(shifted(P(TRI), C(TRI2), y=0)),
     ('and', 'sub'), True),
    ('contour_squares', swapped(shifted(P(SQUARE), C(SQ1))), ('sub',), True),
    ('contour_squares_x', swapped(shifted(P(SQUARE), C(SQUARE), y=0)),
     ('and', 'sub'), True),
    ('contour_donut_x', swapped(shifted(DON, C(SQ1), y=3)), ('and', 'sub'),
     True),
    ('contour_donut_resized', swapped(resized(DON, C(SQUARE), 2, 2)),
     ('and', 'sub'), True),
    ('contour_donut_center', swapped(resized(
        DON, C(((-1, -1), (1, -1), (1, 1), (-1, 1))), 4, 4)), ('and', 'sub'),
     True),
    ('contour_ell', swapped(along(P(ELL), C(ARROW), (1, 1), (-4, -4))),
     ('and', 'sub'), True),
    ('contour_two', swapped(along(TWO, C(TRI), (1, 0), (-2, 1))),
     ('and', 'sub'), True),
    ('contour_pair', swapped(shifted(PAIR, C(SQ1), y=1)), ('and', 'sub'),
     True),
    ('contour_island', swapped(resized(
        ISLAND, C(((-1, -1), (1, -1), (1, 1), (-1, 1))), 4, 4)),
     ('and', 'sub'), True),
    ('contour_touch', swapped(shifted(TOUCH, C(TRI2), y=0)), ('and', 'sub'),
     True),
    ('contour_vertex', vertex_on(P(SQUARE), C(((1, 0), (3, 0), (2, 5))),
                                 (2, 5), (-3, 4), (1, 0)), Z, True),
    ('contour_vertex2', swapped(vertex_on(
        P(SQUARE), C(((1, 0), (3, 0), (2, 5))), (2, 5), (-3, 4), (1, 0))),
     ('and', 'sub'), True),
    ('star_triangle', swapped(along(P(TRI), STAR, (1, 1), (-3, -3))),
     ('and', 'sub'), True),
    ('star_square', swapped(shifted(P(SQUARE), STAR, y=0)), ('and', 'sub'),
     True),
    ('star_square_any', swapped(shifted(P(SQUARE), STAR)), Z, False),
    ('grid_ell', swapped(shifted(P(ELL), GRID, y=0)), ('and', 'sub'), True),
    ('grid_donut', swapped(shifted(DON, GRID, y=2)), ('and', 'sub'), True),
    ('chain_donut', swapped(along(DON, CHAIN, (1, 1), (-3, -2))),
     ('and', 'sub'), True),
    ('chain_square', swapped(shifted(P(SQUARE), CHAIN, y=0)),
     ('and', 'sub'), True),
    ('crosses_triangle', swapped(along(P(TRI), CROSSES, (1, 1), (-2, -1))),
     ('and', 'sub'), True),
    ('star_pair', swapped(shifted(PAIR, STAR, y=0)), ('and', 'sub'), True),
    ('grid_island', swapped(shifted(ISLAND, GRID, y=2)), ('and', 'sub'),
     True),
    ('chain_touch', swapped(shifted(TOUCH, CHAIN, y=0)), ('and', 'sub'),
     True),
    # some parts of operands are apart
    ('right_parts', along(
        M(((0, 0), (2, 1)), ((1, 2), (3, 2))),
        MP((RIGHT, ()), (tuple((x + 8, y) for x, y in SQ1), ())),
        (1, 0), (-4, 0)), ('and', 'sub'), True),
    ('far_segments', along(
        M(((0, 0), (1, 1)), ((8, 0), (9, 1)), ((3, 0), (3, 2))),
        P(SQUARE), (1, 0), (-6, 0)), ('and', 'sub'), True),
    ('border_part', along(
        M(((0, 0), (4, 0)), ((4, 0), (4, 4))), P(SQUARE), (1, 1)),
     ('and', 'sub'), True),
]


def _no_sub(name):
    # the first operand is polygonal or a segment
    return name.startswith('segment') or name == 'contour_vertex'


def p15():
    res = []
    for n, m, q, _ in MIXED:
        ops = ('and',) if _no_sub(n) else ('and', 'sub')
        res += operations([(n, m, q)], ops)
        res += operations([(n + '_swapped', swapped(m), Z)], ('and',))
    quick = ('segment_donut_from_swapped', 'contour_ell_swapped',
             'star_pair_swapped', 'contour_island_swapped',
             'grid_donut_swapped', 'segment_pair_from_swapped',
             'right_parts_swapped', 'far_segments_swapped')
    for c in res:
        if c.name.rsplit('_', 1)[0] in quick:
            c.thorough = False
    return res


def p17():
    return relations([(n, m, not r) for n, m, _, r in MIXED])
