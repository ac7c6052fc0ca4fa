"""Properties: which contracts and which bounded families decide them."""

import itertools

from . import (
    basic_spec as bs,
    bool_spec as bo,
    cases,
    gen,
    misc_spec as ms,
    oracle as o,
    tri_spec as ts,
)
from .bounded import Family

LIN = ('S', 'C', 'M')
SHP = ('P', 'MP')
OPS = ('and', 'or', 'sub', 'xor')


def rel_family(name, kas, kbs, count, pair=cases.pair):
    def make(rng):
        return pair(rng, rng.choice(kas), rng.choice(kbs))

    return Family(
        name, make, bo.check_relation, count,
        lambda c: o.relation(*c) != 'DISJOINT',
        'relate_to equals the relation computed by the planar-arrangement'
        ' oracle, its complement the reversed one; operands unchanged',
    )


def op_family(name, kas, kbs, ops, count, pair=cases.pair):
    def make(rng):
        case = pair(rng, rng.choice(kas), rng.choice(kbs))
        if case is None:
            return None
        a, b = case
        op = rng.choice(ops)
        if not supported(a, b, op):
            return None
        return a, b, op

    return Family(
        name, make, bo.check_op, count,
        lambda c: o.relation(*c[:2]) != 'DISJOINT',
        'result of &, |, -, ^ covers exactly the cells demanded by Boolean'
        ' algebra, is a valid geometry; operands unchanged',
    )


def supported(a, b, op):
    la, lb = a[0] in LIN, b[0] in LIN
    if la == lb:
        return True
    if op == 'and':
        return True
    return op == 'sub' and la and a[0] in SUB_SHAPED


SUB_SHAPED = ('C', 'M')


def chain_family(name, kinds, count):
    def make(rng):
        a, b = cases.pair(rng, rng.choice(kinds), rng.choice(kinds))
        c = cases.make(rng, rng.choice(kinds))
        return a, b, c, rng.choice(OPS), rng.choice(OPS)

    return Family(
        name, make, bo.check_chain, count,
        doc='results fed into further operations (two-step histories)',
    )


def single(name, kinds, check, count, touching=None, wrap=False, **kw):
    def make(rng):
        g = cases.make(rng, rng.choice(kinds), touching=touching, **kw)
        (g,) = cases.mapped(rng, g)
        return (g,) if wrap else g

    return Family(name, make, check, count)


def _line(rng, kinds):
    """Geometry with many vertices on one line"""
    for _ in range(20):
        g = cases.on_line(rng, rng.choice(kinds))
        if g is not None:
            return cases.mapped(rng, g)[0]
    return None


def _any_line(rng):
    g = _line(rng, ('C', 'M'))
    if g is None or rng.random() < 0.3:
        return g
    # move an end: a tee, a crossing or an overlap may appear
    es = [list(s) for s in g[1]]
    i, j = rng.sample(range(len(es)), 2)
    if g[0] == 'C':
        es[i], es[j] = es[j], es[i]
    else:
        es[i][rng.randrange(2)] = rng.choice(es[j])
    if any(p == q for p, q in (
        zip(es, es[1:] + es[:1]) if g[0] == 'C' else es
    )):
        return None
    return g[0], tuple(map(tuple, es))


def _twins(kinds):
    """The same geometry, written in several ways"""
    def make(rng):
        g = cases.make(rng, rng.choice(kinds))
        (g,) = cases.mapped(rng, g)
        gs = [g, bs.variant(rng, g), bs.variant(rng, g)]
        if g[0] in 'SC':
            gs.append((g[0], g[1][::-1]))
        rng.shuffle(gs)
        return tuple(gs)

    return make


def families(pid):
    return _FAMILIES[pid]()


def _numbers(n):
    return lambda rng: tuple(
        (ms.number(rng), ms.number(rng)) for _ in range(n)
    )


def _close_points(rng):
    xs = [ms.number(rng) for _ in range(2)]
    ys = [ms.number(rng) for _ in range(2)]
    return tuple((rng.choice(xs), rng.choice(ys)) for _ in range(4))


def _cocircular(rng):
    base = [(5, 0), (4, 3), (3, 4), (0, 5)]
    full = sorted({
        (sx * x, sy * y) for x, y in base for sx in (1, -1) for sy in (1, -1)
    })
    pts = rng.sample(full, 4)
    if rng.random() < 0.6:
        from fractions import Fraction as Q

        i = rng.randrange(4)
        e = Q(rng.choice((-1, 1)), rng.choice((10, 10**9, 10**30)))
        pts[i] = (pts[i][0] + e, pts[i][1])
    return tuple(pts)


def _small_crossing(rng):
    n = rng.choice((2, 4, 9, 10**9))
    return tuple((rng.randint(-n, n), rng.randint(-n, n)) for _ in range(4))


def p01():
    return [
        Family('triangle', ms.near_collinear, ms.check_triangle_orientation,
               6000),
        Family('triangle_any', _numbers(3), ms.check_triangle_orientation,
               3000),
        Family('crossing', _small_crossing, ms.check_crossing, 5000),
        Family('in_circle', _cocircular, ts.check_delaunay, 3000),
        single('contour', ('C',), bs.check_orientation, 4000),
        Family('contour_twins', _twins(('C',)), bs.check_orientations, 1200),
    ]


def p02():
    return [
        Family('points', _close_points, ms.check_points, 8000),
        Family('points_any', _numbers(3), ms.check_points, 3000),
    ]


def p03():
    bx = ms.all_boxes(4)

    def small(rng):
        return rng.choice(bx), rng.choice(bx)

    def any_(rng):
        vals = [ms.exact(ms.number(rng)) for _ in range(3)]
        vals = [int(v) if v.denominator == 1 else v for v in vals]
        return (
            tuple(rng.choice(vals) for _ in range(4)),
            tuple(rng.choice(vals) for _ in range(4)),
        )

    return [
        Family('small', small, ms.check_boxes, 20000),
        Family('any', any_, ms.check_boxes, 8000),
    ]


def p04():
    return [
        Family('near', ms.near_collinear, ms.check_line_location, 10000),
        Family('any', _close_points_n(3), ms.check_line_location, 6000),
        single('probes', ('S',), bs.check_locate, 1500),
    ]


def _close_points_n(n):
    return lambda rng: _close_points(rng)[:n]


def p05():
    return [rel_family('segments', ('S',), ('S',), 16000)]


def p06():
    return [op_family('segments', ('S',), ('S',), OPS, 14000)]


def _eq_make(rng):
    gn = gen.Gen(rng, rng.choice((3, 3, 4, 5)), rng.random() < 0.5)
    k = rng.choice(('E', 'S', 'C', 'M', 'P', 'MP'))
    x = cases.make(rng, k, gn.size)
    y = bs.variant(rng, x)
    z = None
    if rng.random() < 0.8:
        z = bs.perturbed(rng, x, gn)
    if z is None and rng.random() < 0.7:
        z = cases.make(rng, rng.choice(('E', 'S', 'C', 'M', 'P', 'MP')), 3)
    if z is None:
        return (*cases.mapped(rng, x, y), None)
    return cases.mapped(rng, x, y, z)


def p07():
    return [Family('variants', _eq_make, bs.check_eq_hash, 12000)]


def p08():
    return [single('boxes', ('S', 'C', 'M', 'P', 'MP'), bs.check_box, 12000)]


def p09():
    return [
        single('contours', ('C',), bs.check_locate, 1300),
        single('multisegments', ('M',), bs.check_locate, 1300),
        Family('line', lambda rng: _line(rng, ('C', 'M')), bs.check_locate,
               600),
        Family('many', cases.big_lines, bs.check_locate, 100),
    ]


def p10():
    return [
        single('polygons', ('P',), bs.check_locate, 1300),
        single('multipolygons', ('MP',), bs.check_locate, 900),
        Family('line', lambda rng: _line(rng, ('P', 'MP')), bs.check_locate,
               600),
        Family('many', cases.big_polygon, bs.check_locate, 100),
    ]


def p11():
    return [
        single('views', ('S', 'C', 'M', 'P', 'MP'), ms.check_views, 2500,
               wrap=True),
        single('minimal', ('S', 'C', 'M'), ms.check_minimal_counts, 400,
               wrap=True),
        Family('twins', _twins(('S', 'C', 'M', 'P', 'MP')), ms.check_twins,
               500),
    ]


def p12():
    def make(rng):
        k = rng.choice(('E', 'S', 'C', 'M', 'P', 'MP'))
        g = cases.make(rng, k)
        (g,) = cases.mapped(rng, g)
        return g, (rng.randint(-1, 5), rng.randint(-1, 5))

    return [Family('empty', make, ms.check_empty, 6000)]


_BIG = {
    'S': lambda rng: cases.special(rng, 'S'),
    'M': cases.big_lines,
    'C': lambda rng: ('C', cases.star_ring(
        rng, rng.choice((8, 12, 16)), rng.choice((8, 12, 20)),
        rng.choice((1, 3)),
    )),
    'P': cases.big_polygon,
    'MP': lambda rng: cases.cells(rng, rng.choice((3, 4, 5))),
}


def _big_pair(rng, kas, kbs):
    return tuple(_BIG[rng.choice(ks)](rng) for ks in (kas, kbs))


def big_ops(kas, kbs, ops, count):
    def make(rng):
        a, b = _big_pair(rng, kas, kbs)
        op = rng.choice(ops)
        return (a, b, op) if supported(a, b, op) else None

    return Family(
        'many', make, bo.check_op, count,
        doc='operations on geometries of many parts',
    )


def big_relations(kas, kbs, count):
    return Family(
        'many', lambda rng: _big_pair(rng, kas, kbs), bo.check_relation,
        count, doc='relations of geometries of many parts',
    )


def p13():
    return [
        op_family('shaped', SHP, SHP, OPS, 3600),
        op_family('polygons', ('P',), ('P',), OPS, 2400),
        op_family('parts', SHP, SHP, OPS, 1000, cases.outlying_pair),
        op_family('line', SHP, SHP, OPS, 1000, cases.line_pair),
        chain_family('chains', SHP, 700),
        big_ops(SHP, SHP, OPS, 600),
    ]


def p14():
    return [
        op_family('linear', LIN, ('C', 'M'), OPS, 4000),
        op_family('linear2', ('C', 'M'), LIN, OPS, 4000),
        op_family('parts', LIN, LIN, OPS, 1800, cases.outlying_pair),
        op_family('line', LIN, LIN, OPS, 1200, cases.line_pair),
        chain_family('chains', LIN, 900),
        big_ops(LIN, ('C', 'M'), OPS, 800),
    ]


def p15():
    return [
        op_family('linear_shaped', LIN, SHP, ('and', 'sub'), 4000),
        op_family('shaped_linear', SHP, LIN, ('and',), 3000),
        op_family('parts', LIN, SHP, ('and', 'sub'), 1200,
                  cases.outlying_pair),
        op_family('parts2', SHP, LIN, ('and',), 800, cases.outlying_pair),
        op_family('line', LIN, SHP, ('and', 'sub'), 1000, cases.line_pair),
        op_family('line2', SHP, LIN, ('and',), 500, cases.line_pair),
        big_ops(LIN, SHP, ('and', 'sub'), 800),
    ]


def p16():
    return [
        rel_family('linear', LIN, ('C', 'M'), 4500),
        rel_family('linear2', ('C', 'M'), LIN, 4500),
        rel_family('parts', ('M',), ('M',), 2500, cases.outlying_pair),
        rel_family('parts2', LIN, LIN, 1500, cases.outlying_pair),
        rel_family('line', ('S',), ('M', 'M', 'C'), 5000, cases.line_pair),
        rel_family('line2', LIN, LIN, 1500, cases.line_pair),
        big_relations(LIN, ('C', 'M'), 800),
    ]


def p17():
    return [
        rel_family('linear_shaped', LIN, SHP, 3500),
        rel_family('shaped_linear', SHP, LIN, 3500),
        rel_family('parts', LIN, SHP, 1500, cases.outlying_pair),
        rel_family('parts2', SHP, LIN, 1500, cases.outlying_pair),
        rel_family('line', LIN, SHP, 1500, cases.line_pair),
        rel_family('line2', SHP, LIN, 1000, cases.line_pair),
        big_relations(LIN, SHP, 700),
    ]


def p18():
    return [
        rel_family('shaped', SHP, SHP, 6000),
        rel_family('parts', SHP, SHP, 1500, cases.outlying_pair),
        rel_family('line', SHP, SHP, 1500, cases.line_pair),
        big_relations(SHP, SHP, 600),
    ]


def _any_vertices(rng):
    gn = gen.Gen(rng, rng.choice((2, 3, 4, 5)))
    n = rng.choice((3, 3, 4, 4, 5, 6, 7))
    vs = []
    while len(vs) < n:
        p = gn.point()
        if not vs or p != vs[-1]:
            vs.append(p)
    if vs[0] == vs[-1]:
        return None
    return cases.mapped(rng, ('C', tuple(vs)))[0]


def _any_segments(rng):
    gn = gen.Gen(rng, rng.choice((2, 3, 4, 5)))
    n = rng.choice((2, 2, 3, 3, 4, 5, 7))
    return cases.mapped(
        rng, ('M', tuple(gn.segment()[1] for _ in range(n)))
    )[0]


def _many_valid(rng):
    if rng.random() < 0.5:
        g = cases.big_lines(rng)
        if rng.random() < 0.5:
            # shorten or lengthen a segment: a tee or a crossing may appear
            ss = list(g[1])
            i = rng.randrange(len(ss))
            p, q = ss[i]
            ss[i] = (p, cases._along(p, q, rng.choice((2, 3, -1))))
            g = ('M', tuple(ss))
        return g
    vs = list(
        cases.star_ring(rng, rng.choice((8, 12, 16)), 12, rng.choice((1, 3)))
    )
    if rng.random() < 0.5:
        i, j = rng.randrange(len(vs)), rng.randrange(len(vs))
        vs[i], vs[j] = vs[j], vs[i]
    return ('C', tuple(vs))


def p19():
    return [
        Family('contours', _any_vertices, bs.check_valid, 9000),
        Family('multisegments', _any_segments, bs.check_valid, 9000),
        single('valid', ('C', 'M'), bs.check_valid, 5000),
        Family('line', _any_line, bs.check_valid, 3000),
        Family('many', _many_valid, bs.check_valid, 1200),
    ]


def p20():
    return [
        Family('points', cases.point_set, ts.check_delaunay, 6000),
        Family('many', cases.big_points, ts.check_delaunay, 800),
    ]


def _cdt(rng):
    g = cases.make(rng, 'P', touching=rng.random() < 0.4, tees=False)
    if cases.has_tee(g):
        return None
    return cases.mapped(rng, g)[0]


def p21():
    return [
        Family('polygons', _cdt, ts.check_cdt, 4000),
        Family('line', lambda rng: _line(rng, ('P',)), ts.check_cdt, 1500),
        Family('many', cases.big_polygon, ts.check_cdt, 3000),
    ]


def _trap(kinds):
    def make(rng):
        g = cases.make(
            rng, rng.choice(kinds), touching=rng.random() < 0.4, tees=False
        )
        if cases.has_tee(g):
            return None
        return cases.mapped(rng, g)[0], rng.randint(0, 50)

    return make


def _big_trap(rng):
    make = rng.choice((cases.big_lines, cases.big_polygon))
    return make(rng), rng.randint(0, 50)


def _line_trap(rng):
    g = _line(rng, ('M', 'P'))
    return g and (g, rng.randint(0, 50))


def p22():
    return [
        Family('multisegments', _trap('M'), ts.check_trapezoidation, 800),
        Family('polygons', _trap('P'), ts.check_trapezoidation, 800),
        Family('line', _line_trap, ts.check_trapezoidation, 400),
        Family('many', _big_trap, ts.check_trapezoidation, 150),
    ]


_FAMILIES = {f'P{i:02}': globals()[f'p{i:02}'] for i in range(1, 23)}
