"""Oracle-side postconditions for triangulations and trapezoidations."""

from fractions import Fraction as Q

from . import bridge, gen, oracle as o


def incircle(a, b, c, d):
    """> 0 iff d strictly inside the circumcircle of ccw triangle a, b, c"""
    m = []
    for p in (a, b, c):
        dx, dy = p[0] - d[0], p[1] - d[1]
        m.append((dx, dy, dx * dx + dy * dy))
    (a1, a2, a3), (b1, b2, b3), (c1, c2, c3) = m
    return (
        a1 * (b2 * c3 - b3 * c2)
        - a2 * (b1 * c3 - b3 * c1)
        + a3 * (b1 * c2 - b2 * c1)
    )


def hull(points):
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts

    def half(ps):
        r = []
        for p in ps:
            while len(r) >= 2 and o.cross(r[-2], r[-1], p) <= 0:
                r.pop()
            r.append(p)
        return r

    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def canon_ring(vs):
    """rotation/direction independent form of a ring"""
    vs = tuple(vs)
    best = None
    for w in (vs, vs[::-1]):
        i = w.index(min(w))
        c = w[i:] + w[:i]
        if best is None or c < best:
            best = c
    return best


def drop_collinear(vs):
    vs = list(vs)
    n = len(vs)
    return [
        vs[i]
        for i in range(n)
        if o.cross(vs[i - 1], vs[i], vs[(i + 1) % n]) != 0
    ]


def _triangles(t):
    return [
        tuple(bridge.from_point(v) for v in c.vertices) for c in t.triangles
    ]


def _adjacent(tris):
    """map undirected edge -> list of opposite vertices"""
    m = {}
    for a, b, c in tris:
        for p, q, r in ((a, b, c), (b, c, a), (c, a, b)):
            m.setdefault((min(p, q), max(p, q)), []).append(r)
    return m


def check_delaunay(points):
    from rene import exact as e

    t = e.DelaunayTriangulation.from_points([e.Point(*p) for p in points])
    pts = set(points)
    h = hull(points)
    tris = _triangles(t)
    if bool(t) != (len(pts) > 1):
        return f'{len(pts)} points, truth value {bool(t)}'
    if len(h) < 3:
        return 'triangles of collinear points' if tris else None
    for tr in tris:
        if len(tr) != 3 or not set(tr) <= pts:
            return f'bad triangle {tr}'
        if o.cross(*tr) <= 0:
            return f'triangle not counterclockwise {tr}'
        for p in pts:
            if incircle(*tr, p) > 0:
                return f'{p} inside circumcircle of {tr}'
    area = sum(o.cross(*tr) for tr in tris)
    if area != o.signed_area2(h):
        return f'doubled area {area} != hull {o.signed_area2(h)}'
    if {p for tr in tris for p in tr} != pts:
        return 'some point is not a vertex'
    if len(set(canon_ring(tr) for tr in tris)) != len(tris):
        return 'duplicate triangles'
    for ed, opp in _adjacent(tris).items():
        if len(opp) > 2:
            return f'edge {ed} shared by {len(opp)} triangles'
        if len(opp) == 2 and (
            o.sgn(o.cross(*ed, opp[0])) == o.sgn(o.cross(*ed, opp[1]))
        ):
            return f'triangles overlap at {ed}'
    b = tuple(bridge.from_point(v) for v in t.border.vertices)
    if canon_ring(b) != canon_ring(h):
        return f'border {b} != hull {h}'
    return None


def check_cdt(g):
    from rene import exact as e

    t = e.ConstrainedDelaunayTriangulation.from_polygon(bridge.to_rene(g))
    border, holes = g[1]
    rings = [border, *holes]
    pts = {v for r in rings for v in r}
    if not t:
        return 'falsy triangulation'
    tris = _triangles(t)
    es = o.polygon_edges(g[1])
    area = 0
    for tr in tris:
        if len(tr) != 3 or not set(tr) <= pts:
            return f'bad triangle {tr}'
        if o.cross(*tr) <= 0:
            return f'triangle not counterclockwise {tr}'
        area += o.cross(*tr)
        c = (
            (tr[0][0] + tr[1][0] + tr[2][0]) * Q(1, 3),
            (tr[0][1] + tr[1][1] + tr[2][1]) * Q(1, 3),
        )
        if o.locate_in_edges(es, c) != 1:
            return f'triangle {tr} is not inside of the polygon'
    want = abs(o.signed_area2(border)) - sum(
        abs(o.signed_area2(h)) for h in holes
    )
    if area != want:
        return f'doubled area {area} != polygon {want}'
    adj = _adjacent(tris)
    for ed, opp in adj.items():
        if len(opp) > 2:
            return f'edge {ed} shared by {len(opp)} triangles'
        if len(opp) == 2 and (
            o.sgn(o.cross(*ed, opp[0])) == o.sgn(o.cross(*ed, opp[1]))
        ):
            return f'triangles overlap at {ed}'
    cons = {(min(s), max(s)) for s in es}
    # a constraint with vertices of touching rings inside is split by them
    parts = set()
    for p, q in cons:
        on = sorted(v for v in pts if o.on_segment(p, q, v))
        parts |= set(zip(on, on[1:]))
    for ed in parts:
        if len(adj.get(ed, ())) != 1:
            return f'polygon edge {ed} is not a triangle edge'
    for ed, opp in adj.items():
        if len(opp) == 1 and ed not in parts:
            return f'triangulation border edge {ed} is not a polygon edge'
        if len(opp) == 2 and ed not in parts:
            a, b = ed
            if o.cross(a, b, opp[0]) < 0:
                a, b = b, a
            if incircle(a, b, opp[0], opp[1]) > 0:
                return f'edge {ed} is not locally Delaunay'
    b = tuple(bridge.from_point(v) for v in t.border.vertices)
    if canon_ring(drop_collinear(b)) != canon_ring(border):
        return f'border {b}'
    return None


def probe_points(g):
    """vertices, edge midpoints, off-edge points and a covering grid"""
    es = o.edges_of(g)
    pts = {p for s in es for p in s}
    xs = sorted({p[0] for p in pts})
    ys = sorted({p[1] for p in pts})
    res = set(pts)
    for p, q in es:
        res.add(((p[0] + q[0]) * Q(1, 2), (p[1] + q[1]) * Q(1, 2)))
        res.add(((2 * p[0] + q[0]) * Q(1, 3), (2 * p[1] + q[1]) * Q(1, 3)))

    def mids(vs):
        r = [vs[0] - 1, *vs, vs[-1] + 1]
        return r + [(a + b) * Q(1, 2) for a, b in zip(r, r[1:])]

    for x in mids(xs):
        for y in mids(ys):
            res.add((x, y))
    return sorted(res)


LOC = {-1: 'EXTERIOR', 0: 'BOUNDARY', 1: 'INTERIOR'}


def check_trapezoidation(case):
    from rene import exact as e

    g, seed = case
    r = bridge.to_rene(g)
    t = (
        e.Trapezoidation.from_multisegment
        if g[0] == 'M'
        else e.Trapezoidation.from_polygon
    )(r, seeder=lambda: seed)
    if t.height < 1:
        return 'height'
    for p in probe_points(g):
        want = LOC[o.locate(g, p)]
        got = t.locate(e.Point(*p))
        if got.name != want:
            return f'locate({p}) is {got.name}, expected {want}'
        if (e.Point(*p) in t) != (want != 'EXTERIOR'):
            return f'{p} in trapezoidation'
    return None
