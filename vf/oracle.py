"""Exact planar-arrangement oracle, independent of the code under test.

Geometries are plain Python data over integers / ``fractions.Fraction``:

    ('E',)                       empty
    ('S', (p, q))                segment
    ('C', (p0, p1, ...))         contour (closed curve)
    ('M', ((p, q), ...))         multisegment
    ('P', (border, holes))       polygon; border and holes are vertex tuples
    ('MP', ((border, holes), ...))

with points ``(x, y)``.  Nothing here imports rene.
"""

from fractions import Fraction as Q

LINEAR = ('S', 'C', 'M')
SHAPED = ('P', 'MP')


def ring_edges(vs):
    return [(vs[i - 1], vs[i]) for i in range(len(vs))]


def edges_of(g):
    k = g[0]
    if k == 'E':
        return []
    if k == 'S':
        return [g[1]]
    if k == 'C':
        return ring_edges(g[1])
    if k == 'M':
        return list(g[1])
    if k == 'P':
        return polygon_edges(g[1])
    if k == 'MP':
        return [e for p in g[1] for e in polygon_edges(p)]
    raise ValueError(k)


def polygon_edges(p):
    border, holes = p
    res = ring_edges(border)
    for h in holes:
        res += ring_edges(h)
    return res


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sgn(v):
    return (v > 0) - (v < 0)


def on_segment(p, q, r):
    return (
        cross(p, q, r) == 0
        and min(p[0], q[0]) <= r[0] <= max(p[0], q[0])
        and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    )


def signed_area2(vs):
    return sum(
        vs[i - 1][0] * vs[i][1] - vs[i - 1][1] * vs[i][0]
        for i in range(len(vs))
    )


def locate_in_edges(edges, pt):
    """-1 exterior, 0 on an edge, 1 interior by even-odd parity."""
    inside = False
    x, y = pt
    for p, q in edges:
        if on_segment(p, q, pt):
            return 0
        if (p[1] > y) != (q[1] > y):
            # exact abscissa of the edge at height y
            t = cross(p, q, pt)
            if (q[1] > p[1]) == (t > 0):
                inside = not inside
    return 1 if inside else -1


def locate(g, pt):
    k = g[0]
    if k == 'E':
        return -1
    es = edges_of(g)
    if k in LINEAR:
        return 0 if any(on_segment(p, q, pt) for p, q in es) else -1
    return locate_in_edges(es, pt)


def meet(s, t):
    """Intersection of two closed segments: None, ('pt', p) or ('seg', p, q)"""
    (a, b), (c, d) = s, t
    d1x, d1y = b[0] - a[0], b[1] - a[1]
    d2x, d2y = d[0] - c[0], d[1] - c[1]
    den = d1x * d2y - d1y * d2x
    if den != 0:
        num = (c[0] - a[0]) * d2y - (c[1] - a[1]) * d2x
        num2 = (c[0] - a[0]) * d1y - (c[1] - a[1]) * d1x
        if den < 0:
            den, num, num2 = -den, -num, -num2
        if 0 <= num <= den and 0 <= num2 <= den:
            u = (
                Q(num, den)
                if isinstance(num, int) and isinstance(den, int)
                else num / den
            )
            return ('pt', (a[0] + d1x * u, a[1] + d1y * u))
        return None
    if cross(a, b, c) != 0:
        return None
    a, b = min(a, b), max(a, b)
    c, d = min(c, d), max(c, d)
    lo, hi = max(a, c), min(b, d)
    if lo > hi:
        return None
    if lo == hi:
        return ('pt', lo)
    return ('seg', lo, hi)


def is_symbolic(geometries):
    """Are there coordinates other than plain rationals?"""
    return any(
        not isinstance(v, (int, Q))
        for g in geometries
        for e in edges_of(g)
        for p in e
        for v in p
    )


class Arrangement:
    """Common arrangement of several geometries (exact).

    faces: set of tuples  (in_0, in_1, ...)      2-dimensional cells
    edges: list of tuples (mid, on, below, above) 1-dimensional cells; ``on``
           holds how many edges of each geometry run along the cell
    vertices: every end point and pairwise intersection point
    """

    def __new__(cls, geometries):
        geometries = list(geometries)
        if is_symbolic(geometries):
            from .sym_arrangement import SymbolicArrangement

            return SymbolicArrangement(geometries)
        return object.__new__(cls)

    def __init__(self, geometries):
        self.gs = list(geometries)
        n = len(self.gs)
        tagged = [
            (e, i) for i, g in enumerate(self.gs) for e in edges_of(g)
        ]
        shaped = [g[0] in SHAPED for g in self.gs]
        den = 1
        for (p, q), _ in tagged:
            for v in (*p, *q):
                if isinstance(v, Q) and v.denominator != 1:
                    d = v.denominator
                    from math import gcd
                    den = den * d // gcd(den, d)
        self.scale = den

        def conv(p):
            return (int(p[0] * den), int(p[1] * den))

        segs = [(conv(p), conv(q), i) for (p, q), i in tagged]
        m = 1 + max(
            [abs(p[1] - q[1]) for p, q, _ in segs], default=0
        )
        self.m = m
        sh = []
        for p, q, i in segs:
            a, b = (m * p[0] + p[1], p[1]), (m * q[0] + q[1], q[1])
            if a > b:
                a, b = b, a
            sh.append((a, b, i))
        self.segs = sh
        verts = set()
        xs = set()
        for a, b, _ in sh:
            verts.add(a)
            verts.add(b)
        k = len(sh)
        for i in range(k):
            a, b, _ = sh[i]
            for j in range(i + 1, k):
                c, d, _ = sh[j]
                if b[0] < c[0] or d[0] < a[0]:
                    continue
                if max(a[1], b[1]) < min(c[1], d[1]) or max(
                    c[1], d[1]
                ) < min(a[1], b[1]):
                    continue
                r = meet((a, b), (c, d))
                if r is not None and r[0] == 'pt':
                    verts.add((Q(r[1][0]), Q(r[1][1])))
        self._verts = verts
        for v in verts:
            xs.add(v[0])
        xs = sorted(xs)
        self.faces = set()
        self.faces.add((False,) * n)
        self.edges = []
        for xa, xb in zip(xs, xs[1:]):
            xm = Q(xa + xb, 1) / 2
            act = []
            for a, b, i in sh:
                if a[0] <= xa and b[0] >= xb:
                    y = a[1] + Q(b[1] - a[1], 1) * (xm - a[0]) / (b[0] - a[0])
                    act.append((y, i))
            act.sort()
            state = [False] * n
            idx = 0
            while idx < len(act):
                y = act[idx][0]
                on = [0] * n
                while idx < len(act) and act[idx][0] == y:
                    on[act[idx][1]] += 1
                    idx += 1
                below = tuple(state)
                for i in range(n):
                    if shaped[i] and on[i] % 2:
                        state[i] = not state[i]
                above = tuple(state)
                self.edges.append(((xm, y), tuple(on), below, above))
                self.faces.add(above)
            # the region above everything must be outside
            self.closed = True
            if any(state):
                raise ValueError('open boundary')
        self._xs = xs

    def unshear(self, p):
        return (
            (Q(p[0]) - p[1]) / (self.m * self.scale),
            Q(p[1]) / self.scale,
        )

    @property
    def vertices(self):
        return sorted({self.unshear(v) for v in self._verts})


def rays_at(g, p):
    """Directions (primitive up to positive scaling) of g's edges leaving p"""
    res = []
    for a, b in edges_of(g):
        if a == p:
            res.append((b[0] - p[0], b[1] - p[1]))
        elif b == p:
            res.append((a[0] - p[0], a[1] - p[1]))
        elif on_segment(a, b, p):
            res.append((a[0] - p[0], a[1] - p[1]))
            res.append((b[0] - p[0], b[1] - p[1]))
    return res


def _half(d):
    return 0 if (d[1] > 0 or (d[1] == 0 and d[0] > 0)) else 1


def angle_key_sort(dirs):
    from functools import cmp_to_key

    def cmp(u, v):
        hu, hv = _half(u[0]), _half(v[0])
        if hu != hv:
            return hu - hv
        c = u[0][0] * v[0][1] - u[0][1] * v[0][0]
        return -sgn(c)

    return sorted(dirs, key=cmp_to_key(cmp))


def interleaved(ra, rb):
    """Do rays of A separate rays of B around the common point?"""
    if len(ra) < 2 or len(rb) < 2:
        return False
    seq = angle_key_sort([(d, 'a') for d in ra] + [(d, 'b') for d in rb])
    tags = [t for _, t in seq]
    changes = sum(tags[i] != tags[i - 1] for i in range(len(tags)))
    return changes >= 4


def relation(a, b):
    """Name of the relation of a to b as documented on rene.enums.Relation"""
    if a[0] == 'E' or b[0] == 'E':
        return 'EQUAL' if a[0] == b[0] else 'DISJOINT'
    arr = Arrangement([a, b])
    la, lb = a[0] in LINEAR, b[0] in LINEAR
    locs = set()  # (loc_a, loc_b, dim), -1/0/1
    for f in arr.faces:
        locs.add((1 if f[0] else -1, 1 if f[1] else -1, 2))
    for mid, on, below, above in arr.edges:
        pt = []
        for i, lin in ((0, la), (1, lb)):
            if lin:
                pt.append(0 if on[i] else -1)
            elif on[i]:
                pt.append(0)
            else:
                pt.append(1 if below[i] else -1)
        locs.add((*pt, 1))
    vs = arr.vertices
    for v in vs:
        locs.add((locate(a, v), locate(b, v), 0))
    pairs = {(x, y) for x, y, _ in locs}
    a_sub = not any(x >= 0 > y for x, y in pairs)
    b_sub = not any(y >= 0 > x for x, y in pairs)
    if a_sub and b_sub:
        return 'EQUAL'
    common = [(x, y, d) for x, y, d in locs if x >= 0 and y >= 0]
    if not common:
        return 'DISJOINT'
    if a_sub or b_sub:
        if a_sub:
            inn = [(x, y) for x, y in pairs if x >= 0]
        else:
            inn = [(y, x) for x, y in pairs if y >= 0]
        if all(y == 1 for _, y in inn):
            return 'WITHIN' if a_sub else 'COVER'
        if all(x == y for x, y in inn):
            return 'COMPONENT' if a_sub else 'COMPOSITE'
        return 'ENCLOSED' if a_sub else 'ENCLOSES'
    dim = max(d for _, _, d in common)
    if not la and not lb:
        return 'OVERLAP' if dim == 2 else 'TOUCH'
    if la != lb:
        lin = 0 if la else 1
        if any(c[1 - lin] == 1 for c in common):
            return 'CROSS'
        return 'TOUCH'
    if dim == 1:
        return 'OVERLAP'
    for v in vs:
        if locate(a, v) == 0 == locate(b, v):
            if interleaved(rays_at(a, v), rays_at(b, v)):
                return 'CROSS'
    return 'TOUCH'
