"""Quad-edge mesh of triangulations: contracts for meshes of any size.

The mesh is materialised on demand.  An entry that is read for the first time
is chosen among everything known so far or is new; both are explored.  A valid
quad-edge structure is a permutation N ("left from start") of directed edges,
the dual half of ``left_from_start`` being determined by its inverse.
"""

from .. import oracle as o
from ..engine import Skip, Unsupported
from ..tri_spec import incircle
from .common import Contract, point

BASE = 1000


def opp(e):
    return e ^ 2


def rot(e, k=1):
    return e // 4 * 4 + (e + k) % 4


class Lazy:
    def __init__(self, c, fresh_limit=24, distinct=False):
        self.c = c
        self.distinct = distinct
        self.succ, self.pred = {}, {}
        self.groups = 0
        self.vertex = {}
        self.points = {}
        self.vertices = 0
        self.limit = fresh_limit

    # ------------------------------------------------------------- edges
    def fresh(self):
        if self.groups > self.limit:
            raise Unsupported('too many edges are visited')
        e = 4 * self.groups
        self.groups += 1
        return e if self.c.flag() else e + 2

    def known(self):
        return [e for g in range(self.groups) for e in (4 * g, 4 * g + 2)]

    def some(self):
        for e in self.known():
            if self.c.flag():
                return e
        return self.fresh()

    def _ring(self, e):
        res = [e]
        x = e
        while x in self.succ and self.succ[x] != e:
            x = self.succ[x]
            res.append(x)
        if x not in self.succ:
            x = e
            while x in self.pred:
                x = self.pred[x]
                res.append(x)
        return res

    def _id(self, e):
        for x in self._ring(e):
            if x in self.vertex:
                return self.vertex[x]
        return None

    def may_link(self, e, f):
        if e in self.succ or f in self.pred:
            return self.succ.get(e) == f
        i, j = self._id(e), self._id(f)
        return i is None or j is None or i == j

    def link(self, e, f):
        """Precondition: f is to the left of e around their start"""
        if not self.may_link(e, f):
            raise Skip
        self.succ[e], self.pred[f] = f, e

    def next(self, e):
        if e not in self.succ:
            for f in self.known():
                if f not in self.pred and self.may_link(e, f):
                    if self.c.flag():
                        self.link(e, f)
                        return f
            self.link(e, self.fresh())
        return self.succ[e]

    def prev(self, e):
        if e not in self.pred:
            for f in self.known():
                if f not in self.succ and self.may_link(f, e):
                    if self.c.flag():
                        self.link(f, e)
                        return f
            self.link(self.fresh(), e)
        return self.pred[e]

    # ---------------------------------------------------------- vertices
    def start(self, e):
        i = self._id(e)
        if i is None:
            for i in range(self.vertices):
                if self.c.flag():
                    break
            else:
                i = self.vertices
                self.vertices += 1
            self.vertex[e] = i
        return i

    def end(self, e):
        return self.start(opp(e))

    def own_vertex(self, e):
        """Precondition: the start of e is none of the known vertices"""
        if self._id(e) is not None:
            raise Skip
        self.vertex[e] = self.vertices
        self.vertices += 1
        return self.vertex[e]

    def point(self, i):
        if i not in self.points:
            p = point(self.c)
            if self.distinct:
                # vertices are free of repetitions
                for q in self.points.values():
                    self.c.assume(not (p[0] == q[0] and p[1] == q[1]))
            self.points[i] = p
        return self.points[i]

    def triangle(self, e):
        """Precondition: the face to the left of e is a triangle"""
        f = self.left_from_end(e)
        g = self.left_from_end(f)
        if g in (e, f):
            raise Skip
        if self.pred.get(opp(g)) != e:
            self.link(e, opp(g))
        return f, g

    def left_from_end(self, e):
        return self.prev(opp(e))

    def mesh(self):
        from rene._triangulation.mesh import Mesh

        self.edges = Edges(self)
        self.starts = Starts(self)
        return Mesh(Endpoints(self), self.edges, self.starts)


class _Array:
    size = 0

    def __init__(self, lazy):
        self.lazy = lazy
        self.own = {}

    def __len__(self):
        return self.size

    def append(self, v):
        self.own[self.size] = v
        self.size += 1

    def __setitem__(self, i, v):
        if type(i) is not int:
            raise Unsupported('slices')
        self.own[i] = v

    def __getitem__(self, i):
        if type(i) is not int or i < 0:
            raise Unsupported('slices')
        if i in self.own:
            return self.own[i]
        if i >= self.size:
            raise IndexError(i)
        return self.base(i)

    def _no(self, *_):
        raise Unsupported('use of all edges')

    __iter__ = __contains__ = __delitem__ = extend = pop = insert = _no
    __bool__ = _no


class Edges(_Array):
    size = 4 * BASE

    def base(self, i):
        if i % 2 == 0:
            return self.lazy.next(i)
        return rot(self.lazy.prev(rot(i, -1)), -1)


class Starts(_Array):
    size = 2 * BASE

    def base(self, i):
        return self.lazy.start(2 * i)


class Endpoints:
    def __init__(self, lazy):
        self.lazy = lazy

    def __getitem__(self, i):
        from rene.exact import Point

        if type(i) is not int:
            raise Unsupported('slices')
        return Point(*self.lazy.point(i))


class Abstract:
    """The permutation after an operation"""

    def __init__(self, lazy):
        self.lazy = lazy
        self.n, self.p = {}, {}
        self.s = {}

    def next(self, e):
        return self.n[e] if e in self.n else self.lazy.next(e)

    def prev(self, e):
        return self.p[e] if e in self.p else self.lazy.prev(e)

    def set(self, pairs):
        if sorted(self.next(e) for e, _ in pairs) != sorted(
            f for _, f in pairs
        ):
            raise AssertionError('not a permutation')
        for e, f in pairs:
            self.n[e], self.p[f] = f, e

    def splice(self, a, b):
        x, y = self.next(a), self.next(b)
        self.n[a], self.n[b] = y, x
        self.p[y], self.p[x] = a, b

    def create(self, k=0, starts=None):
        e = 4 * (BASE + k)
        for x in (e, e + 2):
            self.n[x] = self.p[x] = x
        return e

    def compare(self):
        lz = self.lazy
        own = lz.edges.own
        touched = {x if x % 2 == 0 else rot(x, -1) for x in own}
        for e in sorted(touched | set(self.n) | set(self.p)):
            if e in own or e in self.n:
                got, want = lz.edges[e], self.next(e)
                if got != want:
                    return f'left of {e} is {got}, expected {want}'
            d = rot(e)
            if d in own or e in self.p:
                got, want = lz.edges[d], rot(self.prev(e), -1)
                if got != want:
                    return f'dual of {e} is {got}, expected {want}'
        for i in sorted(set(lz.starts.own) | set(self.s)):
            got = lz.starts[i]
            want = self.s[i] if i in self.s else lz.starts.base(i)
            if got != want:
                return f'start of {2 * i} is {got}, expected {want}'
        return None


def accessors(c):
    """neighbours of a directed edge"""
    lz = Lazy(c)
    e = lz.fresh()
    m = lz.mesh()
    k = c.real()
    if k < -1:
        got, want = m.to_left_from_start(e), lz.next(e)
    elif k < 0:
        got, want = m.to_right_from_start(e), lz.prev(e)
    elif k < 1:
        got, want = m.to_left_from_end(e), lz.prev(opp(e))
    elif k < 2:
        got, want = m.to_right_from_end(e), lz.next(opp(e))
    elif k < 3:
        got = m.to_start_index(e), m.to_end_index(e)
        want = lz.start(e), lz.end(e)
    elif k < 4:
        got, want = m.is_deleted_edge(e), lz.next(e) == e
    else:
        from .. import bridge

        p, q = lz.point(lz.start(e)), lz.point(lz.end(e))
        got = bridge.from_point(m.to_start(e)), bridge.from_point(m.to_end(e))
        want = p, q
    if got != want:
        return f'{got}, expected {want}'
    return Abstract(lz).compare()


def create_edge(c):
    """a new edge is alone around its ends, nothing else changes"""
    lz = Lazy(c)
    m = lz.mesh()
    a = Abstract(lz)
    e = a.create()
    i, j = lz.start(lz.fresh()), lz.start(lz.fresh())
    a.s[e // 2], a.s[e // 2 + 1] = i, j
    got = m.create_edge(i, j)
    if got != e:
        return f'edge {got}, expected {e}'
    return a.compare()


def splice_edges(c):
    """rings of two edges are joined or split, nothing else changes"""
    lz = Lazy(c)
    x = lz.fresh()
    y = lz.some()
    m = lz.mesh()
    a = Abstract(lz)
    a.splice(x, y)
    m.splice_edges(x, y)
    return a.compare()


def delete_edge(c):
    """the edge leaves both rings, nothing else changes"""
    lz = Lazy(c)
    e = lz.fresh()
    if lz.start(e) == lz.end(e):
        raise Skip
    m = lz.mesh()
    a = Abstract(lz)
    for x in (e, opp(e)):
        if lz.next(x) != x:
            a.set([(lz.prev(x), lz.next(x)), (x, x)])
    m.delete_edge(e)
    return a.compare()


def connect_edges(c):
    """the new edge closes the face to the left of both edges"""
    lz = Lazy(c)
    x = lz.fresh()
    y = lz.some()
    if lz.left_from_end(x) == y:
        raise Skip
    m = lz.mesh()
    a = Abstract(lz)
    e = a.create()
    a.splice(e, lz.left_from_end(x))
    a.splice(opp(e), y)
    a.s[e // 2], a.s[e // 2 + 1] = lz.end(x), lz.start(y)
    got = m.connect_edges(x, y)
    if got != e:
        return f'edge {got}, expected {e}'
    if m.to_left_from_end(x) != e or m.to_left_from_end(e) != y:
        return 'the face is not x, new, y'
    return a.compare()


def _quadrilateral(c):
    """An edge between two triangles"""
    lz = Lazy(c)
    e = lz.fresh()
    f, g = lz.triangle(e)
    h, k = lz.triangle(opp(e))
    if len({x // 4 for x in (e, f, g, h, k)}) != 5:
        raise Skip
    for x in (e, opp(e), g, k):
        lz.own_vertex(x)
    return lz, e, f, g, h, k


def swap_diagonal(c):
    """the other diagonal of the same quadrilateral, nothing else changes"""
    lz, e, f, g, h, k = _quadrilateral(c)
    m = lz.mesh()
    a = Abstract(lz)
    a.set([
        (h, opp(g)), (f, opp(k)), (k, e), (e, opp(h)), (g, opp(e)),
        (opp(e), opp(f)),
    ])
    a.s[e // 2], a.s[opp(e) // 2] = lz.start(k), lz.start(g)
    m.swap_diagonal(e)
    bad = a.compare()
    if bad:
        return bad
    for x, y, z in ((e, g, h), (opp(e), k, f)):
        if (
            m.to_left_from_end(x) != y or m.to_left_from_end(y) != z
            or m.to_left_from_end(z) != x
        ):
            return 'faces are not triangles'
    return None


def _orienteer():
    from rene.exact import Segment

    return Segment._context.orient


def _corners(lz, e, g, k):
    return [lz.point(lz.start(x)) for x in (e, k, opp(e), g)]


def convex(c):
    """true iff both triangles form a strictly convex quadrilateral"""
    from rene._triangulation import constrained_delaunay as cd

    lz, e, f, g, h, k = _quadrilateral(c)
    q = _corners(lz, e, g, k)
    got = cd.is_convex_quadrilateral_diagonal(lz.mesh(), e, _orienteer())
    want = all(o.cross(q[i - 2], q[i - 1], q[i]) > 0 for i in range(4))
    if got is not want:
        return f'{got} for {q}'
    return Abstract(lz).compare()


def should_swap(c):
    """true iff the other diagonal is possible and demanded by Delaunay"""
    from rene._triangulation import constrained_delaunay as cd

    lz, e, f, g, h, k = _quadrilateral(c)
    q = _corners(lz, e, g, k)
    a, r, b, x = q
    # both triangles are counterclockwise
    c.assume(o.cross(a, b, x) > 0 and o.cross(b, a, r) > 0)
    got = cd.edge_should_be_swapped(lz.mesh(), e, _orienteer())
    want = (
        all(o.cross(q[i - 2], q[i - 1], q[i]) > 0 for i in range(4))
        and incircle(a, b, x, r) > 0
    )
    if got is not want:
        return f'{got} for {q}'
    return Abstract(lz).compare()


def incidents(c):
    """the other edges of the triangle at a mouth, inner sides to the left"""
    from rene._triangulation import constrained_delaunay as cd

    lz = Lazy(c)
    e = lz.fresh()
    f, g = lz.triangle(e)
    if len({x // 4 for x in (e, f, g)}) != 3:
        raise Skip
    for x in (e, f, g):
        lz.own_vertex(x)
    c.assume(
        o.cross(*(lz.point(lz.start(x)) for x in (e, f, g))) > 0
    )
    got = cd.mouth_edge_to_incidents(lz.mesh(), e, _orienteer())
    if tuple(got) != (opp(g), opp(f)) and tuple(got) != (opp(f), opp(g)):
        return f'{got}, expected {opp(g)} and {opp(f)}'
    return Abstract(lz).compare()


def triangle(c):
    """faces of a triangulation of three sorted points in any mesh"""
    from rene._triangulation import mesh as ms

    lz = Lazy(c)
    ids = []
    for _ in range(3):
        ids.append(lz.vertices)
        lz.vertices += 1
    p = [lz.point(i) for i in ids]
    c.assume(p[0] < p[1] and p[1] < p[2])
    m = lz.mesh()
    left, right = ms.create_triangle(m, *ids, _orienteer())
    s = o.sgn(o.cross(*p))
    own = lz.edges.own
    if any(i < 4 * BASE for i in own) or any(
        i < 2 * BASE for i in lz.starts.own
    ):
        return 'other edges are changed'
    if (m.to_start_index(left), m.to_start_index(right)) != (ids[0], ids[2]):
        return 'sides do not start at the leftmost and the rightmost points'
    # border with the inner side to the left
    want = {
        1: [(0, 1), (1, 2), (2, 0)], -1: [(0, 2), (2, 1), (1, 0)],
        0: [(0, 1), (1, 2), (2, 1), (1, 0)],
    }[s]
    got = set()
    edges = [i for i in own if i % 2 == 0]
    if len(edges) != (4 if s == 0 else 6):
        return f'{len(edges)} directed edges'
    for x in edges:
        i, j = m.to_start_index(x), m.to_end_index(x)
        got.add((ids.index(i), ids.index(j)))
        n = m.to_left_from_end(x)
        if m.to_start_index(n) != j:
            return 'faces are broken'
        if m.to_right_from_start(m.to_left_from_start(x)) != x:
            return 'not a quad-edge structure'
        if (ids.index(i), ids.index(j)) in want:
            k = want.index((ids.index(i), ids.index(j)))
            if ids.index(m.to_end_index(n)) != want[(k + 1) % len(want)][1]:
                return 'face is not the triangle'
    if not {*want, *((j, i) for i, j in want)} <= got:
        return f'edges {sorted(got)}'
    def key(x):
        return ids.index(m.to_start_index(x)), ids.index(m.to_end_index(x))

    # counterclockwise border starts at the left side, clockwise one ends at
    # the right side
    wl, wr = {
        1: ((0, 1), (2, 1)), -1: ((0, 2), (2, 0)), 0: ((0, 1), (2, 1)),
    }[s]
    if key(left) != wl or key(right) != wr:
        return f'sides {key(left)}, {key(right)}, expected {wl}, {wr}'
    return None


def base_cases(c):
    """2 s + 3 t = n for any n >= 2"""
    from rene._triangulation import mesh as ms

    q = c.real()
    r = 0 if c.flag() else 1 if c.flag() else 2
    c.assume(q >= (1 if r < 2 else 0))

    class N:
        def __ge__(self, k):
            return 3 * q + r >= k

        def __divmod__(self, k):
            if k != 3:
                raise Unsupported('another divisor')
            return q, r

        def __floordiv__(self, k):
            return self.__divmod__(k)[0]

        def __mod__(self, k):
            return self.__divmod__(k)[1]

    s, t = ms.to_base_cases(N())
    if not (s >= 0 and t >= 0 and 2 * s + 3 * t == 3 * q + r):
        return f'{s} segments, {t} triangles'
    return None


def _index(c, n):
    i = c.real()
    c.assume(i >= 0 and i <= n - 1)
    return i


def edge_indices(c):
    """indices of neighbours in a ring of any size"""
    from rene._triangulation import constrained_delaunay as cd

    n = c.real()
    c.assume(n >= 3)
    i, j = _index(c, n), _index(c, n)
    c.assume(not (i == j))
    got = cd.are_polygon_edge_indices(i, j, n)
    want = bool(
        i == j + 1 or j == i + 1 or (i == 0 and j == n - 1)
        or (j == 0 and i == n - 1)
    )
    return None if bool(got) is want else f'{i}, {j} of {n}: {got}'


def _ring_edge(c, n):
    i = _index(c, n)
    j = 0 if i == n - 1 else i + 1
    c.assume(j <= n - 1)
    return (i, j) if c.flag() else (j, i)


def constraint_index(c):
    """edges of a ring of any size have different indices in its range"""
    from rene._triangulation import constrained_delaunay as cd

    n = c.real()
    c.assume(n >= 3)
    a, b = _ring_edge(c, n), _ring_edge(c, n)
    x, y = cd.to_constraint_index(*a), cd.to_constraint_index(*b)
    if not (x >= 0 and x <= n - 1):
        return f'{x} is out of range'
    same = bool(
        a[0] == b[0] and a[1] == b[1] or a[0] == b[1] and a[1] == b[0]
    )
    if bool(x == y) is not same:
        return f'indices of {a} and {b} are {x} and {y}'
    return None


def _cone(p, v, n, d):
    """Is d seen from v inside of a clockwise ring with p, v, n?"""
    a, b = o.cross(p, v, d) < 0, o.cross(v, n, d) < 0
    return (a and b) if o.cross(p, v, n) < 0 else (a or b)


def _on_ray(v, w, d):
    return o.cross(v, w, d) == 0 and (
        (w[0] - v[0]) * (d[0] - v[0]) + (w[1] - v[1]) * (d[1] - v[1]) > 0
    )


def hole_diagonal(c):
    """a diagonal of a hole is inside iff it is seen so from its ends"""
    from rene._triangulation import constrained_delaunay as cd
    from rene._triangulation.vertices import PolygonVertexPosition as Pos
    from rene.exact import Point

    s, e = (0, 0), (1, 0)
    ps, ns, pe, ne = (point(c) for _ in range(4))
    for p, v, n, d in ((ps, s, ns, e), (pe, e, ne, s)):
        c.assume(not (o.cross(p, v, n) == 0))
        c.assume(not _on_ray(v, p, d) and not _on_ray(v, n, d))
    want = _cone(ps, s, ns, e)
    # the diagonal crosses no edge of the hole
    c.assume(want is _cone(pe, e, ne, s))
    ring = [Point(*v) for v in (ps, s, ns, pe, e, ne)]
    got = cd.is_segment_inside_hole(
        ring[1], ring[4], Pos(1, 1), Pos(1, 4), [(), ring], _orienteer(),
    )
    return None if got is want else f'{got}, expected {want}'


def reported(module, name):
    """triangles: faces given once by their counterclockwise vertices"""

    def body(c):
        import importlib

        from .. import bridge

        mod = importlib.import_module(f'rene._triangulation.{module}')
        cls = getattr(mod, name)
        lz = Lazy(c, distinct=True)
        e = lz.fresh()
        three = c.flag()
        if three:
            f, g = lz.triangle(e)
            if len({x // 4 for x in (e, f, g)}) != 3:
                raise Skip
            for x in (e, f, g):
                lz.own_vertex(x)
            vs = [lz.point(lz.start(x)) for x in (e, f, g)]
            if not o.cross(*vs):
                raise Skip
        else:
            # a face with more vertices
            f = lz.left_from_end(e)
            g = lz.left_from_end(f)
            if len({x // 4 for x in (e, f, g)}) != 3:
                raise Skip
            z = opp(lz.next(e))
            if z in (e, f, g):
                raise Skip
            for x in (e, f, g, z):
                lz.own_vertex(x)
            vs = []
        m = lz.mesh()

        class One(type(m)):
            __slots__ = ()

            def to_edges(self):
                return [e]

        one = One(m.endpoints, m.left_from_start, m.starts_indices)
        t = object.__new__(cls)
        values = {
            '_mesh': one, '_orienteer': _orienteer(),
            '_triangular_holes_indices': (), '_left_side': 0,
            '_right_side': 0, '_polygon_vertices_positions': (),
        }
        for slot in cls.__slots__:
            setattr(t, slot, values[slot])
        got = [
            tuple(bridge.from_point(v) for v in tr)
            for tr in t.triangles_vertices()
        ]
        want = []
        if three and o.cross(*vs) > 0 and vs[0] < vs[1] and vs[0] < vs[2]:
            want = [tuple(vs)]
        if got != want:
            return f'{got}, expected {want}'
        return Abstract(lz).compare()

    body.__doc__ = f'{name}.triangles_vertices for one edge of any mesh'
    return body


M = 'rene._triangulation.mesh.'
K = 'rene._triangulation.constrained_delaunay.'


class _Sides(tuple):
    """Sides of the triangulation of the points low, ..., high - 1"""

    def __new__(cls, low, high):
        self = super().__new__(cls, (('left', low, high), ('right', low, high)))
        self.low, self.high = low, high
        return self


def _of(sides):
    """Numbers of points of a triangulation known by its sides"""
    left, right = sides
    if (left[0], right[0]) != ('left', 'right') or left[1:] != right[1:]:
        raise Unsupported('sides of different triangulations')
    return left[1:]


def driver(count):
    """build_delaunay_triangulation covers the points in order: neighbouring
    parts are merged until all points are in one"""

    def body(c):
        from rene._triangulation import mesh as mod

        asked = object()

        class Mesh:
            def __init__(self, n):
                self.endpoints = [None] * n

            def create_edge(self, a, b):
                if not 0 <= a < b < len(self.endpoints) or b != a + 1:
                    raise Unsupported('edge of other points')
                return ('left', a, b + 1)

            def __bool__(self):
                raise Unsupported('truth of a mesh')

        def opposite(edge):
            kind, low, high = edge
            if kind != 'left' or high - low != 2:
                raise Unsupported('opposite of another edge')
            return ('right', low, high)

        def triangle(mesh, a, b, d, orienteer):
            if (b, d) != (a + 1, a + 2) or orienteer is not asked:
                raise Unsupported('triangle of other points')
            if not 0 <= a <= len(mesh.endpoints) - 3:
                raise Unsupported('triangle of other points')
            return _Sides(a, d + 1)

        def merge(mesh, first, second, orienteer):
            (a, b), (d, e) = _of(first), _of(second)
            if b != d or orienteer is not asked:
                raise Unsupported('merge of other parts')
            return _Sides(a, e)

        names = {
            'to_opposite_edge': opposite, 'create_triangle': triangle,
            'merge': merge,
        }
        old = {k: getattr(mod, k) for k in names}
        n = None
        try:
            for k, v in names.items():
                setattr(mod, k, v)
            for n in range(2, count):
                got = mod.build_delaunay_triangulation(Mesh(n), asked)
                if _of(got) != (0, n):
                    raise Unsupported('not all points')
        except (Unsupported, IndexError, ValueError, AssertionError) as e:
            for k, v in old.items():
                setattr(mod, k, v)
            found = _few_points(n)
            if found is None:
                raise Unsupported(f'{e} ({n} points)') from e
            return found
        finally:
            for k, v in old.items():
                setattr(mod, k, v)
        return None

    body.__doc__ = driver.__doc__
    return body


def _few_points(n):
    """Points whose triangulation is wrong"""
    from ..engine import Refuted
    from ..tri_spec import check_delaunay

    for m in (*range(2, 30), n):
        if m > 60:
            break
        points = tuple((7 * i % 31 + 31 * (i // 31), i * i % 53)
                       for i in range(m))
        try:
            bad = check_delaunay(points)
        except Exception as e:  # noqa: BLE001
            bad = f'{type(e).__name__}: {e}'
        if bad:
            return Refuted(bad, repr(points))
    return None


def _c(name, target, body, **kw):
    return Contract(name, [target], body, public=False,
                    doc=(body.__doc__ or '').split('\n')[0], **kw)


def common():
    return [
        _c('mesh_neighbours', M + 'Mesh.to_left_from_end', accessors),
        _c('mesh_create_edge', M + 'Mesh.create_edge', create_edge),
        _c('mesh_splice_edges', M + 'Mesh.splice_edges', splice_edges),
        _c('mesh_delete_edge', M + 'Mesh.delete_edge', delete_edge),
        _c('mesh_connect_edges', M + 'Mesh.connect_edges', connect_edges),
        _c('mesh_triangle', M + 'create_triangle', triangle),
        _c('mesh_base_cases', M + 'to_base_cases', base_cases),
        _c('mesh_parts', M + 'build_delaunay_triangulation', driver(400),
           kind='shape'),
    ]


def p20():
    return common() + [
        _c('mesh_triangles',
           'rene._triangulation.delaunay.DelaunayTriangulation'
           '.triangles_vertices',
           reported('delaunay', 'DelaunayTriangulation')),
    ]


def p21():
    return common() + [
        _c('mesh_swap_diagonal', M + 'Mesh.swap_diagonal', swap_diagonal),
        _c('mesh_convex', K + 'is_convex_quadrilateral_diagonal', convex),
        _c('mesh_should_swap', K + 'edge_should_be_swapped', should_swap),
        _c('mesh_incidents', K + 'mouth_edge_to_incidents', incidents),
        _c('mesh_edge_indices', K + 'are_polygon_edge_indices', edge_indices),
        _c('mesh_constraint_index', K + 'to_constraint_index',
           constraint_index),
        _c('mesh_hole_diagonal', K + 'is_segment_inside_hole', hole_diagonal),
        _c('mesh_triangles',
           K + 'ConstrainedDelaunayTriangulation.triangles_vertices',
           reported('constrained_delaunay',
                    'ConstrainedDelaunayTriangulation')),
    ]
