"""Triangulations and trapezoidations of points known by their order type.

Points know their place in the lexicographic order only.  The sign of an
orientation or of an incircle determinant is chosen when it is first asked for
and both outcomes are run, as far as the signs agree with each other: signs of
determinants satisfy the three-term Grassmann-Plucker relations (with the
vertical direction as one more point for the order, and for incircle with the
points lifted to a paraboloid).  Everything else about points is refused, so
that a run covers all coordinates of that order type, and running all order
types covers all coordinates of that many points.

A case that fails is looked for among real points; it is reported only with
the points found, which are put to the public functions.
"""

import itertools
import random
import sys

from .. import bounded, engine, gen, oracle as o, tri_spec
from ..engine import Refuted, Skip, Unsupported
from .common import Contract

_DONE = {}


class Dead(Exception):
    """Signs that agree with no points"""


class Endless(Exception):
    """The code keeps asking for orientations"""


LIMIT = 5000  # some hundred times the number for these sizes


class Ranked:
    """A point known by its place in the order"""

    __slots__ = ('rank',)

    def __init__(self, *args):
        if len(args) == 2 and isinstance(args[0], Far):
            self.rank = args[0].side * 1000  # corner of a box around points
        else:
            (self.rank,) = args

    def _other(self, other):
        if not isinstance(other, Ranked):
            raise Unsupported('comparison with something that is not known')
        a, b = self.rank, other.rank
        if a == b and abs(a) == 1000 and self is not other:
            raise Unsupported('comparison of unknown points')
        return b

    def __eq__(self, other):
        return self.rank == self._other(other)

    def __ne__(self, other):
        return self.rank != self._other(other)

    def __lt__(self, other):
        return self.rank < self._other(other)

    def __le__(self, other):
        return self.rank <= self._other(other)

    def __gt__(self, other):
        return self.rank > self._other(other)

    def __ge__(self, other):
        return self.rank >= self._other(other)

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        return f'p{self.rank}'

    def __getattr__(self, name):
        raise Unsupported(f'{name} of a point')


class Far:
    """A side of a box around the points, moved away or not"""

    def __init__(self, side, moved=False):
        self.side = side
        self.moved = moved

    def __sub__(self, other):
        if isinstance(other, Far):
            return Size(self.side - other.side)
        return self._moved(other, -1)

    def __add__(self, other):
        return self._moved(other, 1)

    def _moved(self, other, sign):
        if not isinstance(other, Size) and not (
            type(other) is int and other > 0
        ):
            raise Unsupported('arithmetic on coordinates')
        if sign != self.side:
            raise Unsupported('a box inside of the box')
        return Far(self.side, True)

    def __getattr__(self, name):
        raise Unsupported(f'{name} of a coordinate')


class Size:
    def __init__(self, sign):
        if sign <= 0:
            raise Unsupported('a negative size')

    def __bool__(self):
        return True


class FakeBox:
    min_x = min_y = Far(-1)
    max_x = max_y = Far(1)


class Fake:
    """A geometry made of ranked points"""

    bounding_box = FakeBox

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        raise Unsupported(f'{name} of a geometry')


def _sort_sign(t):
    """Sorted distinct items and the parity of the sorting, or 0"""
    t = list(t)
    s = 1
    for i in range(len(t)):
        for j in range(len(t) - 1 - i):
            if t[j] == t[j + 1]:
                return None, 0
            if t[j] > t[j + 1]:
                t[j], t[j + 1] = t[j + 1], t[j]
                s = -s
    if any(a == b for a, b in zip(t, t[1:])):
        return None, 0
    return tuple(t), s


_SORTED = {}


def sort_sign(t):
    r = _SORTED.get(t)
    if r is None:
        r = _SORTED[t] = _sort_sign(t)
    return r


_PLANS = {}


def _relations(n, key, rank):
    """Three-term relations with the determinant ``key``

    as triples of (sign, determinant, determinant)
    """
    r = _PLANS.get((n, key, rank))
    if r is not None:
        return r
    res = []
    others = [i for i in range(n + 1) if i not in key]
    seen = set()
    for pair in itertools.combinations(others, 2):
        items = sorted((*key, *pair))
        for common in itertools.combinations(items, rank - 2):
            c, d, e, f = (i for i in items if i not in common)
            tag = (common, (c, d, e, f))
            if tag in seen:
                continue
            seen.add(tag)
            terms = []
            for sign, (p, q), (x, y) in (
                (1, (c, d), (e, f)), (-1, (c, e), (d, f)),
                (1, (c, f), (d, e)),
            ):
                k1, s1 = sort_sign((*common, p, q))
                k2, s2 = sort_sign((*common, x, y))
                terms.append((sign * s1 * s2, k1, k2))
            if any(key in (k1, k2) for _, k1, k2 in terms):
                res.append(tuple(terms))
    r = _PLANS[n, key, rank] = tuple(res)
    return r


class World:
    """Signs of the determinants of ``n`` points, chosen on demand"""

    limit = LIMIT

    def __init__(self, n, path):
        self.n = n
        self.path = path  # list of [options, index]
        self.k = 0
        self.asked = 0
        self.three = {}
        self.four = {}
        for i, j in itertools.combinations(range(n), 2):
            self.three[i, j, n] = 1  # n: the vertical direction

    def _choose(self, options):
        if self.k == len(self.path):
            opts = options()
            if not opts:
                raise Dead
            self.path.append([opts, 0])
        opts, i = self.path[self.k]
        self.k += 1
        return opts[i]

    # ------------------------------------------------------- orientations
    def orient(self, i, j, k):
        self.asked += 1
        if self.asked > self.limit:
            raise Endless(f'{self.limit} orientations')
        key, sign = sort_sign((i, j, k))
        if not sign:
            return 0
        return sign * self._three(key)

    def _three(self, key):
        v = self.three.get(key)
        if v is None:
            v = self.three[key] = self._choose(
                lambda: self._options_three(key)
            )
        return v

    @staticmethod
    def _allowed(table, relations, key, signs):
        """Signs for ``key`` with which all known relations hold"""
        get = table.get
        for terms in relations:
            # signs of the sum of the other terms and the factor of the key
            pos = neg = False
            factor = None
            for sign, k1, k2 in terms:
                if k1 == key:
                    b = get(k2)
                    if b is None:
                        break
                    factor = sign * b
                elif k2 == key:
                    a = get(k1)
                    if a is None:
                        break
                    factor = sign * a
                else:
                    a = get(k1)
                    if a == 0:
                        continue
                    b = get(k2)
                    if b == 0:
                        continue
                    if a is None or b is None:
                        break
                    if sign * a * b > 0:
                        pos = True
                    else:
                        neg = True
            else:
                if not factor:
                    if pos != neg:
                        return ()
                elif pos != neg:
                    want = -factor if pos else factor
                    if want not in signs:
                        return ()
                    signs = (want,)
                elif not pos:
                    if 0 not in signs:
                        return ()
                    signs = (0,)
        return signs

    def _options_three(self, key):
        n = self.n
        signs = self._allowed(
            self.three, _relations(n, key, 3), key, (1, -1, 0)
        )
        if self.four and signs:
            # the lifted points with the direction upwards
            up = (*key, n)
            signs = self._allowed(
                _Lifted(self), _relations(n, up, 4), up, signs
            )
            near = [
                (q, v) for q, v in self.four.items() if set(key) <= set(q)
            ]
            if near:
                res = []
                for s in signs:
                    self.three[key] = s
                    if all(self._forced(q) in (None, v) for q, v in near):
                        res.append(s)
                    del self.three[key]
                signs = tuple(res)
        return signs

    # ----------------------------------------------------------- circles
    def _forced(self, q):
        """Sign of the lifted points, if their orientations decide it"""
        t = {}
        for k in itertools.combinations(q, 3):
            t[k] = self.three.get(k)
            if t[k] is None:
                return None
        if not any(t.values()):
            return 0
        for x in q:
            a, b, c = (i for i in q if i != x)
            s = t[a, b, c]
            if s:
                inside = True
                for u, v in ((a, b), (b, c), (c, a)):
                    k, p = sort_sign((u, v, x))
                    if p * t[k] not in (s, 0):
                        inside = False
                        break
                if inside:
                    # below the plane of a, b, c
                    k, p = sort_sign((a, b, c, x))
                    return -s * p
        return None

    def lifted(self, a, b, c, d):
        """Sign of the determinant of the points on the paraboloid"""
        key, sign = sort_sign((a, b, c, d))
        if not sign:
            return 0
        v = self.four.get(key)
        if v is None:
            for k in itertools.combinations(key, 3):
                self._three(k)
            v = self.four[key] = self._choose(
                lambda: self._options_four(key)
            )
        return sign * v

    def _options_four(self, key):
        v = self._forced(key)
        return self._allowed(
            _Lifted(self), _relations(self.n, key, 4), key,
            (1, -1, 0) if v is None else (v,),
        )

    def incircle(self, d, a, b, c):
        """> 0 iff d inside the circle of a, b, c in this order"""
        return -self.lifted(a, b, c, d)

    # ------------------------------------------------------- for the code
    def orienteer(self, a, b, p, /):
        from rene.enums import Orientation

        return (
            Orientation.COLLINEAR, Orientation.COUNTERCLOCKWISE,
            Orientation.CLOCKWISE,
        )[self.orient(*map(self._at, (a, b, p)))]

    def circle(self, p, a, b, c, /):
        from rene.enums import Location

        return (Location.BOUNDARY, Location.INTERIOR, Location.EXTERIOR)[
            self.incircle(*map(self._at, (p, a, b, c)))
        ]

    def _at(self, p):
        if not isinstance(p, Ranked) or not 0 <= p.rank < self.n:
            raise Unsupported('a point that is not known')
        return p.rank

    # ---------------------------------------------------------- geometry
    def on_edge(self, p, a, b):
        return min(a, b) <= p <= max(a, b) and self.orient(a, b, p) == 0

    def apart(self, a, b, c, d):
        """The segments do not meet but at common ends"""
        if {a, b} & {c, d}:
            if {a, b} == {c, d}:
                return False
            s = ({a, b} & {c, d}).pop()
            p, q = a + b - s, c + d - s
            return not (self.on_edge(p, s, q) or self.on_edge(q, s, p))
        if max(a, b) < min(c, d) or max(c, d) < min(a, b):
            return True
        x, y = self.orient(a, b, c), self.orient(a, b, d)
        if x * y > 0:
            return True
        z, w = self.orient(c, d, a), self.orient(c, d, b)
        if z * w > 0:
            return True
        if x == y == 0:
            return False  # ranges overlap on one line
        return False

    def location(self, edges, p):
        """1 inside, 0 on an edge, -1 outside of closed chains"""
        odd = False
        for a, b in edges:
            if p in (a, b) or self.on_edge(p, a, b):
                return 0
            if a > b:
                a, b = b, a
            # the line through p upwards in the order of points
            if a < p < b and self.orient(a, b, p) < 0:
                odd = not odd
        return 1 if odd else -1

    def ring(self, vs):
        """1 if counterclockwise, -1 if clockwise, None if not a ring"""
        n = len(vs)
        for i in range(n):
            if self.orient(vs[i - 1], vs[i], vs[(i + 1) % n]) == 0:
                return None
        es = ring_edges(vs)
        for i, j in itertools.combinations(range(n), 2):
            if not self.apart(*es[i], *es[j]):
                return None
        i = vs.index(min(vs))
        return self.orient(vs[i - 1], vs[i], vs[(i + 1) % n])

    def completed(self):
        """Other signs chosen, if there are some"""
        return _complete(self.n, dict(self.three), dict(self.four))

    # -------------------------------------------------------------- real
    def points(self, rng, tries=60, steps=4000):
        """Points with the known signs, if some are found"""
        n = self.n
        order = list(range(n))
        for t in range(tries):
            m = rng.choice((2, 3, 3, 4, 5, 7, 10, 16))
            left = [steps]
            pts = []

            def go(i):
                if i == n:
                    return True
                lo = pts[-1] if pts else (-1, 0)
                cand = [
                    (x, y) for x in range(m) for y in range(m)
                    if (x, y) > lo
                ]
                rng.shuffle(cand)
                # leave room for the points that follow
                for p in cand[:12]:
                    left[0] -= 1
                    if left[0] < 0:
                        return False
                    if self._suits(pts, p):
                        pts.append(p)
                        if go(i + 1):
                            return True
                        pts.pop()
                return False

            if go(0):
                return dict(zip(order, pts))
        return None

    def _suits(self, pts, p):
        i = len(pts)
        for a, b in itertools.combinations(range(i), 2):
            s = self.three.get((a, b, i))
            if s is not None and s != o.sgn(o.cross(pts[a], pts[b], p)):
                return False
        for a, b, c in itertools.combinations(range(i), 3):
            s = self.four.get((a, b, c, i))
            if s is not None and s != -o.sgn(
                tri_spec.incircle(pts[a], pts[b], pts[c], p)
            ):
                return False
        return True


class _Lifted:
    """Signs of lifted points and of the direction upwards"""

    __slots__ = ('n', 'three', 'four')

    def __init__(self, world):
        self.n = world.n
        self.three = world.three
        self.four = world.four

    def get(self, key):
        if key[-1] == self.n:
            return self.three.get(key[:3])
        return self.four.get(key)


def _complete(n, three, four):
    """A choice of all signs that agree with the given ones"""
    path = []
    for _ in range(20000):
        w = World(n, path)
        w.three = dict(three)
        w.four = dict(four)
        try:
            for k in itertools.combinations(range(n), 3):
                w._three(k)
            if four:
                for k in itertools.combinations(range(n), 4):
                    w.lifted(*k)
            return w
        except Dead:
            pass
        del path[w.k:]
        while path and path[-1][1] == len(path[-1][0]) - 1:
            path.pop()
        if not path:
            return None
        path[-1][1] += 1
    return w


def ring_edges(vs):
    return [(vs[i - 1], vs[i]) for i in range(len(vs))]


class circles:
    """Let the library ask the world of the moment for circles"""

    world = None

    def __enter__(self):
        from rene import _utils

        real = _utils.locate_point_in_point_point_point_circle

        def asked(*args):
            return circles.world.circle(*args)

        self.saved = []
        for name, mod in list(sys.modules.items()):
            if name == 'rene' or name.startswith('rene.'):
                for k, v in list(vars(mod).items()):
                    if v is real:
                        self.saved.append((mod, k, v))
                        setattr(mod, k, asked)

    def __exit__(self, *exc):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


class Count:
    def __init__(self):
        self.cases = 0  # signs that points may have
        self.dead = self.skipped = 0


def prefixes(n, run, depth):
    """First choices of all cases"""
    path = []
    while True:
        w = circles.world = World(n, path)
        try:
            run(w)
        except Unsupported:
            raise
        except Exception:  # noqa: BLE001
            pass
        except Skip:
            pass
        del path[min(w.k, depth):]
        yield [list(x) for x in path]
        while path and path[-1][1] == len(path[-1][0]) - 1:
            path.pop()
        if not path:
            return
        path[-1][1] += 1


def explore(n, run, count=None, prefix=()):
    """(world, text or None) of every case of ``run(world)``"""
    path = [list(x) for x in prefix]
    fixed = len(path)
    while True:
        w = circles.world = World(n, path)
        try:
            text = run(w)
        except Dead:
            text = Dead
        except Skip:
            if count:
                count.skipped += 1
            text = Skip
        except Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            text = e
        if text is not None and text is not Dead and text is not Skip and (
            not w.completed()
        ):
            text = Dead  # no points have these signs
        if text is Dead and count:
            count.dead += 1
        if text is not Dead and text is not Skip:
            if count:
                count.cases += 1
            yield w, text
        del path[max(w.k, fixed):]
        while len(path) > fixed and path[-1][1] == len(path[-1][0]) - 1:
            path.pop()
        if len(path) == fixed:
            return
        path[-1][1] += 1


def cases_of(inputs, run, real, check, part=0, parts=1, depth=0):
    """Contract body

    ``inputs()`` gives (number of points, input); ``run(world, input)`` returns
    a text if the postcondition fails; ``real(points, input)`` is the input
    with coordinates and ``check`` the specification of the public function.
    Parts share the inputs, or the first ``depth`` choices if given.
    """
    key = object()

    def body(c):
        if not c.symbolic and key in _DONE:
            r = _DONE.pop(key)
            if isinstance(r, BaseException):
                raise r
            return r
        try:
            r = once()
        except (Exception, Skip) as e:  # noqa: BLE001
            _DONE[key] = e
            raise
        if c.symbolic:
            _DONE[key] = r
        return r

    def shares():
        i = 0
        for n, x in inputs():
            for prefix in (
                prefixes(n, lambda w, x=x: run(w, x), depth) if depth
                else ((),)
            ):
                if i % parts == part:
                    yield n, x, prefix
                i += 1

    def once():
        rng = random.Random(1)
        found = 0
        with circles():
            for n, x, prefix in shares():
                for w, text in explore(
                    n, lambda w, x=x: run(w, x), prefix=prefix
                ):
                    if text is None:
                        continue
                    found += 1
                    last = text
                    pts = w.points(rng) if found < 40 else None
                    if pts is not None:
                        y = real(pts, x)
                        bad = _real(check, y)
                        if bad:
                            return Refuted(f'{bad} ({y})', repr(y))
                    if found % 10 == 0:
                        break
                if found >= 40:
                    break
        if found:
            if isinstance(last, BaseException):
                last = engine.describe(last)
            raise Unsupported(f'cases without known points: {last}')
        return None

    return body


def _real(check, case):
    try:
        return check(case)
    except Exception as e:  # noqa: BLE001
        if bounded.in_library(e.__traceback__):
            return f'raised {engine.describe(e)}'
        return None


# ------------------------------------------------------------- triangulations
def _ranks(tri):
    return tuple(v.rank for v in tri)


def _covering(w, tris):
    """Directed sides of triangles without the opposite one, or a text"""
    sides = {}
    for t in tris:
        if len(t) != 3 or w.orient(*t) <= 0:
            return f'triangle {t} is not counterclockwise'
        for i in range(3):
            ed = t[i], t[(i + 1) % 3]
            if ed in sides:
                return f'triangles overlap at {ed}'
            sides[ed] = t[(i + 2) % 3]
    return sides


def _locally_delaunay(w, sides, fixed=()):
    for (a, b), c in sides.items():
        d = sides.get((b, a))
        if d is not None and a < b and (a, b) not in fixed and (
            w.incircle(d, a, b, c) > 0
        ):
            return f'edge {a, b} is not locally Delaunay'
    return None


def delaunay(w, order):
    from rene._triangulation.delaunay import DelaunayTriangulation

    n = w.n
    t = DelaunayTriangulation.from_points(
        [Ranked(i) for i in order], w.orienteer
    )
    if bool(t) != (n > 1):
        return f'truth value {bool(t)}'
    tris = [_ranks(x) for x in t.triangles_vertices()]
    border = _ranks(t.to_boundary_points())
    if not tris:
        if n > 2:
            if any(w.orient(0, 1, k) for k in range(2, n)):
                return 'no triangles'
        return None
    sides = _covering(w, tris)
    if isinstance(sides, str):
        return sides
    if {v for x in tris for v in x} != set(range(n)):
        return 'some point is not a vertex'
    outer = {ed for ed in sides if ed[::-1] not in sides}
    ring = {(border[i], border[i - 1]) for i in range(len(border))}
    if outer not in (ring, {ed[::-1] for ed in ring}):
        return f'boundary {border}, triangles {tris}'
    if len({a for a, _ in outer}) != len(outer):
        return f'boundary touches itself {border}'
    for a, b in outer:
        for p in range(n):
            if w.orient(a, b, p) < 0:
                return f'boundary edge {a, b} is not on the hull'
    return _locally_delaunay(w, sides)


def _orders(n):
    rng = random.Random(n)
    order = [*range(n), *rng.sample(range(n), min(2, n))]
    rng.shuffle(order)
    yield n, tuple(order)


def _real_points(pts, order):
    return [pts[i] for i in order]


# ------------------------------------------------- constrained triangulations
def _contour(w, vs, orientation):
    from rene.enums import Orientation

    return Fake(
        vertices=[Ranked(i) for i in vs],
        orientation=(
            Orientation.COUNTERCLOCKWISE if orientation > 0
            else Orientation.CLOCKWISE
        ),
    )


def polygon_of(w, rings):
    """Orientations of the rings, the precondition being assumed"""
    res = []
    for vs in rings:
        s = w.ring(vs)
        if s is None:
            raise Skip
        res.append(s)
    for r, q in itertools.combinations(rings, 2):
        if len(set(r) & set(q)) > 1:
            raise Skip
        for e in ring_edges(r):
            for f in ring_edges(q):
                if not w.apart(*e, *f):
                    raise Skip
    border, *holes = rings
    es = ring_edges(border)
    for h in holes:
        # the edges do not meet, so one vertex elsewhere decides
        if any(w.location(es, v) != 1 for v in h if v not in border):
            raise Skip
    for h, g in itertools.permutations(holes, 2):
        es = ring_edges(g)
        if any(w.location(es, v) != -1 for v in h if v not in g):
            raise Skip
    # the interior is connected: rings do not close a cycle of touches
    touches = [
        (i, j) for (i, r), (j, q) in itertools.combinations(
            enumerate(rings), 2
        ) if set(r) & set(q)
    ]
    if len(touches) >= len(rings):
        raise Skip
    return res


def constrained(w, rings):
    from rene._triangulation.constrained_delaunay import (
        ConstrainedDelaunayTriangulation,
    )

    signs = polygon_of(w, rings)
    contours = [_contour(w, vs, s) for vs, s in zip(rings, signs)]
    t = ConstrainedDelaunayTriangulation.from_polygon(
        Fake(border=contours[0], holes=contours[1:]), w.orienteer
    )
    tris = [_ranks(x) for x in t.triangles_vertices()]
    sides = _covering(w, tris)
    if isinstance(sides, str):
        return sides
    want = set()
    for k, (vs, s) in enumerate(zip(rings, signs)):
        if (s > 0) != (k == 0):
            vs = vs[::-1]
        want |= set(ring_edges(vs))
    outer = {ed for ed in sides if ed[::-1] not in sides}
    if outer != want:
        return f'boundary of triangles {sorted(outer)}, expected {want}'
    border = set(_ranks(t.to_boundary_points()))
    if border != set(rings[0]):
        return f'border {border}'
    return _locally_delaunay(w, sides)


def _real_polygon(pts, rings):
    border, *holes = [tuple(pts[i] for i in vs) for vs in rings]
    return ('P', (border, tuple(holes)))


def _ring_orders(items):
    """Closed sequences of the items up to rotation, in both directions"""
    first, *rest = sorted(items)
    for p in itertools.permutations(rest):
        yield (first, *p)


def _turned(rings, rng):
    """Rings that start anywhere"""
    res = []
    for vs in rings:
        k = rng.randrange(len(vs))
        res.append(vs[k:] + vs[:k])
    return tuple(res)


def contours(n):
    def gen_():
        rng = random.Random(n)
        every = list(_ring_orders(range(n)))
        rng.shuffle(every)
        for vs in every:
            yield n, _turned((vs,), rng)
    return gen_


def donuts(n, holes, shared=0):
    """Polygons of ``n`` points with triangular holes"""

    def gen_():
        rng = random.Random(n)
        every = []
        for hs in itertools.combinations(
            itertools.combinations(range(n), 3), holes
        ):
            used = [i for h in hs for i in h]
            if shared == 0:
                if len(set(used)) < len(used):
                    continue
                borders = [set(range(n)) - set(used)]
            else:
                borders = [
                    (set(range(n)) - set(used)) | {v} for v in used
                ]
            for b in borders:
                for vs in _ring_orders(b):
                    if vs[1] < vs[-1]:
                        every.append((
                            vs, *(
                                h if rng.random() < .5 else h[::-1]
                                for h in hs
                            ),
                        ))
        rng.shuffle(every)
        for x in every:
            yield n, _turned(x, rng)
    return gen_


# ------------------------------------------------------------ trapezoidations
def trapezoids(w, case):
    from rene._seidel.trapezoidation import Trapezoidation

    kind, g, seed, queries = case
    if kind == 'P':
        signs = polygon_of(w, g)
        contours_ = [_contour(w, vs, s) for vs, s in zip(g, signs)]
        shape = Fake(border=contours_[0], holes=contours_[1:])
        edges = [e for vs in g for e in ring_edges(vs)]
        make = Trapezoidation.from_polygon
    else:
        for e, f in itertools.combinations(g, 2):
            if not w.apart(*e, *f):
                raise Skip
        shape = Fake(segments=[
            Fake(start=Ranked(a), end=Ranked(b)) for a, b in g
        ])
        edges = g
        make = Trapezoidation.from_multisegment
    t = make(shape, seed, w.orienteer)
    for q in queries:
        got = t.locate(Ranked(q)).name
        if kind == 'P':
            want = tri_spec.LOC[w.location(edges, q)]
        else:
            want = 'BOUNDARY' if any(
                q in e or w.on_edge(q, *e) for e in edges
            ) else 'EXTERIOR'
        if got != want:
            return f'locate({q}) is {got}, expected {want}'
    return None


def _real_trapezoids(pts, case):
    kind, g, seed, queries = case
    if kind == 'P':
        shape = _real_polygon(pts, g)
    else:
        shape = ('M', tuple((pts[a], pts[b]) for a, b in g))
    return shape, seed, [pts[q] for q in queries]


def check_located(case):
    from rene import exact as e

    from .. import bridge

    g, seed, queries = case
    r = bridge.to_rene(g)
    t = (
        e.Trapezoidation.from_multisegment if g[0] == 'M'
        else e.Trapezoidation.from_polygon
    )(r, seeder=lambda: seed)
    for p in queries:
        want = tri_spec.LOC[o.locate(g, p)]
        got = t.locate(e.Point(*p)).name
        if got != want:
            return f'locate({p}) is {got}, expected {want}'
    return None


def located_polygons(shapes, seeds):
    """Polygons with one more point to locate"""

    def gen_():
        rng = random.Random(7)
        every = []
        for n, rings in shapes():
            for q in range(n + 1):
                rs = tuple(
                    tuple(v + (v >= q) for v in vs) for vs in rings
                )
                every.append((n + 1, rs, q))
        rng.shuffle(every)
        for n, rs, q in every:
            for _ in range(seeds):
                yield n, ('P', rs, rng.randrange(5040), (q, *range(n)))
    return gen_


def located_segments(n, k, seeds):
    """Sets of ``k`` segments between ``n`` points and one more point"""

    def gen_():
        rng = random.Random(7)
        every = []
        for es in itertools.combinations(
            itertools.combinations(range(n), 2), k
        ):
            if len({v for e in es for v in e}) == n:
                for q in range(n + 1):
                    every.append((tuple(
                        tuple(
                            v + (v >= q)
                            for v in (e if rng.random() < .5 else e[::-1])
                        ) for e in es
                    ), q))
        rng.shuffle(every)
        for es, q in every:
            for _ in range(seeds):
                yield n + 1, (
                    'M', es, rng.randrange(5040), (q, *range(n + 1)),
                )
    return gen_


# ------------------------------------------------------------------ contracts
DOC = 'any coordinates: all order types of that many points'


def _c(name, targets, inputs, run, real, check, parts=1, depth=0,
       thorough=False, quick=()):
    return [
        Contract(
            f'order_{name}' + (f'_{k + 1}' if parts > 1 else ''), targets,
            cases_of(inputs, run, real, check, k, parts, depth),
            kind='shape', public=False, thorough=thorough and k not in quick,
            doc=DOC,
        )
        for k in range(parts)
    ]


def p20():
    t = ['rene.exact.DelaunayTriangulation.from_points']
    res = []
    for n in range(7):
        res += _c(
            f'points_{n}', t, lambda n=n: _orders(n), delaunay, _real_points,
            tri_spec.check_delaunay, *((6, 4) if n > 5 else ()),
        )
    return res


def p21():
    t = ['rene.exact.ConstrainedDelaunayTriangulation.from_polygon']
    res = []
    for name, inputs, *parts in (
        ('triangle', contours(3)),
        ('quadrilateral', contours(4)),
        ('pentagon', contours(5)),
        ('hexagon', contours(6), 240, 2, True, (3, 17, 93, 149, 201)),
        ('touching_hole', donuts(5, 1, shared=1)),
        ('hole', donuts(6, 1)),
        ('large_touching_hole', donuts(6, 1, shared=1), 80, 0, True, (5,)),
    ):
        res += _c(
            name, t, inputs, constrained, _real_polygon, tri_spec.check_cdt,
            *parts,
        )
    return res


def p22():
    res = []
    t = ['rene.exact.Trapezoidation.from_polygon']
    for name, shapes, seeds, *parts in (
        ('triangle', contours(3), 10),
        ('quadrilateral', contours(4), 10),
        ('pentagon', contours(5), 1, 4),
        ('pentagon_many', contours(5), 8, 8, 0, True),
        ('hexagon', contours(6), 1, 120, 0, True, (11, 70)),
        ('touching_hole', donuts(5, 1, shared=1), 1, 4),
        ('hole', donuts(6, 1), 1, 4, 0, True, (1,)),
        ('hole_many', donuts(6, 1), 10, 24, 0, True),
    ):
        res += _c(
            f'in_{name}', t, located_polygons(shapes, seeds), trapezoids,
            _real_trapezoids, check_located, *parts,
        )
    t = ['rene.exact.Trapezoidation.from_multisegment']
    for n, k, seeds, *parts in (
        (2, 1, 1), (3, 2, 4), (4, 2, 4), (3, 3, 12), (4, 3, 6),
        (5, 3, 1), (5, 4, 1, 4, 0, True, (2,)), (6, 3, 1, 4, 0, True, (0,)),
        (6, 4, 1, 64, 0, True, (7,)),
    ):
        res += _c(
            f'on_{k}_of_{n}', t, located_segments(n, k, seeds), trapezoids,
            _real_trapezoids, check_located, *parts,
        )
    return res
