"""Sweeps over operands of few points, for all order types.

As in ``ordertypes``, for operations that create points: a crossing of two
segments becomes one more point of the order type, its place among the other
points being chosen when asked for, consistently with the three-term
Grassmann-Plucker relations.  Abscissas of different points are different and
boxes overlap in ordinates here; ordinates are known for no point.
"""

import itertools
import random
import sys

from .. import basic_spec, bool_spec as bo, engine, oracle as o
from ..engine import Refuted, Skip, Unsupported
from .common import Contract
from .ordertypes import (
    Dead, Endless, World, _real, _relations, _ring_orders, ring_edges,
    sort_sign,
)

_DONE = {}


class Number:
    """A coordinate of a point"""

    __slots__ = 'world', 'at'

    num = None

    def __init__(self, world, at):
        self.world = world
        self.at = at

    def _other(self, other):
        if type(other) is not type(self) or other.world is not self.world:
            raise Unsupported('comparison with an unknown number')
        return other.at

    def _no(self, *_):
        raise Unsupported('arithmetic on coordinates')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __neg__ = __bool__ = __abs__ = __pow__ = _no


class Abscissa(Number):
    __slots__ = ()

    def _sign(self, other):
        return self.world.abscissas(self.at, self._other(other))

    def __eq__(self, other):
        return self._sign(other) == 0

    def __ne__(self, other):
        return self._sign(other) != 0

    def __lt__(self, other):
        return self._sign(other) < 0

    def __le__(self, other):
        return self._sign(other) <= 0

    def __gt__(self, other):
        return self._sign(other) > 0

    def __ge__(self, other):
        return self._sign(other) >= 0

    def __hash__(self):
        raise Unsupported('hash of a coordinate')


class Ordinate(Abscissa):
    __slots__ = ()

    def _sign(self, other):
        return self.world.ordinates(self.at, self._other(other))

    __hash__ = Abscissa.__hash__


class Place:
    """The place of a point on a segment"""

    def __init__(self, world, segment, at):
        self.world = world
        self.segment = segment
        self.at = at

    def __eq__(self, other):
        if type(other) is not Place or other.segment != self.segment:
            raise Unsupported('places on different segments')
        return other.at == self.at

    def __lt__(self, other):
        if self == other:
            return False
        (a, b), w = self.segment, self.world
        return w.less(self.at, other.at) == w.less(a, b)

    def __hash__(self):
        return hash(self.at)

    def __getattr__(self, name):
        raise Unsupported(f'{name} of a place')


class Level:
    """An ordinate of a box, different from all others"""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = None

    def __getattr__(self, name):
        raise Unsupported(f'{name} of an ordinate')


class Strip:
    """A box known by its abscissas; ordinates of boxes overlap"""

    def __init__(self, min_x, max_x):
        self.min_x = min_x
        self.max_x = max_x
        self.min_y = Level()
        self.max_y = Level()

    def disjoint_with(self, other, /):
        return self.max_x < other.min_x or other.max_x < self.min_x

    def touches(self, other, /):
        return self.max_x == other.min_x or other.max_x == self.min_x

    def __getattr__(self, name):
        raise Unsupported(f'{name} of a box')


def _strip_of(points):
    xs = [p.x for p in points]
    return Strip(min(xs), max(xs))


def _merged(boxes):
    boxes = list(boxes)
    return Strip(min(b.min_x for b in boxes), max(b.max_x for b in boxes))


BOXES = {
    'Segment': lambda s: _strip_of((s.start, s.end)),
    'Contour': lambda s: _strip_of(s.vertices),
    'Multisegment': lambda s: _merged(
        _strip_of((x.start, x.end)) for x in s.segments
    ),
    'Polygon': lambda s: _strip_of(s.border.vertices),
    'Multipolygon': lambda s: _merged(
        _strip_of(p.border.vertices) for p in s.polygons
    ),
}


_ORIENTATIONS = []


def _orientation(sign):
    if not _ORIENTATIONS:
        from rene.enums import Orientation as r

        _ORIENTATIONS.extend((r.COLLINEAR, r.COUNTERCLOCKWISE, r.CLOCKWISE))
    return _ORIENTATIONS[sign]


class Plane(World):
    """Points and crossings of segments between them

    0 ... n - 1: points in lexicographic order; n: a direction that is vertical
    but for so little that it orders points lexicographically; then the
    directions of the axes, as far as they are of use; then crossings.

    ``mode``: 'apart' (all abscissas differ, all boxes overlap in ordinates),
    'full' (any points).
    """

    limit = 100000

    def __init__(self, n, path, mode='apart'):
        super().__init__(n, path)
        self.mode = mode
        self.crossings = {}  # (segment, segment) -> point
        self.lines = {}  # crossing -> (segment, segment)
        self.points = {}
        self.ids = {}  # id of a point -> its number
        self.seen = {}  # orientations asked for
        self.right = n + 1
        self.up = n + 2 if mode == 'full' else None
        self.first = n + 2 if self.up is None else n + 3
        self.total = self.first
        if self.up is not None:
            self._set((n, self.up, self.right), 0)
        for i in range(n):
            self._directions(i)

    def _directions(self, i):
        n = self.n
        self._set((i, n, self.right), -1)
        if self.up is not None:
            self._set((i, n, self.up), -1)
            self._set((i, self.up, self.right), -1)

    def _options_three(self, key):
        if self.up is not None:
            n = self.n
            axes = [i for i in key if n < i < self.first]
            if axes:
                i, j = (i for i in key if i not in axes)
                self.orient(i, j, n)
        return self._signs(key)

    def _signs(self, key):
        """Signs of ``key`` that agree with what is known"""
        signs = 1, -1, 0
        n = self.n
        axes = [i for i in key if n <= i < self.first]
        if axes:
            i, j = (i for i in key if i not in axes)
            axis, = axes
            _, sign = sort_sign((i, j, axis))
            if axis == n:
                signs = 1, -1
            elif self.up is not None:
                s = self._known(i, j, n)
                if s is None:
                    pass
                elif axis == self.up:
                    y = self._known(i, j, self.right)
                    signs = (s * sign,) + (0,) * (y in (None, -s))
                elif self._known(i, j, self.up) == 0:
                    signs = (-s * sign,)
        return self._allowed(
            self.three, _relations(self.total - 1, key, 3), key, signs,
        )

    def _known(self, i, j, k):
        key, sign = sort_sign((i, j, k))
        v = self.three.get(key)
        return None if v is None else sign * v

    def _set(self, t, value):
        key, sign = sort_sign(t)
        if self.three.get(key, sign * value) != sign * value:
            raise Unsupported('place of a crossing')
        self.three[key] = sign * value

    def less(self, i, j):
        """Lexicographic order"""
        if i == j:
            return False
        n = self.n
        if i < n and j < n:
            return i < j
        return self.orient(i, j, n) > 0

    def abscissas(self, i, j):
        if i == j:
            return 0
        if self.up is None:
            return -1 if self.less(i, j) else 1
        return -self.orient(i, j, self.up)

    def ordinates(self, i, j):
        return 0 if i == j else self.orient(i, j, self.right)

    def orient(self, i, j, k):
        self.asked += 1
        if self.asked > self.limit:
            raise Endless(f'{self.limit} orientations')
        v = self.seen.get((i, j, k))
        if v is None:
            key, sign = sort_sign((i, j, k))
            v = sign * self._three(key) if sign else 0
            self.seen[i, j, k] = v
        return v

    def everything(self):
        return [*range(self.n), *range(self.first, self.total)]

    def ordered(self, ids):
        from functools import cmp_to_key

        return sorted(ids, key=cmp_to_key(
            lambda i, j: -1 if self.less(i, j) else 1 if i != j else 0
        ))

    def cross(self, a, b, c, d):
        """The point where segments cross (that they cross is known)"""
        if self.less(b, a):
            a, b = b, a
        if self.less(d, c):
            c, d = d, c
        key = tuple(sorted(((a, b), (c, d))))
        p = self.crossings.get(key)
        if p is None:
            p = self.crossings[key] = self._meeting(a, b, c, d)
        return p

    def _meeting(self, a, b, c, d):
        if not (
            self.orient(a, b, c) * self.orient(a, b, d) < 0
            and self.orient(c, d, a) * self.orient(c, d, b) < 0
        ):
            raise Unsupported('crossing of other segments')
        for p in self.everything():
            if p not in (a, b, c, d) and (
                self.orient(a, b, p) == 0 and self.orient(c, d, p) == 0
            ):
                return p
        m = self.total
        self.total += 1
        self.lines[m] = (a, b), (c, d)
        n = self.n
        self._directions(m)
        for p, q in self.lines[m]:
            self._set((p, q, m), 0)
            self._set((p, m, n), 1)
            self._set((m, q, n), 1)
        return m

    # ------------------------------------------------------- for the code
    def point(self, i):
        from rene import exact

        r = self.points.get(i)
        if r is None:
            r = self.points[i] = exact.Point(
                Abscissa(self, i), Ordinate(self, i)
            )
            self.ids[id(r)] = i
        return r

    def orienteer(self, a, b, p, /):
        get = self.ids.get
        t = get(id(a)), get(id(b)), get(id(p))
        if None in t:
            t = tuple(map(self.at, (a, b, p)))
        return _orientation(self.orient(*t))

    def at(self, p):
        i = self.ids.get(id(p))
        if i is not None:
            return i
        x, y = p.x, p.y
        if (
            type(x) is not Abscissa or type(y) is not Ordinate
            or x.at != y.at or x.world is not self
        ):
            raise Unsupported('a point that is not known')
        return x.at

    def place(self, a, b, c, d, /):
        a, b, c, d = map(self.at, (a, b, c, d))
        if self.orient(a, b, c) == 0:
            p = c
        elif self.orient(a, b, d) == 0:
            p = d
        elif self.orient(c, d, a) == 0:
            p = a
        elif self.orient(c, d, b) == 0:
            p = b
        else:
            p = self.cross(a, b, c, d)
        return Place(self, (a, b), p)

    def intersect(self, a, b, c, d, /):
        return self.point(self.cross(*map(self.at, (a, b, c, d))))

    # ---------------------------------------------------------- geometry
    def on_edge(self, p, a, b):
        if p in (a, b):
            return True
        if self.less(b, a):
            a, b = b, a
        return (
            self.less(a, p) and self.less(p, b) and self.orient(a, b, p) == 0
        )

    def apart(self, a, b, c, d):
        if max(a, b, c, d) < self.n:
            return super().apart(a, b, c, d)
        raise Unsupported('segments of crossings')

    def under(self, edge, p, q):
        """Is the edge below the points near ``p`` towards ``q`` (p < q)"""
        a, b = edge
        if not self.less(p, b) or self.less(p, a):
            return False
        s = self.orient(a, b, p)
        return s > 0 or s == 0 and self.orient(a, b, q) > 0

    # -------------------------------------------------------------- real
    def completed(self, budget=300):
        """Is there a choice of all signs that agrees with those made

        (if that is found out within the budget)
        """
        w = Plane(self.n, [], self.mode)
        w.total = self.total
        w.three = dict(self.three)
        left = [
            k for k in itertools.combinations(range(self.total), 3)
            if k not in w.three
        ]
        stack = [(w.three, left)]
        while stack:
            budget -= 1
            if budget < 0:
                return True
            w.three, left = stack.pop()
            best = None
            changed = True
            while changed and left:
                changed = False
                best = None
                rest = []
                for k in left:
                    signs = w._signs(k)
                    if not signs:
                        break
                    if len(signs) == 1:
                        w.three[k], = signs
                        changed = True
                        continue
                    rest.append(k)
                    if best is None or len(signs) < len(best[1]):
                        best = k, signs
                else:
                    left = rest
                    continue
                best = None
                break
            else:
                if not left:
                    return True
            if best is not None:
                k, signs = best
                left = [x for x in left if x != k]
                for v in reversed(signs):
                    stack.append(({**w.three, k: v}, left))
        return False

    def real_points(self, rng, tries=200, steps=6000):
        n = self.n
        for _ in range(tries):
            m = rng.choice((3, 4, 5, 7, 10, 16, 30))
            left = [steps]
            pts = []
            cols = max(n, rng.choice((n, n + 1, 2 * n, 3 * n)))
            least = 1 if self.up is None else 0

            def go(i):
                if i == n:
                    return self._holds(pts)
                lo = pts[-1][0] + least if pts else 0
                for _ in range(14):
                    left[0] -= 1
                    if left[0] < 0:
                        return False
                    hi = cols - (n - i) * least
                    if lo > hi:
                        return False
                    p = (
                        rng.randint(lo, min(hi, lo + cols // n * 2)),
                        rng.randrange(m),
                    )
                    if pts and p <= pts[-1]:
                        continue
                    if self._suits(pts, p) and self._axes_suit(pts, p):
                        pts.append(p)
                        if go(i + 1):
                            return True
                        pts.pop()
                return False

            if go(0):
                return dict(enumerate(pts))
        return None

    def _axes_suit(self, pts, p):
        j = len(pts)
        for i, q in enumerate(pts):
            for axis in (self.up, self.right):
                s = self.three.get((i, j, axis))
                if s is not None and s != o.sgn(
                    p[0] - q[0] if axis == self.up else q[1] - p[1]
                ):
                    return False
        return True

    def _holds(self, pts):
        at = dict(enumerate(pts))
        for m, (e, f) in self.lines.items():
            if not all(i in at for i in (*e, *f)):
                return False
            r = o.meet(
                tuple(map(_exact, (at[e[0]], at[e[1]]))),
                tuple(map(_exact, (at[f[0]], at[f[1]]))),
            )
            if r is None or r[0] != 'pt':
                return False
            at[m] = r[1]
        n = self.n
        for key, s in self.three.items():
            if all(i < n for i in key):
                continue
            axes = [i for i in key if n <= i < self.first]
            if len(axes) > 1:
                continue
            if axes:
                i, j = (i for i in key if i not in axes)
                (x, y), (z, t) = at[i], at[j]
                v = {
                    n: (z > x) - (z < x) or o.sgn(t - y), self.right: y - t,
                    self.up: z - x,
                }[axes[0]]
                v *= sort_sign((i, j, axes[0]))[1]
            else:
                v = o.cross(*(at[i] for i in key))
            if o.sgn(v) != s:
                return False
        return True


def _exact(p):
    from fractions import Fraction

    return Fraction(p[0]), Fraction(p[1])


class planes:
    """Let the library keep abstract points of the world of the moment"""

    world = current = None

    def __init__(self, mode='apart'):
        self.mode = mode

    @classmethod
    def aside(cls):
        """The library as it is"""
        return cls._aside(cls.current)

    def plane(self, n, path):
        planes.world = w = Plane(n, path, self.mode)
        return w

    def __enter__(self):
        planes.current = self
        self.patch()
        return self

    def __exit__(self, *exc):
        self.restore()

    class _aside:
        def __init__(self, outer):
            self.outer = outer

        def __enter__(self):
            self.outer.restore()

        def __exit__(self, *exc):
            self.outer.patch()

    def patch(self):
        from rene import exact
        from rithm.fraction import Fraction

        def make(*args):
            if len(args) == 1 and isinstance(args[0], Number):
                return args[0]
            return Fraction(*args)

        self.saved = []
        for name, mod in list(sys.modules.items()):
            if name == 'rene' or name.startswith('rene.'):
                for k, v in list(vars(mod).items()):
                    if v is Fraction or getattr(v, 'vf_number', False):
                        self.saved.append((mod, k, v))
                        setattr(mod, k, make)
        context = exact.Segment._context
        for name, f in (
            ('_orienteer', lambda *a: planes.world.orienteer(*a)),
            ('_segments_intersector', lambda *a: planes.world.intersect(*a)),
            (
                '_segments_intersection_scale',
                lambda *a: planes.world.place(*a),
            ),
        ):
            self.saved.append((context, name, getattr(context, name)))
            setattr(context, name, f)
        self.members = []
        # contracts of Point (see P02)
        for name, f in (
            ('__eq__', lambda w, i, j: i == j),
            ('__lt__', lambda w, i, j: w.less(i, j)),
            ('__le__', lambda w, i, j: not w.less(j, i)),
            ('__gt__', lambda w, i, j: w.less(j, i)),
            ('__ge__', lambda w, i, j: not w.less(i, j)),
        ):
            self._replace(exact.Point, name, _comparison(f))
        self._replace(exact.Point, '__hash__', lambda p: planes.world.at(p))
        if self.mode == 'apart':
            for name, f in BOXES.items():
                self._replace(getattr(exact, name), 'bounding_box', property(f))

    def _replace(self, cls, name, value):
        self.members.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, value)

    def restore(self):
        for mod, k, v in self.saved:
            setattr(mod, k, v)
        for cls, name, v in self.members:
            if v is None:
                delattr(cls, name)
            else:
                setattr(cls, name, v)


def _comparison(f):
    def compare(p, q):
        if type(q) is not type(p):
            return NotImplemented
        w = planes.world
        return f(w, w.at(p), w.at(q))
    return compare


# ------------------------------------------------------------------- operands
def _transformed(g, f):
    k = g[0]
    if k == 'S':
        return (k, tuple(map(f, g[1])))
    if k == 'C':
        return (k, tuple(map(f, g[1])))
    if k == 'M':
        return (k, tuple(tuple(map(f, s)) for s in g[1]))
    if k == 'P':
        return (k, _polygon_transformed(g[1], f))
    if k == 'MP':
        return (k, tuple(_polygon_transformed(p, f) for p in g[1]))
    raise ValueError(k)


def _polygon_transformed(p, f):
    return (
        tuple(map(f, p[0])), tuple(tuple(map(f, h)) for h in p[1]),
    )


def built(w, g):
    from rene import exact as e

    k, v = g
    p = w.point
    if k == 'S':
        return e.Segment(*map(p, v))
    if k == 'C':
        return e.Contour([*map(p, v)])
    if k == 'M':
        return e.Multisegment([e.Segment(*map(p, s)) for s in v])
    if k in ('P', 'MP'):
        ps = [
            e.Polygon(
                e.Contour([*map(p, x[0])]),
                [e.Contour([*map(p, h)]) for h in x[1]],
            ) for x in ([v] if k == 'P' else v)
        ]
        return ps[0] if k == 'P' else e.Multipolygon(ps)
    raise ValueError(k)


def read(w, r):
    from rene import exact as e

    at = w.at
    if isinstance(r, e.Empty):
        return ('E',)
    if isinstance(r, e.Segment):
        return ('S', (at(r.start), at(r.end)))
    if isinstance(r, e.Multisegment):
        return ('M', tuple((at(s.start), at(s.end)) for s in r.segments))
    if isinstance(r, e.Contour):
        return ('C', tuple(map(at, r.vertices)))
    if isinstance(r, e.Polygon):
        return ('P', _read_polygon(w, r))
    if isinstance(r, e.Multipolygon):
        return ('MP', tuple(_read_polygon(w, p) for p in r.polygons))
    raise Unsupported(f'result of type {type(r).__name__}')


def _read_polygon(w, p):
    return (
        tuple(map(w.at, p.border.vertices)),
        tuple(tuple(map(w.at, h.vertices)) for h in p.holes),
    )


def assume_valid(w, g):
    k, v = g
    if k == 'S':
        return
    if k == 'M':
        for e, f in itertools.combinations(v, 2):
            if not w.apart(*e, *f):
                raise Skip
        return
    if k == 'MP':
        for x in v:
            assume_valid(w, ('P', x))
        for (p, _), (q, _) in itertools.combinations(v, 2):
            es, fs = ring_edges(p), ring_edges(q)
            for e, f in itertools.product(es, fs):
                if not w.apart(*e, *f):
                    raise Skip
            for vs, rest, ds in ((p, q, fs), (q, p, es)):
                for x in vs:
                    if x not in rest and w.location(ds, x) != -1:
                        raise Skip
        return
    rings = [v] if k == 'C' else [v[0], *v[1]]
    if k == 'P' and v[1]:
        from .ordertypes import polygon_of

        polygon_of(w, rings)
        return
    for r in rings:
        if w.ring(r) is None:
            raise Skip


class Pieces:
    """Arrangement with the interface of ``oracle.Arrangement``"""

    def __init__(self, w, gs):
        self.w = w
        self.gs = gs
        n = len(gs)
        self.of = []
        edges = []
        for i, g in enumerate(gs):
            es = []
            for a, b in o.edges_of(g):
                if w.less(b, a):
                    a, b = b, a
                es.append((a, b))
                edges.append((a, b, i))
            self.of.append(es)
        on = [{a, b} for a, b, _ in edges]
        for (s, (a, b, i)), (t, (c, d, j)) in itertools.combinations(
            enumerate(edges), 2
        ):
            if w.less(b, c) or w.less(d, a):
                continue
            for p in (c, d):
                if w.on_edge(p, a, b):
                    on[s].add(p)
            for p in (a, b):
                if w.on_edge(p, c, d):
                    on[t].add(p)
            if not {a, b} & {c, d} and (
                w.orient(a, b, c) * w.orient(a, b, d) < 0
                and w.orient(c, d, a) * w.orient(c, d, b) < 0
            ):
                p = w.cross(a, b, c, d)
                on[s].add(p)
                on[t].add(p)
        pieces = {}
        for (a, b, i), pts in zip(edges, on):
            ids = w.ordered(pts)
            for p, q in zip(ids, ids[1:]):
                pieces.setdefault((p, q), [0] * n)[i] += 1
        self.faces = {(False,) * n}
        self.edges = []
        for (p, q), counts in pieces.items():
            below = []
            above = []
            for i, g in enumerate(gs):
                if g[0] in o.SHAPED:
                    x = sum(
                        w.under(e, p, q) for e in self.of[i]
                    ) % 2 == 1
                    below.append(x)
                    above.append(x ^ (counts[i] % 2 == 1))
                else:
                    below.append(False)
                    above.append(False)
            self.edges.append(
                ((p, q), tuple(counts), tuple(below), tuple(above))
            )
            self.faces.add(tuple(below))
            self.faces.add(tuple(above))
        self.vertices = w.ordered({p for pts in on for p in pts})

    def locate(self, i, v):
        """Location of a vertex"""
        for (p, q), on, _, _ in self.edges:
            if on[i] and v in (p, q):
                return 0
        if self.gs[i][0] not in o.SHAPED:
            return -1
        w = self.w
        k = sum(
            w.less(a, v) and w.less(v, b) and w.orient(a, b, v) > 0
            for a, b in self.of[i]
        )
        # edges that begin or end exactly below another point do not occur:
        # abscissas of different points are different
        return 1 if k % 2 else -1

    def rays(self, i, v):
        return [
            q if p == v else p
            for (p, q), on, _, _ in self.edges
            if on[i] and v in (p, q)
        ]

    def interleaved(self, v):
        w = self.w
        ra, rb = self.rays(0, v), self.rays(1, v)
        if len(ra) < 2 or len(rb) < 2:
            return False
        rays = [(p, 0) for p in ra] + [(p, 1) for p in rb]

        from functools import cmp_to_key

        def cmp(x, y):
            x, y = x[0], y[0]
            if x == y:
                return 0
            hx, hy = w.less(x, v), w.less(y, v)
            if hx != hy:
                return hx - hy
            return -w.orient(v, x, y)

        rays.sort(key=cmp_to_key(cmp))
        tags = [t for _, t in rays]
        return sum(tags[i] != tags[i - 1] for i in range(len(tags))) >= 4


def relation(w, a, b):
    """As ``oracle.relation``"""
    arr = Pieces(w, [a, b])
    la, lb = a[0] in o.LINEAR, b[0] in o.LINEAR
    locs = set()
    for f in arr.faces:
        locs.add((1 if f[0] else -1, 1 if f[1] else -1, 2))
    for _, on, below, above in arr.edges:
        pt = []
        for i, lin in ((0, la), (1, lb)):
            if lin:
                pt.append(0 if on[i] else -1)
            elif on[i]:
                pt.append(0)
            else:
                pt.append(1 if below[i] else -1)
        locs.add((*pt, 1))
    for v in arr.vertices:
        locs.add((arr.locate(0, v), arr.locate(1, v), 0))
    pairs = {(x, y) for x, y, _ in locs}
    a_sub = not any(x >= 0 > y for x, y in pairs)
    b_sub = not any(y >= 0 > x for x, y in pairs)
    if a_sub and b_sub:
        return 'EQUAL'
    common = [(x, y, d) for x, y, d in locs if x >= 0 and y >= 0]
    if not common:
        return 'DISJOINT'
    if a_sub or b_sub:
        if a_sub:
            inn = [(x, y) for x, y in pairs if x >= 0]
        else:
            inn = [(y, x) for x, y in pairs if y >= 0]
        if all(y == 1 for _, y in inn):
            return 'WITHIN' if a_sub else 'COVER'
        if all(x == y for x, y in inn):
            return 'COMPONENT' if a_sub else 'COMPOSITE'
        return 'ENCLOSED' if a_sub else 'ENCLOSES'
    dim = max(d for _, _, d in common)
    if not la and not lb:
        return 'OVERLAP' if dim == 2 else 'TOUCH'
    if la != lb:
        lin = 0 if la else 1
        if any(c[1 - lin] == 1 for c in common):
            return 'CROSS'
        return 'TOUCH'
    if dim == 1:
        return 'OVERLAP'
    for v in arr.vertices:
        if arr.locate(0, v) == 0 == arr.locate(1, v) and arr.interleaved(v):
            return 'CROSS'
    return 'TOUCH'


def wrong_result(w, a, b, op, r):
    la, lb = a[0] in o.LINEAR, b[0] in o.LINEAR
    f = bo.TRUTH[op]
    arr = Pieces(w, [a, b, r])
    if not la and not lb:
        if r[0] in o.LINEAR:
            return 'linear result'
        for x, y, z in arr.faces:
            if z != f(x, y):
                return f'region ({x}, {y}) has {z} in the result {r}'
        for _, on, below, above in arr.edges:
            if on[2] > 1:
                return f'result {r} has overlapping edges'
            if on[2] == 1 and below[2] == above[2]:
                return f'result {r} has edges inside or outside of itself'
        return _bad_shape(w, r, (a, b))
    if r[0] in o.SHAPED:
        return 'shaped result'
    for e, on, below, above in arr.edges:
        ia = on[0] > 0 if la else bool(on[0] or below[0] or above[0])
        ib = on[1] > 0 if lb else bool(on[1] or below[1] or above[1])
        if on[2] > 1:
            return f'result {r} has overlapping segments'
        if (on[2] == 1) != f(ia, ib):
            return f'part {e} ({ia}, {ib}) has {on[2]} in the result {r}'
    if r[0] == 'M':
        if len(r[1]) < 2:
            return 'multisegment of less than two segments'
        for (a, b), (c, d) in itertools.combinations(r[1], 2):
            for p, x, y in ((a, c, d), (b, c, d), (c, a, b), (d, a, b)):
                if p not in (x, y) and w.on_edge(p, x, y):
                    return f'{p} is inside of {x, y} in the result {r}'
            if not {a, b} & {c, d} and (
                w.orient(a, b, c) * w.orient(a, b, d) < 0
                and w.orient(c, d, a) * w.orient(c, d, b) < 0
            ):
                return f'segments cross in the result {r}'
    return None


def _bad_shape(w, r, sources):
    if r[0] == 'E':
        return None
    kept = [
        ring for g in sources for ring in (g[1][0], *g[1][1])
    ]
    polys = [r[1]] if r[0] == 'P' else r[1]
    if r[0] == 'MP' and len(polys) < 2:
        return 'multipolygon of less than two polygons'
    for border, holes in polys:
        for ring, sign in ((border, 1), *((h, -1) for h in holes)):
            if len(ring) < 3 or len(set(ring)) < len(ring):
                return f'ring {ring} touches itself'
            k = ring.index(w.ordered(ring)[0])
            s = w.orient(ring[k - 1], ring[k], ring[(k + 1) % len(ring)])
            if s != sign and ring not in kept:
                return f'orientation of ring {ring}'
            for i in range(len(ring)):
                if w.orient(
                    ring[i - 1], ring[i], ring[(i + 1) % len(ring)]
                ) == 0:
                    return f'ring {ring} has extra vertices'
    for p, q in itertools.combinations(polys, 2):
        if (True, True) in Pieces(w, [('P', p), ('P', q)]).faces:
            return f'polygons {p} and {q} overlap'
    for border, holes in polys:
        arr = Pieces(w, [('P', (border, ())), *(
            ('P', (h, ())) for h in holes
        )])
        for f in arr.faces:
            if sum(f[1:]) > 1 or any(f[1:]) and not f[0]:
                return f'holes of {border}, {holes} overlap'
    return None


# ---------------------------------------------------------------- exploration
def _run(w, run):
    """A text if the postcondition fails, None if not; Dead, Skip: no case"""
    try:
        text = run(w)
    except Dead:
        return Dead
    except Skip:
        return Skip
    except Unsupported:
        if w.completed():
            raise
        return Dead
    except Exception as e:  # noqa: BLE001
        text = e
    if text is not None and not w.completed():
        return Dead  # no points have these signs
    return text


def _next(path, k, fixed=0):
    del path[max(k, fixed):]
    while len(path) > fixed and path[-1][1] == len(path[-1][0]) - 1:
        path.pop()
    if len(path) == fixed:
        return False
    path[-1][1] += 1
    return True


def explore(n, run, prefix=()):
    """(world, text or None or Dead or Skip) of every case"""
    path = [list(x) for x in prefix]
    fixed = len(path)
    while True:
        w = planes.current.plane(n, path)
        yield w, _run(w, run)
        if not _next(path, w.k, fixed):
            return


def prefixes(n, run, depth):
    """First choices of all cases"""
    path = []
    while True:
        w = planes.current.plane(n, path)
        try:
            _run(w, run)
        except Unsupported:
            pass
        yield [list(x) for x in path[:min(w.k, depth)]]
        if not _next(path, min(w.k, depth)):
            return


def cases_of(inputs, run, real, check, part=0, parts=1, depth=0,
             mode='apart'):
    """Contract body, see ``ordertypes.cases_of``"""
    key = object()

    def body(c):
        if not c.symbolic and key in _DONE:
            r = _DONE.pop(key)
            if isinstance(r, BaseException):
                raise r
            return r
        try:
            r = once()
        except (Exception, Skip) as e:  # noqa: BLE001
            _DONE[key] = e
            raise
        if c.symbolic:
            _DONE[key] = r
        return r

    def shares():
        i = 0
        for n, x in inputs():
            for prefix in (
                prefixes(n, lambda w, x=x: run(w, x), depth) if depth
                else ((),)
            ):
                if i % parts == part:
                    yield n, x, prefix
                i += 1

    def once():
        rng = random.Random(1)
        found = 0
        with planes(mode):
            for n, x, prefix in shares():
                for w, text in explore(
                    n, lambda w, x=x: run(w, x), prefix=prefix
                ):
                    if text is None or text is Dead or text is Skip:
                        continue
                    found += 1
                    last = text
                    pts = w.real_points(rng) if found < 40 else None
                    if pts is not None:
                        y = real(pts, x)
                        with planes.aside():
                            bad = _real(check, y)
                        if bad:
                            return Refuted(f'{bad} ({y})', repr(y))
                    if found % 10 == 0:
                        break
                if found >= 40:
                    break
        if found:
            if isinstance(last, BaseException):
                last = engine.describe(last)
            raise Unsupported(f'cases without known points: {last}')
        return None

    return body


# --------------------------------------------------------------------- inputs
def _pairs(ids):
    return itertools.combinations(sorted(ids), 2)


def _segments(k):
    def f(ids):
        ids = set(ids)
        for es in itertools.combinations(_pairs(ids), k):
            if {v for e in es for v in e} == ids:
                yield 'M', es
    return f


def _rings(kind):
    def f(ids):
        for vs in _ring_orders(ids):
            if vs[1] < vs[-1]:
                yield (kind, vs) if kind == 'C' else (kind, (vs, ()))
    return f


def _donuts(ids):
    for h in itertools.combinations(sorted(ids), 3):
        rest = set(ids) - set(h)
        for border in (
            [rest] if len(rest) > 2 else [rest | {v} for v in h]
        ):
            for vs in _ring_orders(border):
                if vs[1] < vs[-1]:
                    yield 'P', (vs, (h,))


def _two_triangles(ids):
    ids = sorted(ids)
    for p in itertools.combinations(ids, 3):
        rest = set(ids) - set(p)
        for more in itertools.combinations(p, 3 - len(rest)):
            q = tuple(sorted(rest | set(more)))
            if p < q:
                yield 'MP', ((p, ()), (q, ()))


# name -> (numbers of points, geometries made of all of some points)
SHAPES = {
    'segment': ((2,), lambda ids: [('S', tuple(sorted(ids)))]),
    'segments_2': ((3, 4), _segments(2)),
    'segments_3': ((3, 4, 5, 6), _segments(3)),
    'segments_4': ((4, 5, 6, 7, 8), _segments(4)),
    'contour_3': ((3,), _rings('C')),
    'contour_4': ((4,), _rings('C')),
    'contour_5': ((5,), _rings('C')),
    'contour_6': ((6,), _rings('C')),
    'triangle': ((3,), _rings('P')),
    'quadrilateral': ((4,), _rings('P')),
    'donut': ((5, 6), _donuts),
    'triangles_2': ((5, 6), _two_triangles),
}


def _written(g, rng):
    """The geometry written down anyhow"""

    def segment(s):
        return s if rng.random() < .5 else s[::-1]

    def ring(vs):
        k = rng.randrange(len(vs))
        vs = vs[k:] + vs[:k]
        return vs if rng.random() < .5 else vs[::-1]

    k, v = g
    if k == 'S':
        return k, segment(v)
    if k == 'M':
        v = [segment(s) for s in v]
        rng.shuffle(v)
        return k, tuple(v)
    if k == 'C':
        return k, ring(v)
    ps = [
        (ring(x[0]), tuple(map(ring, x[1])))
        for x in ([v] if k == 'P' else v)
    ]
    rng.shuffle(ps)
    return k, (ps[0] if k == 'P' else tuple(ps))


def pairs_of(a, b, n):
    """All ways to make two geometries of ``n`` points"""
    everything = set(range(n))
    for i, j in itertools.product(SHAPES[a][0], SHAPES[b][0]):
        if not max(i, j) <= n <= i + j:
            continue
        for x in itertools.combinations(range(n), i):
            rest = everything - set(x)
            for more in itertools.combinations(x, j - len(rest)):
                for g in SHAPES[a][1](x):
                    for h in SHAPES[b][1](rest | set(more)):
                        yield g, h


def operands(a, b, n, op=None, swapped=False):
    def inputs():
        rng = random.Random(n)
        every = list(pairs_of(a, b, n))
        rng.shuffle(every)
        for x in every:
            x = tuple(_written(g, rng) for g in x)
            if swapped:
                x = x[::-1]
            yield n, (x if op is None else (*x, op))
    return inputs


def single(a, n):
    def inputs():
        rng = random.Random(n)
        every = list(SHAPES[a][1](range(n)))
        rng.shuffle(every)
        for g in every:
            yield n, (_written(g, rng),)
    return inputs


# ------------------------------------------------------------------ contracts
def run_op(w, x):
    a, b, op = x
    assume_valid(w, a)
    assume_valid(w, b)
    r = read(w, bo.OPS[op](built(w, a), built(w, b)))
    return wrong_result(w, a, b, op, r)


def run_relation(w, x):
    a, b = x
    assume_valid(w, a)
    assume_valid(w, b)
    ga, gb = built(w, a), built(w, b)
    got = ga.relate_to(gb).name
    want = relation(w, a, b)
    if got != want:
        return f'relation is {got}, expected {want}'
    back = gb.relate_to(ga).name
    if back != bo.COMPLEMENT[want]:
        return f'reversed relation is {back}, expected {bo.COMPLEMENT[want]}'
    return None


def run_valid(w, x):
    g, = x
    got = built(w, g).is_valid()
    try:
        assume_valid(w, g)
        want = True
    except Skip:
        want = False
    if got != want:
        return f'is_valid is {got}, expected {want}'
    return None


def check_valid(case):
    return basic_spec.check_valid(*case)


def _real_case(pts, x):
    return tuple(
        y if isinstance(y, str) else _transformed(y, pts.__getitem__)
        for y in x
    )


DOCS = {
    'apart': (
        'any points of different abscissas, crossings included: all order'
        ' types of that many points'
    ),
    'full': (
        'any points, crossings included: all order types of that many points'
        ' with all orders of their coordinates'
    ),
}
T = 'thorough'


def _c(name, targets, inputs, run, check, parts=1, when=(), mode='apart',
       depth=0):
    """``when``: thorough, or the parts that are quick"""
    return [
        Contract(
            f'cross_{name}' + (f'_{k + 1}' if parts > 1 else ''), targets,
            cases_of(inputs, run, _real_case, check, k, parts, depth, mode),
            kind='shape', public=False,
            thorough=when == T or bool(when) and k not in when,
            doc=DOCS[mode],
        )
        for k in range(parts)
    ]


def _related(targets, table):
    res = []
    for a, b, n, *rest in table:
        mode = rest[2] if len(rest) > 2 else 'apart'
        res += _c(
            f'{a}_{b}_{n}' + ('_full' if mode == 'full' else ''), targets,
            operands(a, b, n), run_relation, bo.check_relation, *rest,
        )
    return res


def _operated(targets, table, ops):
    res = []
    for a, b, n, *rest in table:
        mode = rest[2] if len(rest) > 2 else 'apart'
        for op in ops:
            for swapped in (False, True)[:1 if a == b else 2]:
                if swapped and (op == 'sub' or rest[1:2] == [T]):
                    continue
                res += _c(
                    f'{op}_{a}_{b}_{n}' + ('_swapped' if swapped else '')
                    + ('_full' if mode == 'full' else ''), targets,
                    operands(a, b, n, op, swapped), run_op, bo.check_op,
                    *rest,
                )
    return res


F = 'full'
S, M2, M3 = 'segment', 'segments_2', 'segments_3'
C3, C4, P3, P4 = 'contour_3', 'contour_4', 'triangle', 'quadrilateral'
P33 = 'triangles_2'


def _sizes(a, b, *sizes):
    return [(a, b, *x) if isinstance(x, tuple) else (a, b, x) for x in sizes]


# (shape, shape, number of points[, parts, when, mode])
LINEAR = [
    *_sizes(
        S, M2, 3, 4, 5, (6, 12, T), (3, 1, (), F), (4, 2, (0,), F),
        (5, 24, T, F),
    ),
    *_sizes(
        S, C3, 3, 4, 5, (3, 1, (), F), (4, 1, (), F), (5, 10, T, F),
    ),
    *_sizes(M2, M2, 3, 4, (5, 16, T), (3, 1, (), F), (4, 12, T, F)),
    *_sizes(M2, C3, 3, 4, (5, 8, (0,)), (3, 1, (), F), (4, 6, T, F)),
    *_sizes(C3, C3, 3, 4, (5, 4, (0, 2)), (3, 1, (), F), (4, 2, T, F)),
    *_sizes(S, M3, 3, 4, (5, 6, T), (3, 1, (), F), (4, 4, T, F)),
    *_sizes(S, C4, 4, (5, 2, (0,)), (6, 45, T)),
    *_sizes(C3, C4, 4, (5, 6, T)),
    *_sizes(M3, C3, 3, 4),
]
MIXED = [
    *_sizes(S, P3, 3, 4, 5, (3, 1, (), F), (4, 2, (0,), F), (5, 20, T, F)),
    *_sizes(M2, P3, 3, 4, (5, 8, (0,)), (3, 1, (), F), (4, 6, T, F)),
    *_sizes(C3, P3, 3, 4, (5, 4, (0, 2)), (3, 1, (), F), (4, 2, T, F)),
    *_sizes(S, P4, 4, (5, 2, (0,)), (6, 45, T), (4, 1, (), F)),
    *_sizes(S, 'donut', (5, 2), (6, 60, T)),
    *_sizes(C3, P4, 4, (5, 6, T)),
    *_sizes(M3, P3, 3, 4),
    *_sizes(S, P33, (5, 4, (0,))),
    *_sizes(M2, P33, (5, 16, T)),
    *_sizes(C3, P33, (5, 5, T)),
]
SHAPED = [
    *_sizes(
        P3, P3, 3, 4, (5, 5, (0, 2)), (6, 80, T), (3, 1, (), F),
        (4, 4, (1,), F),
    ),
    *_sizes(P3, P4, 4, (5, 6, (1,)), (4, 2, T, F)),
    *_sizes(P4, P4, 4),
    *_sizes(P3, 'donut', (5, 2, (1,))),
    *_sizes(P3, P33, (5, 6, (1,))),
    *_sizes(P33, P33, (5, 5, T)),
    *_sizes(P33, 'donut', (5, 2, T)),
    *_sizes('donut', 'donut', (5, 2, T)),
]


def p14():
    return _operated(
        ['rene._clipping.linear.Operation'],
        LINEAR, ('and', 'or', 'sub', 'xor'),
    )


def p16():
    return _related(
        ['rene._relating.linear.Operation'], LINEAR,
    )


def p15():
    t = ['rene._clipping.mixed.Operation']
    return _operated(t, MIXED, ('and',)) + _operated(
        t, [x for x in MIXED if x[0] != S], ('sub',)
    )


def p17():
    return _related(['rene._relating.mixed.Operation'], MIXED)


def p13():
    return _operated(
        ['rene._clipping.shaped.Operation'], SHAPED,
        ('and', 'or', 'sub', 'xor'),
    )


def p18():
    return _related(['rene._relating.shaped.Operation'], SHAPED)


def p19():
    res = []
    for a, n, *rest in (
        (C3, 3), (C4, 4), ('contour_5', 5),
        ('contour_6', 6, 30, (3,)), (C3, 3, 1, (), F), (C4, 4, 1, (), F),
        ('contour_5', 5, 1, (), F), ('contour_6', 6, 60, T, F),
        (M2, 3), (M2, 4), (M2, 3, 1, (), F), (M2, 4, 1, (), F),
        (M3, 3), (M3, 4), (M3, 5), (M3, 6, 8, (0,)),
        (M3, 3, 1, (), F), (M3, 4, 1, (), F), (M3, 5, 2, (1,), F),
        (M3, 6, 15, T, F), ('segments_4', 4), ('segments_4', 5, 3, (2,)),
        ('segments_4', 6, 66, T), ('segments_4', 5, 8, T, F),
    ):
        mode = rest[2] if len(rest) > 2 else 'apart'
        kind = 'Contour' if a.startswith('c') else 'Multisegment'
        res += _c(
            f'valid_{a}_{n}' + ('_full' if mode == F else ''),
            [f'rene.exact.{kind}.is_valid', 'rene._bentley_ottmann.base.sweep'],
            single(a, n), run_valid, check_valid, *rest,
        )
    return res
