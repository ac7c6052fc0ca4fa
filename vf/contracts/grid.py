"""Operands with horizontal and vertical edges only, for any coordinates.

Coordinates are known by their order only: numbers below support comparisons
and signs of products of differences, everything else is refused.  Hence a run
covers all coordinates in that order, and running all orders covers all
coordinates.  Crossings of edges are given by their contract (P01): the point
on both edges.
"""

import itertools

from .. import bool_spec as bo, bounded, bridge, engine, gen, oracle as o, valid
from ..engine import Refuted, Skip, Unsupported
from ..tri_spec import LOC
from .common import Contract

_DONE = {}
DOC = 'operands of axis-parallel edges with any coordinates'


class Coordinate:
    """One of the ordered values on an axis"""

    __slots__ = 'axis', 'rank'

    def __init__(self, axis, rank):
        self.axis = axis
        self.rank = rank

    num = None  # not a plain number

    def _difference(self, other):
        if not isinstance(other, Coordinate) or other.axis != self.axis:
            raise Unsupported('coordinates of different axes')
        if isinstance(other, Beyond):
            return -other._difference(self)
        return (self.rank > other.rank) - (self.rank < other.rank)

    def __sub__(self, other):
        if not isinstance(other, Coordinate):
            return self._moved(other, -1)
        return Sign(self._difference(other))

    def __add__(self, other):
        if isinstance(other, Coordinate):
            raise Unsupported('a sum of coordinates')
        return self._moved(other, 1)

    def _moved(self, other, direction):
        if isinstance(other, Sign):
            sign = other.sign
        elif type(other) is int:
            sign = (other > 0) - (other < 0)
        else:
            raise Unsupported('arithmetic on coordinates')
        return Beyond(self, sign * direction, other) if sign else self

    def __eq__(self, other):
        return self._difference(other) == 0

    def __ne__(self, other):
        return self._difference(other) != 0

    def __lt__(self, other):
        return self._difference(other) < 0

    def __le__(self, other):
        return self._difference(other) <= 0

    def __gt__(self, other):
        return self._difference(other) > 0

    def __ge__(self, other):
        return self._difference(other) >= 0

    def __hash__(self):
        return hash((self.axis, self.rank))

    def _no(self, *_):
        raise Unsupported('arithmetic on coordinates')

    __radd__ = __mul__ = __rmul__ = __truediv__ = __neg__ = _no
    __rsub__ = __rtruediv__ = __bool__ = __abs__ = __pow__ = _no


class Beyond(Coordinate):
    """A value before or after a coordinate"""

    __slots__ = 'sign', 'delta'

    def __init__(self, base, sign, delta):
        if isinstance(base, Beyond):
            raise Unsupported('arithmetic on coordinates')
        super().__init__(base.axis, base.rank)
        self.sign = sign
        self.delta = delta

    def _difference(self, other):
        if not isinstance(other, Coordinate) or other.axis != self.axis:
            raise Unsupported('coordinates of different axes')
        if isinstance(other, Beyond):
            if other.rank == self.rank and other.sign == self.sign and (
                other.delta is self.delta
            ):
                return 0
            if other.sign == self.sign:
                raise Unsupported('comparison of unknown coordinates')
        if (self.rank - other.rank) * self.sign < 0:
            raise Unsupported('comparison of unknown coordinates')
        return self.sign

    def __hash__(self):
        raise Unsupported('hash of an unknown coordinate')

    def _moved(self, other, direction):
        raise Unsupported('arithmetic on coordinates')


class Sign:
    """A number whose sign only is known"""

    __slots__ = ('sign',)

    def __init__(self, sign):
        self.sign = sign

    num = None

    @staticmethod
    def _of(v):
        if isinstance(v, Sign):
            return v.sign
        if v == 0:
            return 0
        raise Unsupported('a number of unknown size')

    def __mul__(self, other):
        return Sign(self.sign * self._of(other))

    __rmul__ = __mul__

    def __neg__(self):
        return Sign(-self.sign)

    def __add__(self, other):
        a, b = self.sign, self._of(other)
        if a * b < 0:
            raise Unsupported('a sum of unknown sign')
        return Sign(a or b)

    __radd__ = __add__

    def __sub__(self, other):
        return self + -(other if isinstance(other, Sign) else Sign(
            self._of(other)
        ))

    def __rsub__(self, other):
        return -(self - other)

    def _compare(self, other):
        a, b = self.sign, self._of(other)
        if a == b and a:
            raise Unsupported('a comparison of unknown numbers')
        return (a > b) - (a < b)

    def __eq__(self, other):
        return self._compare(other) == 0

    def __ne__(self, other):
        return self._compare(other) != 0

    def __lt__(self, other):
        return self._compare(other) < 0

    def __le__(self, other):
        return self._compare(other) <= 0

    def __gt__(self, other):
        return self._compare(other) > 0

    def __ge__(self, other):
        return self._compare(other) >= 0

    def __bool__(self):
        return self.sign != 0

    __hash__ = None

    def _no(self, *_):
        raise Unsupported('arithmetic on signs')

    __truediv__ = __rtruediv__ = __abs__ = __pow__ = _no


def _cross(a, b, c, d, /):
    """The point on an upright and on a level edge"""
    if a.x == b.x:
        if c.y != d.y:
            raise Unsupported('crossing of these edges')
        return type(a)(a.x, c.y)
    if a.y != b.y or c.x != d.x:
        raise Unsupported('crossing of these edges')
    return type(a)(c.x, a.y)


class Scale:
    """Place of a crossing along a segment: equal for equal points"""

    def __init__(self, on, point):
        self.key = on, point

    def __eq__(self, other):
        if not isinstance(other, Scale) or other.key[0] != self.key[0]:
            raise Unsupported('comparison of places along segments')
        return self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def _no(self, *_):
        raise Unsupported('arithmetic on places along segments')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __neg__ = __lt__ = __le__ = __bool__ = _no
    __gt__ = __ge__ = _no


def _scale(a, b, c, d, /):
    return Scale((a, b), _cross(a, b, c, d))


class abstract_numbers:
    """Let the library keep the numbers above; crossings by contract"""

    def __enter__(self):
        import sys

        from rene import exact
        from rithm.fraction import Fraction

        def make(*args):
            if len(args) == 1 and isinstance(args[0], (Coordinate, Sign)):
                return args[0]
            return Fraction(*args)

        self.saved = []
        for name, mod in list(sys.modules.items()):
            if name == 'rene' or name.startswith('rene.'):
                for k, v in list(vars(mod).items()):
                    if v is Fraction or getattr(v, 'vf_number', False):
                        self.saved.append((mod, k, v))
                        setattr(mod, k, make)
        context = exact.Segment._context
        for name, f in (('_segments_intersector', _cross),
                        ('_segments_intersection_scale', _scale)):
            self.saved.append((context, name, getattr(context, name)))
            setattr(context, name, f)

    def __exit__(self, *exc):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


def lifted(g):
    return gen.transform(
        g, lambda p: (Coordinate(0, p[0]), Coordinate(1, p[1]))
    )


def lowered(g):
    def f(p):
        if not all(type(v) is Coordinate for v in p):
            raise Unsupported('a coordinate that is not an input')
        return (p[0].rank, p[1].rank)

    return gen.transform(g, f)


def cases_of(run, check, cases):
    """Contract body: ``run`` on abstract numbers and ``check`` on integers

    ``run(case)`` returns a text if the postcondition fails; ``check(case)``
    does the same for the real numbers given by the ranks (to find an input).
    """
    key = object()

    def body(c):
        if not c.symbolic and key in _DONE:
            r = _DONE.pop(key)
            if isinstance(r, BaseException):
                raise r
            return r
        try:
            r = once()
        except (Exception, Skip) as e:  # noqa: BLE001
            _DONE[key] = e
            raise
        if c.symbolic:
            _DONE[key] = r
        return r

    def once():
        for case in cases():
            try:
                with abstract_numbers():
                    text = run(case)
            except Unsupported:
                raise
            except Exception as e:  # noqa: BLE001
                again = _real(check, case)
                if again:
                    return Refuted(f'{again} ({case})', repr(case))
                raise
            if text:
                again = _real(check, case)
                if again:
                    return Refuted(f'{again} ({case})', repr(case))
                return f'{text} ({case})'
        return None

    return body


def _real(check, case):
    try:
        return check(case)
    except Exception as e:  # noqa: BLE001
        if bounded.in_library(e.__traceback__):
            return f'raised {engine.describe(e)}'
        return None


# ------------------------------------------------------------------- operands
def slots(values):
    """Positions relative to given values, as multiples of 1/2 from them"""
    v = sorted(values)
    return [v[0] - 1] + [
        x for a, b in zip(v, v[1:]) for x in (a, (a + b) / 2)
    ] + [v[-1], v[-1] + 1]


def intervals(n):
    """(first, second): pairs of first < second relative to 0 < ... < n - 1

    Ranks are doubled; both may be between the same values.
    """
    res = []
    k = 4
    at = [k * i for i in range(n)]
    gaps = [(k * i - k // 2) for i in range(n + 1)]
    places = sorted(at + gaps)
    for a, b in itertools.combinations(places, 2):
        res.append((a, b))
    for g in gaps:
        res.append((g, g + 1))
    return res


def box(x1, x2, y1, y2):
    return ((x1, y1), (x2, y1), (x2, y2), (x1, y2))


def region(cells):
    """Geometry of a set of unit cells: polygon or multipolygon

    Edges have the cell on the left; at a vertex of two cells touching there
    the cell is followed, loops that are closed at a vertex are cut off.
    """
    cells = set(cells)
    if not cells:
        return None
    component = {}
    for start in sorted(cells):
        if start in component:
            continue
        todo = [start]
        while todo:
            x, y = todo.pop()
            if (x, y) in component:
                continue
            component[x, y] = start
            todo += [
                p for p in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1))
                if p in cells
            ]
    edges = {}
    for x, y in cells:
        for p, q, other in (
            ((x, y), (x + 1, y), (x, y - 1)),
            ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
            ((x + 1, y + 1), (x, y + 1), (x, y + 1)),
            ((x, y + 1), (x, y), (x - 1, y)),
        ):
            if other not in cells:
                edges[p, q] = (x, y)
    left = dict(edges)
    rings = []
    while left:
        (p, q), cell = min(left.items())
        walk = [p]
        first = p, q
        while True:
            walk.append(q)
            del left[p, q]
            if (p, q) != first and q == first[0] and not [
                e for e in left if e[0] == q and left[e] == cell
            ]:
                break
            out = [e for e in left if e[0] == q]
            if not out:
                break
            if len(out) > 1:
                # turn left around the same cell
                d = (q[0] - p[0], q[1] - p[1])
                turn = (q[0] - d[1], q[1] + d[0])
                out = [e for e in out if e[1] == turn]
            (p, q) = out[0]
            cell = left[p, q]
        # cut loops off
        stack = []
        for v in walk:
            if v in stack:
                i = stack.index(v)
                rings.append((component[cell], tuple(stack[i:])))
                del stack[i + 1:]
            else:
                stack.append(v)
    borders = {}
    holes = {}
    for comp, vs in rings:
        vs = shrunk(vs)
        if o.signed_area2(vs) > 0:
            assert comp not in borders
            borders[comp] = vs
        else:
            holes.setdefault(comp, []).append(vs)
    parts = tuple((b, tuple(holes.get(k, ()))) for k, b in borders.items())
    return ('P', parts[0]) if len(parts) == 1 else ('MP', parts)


def shrunk(vs):
    n = len(vs)
    return tuple(
        vs[i] for i in range(n)
        if o.cross(vs[i - 1], vs[i], vs[(i + 1) % n])
    )


def regions(w, h, dx=0, dy=0):
    all_cells = [(x + dx, y + dy) for x in range(w) for y in range(h)]
    for k in range(1, 1 << len(all_cells)):
        yield region([c for i, c in enumerate(all_cells) if k >> i & 1])


def edge_sets(w, h):
    """Multisegments of unit edges of a grid"""
    es = [
        ((x, y), (x + 1, y)) for x in range(w) for y in range(h + 1)
    ] + [((x, y), (x, y + 1)) for x in range(w + 1) for y in range(h)]
    for k in range(1, 1 << len(es)):
        some = tuple(e for i, e in enumerate(es) if k >> i & 1)
        yield ('M', some) if len(some) > 1 else ('S', some[0])


def axis_segments(n):
    """Level and upright segments relative to n lines in both directions"""
    k = 4
    places = [k * i for i in range(n)] + [k * i - k // 2 for i in range(n + 1)]
    for a, b in intervals(n):
        for v in places:
            yield ('S', ((a, v), (b, v)))
            yield ('S', ((v, b), (v, a)))


def stretched(g, k=4):
    return gen.transform(g, lambda p: (k * p[0], k * p[1]))


def boxes(n):
    for x in intervals(n):
        for y in intervals(n):
            yield box(*x, *y)


def pales(n):
    """Upright segments in a row"""
    every = [((2 * i + 1, -1), (2 * i + 1, 1)) for i in range(n)]
    for k in range(2, n + 1):
        for some in itertools.combinations(every, k):
            yield ('M', some)


def bars(n):
    for g in pales(n):
        yield gen.transform(g, lambda p: p[::-1])


def islands():
    """Squares in the cells of two rows"""
    for g in regions(4, 2):
        if g[0] == 'MP':
            yield g


def line_sets(n):
    """Sets of parts of a line between ``n`` of its points"""
    def after(i):
        yield ()
        for a in range(i, n - 1):
            for b in range(a + 1, n):
                for more in after(b):
                    yield ((a, b), *more)

    for some in after(0):
        if some:
            yield some


def _linear(segs, k=0):
    """``segs`` as a segment or a multisegment, in an order given by ``k``"""
    segs = [s[::-1] if (i + k) % 3 == 1 else s for i, s in enumerate(segs)]
    k %= len(segs)
    segs = tuple(segs[k:] + segs[:k])
    return ('M', segs) if len(segs) > 1 else ('S', segs[0])


ABOVE = ((3, 20), (3, 21)), ((2, 20), (9, 20))
BELOW = ((3, -21), (3, -20)), ((1, -20), (1, -19))
AFTER = ((30, 0), (31, 0)), ((30, 5), (30, 6))
BEFORE = ((-31, 0), (-30, 0)), ((-30, -5), (-29, -5))


def _subsets(items):
    for k in range(len(items) + 1):
        yield from itertools.combinations(items, k)


def spread(n, upright=False):
    """Parts of a line, with and without others around them"""
    k = 0
    firsts = list(_subsets((BELOW[0], BEFORE[0], ABOVE[1])))
    seconds = list(_subsets((ABOVE[0], AFTER[0], BELOW[1])))
    for i, a in enumerate(line_sets(n)):
        a = tuple(((2 * p, 0), (2 * q, 0)) for p, q in a)
        for b in line_sets(n):
            b = tuple(((2 * p, 0), (2 * q, 0)) for p, q in b)
            for more in firsts:
                for others in seconds:
                    k += 1
                    if n > 3 and k % 7:
                        continue
                    if len(a + more) + len(b + others) < 3:
                        continue
                    x = _linear(a + more, k)
                    y = _linear(b + others, k // 2)
                    if upright:
                        x, y = (
                            gen.transform(g, lambda p: p[::-1])
                            for g in (x, y)
                        )
                    yield x, y


def lines(n):
    """Parts of one line"""
    for i, a in enumerate(line_sets(n)):
        for j, b in enumerate(line_sets(n)):
            if len(a) + len(b) < 3:
                continue
            yield (
                _linear([((p, 0), (q, 0)) for p, q in a], i + j),
                _linear([((p, 0), (q, 0)) for p, q in b], i),
            )


def _around(parts):
    """Squares around a row of cells"""
    return [((box(x, x + 1, y, y + 1)), ()) for x, y in parts]


def spread_cells(w):
    """A row of cells, with and without others around it"""
    firsts = list(_subsets(_around(((1, -9), (-9, 0), (0, 9)))))
    seconds = list(_subsets(_around(((1, 8), (9, 0), (0, -8)))))
    k = 0
    for a in regions(w, 1):
        for b in regions(w, 1):
            for more in firsts:
                for others in seconds:
                    k += 1
                    if k % (5 if w < 4 else 11):
                        continue
                    yield _shaped_of(a, more, k), _shaped_of(b, others, k // 2)


def _shaped_of(g, more, k):
    polys = [*([g[1]] if g[0] == 'P' else g[1]), *more]
    if len(polys) == 1:
        return ('P', polys[0])
    k %= len(polys)
    return ('MP', tuple(polys[k:] + polys[:k]))


def spread_mixed(n, w):
    firsts = list(_subsets((BELOW[0], BEFORE[0], ABOVE[1])))
    seconds = list(_subsets(_around(((1, 8), (19, 0), (0, -8)))))
    k = 0
    for a in line_sets(n):
        for level in (0, 1, 2):
            segs = tuple(((p, level), (q, level)) for p, q in a)
            for b in regions(w, 1):
                b = stretched(b, 2)
                for more in firsts:
                    for others in seconds:
                        k += 1
                        if k % (7 if n < 5 else 29):
                            continue
                        if len(segs + more) == 1:
                            continue
                        yield (
                            _linear(segs + more, k),
                            _shaped_of(b, others, k // 2),
                        )


RING = region([
    (0, 0), (1, 0), (2, 0), (0, 1), (2, 1), (0, 2), (1, 2), (2, 2),
])
STEP = region([(0, 0), (1, 0), (1, 1)])
PAIR = region([(0, 0), (1, 1)])
FULL = region([(x, y) for x in range(2) for y in range(2)])
CHESS = region([(0, 0), (1, 1), (2, 0), (0, 2), (2, 2)])
CROSS = region([(1, 0), (0, 1), (1, 1), (2, 1), (1, 2)])
NOTCH = region([(0, 0), (1, 0), (2, 0), (0, 1), (2, 1), (1, 2)])
LADDER = ('M', (
    ((0, 0), (0, 1)), ((1, 0), (1, 1)), ((2, 0), (2, 1)), ((0, 1), (1, 1)),
))
STAR = ('M', (
    ((0, 1), (1, 1)), ((1, 1), (2, 1)), ((1, 0), (1, 1)), ((1, 1), (1, 2)),
))


# ------------------------------------------------------------ the obligations
def _run_op(case):
    a, b, op = case
    x, y = bridge.to_rene(lifted(a)), bridge.to_rene(lifted(b))
    r = lowered(bridge.from_rene(bo.OPS[op](x, y)))
    if lowered(bridge.from_rene(x)) != a or lowered(bridge.from_rene(y)) != b:
        return 'operands were changed'
    return bo.wrong_result(a, b, op, r) or bo.invalid_geometry(r, a, b)


def _run_relation(case):
    a, b = case
    x, y = bridge.to_rene(lifted(a)), bridge.to_rene(lifted(b))
    want = o.relation(a, b)
    got = x.relate_to(y).name
    if got != want:
        return f'relation is {got}, expected {want}'
    back = y.relate_to(x).name
    if back != bo.COMPLEMENT[want]:
        return f'reversed relation is {back}'
    return None


def operation(pairs, op, part):
    return cases_of(
        _run_op, bo.check_op, lambda: itertools.islice((
            (a, b, op) for a, b in pairs()
            # not supported for segments
            if not (op == 'sub' and a[0] == 'S' and b[0] in o.SHAPED)
        ), part[0], None, part[1])
    )


def relation(pairs, part):
    return cases_of(
        _run_relation, bo.check_relation,
        lambda: itertools.islice(pairs(), part[0], None, part[1]),
    )


# obligations of many cases are given in parts
PARTS = {
    'edges': 24, 'edges_pair': 8, 'edges_full': 8, 'ring_rectangle': 6,
    'step_rectangle': 2, 'ring_cells': 3, 'cells_chess': 3, 'cross_cells': 3,
    'cells_notch': 3, 'pair_rectangle': 2, 'contour_step': 2,
    'star_contours': 2, 'rows': 12, 'long_row': 12,
    'more_spread': 8, 'more_spread_upright': 8, 'long_line': 24,
}


def _parts(name):
    n = PARTS.get(name, 1)
    return [((i, n), f'_{i + 1}' if n > 1 else '') for i in range(n)]


def with_first(a, others):
    return lambda: ((a, b) for b in others())


def with_second(others, b):
    return lambda: ((a, b) for a in others())


# ---------------------------------------------------------- pairs of operands
def polygon_boxes(n):
    return lambda: (('P', (b, ())) for b in boxes(n))


def contour_boxes(n):
    return lambda: (('C', b) for b in boxes(n))


def cells(w, h):
    return lambda: regions(w, h)


UNIT = box(0, 4, 0, 4)
SHAPED = {
    # any two rectangles
    'rectangles': with_first(('P', (UNIT, ())), polygon_boxes(2)),
    # any rectangle against a step of three cells of any size
    'step_rectangle': with_first(stretched(STEP), polygon_boxes(3)),
    # any two sets of cells of a grid of two by two lines of any place
    'cells': lambda: itertools.product(regions(2, 2), regions(2, 2)),
    'ring_cells': with_first(RING, cells(3, 3)),
    'cells_chess': with_second(cells(3, 3), CHESS),
    'cross_cells': with_first(CROSS, cells(3, 3)),
    'cells_notch': with_second(cells(3, 3), NOTCH),
    'ring_rectangle': with_first(stretched(RING), polygon_boxes(4)),
    'pair_rectangle': with_first(stretched(PAIR), polygon_boxes(3)),
    # parts next to each other, touching or apart
    'row': lambda: itertools.product(regions(4, 1), regions(4, 1)),
    'column': lambda: itertools.product(regions(1, 4), regions(1, 4)),
    'rows': lambda: itertools.product(
        regions(4, 2), itertools.islice(islands(), 0, None, 4)
    ),
    'long_row': lambda: itertools.product(regions(6, 1), regions(6, 1)),
    # the same with others around them
    'spread': lambda: spread_cells(3),
    'more_spread': lambda: spread_cells(4),
}
SHAPED_QUICK = {
    'and': ('rectangles', 'cells', 'row', 'column', 'cells_notch',
            'spread'),
    'or': ('rectangles', 'cells', 'row', 'column', 'ring_cells',
            'spread'),
    'sub': ('rectangles', 'cells', 'row', 'column', 'cross_cells',
            'spread'),
    'xor': ('rectangles', 'cells', 'row', 'column', 'cells_chess',
            'spread'),
    None: ('rectangles', 'cells', 'row', 'column', 'ring_cells',
           'pair_rectangle', 'spread'),
}
LINEAR = {
    # any two rectangular contours
    'contours': with_first(('C', UNIT), contour_boxes(2)),
    # any axis-parallel segment against such a contour
    'contour_segments': with_first(('C', UNIT), lambda: axis_segments(2)),
    'segments_star': with_second(lambda: axis_segments(3), stretched(STAR)),
    'edges_contour': with_second(
        lambda: edge_sets(2, 1), ('C', box(0, 2, 0, 1))
    ),
    'star_edges': with_first(STAR, lambda: edge_sets(2, 1)),
    'edges_ladder': with_second(lambda: edge_sets(2, 1), LADDER),
    'ladder_edges': with_first(LADDER, lambda: edge_sets(2, 1)),
    'edges': lambda: itertools.product(edge_sets(2, 1), edge_sets(2, 1)),
    'star_contours': with_first(stretched(STAR), contour_boxes(3)),
    # parts of one line
    'line': lambda: lines(5),
    'long_line': lambda: lines(7),
    # parts of one line with others around them
    'spread': lambda: spread(3),
    'spread_upright': lambda: spread(3, True),
    'more_spread': lambda: spread(5),
    'more_spread_upright': lambda: spread(5, True),
}
LINEAR_QUICK = {
    'and': ('contours', 'contour_segments', 'star_edges', 'edges_ladder',
            'line', 'spread', 'spread_upright'),
    'or': ('contours', 'contour_segments', 'edges_contour', 'ladder_edges',
            'line', 'spread', 'spread_upright'),
    'sub': ('contours', 'contour_segments', 'edges_ladder', 'star_edges',
            'line', 'spread', 'spread_upright'),
    'xor': ('contours', 'contour_segments', 'ladder_edges', 'edges_contour',
            'line', 'spread', 'spread_upright'),
    None: ('contours', 'contour_segments', 'segments_star', 'edges_contour',
           'star_edges', 'edges_ladder', 'ladder_edges', 'line', 'spread',
           'spread_upright'),
}
MIXED = {
    'segment_rectangle': with_second(
        lambda: axis_segments(2), ('P', (UNIT, ()))
    ),
    'segment_step': with_second(lambda: axis_segments(3), stretched(STEP)),
    'segment_pair': with_second(lambda: axis_segments(3), stretched(PAIR)),
    'segment_ring': with_second(lambda: axis_segments(4), stretched(RING)),
    'contour_rectangle': with_second(contour_boxes(2), ('P', (UNIT, ()))),
    'contour_step': with_second(contour_boxes(3), stretched(STEP)),
    'edges_cells': lambda: itertools.product(
        edge_sets(2, 1), regions(2, 1)
    ),
    'star_cells': with_first(STAR, cells(2, 2)),
    'pales_row': lambda: itertools.product(
        pales(4), (stretched(g, 2) for g in regions(4, 1))
    ),
    'bars_column': lambda: itertools.product(
        bars(4), (stretched(g, 2) for g in regions(1, 4))
    ),
    'edges_pair': with_second(lambda: edge_sets(2, 2), PAIR),
    'edges_full': with_second(lambda: edge_sets(2, 2), FULL),
    'spread': lambda: spread_mixed(4, 2),
    'more_spread': lambda: spread_mixed(5, 3),
}
MIXED_QUICK = {
    'and': ('segment_rectangle', 'segment_pair', 'contour_rectangle',
            'edges_cells', 'star_cells', 'pales_row', 'bars_column',
            'spread'),
    'sub': ('contour_rectangle', 'contour_step',
            'edges_cells', 'star_cells', 'pales_row', 'bars_column',
            'spread'),
    None: ('segment_rectangle', 'segment_step', 'segment_pair',
           'segment_ring', 'contour_rectangle', 'edges_cells', 'star_cells',
           'pales_row', 'bars_column', 'spread'),
}


def _ops(table, quick, targets, ops, flip=False):
    res = []
    for op in ops:
        for name, pairs in table.items():
            if flip:
                def pairs(f=pairs):
                    return ((b, a) for a, b in f())
            for part, suffix in _parts(name):
                res.append(Contract(
                    f'grid_{name}{"_flipped" if flip else ""}_{op}{suffix}',
                    targets, operation(pairs, op, part), kind='shape',
                    public=False, thorough=name not in quick[op], doc=DOC,
                ))
    return res


def _relations(table, quick, targets):
    return [
        Contract(
            f'grid_{name}{suffix}', targets, relation(pairs, part),
            kind='shape', public=False, thorough=name not in quick[None],
            doc=DOC,
        )
        for name, pairs in table.items() for part, suffix in _parts(name)
    ]


def p13():
    return _ops(
        SHAPED, SHAPED_QUICK, ['rene._clipping.shaped.Operation'],
        ('and', 'or', 'sub', 'xor'),
    )


def p14():
    return _ops(
        LINEAR, LINEAR_QUICK, ['rene._clipping.linear.Operation'],
        ('and', 'or', 'sub', 'xor'),
    )


def p15():
    t = ['rene._clipping.mixed.Operation']
    return _ops(MIXED, MIXED_QUICK, t, ('and', 'sub')) + _ops(
        MIXED, {'and': ('segment_step', 'star_cells')}, t, ('and',), True
    )


def p16():
    return _relations(
        LINEAR, LINEAR_QUICK, ['rene._relating.linear.Operation']
    )


def p17():
    return _relations(MIXED, MIXED_QUICK, ['rene._relating.mixed.Operation'])


def p18():
    return _relations(
        SHAPED, SHAPED_QUICK, ['rene._relating.shaped.Operation']
    )


# --------------------------------------------------------------- one operand
def _probes(g):
    pts = [p for e in o.edges_of(g) for p in e]
    xs = range(min(p[0] for p in pts) - 1, max(p[0] for p in pts) + 2)
    ys = range(min(p[1] for p in pts) - 1, max(p[1] for p in pts) + 2)
    return itertools.product(xs, ys)


def _located(locate, contains, g, point):
    for p in _probes(g):
        want = LOC[o.locate(g, p)]
        got = locate(point(p)).name
        if got != want:
            return f'locate({p}) is {got}, expected {want}'
        if bool(contains(point(p))) is not (want != 'EXTERIOR'):
            return f'{p} in the geometry'
    return None


def _abstract_point(p):
    from rene import exact as e

    return e.Point(Coordinate(0, p[0]), Coordinate(1, p[1]))


def _plain_point(p):
    from rene import exact as e

    return e.Point(*p)


def _run_location(g):
    x = bridge.to_rene(lifted(g))
    return _located(x.locate, x.__contains__, g, _abstract_point)


def _check_location(g):
    x = bridge.to_rene(g)
    return _located(x.locate, x.__contains__, g, _plain_point)


def _trapezoidation(g, seed):
    from rene import exact as e

    make = (
        e.Trapezoidation.from_multisegment
        if type(g) is e.Multisegment else e.Trapezoidation.from_polygon
    )
    return make(g, seeder=lambda: seed)


def _run_trapezoidation(case):
    g, seed = case
    t = _trapezoidation(bridge.to_rene(lifted(g)), seed)
    return _located(t.locate, t.__contains__, g, _abstract_point)


def _check_trapezoidation(case):
    g, seed = case
    t = _trapezoidation(bridge.to_rene(g), seed)
    return _located(t.locate, t.__contains__, g, _plain_point)


def _run_validity(g):
    got = bridge.to_rene(lifted(g)).is_valid()
    want = valid.valid(g)
    return None if got is want else f'is_valid() is {got}, expected {want}'


def _check_validity(g):
    got = bridge.to_rene(g).is_valid()
    want = valid.valid(g)
    return None if got is want else f'is_valid() is {got}, expected {want}'


def _singles(name, targets, run, check, cases, parts=1, thorough=False):
    return [
        Contract(
            f'grid_{name}' + (f'_{i + 1}' if parts > 1 else ''), targets,
            cases_of(run, check, lambda i=i: itertools.islice(
                cases(), i, None, parts
            )),
            kind='shape', public=False, thorough=thorough, doc=DOC,
        )
        for i in range(parts)
    ]


def _shaped(kind):
    return lambda: (
        stretched(g, 2) for g in regions(3, 3) if g[0] == kind
    )


def _contours():
    for g in regions(3, 3):
        if g[0] == 'P':
            for vs in (g[1][0], *g[1][1]):
                yield ('C', stretched(('C', vs), 2)[1])


def _multisegments(w, h):
    return lambda: (
        stretched(g, 2) for g in edge_sets(w, h) if g[0] == 'M'
    )


def p09():
    return _singles(
        'contours', ['rene.exact.Contour.locate'], _run_location,
        _check_location, _contours,
    ) + _singles(
        'edges', ['rene.exact.Multisegment.locate'], _run_location,
        _check_location, _multisegments(2, 1),
    )


def p10():
    return _singles(
        'polygons', ['rene.exact.Polygon.locate'], _run_location,
        _check_location, _shaped('P'), 3,
    ) + _singles(
        'multipolygons', ['rene.exact.Multipolygon.locate'], _run_location,
        _check_location, _shaped('MP'), 3,
    )


def p22():
    t = ['rene._seidel.trapezoidation']

    def seeded(make, n):
        return lambda: (
            (g, 7 * i + 5 * k) for i, g in enumerate(make())
            for k in range(n)
        )

    res = []
    for name, make, parts in (
        ('polygons', _shaped('P'), 4), ('edges', _multisegments(2, 1), 2),
        ('more_edges', _multisegments(2, 2), 16),
    ):
        res += _singles(
            f'{name}_any', t, _run_trapezoidation, _check_trapezoidation,
            seeded(make, 3 if parts < 16 else 1), parts, parts > 15,
        )
    res += _singles(
        'polygons_many', t, _run_trapezoidation, _check_trapezoidation,
        seeded(_shaped('P'), 40), 24, True,
    )
    return res


def _sticks(n, k):
    """Sets of ``k`` level and upright segments between the points of a grid"""
    pairs = list(itertools.combinations(range(n), 2))
    every = [((a, v), (b, v)) for a, b in pairs for v in range(n)] + [
        ((v, b), (v, a)) for a, b in pairs for v in range(n)
    ]
    return lambda: (
        ('M', ss)
        for ss in itertools.combinations_with_replacement(every, k)
    )


def _walks(w, h, n):
    """Closed sequences of ``n`` points, each on a line with the next one"""
    pts = list(itertools.product(range(w), range(h)))

    def go(vs):
        last = vs[-1]
        if len(vs) == n:
            if (last[0] == vs[0][0]) != (last[1] == vs[0][1]):
                yield ('C', tuple(vs))
            return
        for p in pts:
            if (p[0] == last[0]) != (p[1] == last[1]):
                yield from go([*vs, p])

    return lambda: (g for p in pts for g in go([p]))


def p19():
    c = ['rene.exact.Contour.is_valid', 'rene._bentley_ottmann.base.sweep']
    m = ['rene.exact.Multisegment.is_valid', c[1]]
    res = []
    for name, cases, parts, th in (
        ('sticks_4_2', _sticks(4, 2), 1, False),
        ('sticks_3_3', _sticks(3, 3), 2, False),
        ('sticks_3_4', _sticks(3, 4), 8, True),
        ('sticks_4_3', _sticks(4, 3), 16, True),
    ):
        res += _singles(
            name, m, _run_validity, _check_validity, cases, parts, th
        )
    for name, cases, parts, th in (
        ('walks_3_3_4', _walks(3, 3, 4), 1, False),
        ('walks_3_2_6', _walks(3, 2, 6), 1, False),
        ('walks_3_3_6', _walks(3, 3, 6), 4, False),
        ('walks_3_2_8', _walks(3, 2, 8), 8, True),
        ('walks_3_3_8', _walks(3, 3, 8), 48, True),
    ):
        res += _singles(
            name, c, _run_validity, _check_validity, cases, parts, th
        )
    return res
