"""Postconditions for points, boxes, predicates, views and empties."""

import copy
import itertools
import pickle
import re
from fractions import Fraction as Q

from . import bridge, oracle as o
from .bool_spec import COMPLEMENT
from .tri_spec import LOC


# ---------------------------------------------------------------- numbers
def number(rng):
    k = rng.random()
    if k < 0.35:
        return rng.randint(-3, 3)
    if k < 0.55:
        return Q(rng.randint(-9, 9), rng.randint(1, 9))
    if k < 0.7:
        return rng.randint(-8, 8) / 8
    if k < 0.8:
        return rng.uniform(-1, 1)
    if k < 0.9:
        return rng.choice((-1, 1)) * (10**18 + rng.randint(-2, 2))
    if k < 0.93:
        # not representable as floats
        return Q(rng.randint(-9, 9), 10**400 + rng.randint(0, 1))
    if k < 0.95:
        return rng.choice((-1, 1)) * (10**400 + rng.randint(-2, 2))
    return Q(rng.randint(-9, 9) * 10**20 + rng.randint(-1, 1), 10**20 + 7)


def exact(v):
    v = Q(v)
    return v


# ----------------------------------------------------------------- points
def check_points(case):
    from rene.exact import Point

    ps = [Point(*c) for c in case]
    vs = [(exact(x), exact(y)) for x, y in case]
    for p, v in zip(ps, vs):
        if (Q(bridge.q(p.x)), Q(bridge.q(p.y))) != v:
            return f'coordinates of {p!r}, expected {v}'
        if (p == v) or not (p != v) or p == None:  # noqa: E711
            return 'equal to a non-point'
        for f in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__'):
            if getattr(p, f)(v) is not NotImplemented:
                return f'{f} accepts a tuple'
    for (p, v), (q, w) in itertools.product(zip(ps, vs), repeat=2):
        got = (p < q, p <= q, p > q, p >= q, p == q, p != q)
        want = (v < w, v <= w, v > w, v >= w, v == w, v != w)
        if got != want:
            return f'comparisons of {v} and {w} are {got}, expected {want}'
        if v == w and hash(p) != hash(q):
            return f'equal points {v} with different hashes'
    got = [bridge.from_point(p) for p in sorted(ps)]
    if got != sorted(vs):
        return f'sorted into {got}'
    if len(set(ps)) != len(set(vs)):
        return 'wrong count of distinct points in a set'
    return None


# ------------------------------------------------------------------ boxes
BOX_METHODS = {
    'DISJOINT': 'disjoint_with',
    'TOUCH': 'touches',
    'OVERLAP': 'overlaps',
    'ENCLOSED': 'enclosed_by',
    'ENCLOSES': 'encloses',
    'EQUAL': 'equals_to',
    'COVER': 'covers',
    'WITHIN': 'within',
}


def box_spec(a, b):
    """name -> truth over (min_x, max_x, min_y, max_y) closed boxes"""
    disjoint = a[1] < b[0] or b[1] < a[0] or a[3] < b[2] or b[3] < a[2]
    inter = a[0] < b[1] and b[0] < a[1] and a[2] < b[3] and b[2] < a[3]

    def sub(p, q):
        return q[0] <= p[0] and p[1] <= q[1] and q[2] <= p[2] and p[3] <= q[3]

    def strict(p, q):
        return q[0] < p[0] and p[1] < q[1] and q[2] < p[2] and p[3] < q[3]

    return {
        'DISJOINT': disjoint,
        'TOUCH': not disjoint and not inter,
        'EQUAL': a == b,
        'WITHIN': strict(a, b),
        'COVER': strict(b, a),
        'ENCLOSED': sub(a, b) and a != b and not strict(a, b),
        'ENCLOSES': sub(b, a) and a != b and not strict(b, a),
        'OVERLAP': inter and not sub(a, b) and not sub(b, a),
    }


def proper(b):
    return b[0] < b[1] and b[2] < b[3]


def check_boxes(case):
    from rene.exact import Box

    a, b = case
    x, y = Box(*a), Box(*b)
    for p, v in ((x, a), (y, b)):
        got = tuple(bridge.q(c) for c in (p.min_x, p.max_x, p.min_y, p.max_y))
        if got != v:
            return f'sides {got}, expected {v}'
        want = v[0] <= v[1] and v[2] <= v[3]
        if p.is_valid() is not want:
            return f'is_valid() of {v} is {p.is_valid()}'
    if (x == y) is not (a == b) or (x != y) is not (a != b):
        return f'equality is {x == y}'
    if a == b and hash(x) != hash(y):
        return 'equal boxes with different hashes'
    if not (x.is_valid() and y.is_valid()):
        return None
    spec = box_spec(a, b)
    for k, m in BOX_METHODS.items():
        got = getattr(x, m)(y)
        if got is not spec[k]:
            return f'{m} is {got}, expected {spec[k]}'
    r = x.relate_to(y).name
    if proper(a) and proper(b):
        if not spec[r]:
            return f'relate_to is {r}'
        if y.relate_to(x).name != COMPLEMENT[r]:
            return f'reversed relation is {y.relate_to(x).name}'
    else:
        for k in ('DISJOINT', 'EQUAL'):
            if (r == k) is not spec[k]:
                return f'relate_to is {r}, {k} is {spec[k]}'
    return None


def all_boxes(n):
    iv = [(a, b) for a in range(n) for b in range(a, n)]
    return [(*x, *y) for x in iv for y in iv]


# ------------------------------------------------------------- predicates
def check_triangle_orientation(case):
    from rene.exact import Contour, Point

    vs = [(exact(x), exact(y)) for x, y in case]
    s = o.sgn(o.cross(*vs))
    if s == 0:
        return None
    want = 'COUNTERCLOCKWISE' if s > 0 else 'CLOCKWISE'
    got = Contour([Point(*v) for v in case]).orientation.name
    return None if got == want else f'orientation is {got}, expected {want}'


def check_crossing(case):
    """Proper crossing point is the solution of both line equations"""
    from rene.exact import Point, Segment

    a, b, c, d = case
    va, vb, vc, vd = [(exact(x), exact(y)) for x, y in case]
    m = o.meet((va, vb), (vc, vd))
    if m is None or m[0] != 'pt' or m[1] in (va, vb, vc, vd):
        return None
    s, t = Segment(Point(*a), Point(*b)), Segment(Point(*c), Point(*d))
    u = s | t
    ends = {}
    for q in u.segments:
        for p in (q.start, q.end):
            k = bridge.from_point(p)
            ends[k] = ends.get(k, 0) + 1
    if ends.get(m[1]) != 4:
        return f'crossing point {m[1]} is not the common end of all parts'
    return None


def check_line_location(case):
    from rene.exact import Point, Segment

    a, b, c = [(exact(x), exact(y)) for x, y in case]
    if a == b:
        return None
    want = o.on_segment(a, b, c)
    s = Segment(Point(*case[0]), Point(*case[1]))
    got = s.locate(Point(*case[2])).name
    if got != ('BOUNDARY' if want else 'EXTERIOR'):
        return f'locate is {got}, on segment: {want}'
    if (Point(*case[2]) in s) is not want:
        return 'membership differs from location'
    return None


def near_collinear(rng):
    """Three points collinear up to a tiny (or zero) exact perturbation"""
    a = (number(rng), number(rng))
    b = (number(rng), number(rng))
    t = Q(rng.randint(-4, 8), 4)
    c = tuple(Q(u) + (Q(v) - Q(u)) * t for u, v in zip(a, b))
    k = rng.random()
    if k < 0.5:
        e = Q(rng.choice((-1, 1)), rng.choice((1, 7, 10**6, 10**30)))
        c = (c[0] + e, c[1]) if rng.random() < 0.5 else (c[0], c[1] + e)
    ps = [a, b, c]
    rng.shuffle(ps)
    return tuple(ps)


# ------------------------------------------------------------------ views
def _same_view(view, items, make_slice=True):
    """A read-only sequence equal to the tuple ``items``"""
    items = tuple(items)
    n = len(items)
    if len(view) != n or tuple(view) != items:
        return f'elements {tuple(view)}'[:300]
    for i in range(-n, n):
        if view[i] != items[i]:
            return f'element {i}'
    for i in (n, -n - 1):
        try:
            view[i]
        except IndexError:
            pass
        else:
            return f'no IndexError for {i}'
    if tuple(reversed(view)) != items[::-1]:
        return 'reversed'
    for wrong, error in (
        (slice(None, None, 0), ValueError), (slice('0'), TypeError),
        ('0', TypeError), (0.0, TypeError), (None, TypeError),
        ((0, 1), TypeError),
    ):
        try:
            view[wrong]
        except error:
            pass
        else:
            return f'no {error.__name__} for {wrong!r}'
    ends = (None, -n - 1, -2, -1, 0, 1, n - 1, n, n + 1, 10**30)
    for sl in (
        slice(None), slice(1, None), slice(None, -1), slice(None, None, -1),
        slice(0, None, 2), slice(-2, None), slice(n, None), slice(2, 0, -1),
        *(
            slice(a, b, c) for a in ends for b in ends
            for c in (None, -3, -2, -1, 1, 2)
        ),
    ):
        sub = view[sl]
        if tuple(sub) != items[sl] or len(sub) != len(items[sl]):
            return f'slice {sl}'
        if type(sub) is not type(view):
            return f'type of slice {sl}'
        if (sub == view) is not (items[sl] == items):
            return f'equality with slice {sl}'
    for x in items:
        if x not in view or view.count(x) != items.count(x):
            return f'count of {x}'[:300]
        if view.index(x) != items.index(x):
            return f'index of {x}'[:300]
        for a in range(-1, n + 1):
            for b in (None, *range(-2, n + 2)):
                args = (a,) if b is None else (a, b)
                try:
                    want = items.index(x, *args)
                except ValueError:
                    want = None
                try:
                    got = view.index(x, *args)
                except ValueError:
                    got = None
                if got != want:
                    return f'index of {x} within {args}'[:300]
    if None in view or view.count(None):
        return 'contains None'
    try:
        view.index(None)
    except ValueError:
        pass
    else:
        return 'index of None'
    for name in ('append', '__setitem__', '__delitem__', 'extend', 'sort'):
        if hasattr(view, name):
            return f'has {name}'
    return None


def check_views(case):
    from rene import exact as e

    (g,) = case
    k = g[0]

    def pts(vs):
        return [e.Point(*v) for v in vs]

    def seg(s):
        return e.Segment(*pts(s))

    def views(obj, items, name):
        view = getattr(obj, name)
        bad = _same_view(view, items)
        if bad:
            return f'{name}: {bad}'
        again = getattr(obj, name)
        if not (view == again) or hash(view) != hash(again):
            return f'{name}: views of one geometry differ'
        if view == list(items):
            return f'{name}: equal to a list'
        try:
            type(view)(tuple(items), None)
        except (ValueError, TypeError):
            pass
        else:
            return f'{name}: view type can be instantiated'
        try:
            setattr(obj, name, ())
        except AttributeError:
            pass
        else:
            return f'{name}: can be assigned'
        return None

    def contour(vs):
        src = pts(vs)
        c = e.Contour(src)
        keep = list(src)
        src.reverse()
        src.pop()
        bad = views(c, keep, 'vertices')
        if bad:
            return None, bad
        want = {
            frozenset((keep[i - 1], keep[i])) for i in range(len(keep))
        }
        segs = list(c.segments)
        if len(segs) != len(keep) or {
            frozenset((s.start, s.end)) for s in segs
        } != want:
            return None, f'segments {segs}'[:300]
        starts = [s.start for s in segs]
        if any(s.end != t.start for s, t in zip(segs, segs[1:] + segs[:1])):
            return None, 'segments do not follow each other'
        if sorted(starts) != sorted(keep):
            return None, 'segments do not start at each vertex'
        bad = views(c, segs, 'segments')
        return c, bad

    if k == 'S':
        p, q = pts(g[1])
        s = e.Segment(p, q)
        if s.start != p or s.end != q:
            return 'end points'
        for name in ('start', 'end'):
            try:
                setattr(s, name, q)
            except AttributeError:
                pass
            else:
                return f'{name} can be assigned'
        return None
    if k == 'C':
        return contour(g[1])[1]
    if k == 'M':
        src = [seg(s) for s in g[1]]
        m = e.Multisegment(src)
        keep = list(src)
        src.clear()
        return views(m, keep, 'segments')

    def polygon(p):
        border, bad = contour(p[0])
        if bad:
            return None, f'border: {bad}'
        src = [e.Contour(pts(h)) for h in p[1]]
        r = e.Polygon(border, src)
        keep = list(src)
        src.clear()
        src.append(border)
        if r.border != border or list(r.border.vertices) != list(
            border.vertices
        ):
            return None, 'border'
        return r, views(r, keep, 'holes')

    if k == 'P':
        return polygon(g[1])[1]
    src = []
    for p in g[1]:
        r, bad = polygon(p)
        if bad:
            return bad
        src.append(r)
    m = e.Multipolygon(src)
    keep = list(src)
    src.reverse()
    src.pop()
    return views(m, keep, 'polygons')


def check_twins(case):
    """Equal but differently written geometries are told apart"""
    from rene import exact as e

    names = {k: v for k, v in vars(e).items() if not k.startswith('_')}
    made = [(g, bridge.to_rene(g)) for g in case]
    for g, x in made + made:
        got = bridge.from_rene(x)
        if got != g:
            return f'built from {g}, but is written as {got}'[:600]
        bad = check_views((g,))
        if bad:
            return f'{g}: {bad}'[:600]
        scope = dict(names)
        scope.update(Fraction=Q, Int=int)
        for text in (repr(x), str(x)):
            if text == str(x) != repr(x):
                # fractions have no literals
                text = _STR_FRACTION.sub(r'Fraction(\1, \2)', text)
            got = bridge.from_rene(eval(text, scope))
            if got != g:
                return f'{g} is represented as {text}'[:600]
    return None


_STR_FRACTION = re.compile(r'(-?\d+)/(\d+)')


def check_minimal_counts(case):
    """Too short sequences and subclassing are rejected"""
    from rene import exact as e

    (g,) = case
    pts = [e.Point(*v) for s in o.edges_of(g) for v in s]
    for cls, xs in (
        (e.Contour, pts[:2]),
        (e.Contour, pts[:1]),
        (e.Contour, []),
        (e.Multisegment, [e.Segment(*pts[:2])]),
        (e.Multisegment, []),
        (e.Multipolygon, []),
        (
            e.Multipolygon,
            [e.Polygon(e.Contour([e.Point(0, 0), e.Point(1, 0), e.Point(0, 1)]), [])],
        ),
    ):
        try:
            cls(xs)
        except ValueError:
            pass
        else:
            return f'{cls.__name__} of {len(xs)} elements'
    for name in (
        'Box', 'Contour', 'Empty', 'Multipolygon', 'Multisegment', 'Point',
        'Polygon', 'Segment', 'ConstrainedDelaunayTriangulation',
        'DelaunayTriangulation', 'Trapezoidation',
    ):
        try:
            type('Sub', (getattr(e, name),), {})
        except TypeError:
            pass
        else:
            return f'{name} can be subclassed'
    return None


# ---------------------------------------------------------------- empties
def check_empty(case):
    from rene.exact import Empty, Point

    g, p = case
    x, e = bridge.to_rene(g), Empty()
    for name, got, want in (
        ('x & empty', x & e, ('E',)),
        ('empty & x', e & x, ('E',)),
        ('x | empty', x | e, g),
        ('empty | x', e | x, g),
        ('x - empty', x - e, g),
        ('empty - x', e - x, ('E',)),
        ('x ^ empty', x ^ e, g),
        ('empty ^ x', e ^ x, g),
    ):
        if bridge.from_rene(got) != want:
            return f'{name} is {bridge.from_rene(got)}, expected {want}'
    want = 'EQUAL' if g[0] == 'E' else 'DISJOINT'
    for a, b in ((x, e), (e, x)):
        if a.relate_to(b).name != want:
            return f'relation with empty is {a.relate_to(b).name}'
    if e != Empty() or not e == Empty() or hash(e) != hash(Empty()):
        return 'empty geometries are not equal'
    if (e == x) is not (g[0] == 'E'):
        return 'equality with empty'
    q = Point(*p)
    if e.locate(q).name != 'EXTERIOR' or q in e:
        return 'location of point in empty'
    return None


def check_boundary_kind(case):
    """Empty and wrong-typed operands never give a geometry"""
    g, other = case
    x = bridge.to_rene(g)
    for f in ('__and__', '__or__', '__sub__', '__xor__'):
        if getattr(x, f)(other) is not NotImplemented:
            return f'{f} accepts {other!r}'
    return None
