"""Contracts of functions with loops, for sequences of any length."""

import contextlib

from .. import bridge, oracle as o
from ..engine import Unsupported
from ..induction import Rule
from .common import Contract, point, points, segment


@contextlib.contextmanager
def viewed(cls, obj, **views):
    """Public read-only views of one object give the sequences of the rule"""
    saved = {}
    for name, value in views.items():
        old = cls.__dict__.get(name)
        saved[name] = old

        def get(self, name=name, value=value, old=old):
            if self is obj:
                return value
            return old.__get__(self, cls)

        setattr(cls, name, property(get))
        if '_' + name in getattr(cls, '__slots__', ()):
            try:
                setattr(obj, '_' + name, value)
            except AttributeError:
                pass
    try:
        yield
    finally:
        for name, old in saved.items():
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)


def _point(p):
    from rene.exact import Point

    return Point(*p)


def _segment(s):
    from rene.exact import Segment

    return Segment(_point(s[0]), _point(s[1]))


# ---------------------------------------------------------------- locations
def linear_locate(name):
    def body(c):
        import rene.exact

        cls = getattr(rene.exact, name)
        p = point(c)
        q = _point(p)
        x = object.__new__(cls)

        def item(ctx, ghost):
            s = segment(ctx)
            return _segment(s), ghost or o.on_segment(*s, p)

        def call(seq):
            with viewed(cls, x, segments=seq):
                return x.locate(q).name

        rule = Rule(c, item, False, call, at_least=1)
        got = rule.run()
        if got == 'BOUNDARY':
            return None if rule.ghost else 'BOUNDARY off all segments'
        if got != 'EXTERIOR':
            return f'location {got}'
        if not rule.exhausted:
            return 'EXTERIOR before all segments were seen'
        return 'EXTERIOR on a segment' if rule.ghost else None

    body.__doc__ = f'{name}.locate with any number of any segments'
    return body


def region(c):
    """locate_point_in_region with any number of any edges: BOUNDARY on some
    edge, else INTERIOR iff a ray crosses an odd number of edges"""
    from rene._utils import locate_point_in_region
    from rene.exact import Contour

    p = point(c)
    q = _point(p)
    x = object.__new__(Contour)

    def item(ctx, ghost):
        on, odd = ghost
        (a, b) = s = segment(ctx)
        if o.on_segment(a, b, p):
            on = True
        elif (a[1] > p[1]) != (b[1] > p[1]):
            if (b[1] > a[1]) == (o.cross(a, b, p) > 0):
                odd = not odd
        return _segment(s), (on, odd)

    def call(seq):
        with viewed(Contour, x, segments=seq):
            return locate_point_in_region(x, q, Contour._context.orient).name

    rule = Rule(c, item, (False, False), call, at_least=1)
    got = rule.run()
    on, odd = rule.ghost
    if on:
        return None if got == 'BOUNDARY' else f'{got} on an edge'
    if not rule.exhausted:
        return f'{got} before all edges were seen'
    want = 'INTERIOR' if odd else 'EXTERIOR'
    return None if got == want else f'{got}, crossings are odd: {odd}'


def _some_location(ctx, names):
    from rene.enums import Location

    for n in names[:-1]:
        if ctx.flag():
            return getattr(Location, n)
    return getattr(Location, names[-1])


class Part:
    """A part known by its contract only: location of the point"""

    def __init__(self, location):
        self.location = location

    def locate(self, point):
        return self.location


def polygon(c):
    """Polygon.locate with any number of holes, relying on the contract of
    locate_point_in_region"""
    import rene._geometries.base_polygon as mod
    from rene.exact import Polygon

    q = _point(point(c))
    x = object.__new__(Polygon)
    border = Part(_some_location(c, ('INTERIOR', 'BOUNDARY', 'EXTERIOR')))
    original = mod.locate_point_in_region

    def item(ctx, ghost):
        hole = _some_location(ctx, ('EXTERIOR', 'BOUNDARY', 'INTERIOR')).name
        # holes are inside of the border and do not overlap
        if hole == 'INTERIOR':
            ctx.assume(border.location.name == 'INTERIOR')
            ctx.assume(ghost == 'EXTERIOR')
        elif hole == 'BOUNDARY':
            ctx.assume(border.location.name != 'EXTERIOR')
            ctx.assume(ghost != 'INTERIOR')
        part = Part(getattr(type(border.location), hole))
        return part, ghost if hole == 'EXTERIOR' else hole

    def call(seq):
        mod.locate_point_in_region = lambda ring, at, *_: ring.location
        try:
            with viewed(Polygon, x, border=border, holes=seq):
                return x.locate(q).name
        finally:
            mod.locate_point_in_region = original

    rule = Rule(c, item, 'EXTERIOR', call)
    got = rule.run()
    b, h = border.location.name, rule.ghost
    if h != 'EXTERIOR' and b == 'INTERIOR':
        want = 'EXTERIOR' if h == 'INTERIOR' else 'BOUNDARY'
    else:
        want = b
        if b == 'INTERIOR' and not rule.exhausted:
            return f'{got} before all holes were seen'
    return None if got == want else f'{got}, expected {want}'


def multipolygon(c):
    """Multipolygon.locate with any number of polygons, relying on the
    contract of Polygon.locate"""
    from rene.exact import Multipolygon

    q = _point(point(c))
    x = object.__new__(Multipolygon)

    def item(ctx, ghost):
        loc = _some_location(ctx, ('EXTERIOR', 'BOUNDARY', 'INTERIOR'))
        # interiors of polygons are disjoint with other polygons
        if ghost != 'EXTERIOR' and loc.name != 'EXTERIOR':
            ctx.assume(ghost == loc.name == 'BOUNDARY')
        return Part(loc), ghost if loc.name == 'EXTERIOR' else loc.name

    def call(seq):
        with viewed(Multipolygon, x, polygons=seq):
            return x.locate(q).name

    rule = Rule(c, item, 'EXTERIOR', call, at_least=1)
    got = rule.run()
    if rule.ghost == 'EXTERIOR' and not rule.exhausted:
        return f'{got} before all polygons were seen'
    return None if got == rule.ghost else f'{got}, expected {rule.ghost}'


# --------------------------------------------------------------------- boxes
def _sides(b):
    return tuple(bridge.q(v) for v in (b.min_x, b.max_x, b.min_y, b.max_y))


def _extended(ghost, box):
    if ghost is None:
        return box
    return (
        min(ghost[0], box[0]), max(ghost[1], box[1]),
        min(ghost[2], box[2]), max(ghost[3], box[3]),
    )


def _some_box(ctx):
    b = tuple(ctx.real() for _ in range(4))
    ctx.assume(b[0] <= b[1] and b[2] <= b[3])
    return b


class Boxed:
    """A part known by its contract only: its bounding box"""

    def __init__(self, box):
        from rene.exact import Box

        self.bounding_box = Box(*box)


def boxes(name):
    def body(c):
        import rene.exact
        from rene import _utils

        def ring_item(ctx, ghost):
            x, y = p = point(ctx)
            return _point(p), _extended(ghost, (x, x, y, y))

        def segment_item(ctx, ghost):
            (a, b) = s = segment(ctx)
            return _segment(s), _extended(ghost, (
                min(a[0], b[0]), max(a[0], b[0]),
                min(a[1], b[1]), max(a[1], b[1]),
            ))

        def polygon_item(ctx, ghost):
            b = _some_box(ctx)
            return Boxed(b), _extended(ghost, b)

        def corners(g):
            return (g[0], g[2]), (g[1], g[3])

        attribute, item, merged = {
            'Contour': (
                'vertices', ring_item,
                lambda g: [_point(p) for p in corners(g)],
            ),
            'Multisegment': (
                'segments', segment_item, lambda g: [_segment(corners(g))],
            ),
            'Multipolygon': (
                'polygons', polygon_item, lambda g: [Boxed(g)],
            ),
        }[name]
        cls = getattr(rene.exact, name)
        x = object.__new__(cls)

        def call(seq):
            with viewed(cls, x, **{attribute: seq}):
                return x.bounding_box

        rule = Rule(c, item, None, call, merged, at_least=1)
        got = _sides(rule.run())
        if not rule.exhausted:
            return 'not all parts were seen'
        want = rule.ghost[-4:]
        return None if got == want else f'box {got}, expected {want}'

    body.__doc__ = (
        f'{name}: smallest box of any number of parts'
    )
    return body


def polygon_box(c):
    """Polygon.bounding_box is the box of the border (holes lie inside)"""
    from rene.exact import Polygon

    x = object.__new__(Polygon)
    b = _some_box(c)
    inner = _some_box(c)
    c.assume(b[0] <= inner[0] and inner[1] <= b[1])
    c.assume(b[2] <= inner[2] and inner[3] <= b[3])
    holes = [Boxed(inner)] if c.flag() else []
    with viewed(Polygon, x, border=Boxed(b), holes=holes):
        got = _sides(x.bounding_box)
    return None if got == b else f'box {got}, expected {b}'


def contains(name):
    """`in` is true exactly off the exterior"""

    def body(c):
        import rene.exact

        cls = getattr(rene.exact, name)
        x = object.__new__(cls)
        p = _point(point(c))
        loc = _some_location(c, ('EXTERIOR', 'BOUNDARY', 'INTERIOR'))
        seen = []

        def locate(self, at, /):
            seen.append(at)
            return loc

        own = 'locate' in cls.__dict__
        old = cls.__dict__.get('locate')
        cls.locate = locate
        try:
            got = p in x
        finally:
            if own:
                cls.locate = old
            else:
                del cls.locate
        if not seen:
            raise Unsupported('`in` does not rely on locate')
        if any(q is not p for q in seen):
            return 'another point is located'
        want = loc.name != 'EXTERIOR'
        return None if got is want else f'`in` is {got} at {loc.name}'

    body.__doc__ = f'{name}.__contains__ given the contract of locate'
    return body


def contains_contracts(*names):
    return [
        Contract(f'contains_{n}', [f'rene.exact.{n}.__contains__'],
                 contains(n), public=False)
        for n in names
    ]


def p08():
    return [
        Contract('polygon_box', ['rene.exact.Polygon.bounding_box'],
                 polygon_box, public=False),
    ] + [
        Contract(f'loop_{k}', [f'rene.exact.{k}.bounding_box'], boxes(k),
                 public=False)
        for k in ('Contour', 'Multisegment', 'Multipolygon')
    ]


def p09():
    return [
        Contract(f'loop_{k}', [f'rene.exact.{k}.locate'], linear_locate(k),
                 public=False)
        for k in ('Contour', 'Multisegment')
    ] + contains_contracts('Contour', 'Multisegment')


def p10():
    return [
        Contract('loop_region', ['rene._utils.locate_point_in_region'],
                 region, public=False),
        Contract('loop_polygon', ['rene.exact.Polygon.locate'], polygon,
                 public=False),
        Contract('loop_multipolygon', ['rene.exact.Multipolygon.locate'],
                 multipolygon, public=False),
    ] + contains_contracts('Polygon', 'Multipolygon')
