"""What events on the sweep line know about the region of the other operand,
which of them are chosen for the result, and what is gathered from points."""

import importlib

from ..induction import Rule
from .common import Contract, exhaustive
from .keys import _intersector, _orienteer, _point

ALL = {
    'and': lambda a, b: a and b,
    'or': lambda a, b: a or b,
    'sub': lambda a, b: a and not b,
    'xor': lambda a, b: a is not b,
}
SHAPED = (
    ('_clipping.intersection', 'ShapedIntersection', 'and'),
    ('_clipping.union', 'ShapedUnion', 'or'),
    ('_clipping.difference', 'ShapedDifference', 'sub'),
    ('_clipping.symmetric_difference', 'ShapedSymmetricDifference', 'xor'),
)
MIXED = (
    # the linear operand is the first one, points of the shape are kept
    ('_clipping.difference', 'LinearShapedDifference', True, False),
    ('_clipping.intersection', 'LinearShapedIntersection', True, True),
    ('_clipping.intersection', 'ShapedLinearIntersection', False, True),
)


def _module(name):
    return importlib.import_module(f'rene.{name}')


def _operation(cls, pieces):
    """Operation over segments ((start, end), first, interior above);
    returns it and the left events of pieces"""
    from rene.exact import Segment

    first, second = [], []
    for (p, q), is_first, up in pieces:
        p, q = (p, q) if up else (q, p)
        (first if is_first else second).append(
            Segment(_point(p), _point(q))
        )
    op = cls.from_segments_iterables(
        first, second, _orienteer(), _intersector()
    )
    at = [0, len(first)]
    events = []
    for _, is_first, _ in pieces:
        events.append(2 * at[not is_first])
        at[not is_first] += 1
    return op, events


def _kinds(module):
    return _module(module).OverlapKind


def _flags(c, n):
    return [c.flag() for _ in range(n)]


def fields(module, name, op):
    """The other operand is the same just above an edge and just above the
    edge below it"""

    def body(c):
        cls = getattr(_module(module), name)
        is_first, below_is_first, up, below_up, other = _flags(c, 5)
        if op == 'mixed':
            # edges of the linear operand bound nothing
            linear_is_first = c.flag() if '_relating' in module else (
                name.startswith('Linear')
            )
            if '_relating' in module:
                c.assume(linear_is_first is name.startswith('Linear'))
            if is_first is linear_is_first:
                c.assume(not up)
            if below_is_first is linear_is_first:
                c.assume(not below_up)
            else:
                c.assume(not other)
        has_below = c.flag()
        vertical = has_below and c.flag()
        low = ((0, 0), (0, 8)) if vertical else ((0, 0), (8, 0))
        o, (below, event) = _operation(cls, [
            (low, below_is_first, below_up), (((0, 4), (8, 5)), is_first, up),
        ])
        o._other_have_interior_to_left[below // 2] = other
        shaped = hasattr(o, '_overlap_kinds')
        if shaped:
            kinds = list(_kinds('_clipping.shaped'))
            if '_relating' in module:
                kinds = list(_module('_relating.shaped').OverlapKind)
            k = kinds[0] if c.flag() else (
                kinds[1] if c.flag() else kinds[2]
            )
            o._overlap_kinds[below // 2] = k
        inherited = None
        if hasattr(o, '_below_event_from_result'):
            o._below_event_from_result[below // 2] = inherited = (
                40 if c.flag() else -1
            )
        o._compute_left_event_fields(event, below if has_below else None)
        got = o._other_have_interior_to_left[event // 2]
        above_below = {below_is_first: below_up, not below_is_first: other}
        want = above_below[not is_first] if has_below else False
        if bool(got) is not want:
            return f'other operand is above: {got}, expected {want}'
        if hasattr(o, '_are_from_result'):
            res = o._are_from_result[event // 2]
            if op == 'mixed':
                linear = name.startswith('Linear')
                inside = name.endswith('Intersection')
                want = is_first is linear and want is inside
            else:
                f = ALL[op]
                here = (up, want) if is_first else (want, up)
                under = (not up, want) if is_first else (want, not up)
                want = f(*here) is not f(*under)
            if res is not want:
                return f'edge is chosen: {res}, expected {want}'
        if inherited is not None and has_below:
            got = o._below_event_from_result[event // 2]
            chosen = o._detect_if_left_event_from_result(below)
            want = below if chosen and not vertical else inherited
            if got != want:
                return f'chosen event below is {got}, expected {want}'
        return None

    body.__doc__ = f'{name}._compute_left_event_fields'
    return body


def chosen(module, name, op):
    """One of two equal edges of operands is chosen when the result is
    different on its sides, none otherwise"""

    def body(c):
        cls = getattr(_module(module), name)
        kinds = _kinds('_clipping.shaped')
        first_up, second_up = _flags(c, 2)
        e = ((0, 0), (8, 1))
        o, (a, b) = _operation(cls, [
            (e, True, first_up), (e, False, second_up),
        ])
        for x in (a, b):
            o._other_have_interior_to_left[x // 2] = c.flag()
            o._overlap_kinds[x // 2] = (
                kinds.SAME_ORIENTATION if first_up is second_up
                else kinds.DIFFERENT_ORIENTATION
            )
        n = sum(map(bool, map(o._detect_if_left_event_from_result, (a, b))))
        f = ALL[op]
        want = f(first_up, second_up) is not f(not first_up, not second_up)
        return None if n == want else f'{n} edges are chosen of two equal'

    body.__doc__ = f'{name}: choice among equal edges'
    return body


def chosen_mixed(module, name, linear_is_first, keeps_inside):
    """Linear edges on borders"""

    def body(c):
        cls = getattr(_module(module), name)
        e = ((0, 0), (8, 1))
        up = c.flag()
        o, (a, b) = _operation(cls, [
            (e, True, False if linear_is_first else up),
            (e, False, up if linear_is_first else False),
        ])
        for x in (a, b):
            o._other_have_interior_to_left[x // 2] = c.flag()
            o._have_overlap[x // 2] = True
        linear, border = (a, b) if linear_is_first else (b, a)
        if o._detect_if_left_event_from_result(border):
            return 'edge of the shape is chosen'
        got = o._detect_if_left_event_from_result(linear)
        if bool(got) is not keeps_inside:
            return f'edge on the border is chosen: {got}'
        return None

    body.__doc__ = f'{name}: choice of edges on borders'
    return body


def overlap(module, name):
    """Equal parts of neighbours are marked on detection, and only they"""

    def body(c):
        from .keys import _active_pair, _below, _orient

        cls = getattr(_module(module), name)
        a, b = _active_pair(c)
        if _below(a, b) < 0:
            a, b = b, a
        shaped = 'haped' in name and 'Linear' not in name or (
            name == 'Operation'
        )
        ups = _flags(c, 2) if shaped else [True, True]
        if not shaped:
            ups[name.startswith('Linear')] = c.flag()
        o, (low, high) = _operation(cls, [(a, True, ups[0]), (b, False, ups[1])])
        got = o._detect_intersection(low, high)
        equal = a[0] == b[0] and _orient(*a, b[1]) == 0
        if bool(got) is not equal:
            return f'equality is {got}, expected {equal}'
        for x in (low, high):
            if hasattr(o, '_overlap_kinds'):
                k = o._overlap_kinds[x // 2].name
                want = 'NONE' if not equal else (
                    'SAME_ORIENTATION' if ups[0] is ups[1]
                    else 'DIFFERENT_ORIENTATION'
                )
            elif hasattr(o, '_have_overlap'):
                k, want = o._have_overlap[x // 2], equal
            else:
                continue
            if k != want:
                return f'overlap is {k}, expected {want}'
        return None

    body.__doc__ = f'{name}._detect_intersection marks equal edges'
    return body


def edges_cross(c):
    """has_edges_cross of any number of events at a point: edges of one
    operand are both inside and outside of the other one"""
    cls = _module('_relating.shaped').Operation
    kinds = _module('_relating.shaped').OverlapKind
    e = ((0, 0), (8, 1))
    op, (a, b) = _operation(cls, [(e, True, True), (e, False, True)])

    # an event is known by what tables of the operation say about it
    class Tables:
        def __getitem__(self, i):
            return self.of(i)

    table = {}

    def item(ctx, ghost):
        is_first, inside, marked, left = _flags(ctx, 4)
        x = len(table) * 2
        same = marked and ctx.flag()
        key = (is_first, inside, marked, same, left)
        if key not in table:
            table[key] = x
        x = table[key]
        if not marked:
            ghost = ghost | {(is_first, inside)}
        return x + (not left), frozenset(ghost)

    def find(x):
        (key,) = [k for k, v in table.items() if v == x // 2 * 2]
        return key

    def make(f):
        class T(Tables):
            pass

        T.of = staticmethod(f)
        return T()

    op._opposites = make(lambda x: x ^ 1)
    op._segments_ids = make(lambda i: 0 if find(i * 2)[0] else 1)
    op._other_have_interior_to_left = make(lambda i: find(i * 2)[1])
    op._overlap_kinds = make(lambda i: (
        kinds.NONE if not find(i * 2)[2] else (
            kinds.SAME_ORIENTATION if find(i * 2)[3]
            else kinds.DIFFERENT_ORIENTATION
        )
    ))
    rule = Rule(c, item, frozenset(), op.has_edges_cross)
    got = rule.run()
    g = rule.ghost
    want = any((f, True) in g and (f, False) in g for f in (True, False))
    if not got and not rule.exhausted:
        return 'not all events were seen'
    if bool(got) is not want:
        return f'has_edges_cross is {got}, expected {want}'
    return None


def reduced(module, name, op):
    """Segments of the result by operands they belong to"""

    def body(c):
        from rene.exact import Segment
        from .. import bridge

        cls = getattr(_module(module), name)
        pieces, want = [], []
        for i in range(3):
            first, second = _flags(c, 2)
            e = ((i, 0), (i + 1, 1))
            pieces += [(e, True, True)] * first + [(e, False, True)] * second
            if (first or second) and ALL[op](first, second):
                want.append(e)
        o, events = _operation(cls, pieces)
        if not c.flag():
            # events of equal edges come in any order
            events.sort(key=lambda x: (o.endpoints[x].x, -x))
        got = [
            tuple(bridge.from_point(p) for p in (s.start, s.end))
            for s in o.reduce_events(events, Segment)
        ]
        return None if got == want else f'{got}, expected {want}'

    body.__doc__ = f'{name}.reduce_events'
    return body


LINEAR = (
    ('_clipping.intersection', 'LinearIntersection', 'and'),
    ('_clipping.union', 'LinearUnion', 'or'),
    ('_clipping.difference', 'LinearDifference', 'sub'),
    ('_clipping.symmetric_difference', 'LinearSymmetricDifference', 'xor'),
)


def _contracts(prefix, maker, method, items, **kwargs):
    return [
        Contract(f'{prefix}_{t[1]}', [f'rene.{t[0]}.{t[1]}.{method}'],
                 maker(*t) if maker is overlap else exhaustive(maker(*t)),
                 public=False, **kwargs)
        for t in items
    ]


def p13():
    return (
        _contracts('fields', fields, '_compute_left_event_fields', SHAPED)
        + _contracts('chosen', chosen, '_detect_if_left_event_from_result',
                     SHAPED)
        + _contracts('overlap', overlap, '_detect_intersection',
                     [('_clipping.union', 'ShapedUnion')])
    )


def p14():
    return _contracts('reduced', reduced, 'reduce_events', LINEAR,
                      kind='shape')


def p15():
    return (
        _contracts('fields', fields, '_compute_left_event_fields',
                   [(m, n, 'mixed') for m, n, _, _ in MIXED])
        + _contracts('chosen', chosen_mixed,
                     '_detect_if_left_event_from_result', MIXED)
        + _contracts('overlap', overlap, '_detect_intersection',
                     [('_clipping.intersection', 'LinearShapedIntersection'),
                      ('_clipping.intersection', 'ShapedLinearIntersection')])
    )


RELATING_MIXED = (
    ('_relating.mixed', 'LinearShapedOperation'),
    ('_relating.mixed', 'ShapedLinearOperation'),
)


def p17():
    return (
        _contracts('fields', fields, '_compute_left_event_fields',
                   [(m, n, 'mixed') for m, n in RELATING_MIXED])
        + _contracts('overlap', overlap, '_detect_intersection',
                     RELATING_MIXED)
    )


def p18():
    return (
        _contracts('fields', fields, '_compute_left_event_fields',
                   [('_relating.shaped', 'Operation', 'shaped')])
        + _contracts('overlap', overlap, '_detect_intersection',
                     [('_relating.shaped', 'Operation')])
        + [Contract('edges_cross',
                    ['rene._relating.shaped.Operation.has_edges_cross'],
                    edges_cross, public=False)]
    )
