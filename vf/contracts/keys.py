"""Contracts of sweep components: orders of events and of segments on the
sweep line, subdivision of neighbours, search nodes of the trapezoidation."""

from .. import oracle as o
from .common import Contract, point, segment


def _orient(p, q, r):
    v = o.cross(p, q, r)
    return (v > 0) - (v < 0)


def _less(p, q):
    return p[0] < q[0] or (p[0] == q[0] and p[1] < q[1])


def _sorted_segment(c):
    p, q = s = segment(c)
    c.assume(_less(p, q))
    return s


def _point(p):
    from rene.exact import Point

    return Point(*p)


def _module(name):
    import importlib

    return importlib.import_module(f'rene.{name}')


def _orienteer():
    from rene.exact import Segment

    return Segment._context.orient


def _intersector():
    from rene.exact import Segment

    return Segment._context.intersect_segments


def _make_key(cls, package, event, first, endpoints, opposites):
    if package == '_bentley_ottmann':
        if cls.__name__ == 'SweepLineKey':
            return cls(endpoints, opposites, event, _orienteer())
        return cls(endpoints, opposites, event)
    return cls(
        event, is_from_first_operand=first, endpoints=endpoints,
        opposites=opposites, orienteer=_orienteer(),
    )


def _keys(cls, package, pairs, events, firsts):
    endpoints = [_point(p) for s in pairs for p in s]
    opposites = [i ^ 1 for i in range(len(endpoints))]
    return [
        _make_key(cls, package, e, f, endpoints, opposites)
        for e, f in zip(events, firsts)
    ]


def events_order(package):
    """Events are processed by start, right ends first, lower ones first;
    two events are never before each other"""

    def body(c):
        cls = _module(f'{package}.events_queue_key').EventsQueueKey
        a, b = _sorted_segment(c), _sorted_segment(c)
        ra, rb = c.flag(), c.flag()
        fa = c.flag()
        fb = c.flag() if not fa else False
        p, q = (a[1], a[0]) if ra else a
        u, v = (b[1], b[0]) if rb else b
        collinear = p == u and ra == rb and _orient(p, q, v) == 0
        if package == '_bentley_ottmann':
            c.assume(not (collinear and q == v))
        elif collinear:
            c.assume(fa != fb)
        x, y = _keys(cls, package, (a, b), (0 + ra, 2 + rb), (fa, fb))
        got, reverse = x < y, y < x
        if got and reverse:
            return 'both events are before each other'
        if not (got or reverse):
            return 'no event is before the other'
        if p != u:
            want = _less(p, u)
        elif ra != rb:
            want = ra
        elif package == '_bentley_ottmann':
            return None
        elif not collinear:
            want = (_orient(p, q, v) > 0) is not ra
        else:
            return None
        return None if got is want else f'before: {got}, expected {want}'

    body.__doc__ = f'EventsQueueKey.__lt__ of {package}'
    return body


def _below(a, b):
    """1 if a is lower where both meet the sweep line, -1 if b is, 0 if they
    are collinear"""
    if _less(a[0], b[0]):
        k = _orient(*a, b[0])
        if k == 0:
            k = _orient(*a, b[1])
        return k
    k = -_orient(*b, a[0])
    if k == 0:
        k = -_orient(*b, a[1])
    return k


def _active_pair(c):
    """Two segments that are on the sweep line at the same time"""
    a, b = _sorted_segment(c), _sorted_segment(c)
    c.assume(_less(a[0], b[1]) and _less(b[0], a[1]))
    return a, b


def segments_order(package):
    """Segments on the sweep line are ordered from low to high"""

    def body(c):
        cls = _module(f'{package}.sweep_line_key').SweepLineKey
        a, b = _active_pair(c)
        # the later one has been checked with its neighbours only: it is
        # compared at its start
        fa = c.flag()
        fb = c.flag() if not fa else False
        x, y = _keys(cls, package, (a, b), (0, 2), (fa, fb))
        got, reverse = x < y, y < x
        k = _below(a, b)
        if k == 0:
            if fa == fb:
                c.assume(a == b or package == '_bentley_ottmann')
            if got and reverse:
                return 'both segments are below each other'
            if not (got or reverse) and (a != b or fa != fb and (
                package != '_bentley_ottmann'
            )):
                return 'different segments are not ordered'
            if a == b and fa == fb and (got or reverse):
                return 'segment is below itself'
            return None
        if got is not (k > 0) or reverse is not (k < 0):
            return f'below: {got}, {reverse}, expected {k > 0}, {k < 0}'
        return None

    body.__doc__ = f'SweepLineKey.__lt__ of {package}'
    return body


def _pieces(op, endpoints, opposites, start):
    """Pieces of the segment by ids of the operation"""
    res = {}
    for e in range(0, len(endpoints), 2):
        end = opposites[e]
        res.setdefault(op._segments_ids[e // 2], []).append(
            (start(e), start(end))
        )
    return res


def subdivision(module, name):
    """Neighbours on the sweep line are divided at all their common points,
    what they are divided to is processed later"""

    def body(c):
        from .. import bridge
        from rene.exact import Segment

        cls = getattr(_module(module), name)
        a, b = _active_pair(c)
        lower = _below(a, b)
        if lower < 0:
            a, b = b, a
        op = cls.from_segments_iterables(
            [Segment(_point(a[0]), _point(a[1]))],
            [Segment(_point(b[0]), _point(b[1]))],
            _orienteer(), _intersector(),
        )
        op._detect_intersection(0, 2)
        endpoints = [bridge.from_point(p) for p in op.endpoints]
        opposites = list(op._opposites)
        n = len(endpoints)
        if len(opposites) != n or len(op._segments_ids) * 2 != n:
            return 'sizes of tables differ'
        parts = {0: [], 1: []}
        for e in range(n):
            if opposites[opposites[e]] != e or (opposites[e] ^ e) & 1 != 1:
                return 'opposite events are not symmetric'
            if e & 1 == 0:
                p, q = endpoints[e], endpoints[opposites[e]]
                if not _less(p, q):
                    return 'left event is not to the left'
                parts[op._segments_ids[e >> 1]].append((p, q))
        for i, s in enumerate((a, b)):
            todo = parts[i]
            at = s[0]
            while todo:
                nxt = [t for t in todo if t[0] == at]
                if len(nxt) != 1:
                    return 'pieces are not a chain'
                todo = [t for t in todo if t is not nxt[0]]
                at = nxt[0][1]
                if _orient(*s, at) != 0:
                    return 'piece is off the segment'
            if at != s[1]:
                return 'pieces do not reach the end'
        for t in parts[0]:
            for u in parts[1]:
                if t == u:
                    continue
                if _crossing(t, u):
                    return 'pieces have common inner points'
        queued = sorted(op._pop() for _ in range(n))
        if queued != list(range(n)) or op._events_queue_data:
            return 'events are not queued once'
        return None

    body.__doc__ = f'{module}.{name}._detect_intersection of any neighbours'
    return body


def _crossing(t, u):
    """Some common point is inside of one of the two"""
    for p in u:
        if p != t[0] and p != t[1] and o.on_segment(*t, p):
            return True
    for p in t:
        if p != u[0] and p != u[1] and o.on_segment(*u, p):
            return True
    return (
        _orient(*t, u[0]) * _orient(*t, u[1]) < 0
        and _orient(*u, t[0]) * _orient(*u, t[1]) < 0
    )


# ------------------------------------------------------------------- search
def edges_order(c):
    """Edge.is_under of edges that meet in no inner points and have common
    abscissas"""
    from rene._seidel.edge import Edge

    a, b = _active_pair(c)
    k = _below(a, b)
    c.assume(k != 0 and not _crossing(a, b))
    endpoints = [_point(p) for p in (*a, *b)]
    x = Edge.from_endpoints(0, 1, interior_to_left=c.flag(),
                            orienteer=_orienteer())
    y = Edge.from_endpoints(2, 3, interior_to_left=False,
                            orienteer=_orienteer())
    if x.is_under(y, endpoints) is not (k > 0):
        return f'is_under is not {k > 0}'
    if y.is_under(x, endpoints) is not (k < 0):
        return f'reversed is_under is not {k < 0}'
    return None


class Child:
    def __init__(self, name, seen):
        self.name = name
        self.seen = seen

    def locate(self, point, edges, endpoints, nodes, /):
        self.seen.append((point, edges, endpoints, nodes))
        return self


def node_locate(kind):
    def body(c):
        from rene.enums import Location

        seen = []
        nodes = [Child('low', seen), Child('high', seen)]
        p = point(c)
        q = _point(p)
        if kind == 'XNode':
            from rene._seidel.x_node import XNode

            v = point(c)
            endpoints, edges = [_point(v)], []
            node = XNode(0, 0, 1)
            k = -1 if _less(p, v) else 1 if _less(v, p) else 0
        else:
            from rene._seidel.edge import Edge
            from rene._seidel.y_node import YNode

            a = _sorted_segment(c)
            # the node is reached by points between ends of the edge
            c.assume(not _less(p, a[0]) and not _less(a[1], p))
            endpoints = [_point(a[0]), _point(a[1])]
            edges = [Edge.from_endpoints(
                0, 1, interior_to_left=c.flag(), orienteer=_orienteer()
            )]
            node = YNode(0, 0, 1)
            k = _orient(*a, p)
        got = node.locate(q, edges, endpoints, nodes)
        want = nodes[k > 0] if k else Location.BOUNDARY
        if got is not want:
            return f'{getattr(got, "name", got)} instead of {want.name}'
        for args in seen:
            if args[0] is not q or args[1] is not edges or (
                args[2] is not endpoints or args[3] is not nodes
            ):
                return 'child gets other arguments'
        return None

    body.__doc__ = f'{kind}.locate given the contracts of children'
    return body


def node_search(kind):
    """Insertion of an edge goes to the side of the node where it is"""

    def body(c):
        nodes = ['low', 'high']
        if kind == 'XNode':
            from rene._seidel.edge import Edge
            from rene._seidel.x_node import XNode

            v = point(c)
            a = _sorted_segment(c)
            endpoints = [_point(v), _point(a[0]), _point(a[1])]
            edge = Edge.from_endpoints(
                1, 2, interior_to_left=c.flag(), orienteer=_orienteer()
            )
            got = XNode(0, 0, 1).search_edge_node(edge, [edge], endpoints,
                                                  nodes)
            want = 'low' if _less(a[0], v) else 'high'
        else:
            from rene._seidel.edge import Edge
            from rene._seidel.y_node import YNode

            a, b = _active_pair(c)
            k = _below(a, b)
            c.assume(k != 0 and not _crossing(a, b))
            endpoints = [_point(p) for p in (*a, *b)]
            x = Edge.from_endpoints(0, 1, interior_to_left=False,
                                    orienteer=_orienteer())
            y = Edge.from_endpoints(2, 3, interior_to_left=c.flag(),
                                    orienteer=_orienteer())
            got = YNode(0, 0, 1).search_edge_node(y, [x, y], endpoints,
                                                  nodes)
            want = 'high' if k > 0 else 'low'
        return None if got == want else f'{got} instead of {want}'

    body.__doc__ = f'{kind}.search_edge_node'
    return body


def permutation(c):
    """Every seed gives a permutation"""
    from math import factorial

    from rene._utils import permute

    for n in range(6):
        for seed in (*range(factorial(n) + 3), 10 ** 9 + 7, 2 ** 63,
                     2 ** 64 - 1, 3 ** 100):
            values = list(range(n))
            permute(values, seed)
            if sorted(values) != list(range(n)):
                return f'{values} for seed {seed}'
    return None


# --------------------------------------------------------------------- lists
def _orders(package):
    return [
        Contract(f'events_order{package}',
                 [f'rene.{package}.events_queue_key.EventsQueueKey.__lt__'],
                 events_order(package), public=False),
        Contract(f'segments_order{package}',
                 [f'rene.{package}.sweep_line_key.SweepLineKey.__lt__'],
                 segments_order(package), public=False),
    ]


def _subdivision(module, name):
    return [
        Contract(f'subdivision_{name}',
                 [f'rene.{module}.{name}._detect_intersection'],
                 subdivision(module, name), public=False),
    ]


def p13():
    return _orders('_clipping') + _subdivision(
        '_clipping.union', 'ShapedUnion'
    )


def p14():
    return _orders('_clipping') + _subdivision(
        '_clipping.union', 'LinearUnion'
    )


def p15():
    return _orders('_clipping') + _subdivision(
        '_clipping.intersection', 'LinearShapedIntersection'
    )


def p16():
    return _orders('_relating') + _subdivision(
        '_relating.linear', 'Operation'
    )


def p17():
    return _orders('_relating') + _subdivision(
        '_relating.mixed', 'LinearShapedOperation'
    )


def p18():
    return _orders('_relating') + _subdivision(
        '_relating.shaped', 'Operation'
    )


def p19():
    return _orders('_bentley_ottmann')


def p22():
    return [
        Contract('edges_order', ['rene._seidel.edge.Edge.is_under'],
                 edges_order, public=False),
    ] + [
        Contract(f'locate_{k}', [f'rene._seidel.{m}.{k}.locate'],
                 node_locate(k), public=False)
        for k, m in (('XNode', 'x_node'), ('YNode', 'y_node'))
    ] + [
        Contract(f'search_{k}', [f'rene._seidel.{m}.{k}.search_edge_node'],
                 node_search(k), public=False)
        for k, m in (('XNode', 'x_node'), ('YNode', 'y_node'))
    ] + [
        Contract('permutation', ['rene._utils.permute'], permutation,
                 kind='shape', public=False),
    ]
