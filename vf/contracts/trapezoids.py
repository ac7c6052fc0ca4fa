"""Insertion of edges into a trapezoidation of any size.

Trapezoids around the edge are given by what bounds them and by which of their
neighbours exist; points are known by their order only, everything else of the
structure is opaque, so that a case covers all inputs.  Invariants:

* the subtree in place of a divided trapezoid sends a point to the trapezoid
  bounded by the nearest edges and points around it;
* trapezoids are linked exactly if they share the point between them and the
  edge above (upper links) or below (lower links).
"""

from ..engine import Unsupported
from .common import Contract, exhaustive, point

MOD = 'rene._seidel.trapezoidation'


def _module():
    import importlib

    return importlib.import_module(MOD)


class Opaque:
    def __getattr__(self, name):
        raise Unsupported(f'{name} of something that is not known')

    def __eq__(self, other):
        raise Unsupported('comparison with something that is not known')

    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__
    __hash__ = None


class Ranked:
    """A point known by its place in the order"""

    def __init__(self, rank):
        self.rank = rank

    def _other(self, other):
        if not isinstance(other, Ranked):
            raise Unsupported('comparison with something that is not known')
        return other.rank

    def __eq__(self, other):
        return self.rank == self._other(other)

    def __ne__(self, other):
        return self.rank != self._other(other)

    def __lt__(self, other):
        return self.rank < self._other(other)

    def __le__(self, other):
        return self.rank <= self._other(other)

    def __gt__(self, other):
        return self.rank > self._other(other)

    def __ge__(self, other):
        return self.rank >= self._other(other)

    __hash__ = None

    def __getattr__(self, name):
        raise Unsupported(f'{name} of a point')


SIDES = ('upper_left', 'upper_right', 'lower_left', 'lower_right')
MIRROR = {
    'upper_left': 'upper_right', 'upper_right': 'upper_left',
    'lower_left': 'lower_right', 'lower_right': 'lower_left',
}


class World:
    def __init__(self, c):
        self.c = c
        self.points = [Opaque()]
        self.edges = [Opaque()]
        self.nodes = [Opaque() for _ in range(3)]
        self.sign = {}
        self.outer = {}
        self.specs = {}
        self.names = {}

    # ---------------------------------------------------------- building
    def at(self, rank):
        self.points.append(Ranked(rank))
        return len(self.points) - 1

    def edge(self, left=None, right=None, interior=None):
        from rene._seidel.edge import Edge

        if left is None:
            self.points += [Opaque(), Opaque()]
            i, j = len(self.points) - 2, len(self.points) - 1
        else:
            i, j = self.at(left), self.at(right)
        self.edges.append(Edge.from_endpoints(
            i, j,
            interior_to_left=self.c.flag() if interior is None else interior,
            orienteer=self._orient,
        ))
        return len(self.edges) - 1

    def _orient(self, a, b, p):
        from rene.enums import Orientation

        if not (isinstance(a, Ranked) and isinstance(b, Ranked)) or (
            not isinstance(p, Ranked)
        ):
            raise Unsupported('orientation of unknown points')
        e = self.edges[self.e]
        if a is not self.points[e.left_point_index] or (
            b is not self.points[e.right_point_index]
        ):
            raise Unsupported('orientation with other edges')
        if p.rank not in self.sign:
            raise Unsupported('orientation of an unknown point')
        return (
            Orientation.COUNTERCLOCKWISE if self.sign[p.rank] > 0
            else Orientation.CLOCKWISE
        )

    def leaf(self, name, left, right, below, above):
        from rene._seidel.leaf import Leaf

        b, a = self.edges[below], self.edges[above]
        x = Leaf(
            is_component=b.interior_to_left and not a.interior_to_left,
            left_point_index=self.at(left), right_point_index=self.at(right),
            below_edge_index=below, above_edge_index=above,
            index=len(self.nodes),
        )
        self.nodes.append(x)
        self.nodes.append(Opaque())
        self.names[name] = x.trapezoid.leaf_index
        return x.trapezoid

    def link(self, t, side, u):
        getattr(t, 'set_as_' + side)(u)

    def neighbour(self, name, t, side):
        """Maybe some trapezoid of its own"""
        if not self.c.flag():
            return None
        u = self.leaf(name, -100, 100, self.own_edge(), self.own_edge())
        self.link(t, side, u)
        # a neighbour has other neighbours too
        self.nodes.append(Opaque())
        self.outer[name] = (side, MIRROR[side], u)
        return name

    def own_edge(self):
        return self.edge(interior=False)

    def ready(self):
        """State before the operation"""
        self.old = list(self.nodes)
        self.count = len(self.edges), len(self.points)
        self.old_links = {
            name: {s: getattr(u, s + '_node_index') for s in SIDES}
            for name, (_, _, u) in self.outer.items()
        }

    # ------------------------------------------------------------ checks
    def piece(self, name, left, right, below, above, **links):
        self.specs[name] = (left, right, below, above, links)

    def walk(self, index, rank, side):
        """The leaf for a point between points (side of the edge: -1, 1)"""
        from rene._seidel.leaf import Leaf
        from rene._seidel.x_node import XNode
        from rene._seidel.y_node import YNode

        for _ in range(20):
            x = self.nodes[index]
            if isinstance(x, Leaf):
                return x
            if isinstance(x, XNode):
                r = self.points[x.point_index].rank
                if rank == r:
                    return 'BOUNDARY'
                index = x.left_node_index if rank < r else x.right_node_index
            elif isinstance(x, YNode):
                if x.edge_index != self.e:
                    return f'node of edge {x.edge_index}'
                if side == 0:
                    return 'BOUNDARY'
                index = x.above_node_index if side > 0 else x.below_node_index
            else:
                return 'unknown node'
        return 'loop'

    def check(self, replaced, want):
        """``replaced``: trapezoids; ``want``: (index of it, rank, side,
        name of the piece or BOUNDARY)"""
        text = self._frame(replaced)
        if text:
            return text
        found = {}
        for i, rank, side, name in want:
            got = self.walk(replaced[i], rank, side)
            where = f'point {rank} at side {side} of divided trapezoid {i}'
            if name == 'BOUNDARY':
                if got != name:
                    return f'{where} is not on the boundary'
                continue
            if isinstance(got, str):
                return f'{where} gives {got}'
            if found.setdefault(name, got) is not got:
                return f'{name} is not one trapezoid'
        if len({id(x) for x in found.values()}) != len(found):
            return 'one trapezoid instead of several'
        if set(found) != set(self.specs):
            raise AssertionError('incomplete specification')
        index = dict(self.names)
        for name, leaf in found.items():
            i = leaf.trapezoid.leaf_index
            if not 0 <= i < len(self.nodes) or self.nodes[i] is not leaf:
                return f'{name} has wrong index {i}'
            index[name] = i
        for name, leaf in found.items():
            text = self._piece(name, leaf, index)
            if text:
                return text
        # links of the other trapezoids
        for name, (side, mirror, u) in self.outer.items():
            want_ = dict(self.old_links[name])
            owner = [
                n for n, s in self.specs.items() if s[4].get(side) == name
            ]
            if owner:
                want_[mirror] = index[owner[0]]
            else:
                continue
            for s in SIDES:
                got = getattr(u, s + '_node_index')
                if got != want_[s]:
                    return f'{s} of {name} is {got}, expected {want_[s]}'
        return None

    def _frame(self, replaced):
        if (len(self.edges), len(self.points)) != self.count:
            return 'edges or points are changed'
        for i, x in enumerate(self.old):
            if i >= len(self.nodes) or (
                self.nodes[i] is not x and i not in replaced
            ):
                return f'node {i} is changed'
        return None

    def _piece(self, name, leaf, index):
        t = leaf.trapezoid
        left, right, below, above, links = self.specs[name]
        got = (self.points[t.left_point_index].rank,
               self.points[t.right_point_index].rank,
               t.below_edge_index, t.above_edge_index)
        if got != (left, right, below, above):
            return (
                f'{name} is bounded by {got}, expected'
                f' {(left, right, below, above)}'
            )
        b = self.edges[below].interior_to_left
        a = self.edges[above].interior_to_left
        if not (a and b) and t.is_component is not (b and not a):
            return f'{name} is component: {t.is_component}'
        for s in SIDES:
            if s not in links:
                continue
            n = links[s]
            want = None if n is None else index[n]
            got = getattr(t, s + '_node_index')
            if got != want:
                return f'{s} of {name} is {got}, expected {n}'
        return None


# Points: 0 - left of the first trapezoid, 10 - left of the edge, 20 + i -
# between trapezoids, 80 - right of the edge, 90 - right of the last one
def single(c):
    """One trapezoid is divided by an edge inside"""
    w = World(c)
    lo = 0 if c.flag() else 10
    hi = 90 if c.flag() else 80
    a, b = w.edge(), w.edge()
    w.e = w.edge(lo, hi)
    t = w.leaf('T', 0, 90, b, a)
    n = {s: w.neighbour('N' + s, t, s) for s in SIDES}
    w.ready()
    _module()._add_edge_to_single_trapezoid(
        w.e, t, w.edges, w.points, w.nodes
    )
    _ends(w, lo, hi, b, a, b, a, n)
    w.piece('U', lo, hi, w.e, a, lower_left=None, lower_right=None,
            upper_left='L' if lo else n['upper_left'],
            upper_right='R' if hi < 90 else n['upper_right'])
    w.piece('D', lo, hi, b, w.e, upper_left=None, upper_right=None,
            lower_left='L' if lo else n['lower_left'],
            lower_right='R' if hi < 90 else n['lower_right'])
    want = [(0, 50, 1, 'U'), (0, 50, -1, 'D'), (0, 50, 0, 'BOUNDARY')]
    want += _outside(lo, hi, 0)
    return w.check([w.names['T']], want)


def _ends(w, lo, hi, b0, a0, b1, a1, n, first='U', first_=None, last=None,
          last_=None):
    first_ = first_ or 'D'
    last, last_ = last or first, last_ or first_
    if lo:
        w.piece('L', 0, lo, b0, a0, upper_left=n['upper_left'],
                lower_left=n['lower_left'], upper_right=first,
                lower_right=first_)
    if hi < 90:
        w.piece('R', hi, 90, b1, a1, upper_left=last, lower_left=last_,
                upper_right=n['upper_right'], lower_right=n['lower_right'])


def _outside(lo, hi, last):
    res = []
    if lo:
        res += [(0, 5, s, 'L') for s in (1, -1, 0)]
        res.append((0, lo, 1, 'BOUNDARY'))
    if hi < 90:
        res += [(last, 85, s, 'R') for s in (1, -1, 0)]
        res.append((last, hi, 1, 'BOUNDARY'))
    return res


def first(c):
    """The first of several trapezoids is divided"""
    w = World(c)
    lo = 0 if c.flag() else 10
    a, b = w.edge(), w.edge()
    w.e = w.edge(lo, 80)
    t = w.leaf('T', 0, 20, b, a)
    n = {s: w.neighbour('N' + s, t, s) for s in SIDES}
    w.ready()
    got = _module()._add_edge_to_first_trapezoid(
        w.e, t, w.edges, w.points, w.nodes
    )
    _ends(w, lo, 90, b, a, b, a, n)
    w.piece('U', lo, 20, w.e, a, lower_left=None, lower_right=None,
            upper_left='L' if lo else n['upper_left'],
            upper_right=n['upper_right'])
    w.piece('D', lo, 20, b, w.e, upper_left=None, upper_right=None,
            lower_left='L' if lo else n['lower_left'],
            lower_right=n['lower_right'])
    want = [(0, 15, 1, 'U'), (0, 15, -1, 'D'), (0, 15, 0, 'BOUNDARY')]
    want += _outside(lo, 90, 0)
    return w.check([w.names['T']], want) or _returned(w, got, 15)


def _returned(w, got, rank):
    for x, side in zip(got, (1, -1), strict=True):
        if w.walk(w.names['T'], rank, side).trapezoid is not x:
            return 'other trapezoids are returned'
    return None


def _before(c, w):
    """State before the next trapezoid T of several is divided"""
    over = c.flag()  # the edge passes over the point before T
    a, b = w.edge(), w.edge()
    a0, b0 = (a, w.edge()) if over else (w.edge(), b)
    return over, a0, b0, a, b


def _previous(w, over, a0, b0, t):
    pa = w.leaf('PA', 5, 20, w.e, a0)
    pb = w.leaf('PB', 7, 20, b0, w.e)
    n = {}
    for p, name in ((pa, 'PA'), (pb, 'PB')):
        for s in ('upper_left', 'lower_left'):
            n[name, s] = w.neighbour(name + s, p, s)
    if over:
        w.link(pa, 'upper_right', t)
        n['PB', 'lower_right'] = w.neighbour('PBlr', pb, 'lower_right')
        n['lower_left'] = w.neighbour('Nlower_left', t, 'lower_left')
    else:
        w.link(pb, 'lower_right', t)
        n['PA', 'upper_right'] = w.neighbour('PAur', pa, 'upper_right')
        n['upper_left'] = w.neighbour('Nupper_left', t, 'upper_left')
    for s in ('upper_right', 'lower_right'):
        n[s] = w.neighbour('N' + s, t, s)
    return pa, pb, n


def _after(w, over, a0, b0, a, b, n, hi, right):
    """Pieces when T is divided up to ``hi``"""
    if over:
        w.piece('U', 5, hi, w.e, a, upper_left=n['PA', 'upper_left'],
                lower_left=n['PA', 'lower_left'],
                upper_right=right or n['upper_right'], lower_right=None)
        w.piece('D', 20, hi, b, w.e, upper_left='PB',
                lower_left=n['lower_left'], upper_right=None,
                lower_right=right or n['lower_right'])
        w.piece('PB', 7, 20, b0, w.e, upper_left=n['PB', 'upper_left'],
                lower_left=n['PB', 'lower_left'], upper_right='D',
                lower_right=n['PB', 'lower_right'])
    else:
        w.piece('D', 7, hi, b, w.e, upper_left=n['PB', 'upper_left'],
                lower_left=n['PB', 'lower_left'],
                lower_right=right or n['lower_right'], upper_right=None)
        w.piece('U', 20, hi, w.e, a, lower_left='PA',
                upper_left=n['upper_left'], lower_right=None,
                upper_right=right or n['upper_right'])
        w.piece('PA', 5, 20, w.e, a0, upper_left=n['PA', 'upper_left'],
                lower_left=n['PA', 'lower_left'], lower_right='U',
                upper_right=n['PA', 'upper_right'])


def middle(c):
    """A trapezoid between others is divided: parts continue what was cut off
    before if they are bounded by the same edge, and are next to it else"""
    w = World(c)
    w.e = w.edge(3, 80)
    over, a0, b0, a, b = _before(c, w)
    t = w.leaf('T', 20, 40, b, a)
    pa, pb, n = _previous(w, over, a0, b0, t)
    w.ready()
    got = _module()._add_edge_to_middle_trapezoid(
        w.e, t, pa, pb, w.edges, w.nodes
    )
    _after(w, over, a0, b0, a, b, n, 40, None)
    return _continued(w, over, pa, pb, [
        (0, 30, 1, 'U'), (0, 30, -1, 'D'), (0, 30, 0, 'BOUNDARY'),
    ]) or _returned(w, got, 30)


def _continued(w, over, pa, pb, want):
    kept = 'PB' if over else 'PA'
    index = (pb if over else pa).leaf_index
    merged = pa if over else pb
    text = w.check(
        [w.names['T'], index],
        [*want, (1, 0, 0, kept)],
    )
    if text:
        return text
    if w.walk(w.names['T'], 30, 1 if over else -1).trapezoid is not merged:
        return 'part of the same trapezoid is not merged'
    return None


def last(c):
    """The last of several trapezoids is divided"""
    w = World(c)
    hi = 90 if c.flag() else 80
    w.e = w.edge(3, hi)
    over, a0, b0, a, b = _before(c, w)
    t = w.leaf('T', 20, 90, b, a)
    pa, pb, n = _previous(w, over, a0, b0, t)
    w.ready()
    _module()._add_edge_to_last_trapezoid(
        w.e, t, pa, pb, w.edges, w.points, w.nodes
    )
    _ends(w, 0, hi, b, a, b, a, n)
    _after(w, over, a0, b0, a, b, n, hi, 'R' if hi < 90 else None)
    return _continued(w, over, pa, pb, [
        (0, 30, 1, 'U'), (0, 30, -1, 'D'), (0, 30, 0, 'BOUNDARY'),
        *_outside(0, hi, 0),
    ])


def crossed(k):
    """The edge goes through a chain of k trapezoids, both in one call"""

    def body(c):
        w = World(c)
        lo = 0 if c.flag() else 10
        hi = 90 if c.flag() else 80
        few = k > 3
        f = (lambda: False) if few else None
        over = [c.flag() for _ in range(k - 1)]
        above, below = [w.edge(interior=few or None)], [
            w.edge(interior=True if few else None)
        ]
        for o in over:
            above.append(above[-1] if o else w.edge(interior=False))
            below.append(w.edge(interior=True) if o else below[-1])
        w.e = w.edge(lo, hi, interior=f and f())
        ranks = [0, *(20 + 10 * i for i in range(k - 1)), 90]
        ts = [
            w.leaf(f'T{i}', ranks[i], ranks[i + 1], below[i], above[i])
            for i in range(k)
        ]
        n = {}
        all_ = c.flag()

        def maybe(name, t, side):
            if k > 2:
                # independent choices are made for short chains
                saved, w.c = w.c, _Const(all_)
                try:
                    return w.neighbour(name, t, side)
                finally:
                    w.c = saved
            return w.neighbour(name, t, side)

        for s in ('upper_left', 'lower_left'):
            n[0, s] = maybe(f'N0{s}', ts[0], s)
        for i, o in enumerate(over):
            p = ranks[i + 1]
            w.sign[p] = -1 if o else 1
            same, other = ('upper', 'lower') if o else ('lower', 'upper')
            w.link(ts[i], same + '_right', ts[i + 1])
            n[i, other + '_right'] = maybe(
                f'X{i}', ts[i], other + '_right'
            )
            n[i + 1, other + '_left'] = maybe(
                f'M{i}', ts[i + 1], other + '_left'
            )
        for s in ('upper_right', 'lower_right'):
            n[k - 1, s] = maybe(f'N{k - 1}{s}', ts[-1], s)
        w.sign[90] = 1 if c.flag() else -1
        w.nodes[0] = _Root(w, ts[0])
        w.ready()
        _module()._add_edge(w.e, w.edges, w.points, w.nodes)
        us = _runs(above)
        ds = _runs(below)
        want = _outside(lo, hi, k - 1)
        for kind, runs in (('U', us), ('D', ds)):
            side, other = (
                ('upper', 'lower') if kind == 'U' else ('lower', 'upper')
            )
            for j, (x, y) in enumerate(runs):
                name = f'{kind}{j}'
                l = lo if x == 0 else ranks[x]
                r = hi if y == k - 1 else ranks[y + 1]
                links = {
                    side + '_left': (
                        n[x, side + '_left'] if x or not lo else 'L'
                    ),
                    side + '_right': (
                        n[y, side + '_right']
                        if y < k - 1 or hi == 90 else 'R'
                    ),
                    other + '_left': f'{kind}{j - 1}' if j else None,
                    other + '_right': (
                        f'{kind}{j + 1}' if j + 1 < len(runs) else None
                    ),
                }
                b, a = (
                    (w.e, above[x]) if kind == 'U' else (below[x], w.e)
                )
                w.piece(name, l, r, b, a, **links)
                for i in range(x, y + 1):
                    q = (
                        15 if i == 0 else
                        75 if i == k - 1 else ranks[i] + 5
                    )
                    want.append((i, q, 1 if kind == 'U' else -1, name))
                    want.append((i, q, 0, 'BOUNDARY'))
        _ends(
            w, lo, hi, below[0], above[0], below[-1], above[-1],
            {s: n[0 if 'left' in s else k - 1, s] for s in SIDES},
            'U0', 'D0', f'U{len(us) - 1}', f'D{len(ds) - 1}',
        )
        return w.check([t.leaf_index for t in ts], want)

    body.__doc__ = (
        f'_add_edge through {k} trapezoid{"s" * (k > 1)}, given where the'
        ' search ends'
    )
    return body


class _Const:
    def __init__(self, value):
        self.value = value

    def flag(self):
        return self.value


def _runs(xs):
    res = []
    for i, x in enumerate(xs):
        if i and xs[i - 1] == x:
            res[-1][1] = i
        else:
            res.append([i, i])
    return res


class _Root:
    """The search, given by its contract"""

    def __init__(self, world, t):
        self.world, self.t = world, t

    def search_edge_node(self, edge, edges, endpoints, nodes, /):
        w = self.world
        if edge is not w.edges[w.e]:
            raise Unsupported('search of another edge')
        return nodes[self.t.leaf_index]


def deep_search(c):
    """The search goes down to a leaf, however the tree is built"""
    m = _module()
    w = World(c)
    w.e = w.edge(10, 80)
    depth = 1 + c.flag() + 2 * c.flag() + 4 * c.flag()
    t = w.leaf('T', 0, 90, w.own_edge(), w.own_edge())
    w.nodes += [Opaque() for _ in range(depth)]
    order = list(range(1, depth))
    if c.flag():
        order.reverse()
    slots = [0, *(len(w.nodes) - depth + i for i in order)]

    class Inner:
        def __init__(self, to):
            self.to = to

        def search_edge_node(self, edge, edges, endpoints, nodes, /):
            if edge is not w.edges[w.e] or nodes is not w.nodes:
                raise Unsupported('search with other arguments')
            return nodes[self.to]

    for x, y in zip(slots, [*slots[1:], t.leaf_index]):
        w.nodes[x] = Inner(y)
    w.ready()
    got = m._find_intersecting_trapezoids(
        w.e, w.edges, w.points, w.nodes
    )
    if len(got) != 1 or got[0] is not t:
        return f'search at depth {depth} finds other trapezoids'
    return w._frame(())


def outer_box(c):
    """The trapezoid around all edges: strictly larger than the box"""
    from rene.exact import Box

    from .keys import _orienteer

    m = _module()
    (x0, y0), (x1, y1) = point(c), point(c)
    c.assume(x0 <= x1)
    c.assume(y0 <= y1)
    from rene.exact import Point

    edges, endpoints, nodes = [Opaque()], [Point(x0, y0), Opaque()], []
    t = m._box_to_trapezoid(
        Box(x0, x1, y0, y1), edges, endpoints, nodes, _orienteer()
    )
    if len(nodes) != 1 or nodes[0].trapezoid is not t or t.leaf_index != 0:
        return 'the trapezoid is not the root'
    if any(getattr(t, s + '_node_index') is not None for s in SIDES):
        return 'the trapezoid has neighbours'
    if t.is_component:
        return 'the trapezoid is a component'
    b, a = edges[t.below_edge_index], edges[t.above_edge_index]
    if b.interior_to_left or not a.interior_to_left:
        return 'sides of outer edges'
    if len(edges) != 3 or len(endpoints) != 6:
        return 'more edges'
    for e, above in ((b, False), (a, True)):
        l, r = endpoints[e.left_point_index], endpoints[e.right_point_index]
        if not (l.x < x0 and x1 < r.x):
            return 'outer edge is too short'
        if not (l.y > y1 and r.y > y1 if above else l.y < y0 and r.y < y0):
            return 'outer edge goes through the box'
    if not endpoints[t.left_point_index].x < x0:
        return 'left point'
    if not endpoints[t.right_point_index].x > x1:
        return 'right point'
    return None


class Ring(Opaque):
    """A contour known by the order of its vertices and its orientation"""

    def __init__(self, ranks, ccw):
        self.vertices = [Ranked(r) for r in ranks]
        self.ccw = ccw

    def sign(self, *triple):
        n = len(self.vertices)
        k = [
            i for p in triple for i, v in enumerate(self.vertices) if v is p
        ]
        if len(k) != 3:
            return None
        low = min(range(n), key=lambda i: self.vertices[i].rank)
        want = [(low - 1) % n, low, (low + 1) % n]
        for turn in (k, k[1:] + k[:1], k[2:] + k[:2]):
            if turn == want:
                return 1 if self.ccw else -1
            if turn == want[::-1]:
                return -1 if self.ccw else 1
        return None

    def edges(self, hole):
        """(left, right, interior is to the left)"""
        vs = self.vertices
        for p, q in zip(vs, vs[1:] + vs[:1]):
            inside = self.ccw is not hole
            yield (p, q, inside) if p < q else (q, p, not inside)


def _orient_rings(rings):
    from rene.enums import Orientation

    def orient(*triple):
        for r in rings:
            s = r.sign(*triple)
            if s is not None:
                return (
                    Orientation.COUNTERCLOCKWISE if s > 0
                    else Orientation.CLOCKWISE
                )
        raise Unsupported('orientation of other points')

    return orient


def orientation_at_least_vertex(c):
    """Orientation of a contour is the one at its least vertex (3 to 12
    vertices, wherever it is)"""
    from rene._utils import to_arg_min, to_contour_orientation

    for n in range(3, 13):
        for low in range(n):
            for step in (1, -1):
                for ccw in (True, False):
                    ring = Ring(
                        [(step * (i - low)) % n for i in range(n)], ccw
                    )
                    got = to_contour_orientation(
                        ring.vertices, to_arg_min(ring.vertices),
                        _orient_rings([ring]),
                    ).name
                    want = 'COUNTERCLOCKWISE' if ccw else 'CLOCKWISE'
                    if got != want:
                        return f'{got} of a {want} contour of {n} vertices'
    return None


class _Given(Exception):
    pass


def _given(call):
    """Edges and endpoints that the tree is built from"""
    cls = _module().Trapezoidation
    old = cls.__dict__['_from_box']
    if not isinstance(old, classmethod):
        raise Unsupported('other construction')
    got = []

    def from_box(c, *args):
        got.append(args)
        raise _Given

    cls._from_box = classmethod(from_box)
    try:
        call(cls)
    except _Given:
        pass
    finally:
        cls._from_box = old
    if not got:
        raise Unsupported('other construction')
    return got[0]


def _compare_edges(args, box, want):
    if len(args) != 4 or args[0] is not box:
        raise Unsupported('other construction')
    _, edges, endpoints, _ = args
    left = list(want)
    for e in edges:
        l = endpoints[e.left_point_index]
        r = endpoints[e.right_point_index]
        for w in left:
            if w[0] is l and w[1] is r and bool(e.interior_to_left) is w[2]:
                left.remove(w)
                break
        else:
            return (
                f'edge from {l.rank} to {r.rank}, interior to the left:'
                f' {e.interior_to_left}'
            )
    if left:
        return f'no edge from {left[0][0].rank} to {left[0][1].rank}'
    return None


def polygon_edges(c):
    """Edges of a polygon with any order of vertices and orientations, 3 to 5
    vertices of the border and a hole"""
    import itertools

    for n, m in ((3, 0), (4, 0), (5, 0), (3, 3), (4, 3), (3, 4)):
        holes_ranks = (
            [10 + i for i in p] for p in itertools.permutations(range(m))
        )
        for hr in [*holes_ranks]:
            for p in itertools.permutations(range(n)):
                if n > 3 and m > 2 and p[0]:
                    continue
                for ccw in (True, False):
                    ring = Ring(p, ccw)
                    holes = [Ring(hr, not ccw)] if m else []
                    if m and p[1] == 1:
                        holes.append(Ring([r + 10 for r in hr], ccw))
                    g = Opaque()
                    g.border, g.holes = ring, holes
                    g.bounding_box = box = Opaque()
                    args = _given(lambda cls: cls.from_polygon(
                        g, 7 * p[0], _orient_rings([ring, *holes])
                    ))
                    text = _compare_edges(args, box, [
                        *ring.edges(False),
                        *(e for h in holes for e in h.edges(True)),
                    ])
                    if text:
                        return f'{text}; order {p}, {hr}, {ccw}'
    return None


def multisegment_edges(c):
    """Edges of up to 4 segments of any directions"""
    n = 1 + c.flag() + 2 * c.flag()
    ss = []
    for i in range(n):
        s = Opaque()
        s.start, s.end = Ranked(2 * i), Ranked(2 * i + 3)
        if c.flag():
            s.start, s.end = s.end, s.start
        ss.append(s)
    g = Opaque()
    g.segments = ss
    g.bounding_box = box = Opaque()
    args = _given(lambda cls: cls.from_multisegment(
        g, 5, _orient_rings([])
    ))
    return _compare_edges(args, box, [
        (*((s.start, s.end) if s.start < s.end else (s.end, s.start)), False)
        for s in ss
    ])


def orientations():
    return [Contract(
        'orientation_at_least_vertex',
        ['rene._utils.to_contour_orientation', 'rene._utils.to_arg_min'],
        exhaustive(orientation_at_least_vertex), kind='shape', public=False,
    )]


def p01():
    return orientations()


def p22():
    T = [f'{MOD}.{n}' for n in (
        '_create_trapezoid', '_create_x_node', '_create_y_node',
        '_maybe_set_as_lower_left', '_maybe_set_as_lower_right',
        '_maybe_set_as_upper_left', '_maybe_set_as_upper_right',
        '_get_trapezoid', '_replace_node',
    )] + ['rene._seidel.trapezoid.Trapezoid']
    res = []
    for f in (single, first, middle, last):
        res.append(Contract(
            f'divide_{f.__name__}',
            [f'{MOD}._add_edge_to_{f.__name__}_trapezoid', *T],
            exhaustive(f), public=False, doc=f.__doc__,
        ))
    for k in (1, 2, 3, 4):
        res.append(Contract(
            f'chain_{k}',
            [f'{MOD}._add_edge', f'{MOD}._find_intersecting_trapezoids', *T],
            exhaustive(crossed(k)), kind='proof' if k == 1 else 'shape',
            public=False, doc=crossed(k).__doc__,
        ))
    res.append(Contract(
        'deep_search', [f'{MOD}._find_intersecting_trapezoids'],
        exhaustive(deep_search), kind='shape', public=False,
        doc=deep_search.__doc__,
    ))
    res.append(Contract(
        'outer_box', [f'{MOD}._box_to_trapezoid'], outer_box, public=False,
        doc=outer_box.__doc__,
    ))
    C = f'{MOD}.Trapezoidation.'
    res.append(Contract(
        'polygon_edges', [C + 'from_polygon', f'{MOD}._populate_from_contour'],
        exhaustive(polygon_edges), kind='shape', public=False,
    ))
    res.append(Contract(
        'multisegment_edges', [C + 'from_multisegment'],
        exhaustive(multisegment_edges), kind='shape', public=False,
    ))
    return res + orientations()
