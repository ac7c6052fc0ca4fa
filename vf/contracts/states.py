"""Relations gathered from points of the sweep: what one point adds to the
state, and what the final state says.  Facts about events (operand, kind, end)
are given by an operation known by its contract only."""

import importlib

from .common import Contract, exhaustive, point
from .fields import _flags


def _module(name):
    return importlib.import_module(f'rene._relating.{name}')


class Events:
    """Stands for an operation; events of one point

    facts: event -> dict(first, end, kind, inside)
    """

    def __init__(self, facts, linear_is_first=True, cross=False):
        self.facts = facts
        self.linear_is_first = linear_is_first
        self.cross = cross

    def is_event_from_first_operand(self, x):
        return self.facts[x]['first']

    _is_event_from_first_operand = is_event_from_first_operand

    def is_event_from_linear(self, x):
        return self.facts[x]['first'] is self.linear_is_first

    def to_event_end(self, x):
        return self.facts[x]['end']

    def classify_event(self, x):
        return getattr(_module('shaped').EventKind, self.facts[x]['kind'])

    def is_event_inside(self, x):
        return self.facts[x]['inside']

    is_left_event_inside = is_event_inside

    def is_event_outside(self, x):
        return not self.facts[x]['inside']

    is_left_event_outside = is_event_outside

    def has_edges_cross(self, _):
        return self.cross

    has_crossing = has_edges_cross

    def _both(self, events):
        return len({self.facts[x]['first'] for x in events}) == 2

    has_intersection = has_border_intersection = _both


def _state(c, module, names):
    old = dict(zip(names, _flags(c, len(names))))
    return old, _module(module).RelationState(**old)


def _compare(state, want):
    for k, v in want.items():
        if bool(getattr(state, k)) is not bool(v):
            return f'{k} is {getattr(state, k)}, expected {v}'
    return None


LINEAR = ('first_is_subset', 'second_is_subset', 'has_crossing',
          'has_intersection', 'has_overlap')


def linear_update(c):
    """A point common to both adds an intersection, equal edges add an
    overlap, an edge of one operand only refutes that it is a subset"""
    facts, events = {}, []
    ends = {}
    for i, (left, end) in enumerate(
        ((True, 5), (True, 7), (False, -3), (False, -4))
    ):
        for first in (True, False):
            if c.flag():
                x = 4 * i + 2 * first + (not left)
                facts[x] = {'first': first, 'end': end}
                events.append(x)
                if left:
                    ends.setdefault(end, set()).add(first)
    c.assume(events)
    old, state = _state(c, 'linear', LINEAR)
    op = Events(facts, cross=c.flag())
    if c.flag():
        events.reverse()
    state.update(events, op)
    firsts = {facts[x]['first'] for x in events}
    both = len(firsts) == 2
    alone = {f for s in ends.values() if len(s) == 1 for f in s}
    if not both:
        alone |= firsts
    return _compare(state, {
        'has_intersection': old['has_intersection'] or both,
        'has_overlap': old['has_overlap'] or (
            any(len(s) == 2 for s in ends.values())
        ),
        'has_crossing': old['has_crossing'] or both and op.cross,
        'first_is_subset': old['first_is_subset'] and True not in alone,
        'second_is_subset': old['second_is_subset'] and False not in alone,
    })


MIXED = ('linear_is_subset_of_shaped', 'shaped_border_is_subset_of_linear',
         'linear_intersects_shaped_interior',
         'linear_intersects_shaped_border')


def mixed_update(c):
    """A point on the border adds an intersection with it, edges of the
    linear operand tell where it goes, an edge of the border alone refutes
    that the border is a subset"""
    facts, events = {}, []
    ends = {}
    linear_is_first, inside = c.flag(), c.flag()
    for i, (left, end) in enumerate(((True, 5), (True, 7), (False, -3))):
        where = c.flag() if left else inside
        for first in (True, False):
            if c.flag():
                x = 4 * i + 2 * first + (not left)
                facts[x] = {'first': first, 'end': end, 'inside': where}
                events.append(x)
                if left:
                    ends.setdefault(end, []).append(x)
    c.assume(events)
    op = Events(facts, linear_is_first)
    linear = [x for x in events if op.is_event_from_linear(x)]
    if len(linear) == len(events):
        # there is no border at the point
        for x in linear:
            c.assume(facts[x]['inside'] is facts[linear[0]]['inside'])
    old, state = _state(c, 'mixed', MIXED)
    if c.flag():
        events.reverse()
    state.update(events, op)
    if len(linear) in (0, len(events)):
        alone = events[:1]
    else:
        alone = [s[0] for s in ends.values() if len(s) == 1]
    edges = [x for x in alone if op.is_event_from_linear(x)]
    return _compare(state, {
        'linear_intersects_shaped_border': (
            old['linear_intersects_shaped_border']
            or 0 < len(linear) < len(events)
        ),
        'linear_is_subset_of_shaped': old['linear_is_subset_of_shaped']
        and all(facts[x]['inside'] for x in edges),
        'linear_intersects_shaped_interior': (
            old['linear_intersects_shaped_interior']
            or any(facts[x]['inside'] for x in edges)
        ),
        'shaped_border_is_subset_of_linear': (
            old['shaped_border_is_subset_of_linear']
            and len(edges) == len(alone)
        ),
    })


SHAPED = ('boundaries_intersect', 'first_boundary_intersects_second_interior',
          'first_is_subset', 'has_continuous_intersection',
          'second_boundary_intersects_first_interior', 'second_is_subset')
KINDS = ('INSIDE', 'OUTSIDE', 'COMMON_REGION_EDGE', 'COMMON_POLYLINE_SEGMENT')


def shaped_update(c):
    """Edges inside of the other operand, outside of it and common edges"""
    n = 1 + c.flag() + c.flag()
    facts = {}
    for x in range(n):
        first, a, b = _flags(c, 3)
        facts[2 * x] = {'first': first, 'kind': KINDS[2 * a + b]}
    events = list(facts)
    both = len({f['first'] for f in facts.values()}) == 2
    if not both:
        # borders do not meet at the point
        for f in facts.values():
            c.assume(f['kind'] == facts[0]['kind'] in KINDS[:2])
    cross = both and c.flag()
    if cross:
        c.assume(any(f['kind'] in KINDS[:2] for f in facts.values()))
    old, state = _state(c, 'shaped', SHAPED)
    state.update(events, Events(facts, cross=cross))
    if cross:
        return _compare(state, {
            'has_continuous_intersection': True, 'first_is_subset': False,
            'second_is_subset': False,
        })
    inside = {f['first'] for f in facts.values() if f['kind'] == 'INSIDE'}
    off = {
        f['first'] for f in facts.values()
        if f['kind'] in ('OUTSIDE', 'COMMON_POLYLINE_SEGMENT')
    }
    common = any(f['kind'] == 'COMMON_REGION_EDGE' for f in facts.values())
    return _compare(state, {
        'boundaries_intersect': old['boundaries_intersect'] or both,
        'has_continuous_intersection': old['has_continuous_intersection']
        or common or inside,
        'first_boundary_intersects_second_interior': (
            old['first_boundary_intersects_second_interior'] or True in inside
        ),
        'second_boundary_intersects_first_interior': (
            old['second_boundary_intersects_first_interior']
            or False in inside
        ),
        'first_is_subset': old['first_is_subset']
        and False not in inside and True not in off,
        'second_is_subset': old['second_is_subset']
        and True not in inside and False not in off,
    })


# ------------------------------------------------------------ final relation
def _linear_relation(s):
    if s['first_is_subset']:
        return 'EQUAL' if s['second_is_subset'] else 'COMPONENT'
    if s['second_is_subset']:
        return 'COMPOSITE'
    for k, r in (('has_overlap', 'OVERLAP'), ('has_crossing', 'CROSS'),
                 ('has_intersection', 'TOUCH')):
        if s[k]:
            return r
    return 'DISJOINT'


def _mixed_relation(s):
    subset, border, inner, meets = (s[k] for k in MIXED)
    if subset:
        if not inner:
            return 'COMPONENT'
        return 'ENCLOSED' if border or meets else 'WITHIN'
    if inner:
        return 'CROSS'
    return 'TOUCH' if border or meets else 'DISJOINT'


def _shaped_relation(s):
    meets, fi, fs, common, si, ss = (s[k] for k in SHAPED)
    if not meets:
        return (
            'COVER' if ss else 'WITHIN' if fs
            else 'OVERLAP' if common else 'DISJOINT'
        )
    if fs:
        return 'EQUAL' if ss else 'ENCLOSED' if fi else 'COMPONENT'
    if ss:
        return 'ENCLOSES' if si else 'COMPOSITE'
    return 'OVERLAP' if common else 'TOUCH'


# name -> flags set by to_relation, flags that only go down, relation
TABLE = {
    'linear': (LINEAR, ('first_is_subset', 'second_is_subset'),
               _linear_relation),
    'mixed': (MIXED, MIXED[:2], _mixed_relation),
    'shaped': (SHAPED, ('first_is_subset', 'second_is_subset'),
               _shaped_relation),
}


class At:
    def __init__(self, k, x):
        self.k = k
        self.x = x

    def __eq__(self, other):
        return self.k == other.k

    def __ne__(self, other):
        return self.k != other.k

    __hash__ = None


def relation(module, name):
    """to_relation: points of the sweep are taken one by one with all their
    events; what is known at the end (or earlier when nothing else matters)
    gives the relation"""

    def body(c):
        flags, falling, spec = TABLE[module]
        mod = _module(module)
        o, run = stub()
        n = 1 + c.flag() + c.flag()
        beyond = n > 1 and c.flag()  # the last point is beyond
        # events: operands at points
        run.queue = queue = []
        for k in range(n):
            two = k == 0 and c.flag()
            first = c.flag()
            queue.append((k, first))
            if two:
                queue.append((k, not first))
        given = {k: c.flag() for k in falling if k != (
            'shaped_border_is_subset_of_linear'
        )}
        want = dict.fromkeys(flags, False)
        want.update(given)
        if module == 'mixed':
            want['shaped_border_is_subset_of_linear'] = True
        effects = []
        for k in range(n - beyond):
            if k == 0:
                effects.append([f for f in flags if c.flag()])
            elif k == 1:
                i = 4 * c.flag() + 2 * c.flag() + c.flag()
                effects.append(list(flags[i : i + 1]))
            else:
                effects.append([])
        last = queue[-1][1]
        run.taken = run.updates = 0
        run.limit = n - 1 if beyond else n
        problem = []

        def update(state, events, op):
            k = run.updates
            mine = [2 * i for i, q in enumerate(queue) if q[0] == k]
            if sorted(events) != mine:
                problem.append(f'point {k} is given by {events}')
            run.updates += 1
            for f in effects[k] if k < len(effects) else ():
                setattr(state, f, f not in falling)

        original = mod.RelationState.update
        mod.RelationState.update = update
        try:
            got = o.to_relation(**given, min_max_x=50).name
        finally:
            mod.RelationState.update = original
        if problem:
            return problem[0]
        for e in effects:
            for f in e:
                want[f] = f not in falling
        if beyond:
            # one operand is left there
            if module == 'mixed':
                if last is linear_is_first:
                    want['linear_is_subset_of_shaped'] = False
                else:
                    want['shaped_border_is_subset_of_linear'] = False
            else:
                want['first_is_subset' if last else 'second_is_subset'] = (
                    False
                )
        # states that no operands have
        if module == 'shaped':
            c.assume(not (
                want['first_is_subset'] and want['second_is_subset']
            ) or want['boundaries_intersect'])
        if module == 'mixed':
            c.assume(
                want['linear_is_subset_of_shaped'] is False
                or want['linear_intersects_shaped_interior']
                or want['linear_intersects_shaped_border']
                or want['shaped_border_is_subset_of_linear']
            )
        text = spec(want)
        if name == 'ShapedLinearOperation':
            text = {
                'COMPONENT': 'COMPOSITE', 'ENCLOSED': 'ENCLOSES',
                'WITHIN': 'COVER',
            }.get(text, text)
        return None if got == text else f'{got}, expected {text}: {want}'

    linear_is_first = name != 'ShapedLinearOperation'
    made = []

    def stub():
        """The real operation with events given by a list"""
        if made:
            return made[0]
        from .fields import _operation

        base = getattr(_module(module), name)

        class Run:
            pass

        run = Run()

        class Stub(base):
            __slots__ = ()

            def _pop(self):
                run.taken += 1
                return 2 * run.taken - 2

            def __bool__(self):
                return run.taken < len(run.queue)

            def _process_event(self, x):
                pass

            def to_event_start(self, x):
                k = run.queue[x // 2][0]
                return At(k, 100 if k == run.limit else k)

            def is_event_from_first_operand(self, x):
                return run.queue[x // 2][1]

            _is_event_from_first_operand = is_event_from_first_operand

            def is_event_from_linear(self, x):
                return run.queue[x // 2][1] is linear_is_first

            def is_event_inside(self, x):
                return False

            def is_event_outside(self, x):
                return True

            is_left_event_inside = is_event_inside
            is_left_event_outside = is_event_outside

        o, _ = _operation(base, [(((0, 0), (1, 0)), True, True),
                                 (((0, 1), (1, 1)), False, True)])
        o.__class__ = Stub
        made.append((o, run))
        return made[0]

    body.__doc__ = f'{name}.to_relation given what points say'
    return body


def crossing(firsts, seconds, fixed=False):
    """has_crossing: edges of operands at a point alternate around it"""

    def body(c):
        from .fields import _operation

        ends = [point(c) for _ in range(firsts + seconds)]
        if fixed:
            ends[0] = (2, 1)
        for i, p in enumerate(ends):
            c.assume(not (p[0] == 0 and p[1] == 0))
            for q in ends[:i]:
                c.assume(not (
                    p[0] * q[1] == p[1] * q[0]
                    and p[0] * q[0] + p[1] * q[1] > 0
                ))
        op, lefts = _operation(_module('linear').Operation, [
            (((0, 0), p), i < firsts, True) for i, p in enumerate(ends)
        ])
        events = [
            x if op.endpoints[x].x == 0 and op.endpoints[x].y == 0 else x + 1
            for x in lefts
        ]
        got = op.has_crossing(events)

        def between(p, a, b):
            """p is met going counterclockwise from a to b"""
            def sign(u, v):
                d = u[0] * v[1] - u[1] * v[0]
                return 1 if d > 0 else -1 if d < 0 else 0

            ab, ap, pb = sign(a, b), sign(a, p), sign(p, b)
            if ab > 0:
                return ap > 0 and pb > 0
            if ab == 0:
                return ap > 0
            return ap > 0 or pb > 0 or ap == 0 and pb == 0

        a = ends[:firsts]
        want = any(
            between(p, u, v) != between(q, u, v)
            for i, u in enumerate(a) for v in a[:i]
            for j, p in enumerate(ends[firsts:])
            for q in ends[firsts:][:j]
        )
        return None if bool(got) is want else (
            f'has_crossing is {got}, expected {want}'
        )

    body.__doc__ = f'has_crossing of {firsts} and {seconds} edges'
    return body


def _contracts(module, update, names):
    return [
        Contract(f'update_{module}',
                 [f'rene._relating.{module}.RelationState.update'],
                 exhaustive(update),
                 kind='shape', public=False),
    ] + [
        Contract(f'relation_{n}', [f'rene._relating.{module}.{n}.to_relation'],
                 exhaustive(relation(module, n)), kind='shape', public=False)
        for n in names
    ]


def p16():
    return _contracts('linear', linear_update, ['Operation']) + [
        Contract(f'crossing_{i}_{j}',
                 ['rene._relating.linear.Operation.has_crossing'],
                 crossing(i, j), kind='shape', public=False,
                 thorough=i + j > 3)
        for i, j in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2))
    ] + [
        Contract('crossing_from_ray',
                 ['rene._relating.linear.Operation.has_crossing'],
                 crossing(2, 2, True), kind='shape', public=False)
    ]


def p17():
    return _contracts('mixed', mixed_update,
                      ['LinearShapedOperation', 'ShapedLinearOperation'])


def p18():
    return _contracts('shaped', shaped_update, ['Operation'])
