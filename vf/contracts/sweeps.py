"""One event of a sweep, for a sweep line of any length.

The sweep line is known around the event only.  Detection of intersections
and fields of edges are given by their own contracts: what is checked is that
they are asked for all neighbours that meet, and in the right order.
"""

import importlib

from ..engine import Unsupported
from .common import Contract, exhaustive
from .trapezoids import Opaque, Ranked


class Line:
    """The sweep line around an event; ``new``: where the event goes"""

    def __init__(self, order, new, equal, error):
        self.order = list(order)
        self.new = new
        self.equal = equal
        self.error = error

    def __getattr__(self, name):
        raise Unsupported(f'{name} of the sweep line')

    def _at(self, key):
        if key in self.equal:
            key = self.equal[key]
            if key is None:
                return None
        if key not in self.order:
            raise Unsupported('another event on the sweep line')
        return self.order.index(key)

    def get(self, key, default=None):
        i = self._at(key)
        return default if i is None else self.order[i]

    def __getitem__(self, key):
        i = self._at(key)
        if i is None:
            raise self.error
        return self.order[i]

    def __contains__(self, key):
        return self._at(key) is not None

    def floor(self, key):
        i = self._at(key)
        if i is not None:
            return self.order[i]
        # the event is not yet on the sweep line
        if self.new and self.order[self.new - 1] != 'end':
            return self.order[self.new - 1]
        raise self.error

    def __setitem__(self, key, value):
        if key != value or self._at(key) is not None:
            raise Unsupported('another event on the sweep line')
        self.order.insert(self.new, key)
        self.equal[key] = key

    def add(self, key):
        self[key] = key

    def next(self, key):
        i = self._at(key)
        if i is None:
            raise Unsupported('neighbours of an unknown event')
        if self.order[i + 1] == 'end':
            raise self.error
        if self.order[i + 1] == 'unknown':
            raise Unsupported('farther neighbours')
        return self.order[i + 1]

    def prev(self, key):
        i = self._at(key)
        if i is None:
            raise Unsupported('neighbours of an unknown event')
        if self.order[i - 1] == 'end':
            raise self.error
        if self.order[i - 1] == 'unknown':
            raise Unsupported('farther neighbours')
        return self.order[i - 1]

    def __delitem__(self, key):
        i = self._at(key)
        if i is None:
            raise self.error
        x = self.order.pop(i)
        for k, v in self.equal.items():
            if v == x:
                self.equal[k] = None

    def remove(self, key):
        del self[key]

    __iter__ = __len__ = __bool__ = None


class Queue:
    def __init__(self, events):
        self.events = list(events)

    def __getattr__(self, name):
        raise Unsupported(f'{name} of the queue of events')

    def __bool__(self):
        return bool(self.events)

    def __len__(self):
        return len(self.events)

    def pop(self):
        return self.events.pop(0)

    def peek(self):
        return self.events[0]


def _operation(cls, log, detected):
    """The operation with its neighbourhood checks replaced by contracts"""
    if not all(
        hasattr(cls, n) for n in ('_detect_intersection', '_opposites')
    ):
        raise Unsupported('another operation')
    names = {}

    def detect(self, below_event, event, /):
        log.append(('pair', below_event, event))
        return detected(below_event, event)

    names['_detect_intersection'] = detect
    if hasattr(cls, '_compute_left_event_fields'):
        def fields(self, event, below_event, /):
            log.append(('fields', event, below_event))

        names['_compute_left_event_fields'] = fields
    if hasattr(cls, '_to_sweep_line_key'):
        names['_to_sweep_line_key'] = lambda self, event, /: event
    if hasattr(cls, '_merge_equal_segment_events'):
        names['_merge_equal_segment_events'] = (
            lambda self, a, b, /: log.append(('equal', a, b))
        )
    sub = type(cls.__name__, (cls,), {'__slots__': (), **names})
    sub.__abstractmethods__ = frozenset()
    op = object.__new__(sub)
    for k in cls.__mro__:
        slots = k.__dict__.get('__slots__', ())
        for s in (slots,) if isinstance(slots, str) else slots:
            setattr(op, s, Opaque())
    return op


# Left ends are even, right ends odd; an event is known by its number
E, A, B, BB, Q = 20, 30, 40, 50, 60


def step(module, name):
    def body(c):
        cls = getattr(importlib.import_module(f'rene.{module}'), name)
        set_ = not hasattr(cls, '_to_sweep_line_key')
        error = ValueError('no such event') if set_ else KeyError('no event')
        left, known = c.flag(), c.flag()
        a, b = c.flag(), c.flag()
        above = [A, 'unknown'] if a else ['end']
        below = (
            ([('unknown'), BB] if c.flag() else ['end']) + [B] if b
            else ['end']
        )
        # equal edges of both operands are one on the sweep line
        x = (Q if c.flag() else E) if known else None
        if left and x == E:
            # an event comes once
            c.assume(False)
        order = [*below, *([] if x is None else [x]), *above]
        line = Line(order, len(below), {E: x}, error)
        overlap = None
        if left and x is None:
            k = c.flag() and 1 or c.flag() and 2
            overlap = {1: (B, E), 2: (E, A)}.get(k)
            c.assume(overlap is None or set(overlap) <= set(order) | {E})
        log = []
        op = _operation(cls, log, lambda *pair: pair == overlap)
        n = 70
        points = [Opaque() for _ in range(n)]
        opposites = [i ^ 1 for i in range(n)]
        for i, e in enumerate((E, A, B, BB, Q)):
            points[e], points[e + 1] = Ranked(0), Ranked(10 + i)
        points[Q + 1].rank = points[E + 1].rank
        event = E if left else E + 1
        for k, v in (
            ('endpoints', points), ('_endpoints', points),
            ('_opposites', opposites), ('_sweep_line_data', line),
            ('_events_queue_data', Queue([event])),
            ('_starts_ids', [-1] * n), ('_unique', unique := c.flag()),
        ):
            if hasattr(cls, k):
                setattr(op, k, v)
        if hasattr(cls, '_current_endpoint_first_event'):
            same = c.flag()
            points.append(Ranked(points[event].rank - (not same)))
            op._current_endpoint_first_event = n
            op._current_endpoint_id = 7
        if hasattr(cls, '_process_event'):
            op._process_event(event)
            got = None
        else:
            got = list(op)
        text = _order(log, line, order, left, x)
        if text:
            return text
        text = _pairs(log, left, x, a, b) or _fields(
            cls, log, left, x, a, b, BB in order, overlap
        )
        if text:
            return text
        if hasattr(cls, '_current_endpoint_first_event'):
            if (op._current_endpoint_id, op._starts_ids[event]) != (
                (7, 7) if same else (8, 8)
            ):
                return 'wrong number of the point'
        if got is None:
            return None
        if got not in ([], [event]):
            return f'{got} is handed over'
        if (x is None) is left and not got:
            # edges come and go
            return 'the event is not handed over'
        if set_:
            if unique and left and x is not None and got:
                return 'equal segment is reported'
            if not unique and not got:
                return 'the event is not handed over'
            merged = any(
                r[0] == 'equal' and {E, Q} == set(r[1:]) for r in log
            )
            if (x == Q) is not merged:
                return 'equal segments are not merged'
        return None

    body.__doc__ = (
        f'one event of the sweep of {module}.{name}: new neighbours on the'
        ' sweep line are checked for intersections, fields are computed for'
        ' the edges that they changed for'
    )
    return body


def _order(log, line, order, left, x):
    want = [y for y in order]
    if left and x is None:
        want.insert(line.new, E)
    elif not left and x is not None:
        want.remove(x)
    if line.order != want:
        return f'sweep line {line.order}, expected {want}'
    return None


def _pairs(log, left, x, a, b):
    got = [r[1:] for r in log if r[0] == 'pair']
    want = []
    if left and x is None:
        want = [(B, E)] * b + [(E, A)] * a
    elif not left and x is not None:
        want = [(B, A)] * (a and b)
    for p in want:
        if p not in got:
            return f'neighbours {p} are not checked'
    for p in got:
        if p not in want:
            return f'{p} are checked'
    return None


def _fields(cls, log, left, x, a, b, bb, overlap):
    if not hasattr(cls, '_compute_left_event_fields'):
        return None
    got = [r for r in log if r[0] == 'fields']
    if not left or x is not None:
        return f'fields of {got[0][1]} are computed' if got else None
    under = {E: B if b else None, A: E, B: BB if bb else None}
    done = {}
    for r in log:
        if r[0] == 'pair':
            if r[1:] == overlap:
                # both edges became equal
                for y in overlap:
                    done.pop(y, None)
            continue
        y, z = r[1:]
        if y not in under or under[y] != z:
            return f'fields of {y} are computed with {z} below'
        done[y] = True
        # fields depend on those of the edge below
        if y == B:
            done.pop(E, None)
        if y in (B, E) and overlap == (E, A):
            done.pop(A, None)
    for y in {E, *(overlap or ())}:
        if y not in done:
            return f'fields of {y} are not computed in the end'
    return None


def _steps(*names):
    return [
        Contract(
            f'step_{module.split(".")[0].strip("_")}_{name}',
            [f'rene.{module}.{name}.{entry}'],
            exhaustive(step(module, name)), public=False,
            doc=step(module, name).__doc__,
        )
        for module, name, entry in names
    ]


def p13():
    return _steps(('_clipping.shaped', 'Operation', '__iter__'))


def p14():
    return _steps(('_clipping.linear', 'Operation', '__iter__'))


def p15():
    return _steps(('_clipping.mixed', 'Operation', '__iter__'))


def p16():
    return _steps(('_relating.linear', 'Operation', '_process_event'))


def p17():
    return _steps(('_relating.mixed', 'Operation', '_process_event'))


def p18():
    return _steps(('_relating.shaped', 'Operation', '_process_event'))


def p19():
    return _steps(
        ('_bentley_ottmann.events_registry', 'EventsRegistry', '__iter__')
    )
