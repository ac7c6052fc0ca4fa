"""Loops of the real functions over sequences of any length.

The function under contract gets a :class:`Sequence` whose iterator hands out
fresh symbolic items for as long as an arbitrary boolean says so.  Every
request of an item is a loop head.  There the live state of all frames between
the iterator and the contract is captured; the run is cut off when

* the state (and the ghost state of the specification) is the same as at an
  earlier head of the path: any longer execution has a shorter one with the
  same outcome, which is explored anyway; or
* the state is the one that the very same code reaches from the start after
  fewer items that stand for all the items handed out so far (for running
  extrema and the like).

Together with the exploration of all paths this is a proof by induction on the
number of items.  Whenever hidden state cannot be excluded (values on stacks,
stateful builtins), the obligation is left undischarged.
"""

import ast
import bisect
import dis
import enum
import gc
import linecache
import sys
import textwrap
import types

from .engine import Skip, Sym, Unsupported


class Stop(BaseException):
    """Recorded the wanted head"""


class Sequence:
    def __init__(self, rule, items=None):
        self._rule = rule
        self._items = items

    def __iter__(self):
        return Iterator(self._rule, self._items)

    def _no(self, *_):
        raise Unsupported('use of a sequence of any length')

    __len__ = __getitem__ = __contains__ = __reversed__ = __hash__ = _no
    __eq__ = __ne__ = __bool__ = _no


class Iterator:
    def __init__(self, rule, items):
        self._rule = rule
        self._items = items
        self._k = 0

    def __iter__(self):
        return self

    def __next__(self):
        frame = sys._getframe(1)
        if self._items is not None:
            # the recording run
            if self._k < len(self._items):
                self._k += 1
                return self._items[self._k - 1]
            self._rule.recorded = self._rule.snapshot(frame, self)
            raise Stop
        return self._rule.head(frame, self)

    def _no(self, *_):
        raise Unsupported('length of an iterator')

    __length_hint__ = None


class Rule:
    """``item(ctx, ghost)`` makes an item and returns (item, new ghost)

    ``merged(ghost)``: the items (a list) that stand for all items so far, or
    None when only repeated states are cut off.
    ``call(sequence)``: runs the function under contract.
    """

    def __init__(self, ctx, item, ghost, call, merged=None, at_least=0):
        self.ctx = ctx
        self.item = item
        self.ghost = ghost
        self.call = call
        self.merged = merged
        self.at_least = at_least
        self.count = 0
        self.exhausted = False
        self.seen = []
        self.recorded = None
        self.items = []

    def run(self):
        self.base = sys._getframe(0)
        return self.call(Sequence(self))

    def head(self, frame, iterator):
        if self.ctx.symbolic:
            if self.count > 12:
                raise Unsupported('no repeated state')
            state = self.snapshot(frame, iterator)
            for s, g in self.seen:
                if same(s, state) and same(g, self.ghost):
                    raise Skip
            if self.merged is not None and self.count:
                items = self.merged(self.ghost)
                # shorter sequences are explored to their ends
                if self.count > len(items):
                    base = self.base
                    self.base = sys._getframe(0)
                    try:
                        self.call(Sequence(self, items))
                    except Stop:
                        pass
                    else:
                        raise Unsupported('merged items are not requested')
                    finally:
                        self.base = base
                    if same(self.recorded, state):
                        raise Skip
            self.seen.append((state, self.ghost))
        if self.count >= self.at_least and not self.ctx.flag():
            self.exhausted = True
            raise StopIteration
        self.count += 1
        x, self.ghost = self.item(self.ctx, self.ghost)
        return x

    def snapshot(self, frame, iterator):
        frames = []
        first = True
        while frame is not self.base:
            if frame is None:
                raise Unsupported('iteration outside of the call')
            if frame.f_globals.get('__package__') != __package__ + (
                '.contracts'
            ):
                frames.append(_frame_state(frame, first, iterator))
                first = False
            elif first:
                raise Unsupported('iteration outside of the code')
            frame = frame.f_back
        return ('frames', *frames)


# ------------------------------------------------------------------- frames
def _frame_state(frame, innermost, iterator):
    code = frame.f_code
    info = _info(code)
    at = info.offsets[bisect.bisect_right(info.offsets, frame.f_lasti) - 1]
    if at not in info.depth:
        raise Unsupported('loop inside of exception handling')
    op = info.op[at]
    if innermost and op.opname == 'FOR_ITER':
        if info.depth[at] > 1:
            raise Unsupported('hidden values of a loop')
        _exclude_wrappers(code, at, iterator)
    elif op.opname == 'FOR_ITER':
        # a generator feeds the loop
        if info.depth[at] > 1:
            raise Unsupported('hidden values of a loop')
        if innermost:
            _exclude_wrappers(code, at, iterator)
    elif op.opname == 'CALL':
        name = _callee(code, at)
        builtin = name in ('all', 'any', 'next', 'iter', 'bool')
        if innermost and not (builtin and _is_builtin(frame, name)):
            raise Unsupported(f'iteration by {name}')
        if innermost:
            _exclude_wrappers(code, at, iterator)
        if not builtin and name in STATEFUL:
            raise Unsupported(f'iteration by {name}')
        # callable (2 slots) and arguments
        if info.depth[at] - 2 - (op.arg or 0) > 0:
            raise Unsupported('hidden values of an expression')
    elif op.opname.startswith('LOAD_ATTR'):
        pass  # property
    elif op.opname in ('YIELD_VALUE', 'RETURN_GENERATOR', 'SEND', 'RESUME'):
        pass
    else:
        raise Unsupported(f'iteration by {op.opname}')
    live = info.live[at]
    values = []
    for k, v in sorted(frame.f_locals.items()):
        if k in live:
            values.append((k, capture(v)))
    return ('frame', id(code), at, tuple(values))


STATEFUL = (
    'sum', 'min', 'max', 'list', 'tuple', 'set', 'sorted', 'frozenset',
    'dict', 'reduce', 'map', 'filter', 'zip', 'enumerate', 'accumulate',
    'chain', 'groupby', 'deque', 'len',
)


def _is_builtin(frame, name):
    import builtins

    if name in frame.f_locals or name in frame.f_globals:
        return False
    return hasattr(builtins, name)


_WRAPPERS = {}


def _exclude_wrappers(code, at, iterator):
    """No map, zip, enumerate, ... object between the loop and the iterator"""
    key = (code, at)
    if key not in _WRAPPERS:
        bad = None
        for r in gc.get_referrers(iterator):
            if isinstance(r, (types.FrameType, types.GeneratorType)):
                continue
            if type(r).__module__ in ('builtins', 'itertools') and not (
                isinstance(r, (dict, list, tuple))
            ):
                bad = type(r).__name__
        _WRAPPERS[key] = bad
    if _WRAPPERS[key]:
        raise Unsupported(f'iteration through {_WRAPPERS[key]}')


class _Info:
    pass


_INFOS = {}


def _info(code):
    r = _INFOS.get(code)
    if r is not None:
        return r
    r = _INFOS[code] = _Info()
    ins = list(dis.get_instructions(code, show_caches=False))
    by = {i.offset: i for i in ins}
    nxt = {a.offset: b.offset for a, b in zip(ins, ins[1:])}
    r.op = by
    r.offsets = [i.offset for i in ins]
    succ = {}
    for i in ins:
        res = []
        jump = i.opcode in dis.hasjrel or i.opcode in dis.hasjabs
        if jump:
            res.append((i.argval, True))
        if i.opname not in (
            'RETURN_VALUE', 'RETURN_CONST', 'JUMP_FORWARD', 'JUMP_BACKWARD',
            'JUMP_BACKWARD_NO_INTERRUPT', 'RAISE_VARARGS', 'RERAISE',
        ) and i.offset in nxt:
            res.append((nxt[i.offset], False))
        succ[i.offset] = res
    # depth of the value stack before each instruction
    depth = {ins[0].offset: 0}
    work = [ins[0].offset]
    while work:
        o = work.pop()
        i = by[o]
        for t, jumped in succ[o]:
            d = depth[o] + dis.stack_effect(
                i.opcode, i.arg if i.opcode >= dis.HAVE_ARGUMENT else None,
                jump=jumped,
            )
            if t not in depth:
                depth[t] = d
                work.append(t)
    if 'RETURN_GENERATOR' in [i.opname for i in ins]:
        # the sent value is popped right away
        shift = {}
        for i in ins:
            if i.offset in depth:
                shift[i.offset] = depth[i.offset]
        low = min(shift.values())
        depth = {k: v - min(low, 0) for k, v in shift.items()}
    r.depth = depth
    # liveness of names
    use, kill = {}, {}
    for i in ins:
        u, k = set(), set()
        n = i.opname
        if n in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_DEREF',
                 'LOAD_CLASSDEREF', 'LOAD_CLOSURE', 'LOAD_FAST_AND_CLEAR',
                 'DELETE_FAST'):
            u.add(i.argval)
        elif n in ('STORE_FAST',):
            k.add(i.argval)
        elif n.startswith(('LOAD_FAST_', 'STORE_FAST_')):
            raise Unsupported(n)
        use[i.offset], kill[i.offset] = u, k
    cells = set(code.co_cellvars) | set(code.co_freevars)
    live = {i.offset: set() for i in ins}
    changed = True
    while changed:
        changed = False
        for i in reversed(ins):
            o = i.offset
            out = set()
            for t, _ in succ[o]:
                out |= live[t]
            new = (out - kill[o]) | use[o]
            if new != live[o]:
                live[o] = new
                changed = True
    # state while an instruction is being executed: what is live after it
    r.live = {}
    for i in ins:
        out = set()
        for t, _ in succ[i.offset]:
            out |= live[t]
        r.live[i.offset] = out | cells
    return r


def _callee(code, at):
    pos = None
    for i in dis.get_instructions(code, show_caches=False):
        if i.offset == at:
            pos = i.positions
    if pos is None or pos.lineno is None:
        return None
    lines = linecache.getlines(code.co_filename)[
        pos.lineno - 1 : pos.end_lineno
    ]
    if not lines:
        return None
    lines[-1] = lines[-1].encode()[: pos.end_col_offset].decode()
    lines[0] = lines[0].encode()[pos.col_offset :].decode()
    try:
        e = ast.parse('(' + textwrap.dedent(''.join(lines)) + ')').body[0]
    except SyntaxError:
        return None
    e = e.value
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name):
            return f.id
        if isinstance(f, ast.Attribute):
            return f.attr
    return None


# ------------------------------------------------------------------- values
def capture(v, depth=5):
    if v is None or isinstance(v, (bool, int, str, enum.Enum, Sym)):
        return v
    if isinstance(v, (Iterator, Sequence)):
        return ('sequence',)
    if isinstance(v, (list, tuple)):
        if depth == 0:
            raise Unsupported('deep state')
        return (type(v).__name__, *(capture(x, depth - 1) for x in v))
    if isinstance(v, types.GeneratorType):
        if v.gi_frame is None:
            return ('done',)
        return ('generator', id(v.gi_code))
    if isinstance(v, types.MethodType):
        return ('method', id(v.__func__), capture(v.__self__, depth - 1))
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type)):
        return ('id', id(v))
    if isinstance(v, (dict, set, frozenset)):
        raise Unsupported('state in a mapping or set')
    if type(v).__module__.startswith('rene') and depth:
        slots = [
            s
            for c in type(v).__mro__
            for s in getattr(c, '__slots__', ())
            if isinstance(s, str)
        ]
        if slots and type(v).__name__ in ('Point', 'Segment', 'Box'):
            return (
                type(v).__name__,
                *(
                    capture(getattr(v, s), depth - 1)
                    for s in slots
                    if hasattr(v, s)
                ),
            )
    if type(v).__module__ in ('builtins', 'itertools', '_collections'):
        raise Unsupported(f'state in {type(v).__name__}')
    return ('object', id(v))


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)):
            return bool(a == b)
        return False
    return type(a) is type(b) and a == b
