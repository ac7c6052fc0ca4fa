"""Discharges the contracts of a property over symbolic inputs.

Work items (a witness of an unexplored path) are handed out to forked
workers; every worker runs the real functions symbolically (vf.engine).
"""

import collections
import multiprocessing as mp
import os
import sys
import time

from . import engine

PROCS = min(8, os.cpu_count() or 1)


class Contract:
    """Specification of real functions

    ``body(ctx)`` creates symbolic inputs, assumes the precondition, calls the
    real code and returns None if the postcondition holds, else a text.

    kind: 'proof' - inputs of any value; 'shape' - bounded number of vertices
    or a parametric family, any value of the parameters.
    public: inputs are values a user may pass to public functions.
    """

    def __init__(self, name, targets, body, kind='proof', public=True,
                 thorough=False, doc=''):
        self.name = name
        self.targets = list(targets)
        self.body = body
        self.kind = kind
        self.public = public
        self.thorough = thorough
        self.doc = doc


def load(pid):
    from .contracts import contracts_of

    return contracts_of(pid)


_STATE = {}


def _functions(event_codes):
    root = os.path.join(
        os.path.dirname(os.path.abspath(sys.modules['rene'].__file__)), ''
    )
    res = set()
    for code in event_codes:
        f = code.co_filename
        if f.startswith(root):
            mod = os.path.relpath(f, root)[:-3].replace(os.sep, '.')
            q = code.co_qualname.replace('.<locals>', '')
            if '<' in q:
                q = q.split('.<')[0]
            res.add(f'{mod}.{q}')
    return res


def _slice(args):
    index, items, soft_s, hard_s, timeout_ms = args
    c = _STATE['contracts'][index]
    key = (index, timeout_ms)
    solver = _STATE.setdefault('solver', {}).get(key)
    if solver is None:
        solver = _STATE['solver'][key] = engine.Solver(timeout_ms)
    solver.seconds = 0.0
    solver.by = {}
    codes = set()
    mon = sys.monitoring
    traced = _STATE.setdefault('traced', {}).setdefault(index, 0) < 4
    if traced:
        _STATE['traced'][index] += 1

        def start(code, _):
            codes.add(code)
            return mon.DISABLE

        mon.use_tool_id(3, 'vf')
        mon.register_callback(3, mon.events.PY_START, start)
        mon.restart_events()
        mon.set_events(3, mon.events.PY_START)
    try:
        with engine.symbolic_numbers():
            stats, unknown, failures, left = engine.explore_items(
                c.body, items, solver, soft_s, hard_s
            )
    except MemoryError:
        return index, None, ['out of memory'], [], [], 0.0, {}, set()
    finally:
        if traced:
            mon.set_events(3, 0)
            mon.register_callback(3, mon.events.PY_START, None)
            mon.free_tool_id(3)
    return (
        index, stats, unknown, failures, left, solver.seconds, solver.by,
        _functions(codes),
    )


def run(pid, thorough):
    from . import meta

    try:
        contracts = load(pid)
    except Exception as e:  # noqa: BLE001
        return {
            'obligations': 0, 'discharged': 0, 'functions': [],
            'backends': {}, 'solver_s': 0.0, 'undischarged': [],
            'violations': [], 'contracts': {},
            'errors': [f'contracts: {engine.describe(e)}'],
        }
    contracts = [c for c in contracts if thorough or not c.thorough]
    budget = meta.proof_budget(pid, thorough)
    return discharge(contracts, budget, 20000 if thorough else 8000)


def discharge(contracts, budget_s, timeout_ms, procs=PROCS):
    _STATE.clear()
    _STATE['contracts'] = contracts
    n = len(contracts)
    per = [
        {
            **dict.fromkeys(engine.STATS, 0), 'unknown': [], 'failures': [],
            'solver_s': 0.0, 'functions': set(), 'left': 0, 'by': {},
            'busy_s': 0.0,
        }
        for _ in contracts
    ]
    queues = [collections.deque([({}, 0)]) for _ in contracts]
    running = [0] * n
    t0 = time.time()
    over = False
    if contracts:
        import sympy  # noqa: F401  (before workers are forked)

        with mp.get_context('fork').Pool(procs) as pool:
            pending = []
            while True:
                # proofs first, families take turns
                ready = [i for i in range(n) if queues[i]]
                ready.sort(
                    key=lambda i: (
                        contracts[i].kind != 'proof', per[i]['busy_s']
                    )
                )
                for i in ready:
                    while queues[i] and len(pending) < procs * 2:
                        q = queues[i]
                        k = max(1, min(40, len(q) // (procs * 2)))
                        items = [q.pop() for _ in range(min(k, len(q)))]
                        pending.append((
                            pool.apply_async(
                                _slice, ((i, items, 0.7, 60.0, timeout_ms),)
                            ),
                            i, len(items), time.time(),
                        ))
                        running[i] += 1
                    if len(pending) >= procs * 2:
                        break
                if not pending:
                    break
                done = [p for p in pending if p[0].ready()]
                if not done:
                    if time.time() - t0 > budget_s:
                        over = True
                        break
                    time.sleep(0.003)
                    continue
                pending = [p for p in pending if p not in done]
                for res, i, k, started in done:
                    running[i] -= 1
                    (_, stats, unknown, failures, left, secs, by,
                     functions) = res.get()
                    r = per[i]
                    r['busy_s'] += time.time() - started
                    if stats is not None:
                        for s in engine.STATS:
                            r[s] += stats[s]
                    r['unknown'] += unknown
                    r['failures'] += failures
                    r['solver_s'] += secs
                    r['functions'] |= functions
                    for b, v in by.items():
                        r['by'][b] = r['by'].get(b, 0) + v
                    if failures:
                        queues[i].clear()
                    else:
                        queues[i].extend(left)
                if time.time() - t0 > budget_s:
                    over = True
                    break
            if over:
                for _, i, k, _ in pending:
                    per[i]['left'] += k
                pool.terminate()
    res = {
        'obligations': 0, 'discharged': 0, 'functions': set(), 'backends': {},
        'solver_s': 0.0, 'undischarged': [], 'violations': [], 'errors': [],
        'contracts': {}, 'shape_obligations': 0, 'shape_discharged': 0,
        'paths': 0, 'replayed': 0,
    }
    for i, c in enumerate(contracts):
        r = per[i]
        r['left'] += len(queues[i])
        if not r['failures'] and not r['obligations']:
            r['unknown'].append('no path satisfies the precondition')
        r['obligations'] += r['left']
        if r['left']:
            r['unknown'].append(f'budget over, {r["left"]} paths left')
        internal = [
            f for f in r['failures'] if not c.public and (
                _inapplicable(f[2]) or f[0].startswith('still running')
            )
        ]
        if internal:
            r['unknown'].append(f'not applicable to this source: {internal[0][0]}')
            r['failures'] = []
        for text, witness, _, given in r['failures'][:1]:
            res['violations'].append({
                'kind': 'contract', 'obligation': c.name, 'what': text,
                'contract': c.doc or c.name,
                'functions': c.targets,
                'witness': {str(k): str(v) for k, v in witness.items()},
                'input': show(c, witness) if c.public else given,
                'verifier_output': f'symbolic path refutes the'
                f' postcondition; z3 model {witness}',
            })
        complete = (
            not r['unknown'] and not r['failures']
            and r['discharged'] == r['obligations']
        )
        pre = '' if c.kind == 'proof' else 'shape_'
        res[pre + 'obligations'] += r['obligations']
        res[pre + 'discharged'] += r['discharged']
        res['paths'] += r['paths']
        res['replayed'] += r['replayed']
        res['functions'] |= r['functions'] | set(c.targets)
        res['solver_s'] += r['solver_s']
        for b, v in r['by'].items():
            res['backends'][b] = res['backends'].get(b, 0) + v
        if r['unknown']:
            kinds = collections.Counter(r['unknown'])
            res['undischarged'].append(
                f'{c.name}: '
                + '; '.join(f'{k} (x{v})' for k, v in kinds.most_common(4))
            )
        res['contracts'][c.name] = {
            'kind': c.kind, 'public': c.public, 'doc': c.doc,
            'functions': c.targets, 'paths': r['paths'],
            'outside_precondition': r['skipped'],
            'obligations': r['obligations'], 'discharged': r['discharged'],
            'complete': complete, 'solver_s': round(r['solver_s'], 2),
            'busy_s': round(r['busy_s'], 2),
        }
    res['functions'] = sorted(res['functions'])
    res['wall_s'] = time.time() - t0
    return res


def _inapplicable(kind):
    return kind in (
        'AttributeError', 'ImportError', 'ModuleNotFoundError', 'TypeError',
        'NameError', 'KeyError', 'UnboundLocalError',
    )


class _Recorder(engine.Concrete):
    def __init__(self, witness):
        super().__init__(witness)
        self.used = []

    def real(self):
        v = super().real()
        self.used.append(str(v))
        return v


def show(c, witness):
    ctx = _Recorder(witness)
    try:
        c.body(ctx)
    except BaseException:  # noqa: BLE001
        pass
    return ', '.join(ctx.used)


def replay(d):
    from fractions import Fraction as Q

    (c,) = [x for x in load(d['property']) if x.name == d['obligation']]
    w = {int(k): Q(v) for k, v in d['witness'].items()}
    r = engine.concrete(c.body, w)
    print(f'{c.name} at {show(c, w)}: {r}')
    return 1 if r else 0
