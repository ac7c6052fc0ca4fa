"""Bounded contract checks: public pre/postconditions on generated inputs.

Every case is a plain Python value; a check function builds the operands with
the real library from /repo, calls it and evaluates the postcondition with the
independent oracle.  Everything is a function of the seed.
"""

import hashlib
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from fractions import Fraction

CASE_CPU_S = 40
CHUNK = 25
REPO = os.environ.get('RENE_ROOT', '/repo')


class Family:
    def __init__(self, name, make, check, count, nontrivial=None, doc=''):
        self.name = name
        self.make = make
        self.check = check
        self.count = count
        self.nontrivial = nontrivial or (lambda case: True)
        self.doc = doc or (check.__doc__ or '').strip().split('\n')[0]


class _Stuck(BaseException):
    pass


def _alarm(*_):
    raise _Stuck


def in_library(tb):
    """Did the exception leave the library (or a call made by it)?"""
    files = [f.filename for f in traceback.extract_tb(tb)]
    return any(
        os.path.abspath(f).startswith(os.path.join(REPO, 'rene') + os.sep)
        for f in files
    )


def run_case(check, case):
    """None, ('bad', text) or ('error', text) when the harness is at fault"""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        try:
            r = check(case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except _Stuck:
        tb = sys.exc_info()[2]
        if in_library(tb):
            return ('bad', f'still running after {CASE_CPU_S} s of CPU time')
        return ('error', 'harness still running')
    except Exception as e:
        tb = sys.exc_info()[2]
        text = f'{type(e).__name__}: {e}'
        if in_library(tb) or not isinstance(e, AssertionError) and _from_rene(e):
            return ('bad', f'raised {text[:300]}')
        return ('error', ''.join(traceback.format_exception(e))[-1500:])
    return None if r is None else ('bad', r)


def _from_rene(e):
    return type(e).__module__.startswith('rene')


def _chunk(args):
    fam, seed, index, count = args
    rng = random.Random(f'{seed}:{fam.name}:{index}')
    out = {'n': 0, 'hashes': [], 'bad': [], 'errors': [], 'sample': None}
    for _ in range(count):
        try:
            case = fam.make(rng)
        except Exception as e:
            out['errors'].append(
                'generator: ' + ''.join(traceback.format_exception(e))[-800:]
            )
            continue
        if case is None:
            continue
        out['n'] += 1
        if fam.nontrivial(case):
            h = hashlib.blake2b(repr(case).encode(), digest_size=8).digest()
            out['hashes'].append(h)
            if out['sample'] is None:
                out['sample'] = case
        r = run_case(fam.check, case)
        if r is not None:
            (out['bad'] if r[0] == 'bad' else out['errors']).append(
                (case, r[1])
            )
            if len(out['bad']) + len(out['errors']) >= 5:
                break
    return fam.name, out


_TASKS = None


def _task(i):
    return _chunk(_TASKS[i])


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run(families, seed, scale=1.0, cap_s=120.0, procs=8, known=()):
    """Run all families; returns a summary

    ``known`` holds reprs of cases that are listed findings.
    """
    global _TASKS
    t0 = time.time()
    tasks = []
    for fam in families:
        total = max(1, int(fam.count * scale))
        k = 0
        while total > 0:
            c = min(CHUNK, total)
            tasks.append((k, fam, seed, c))
            total -= c
            k += 1
    # interleave families
    tasks.sort(key=lambda t: t[0])
    _TASKS = [(fam, seed, k, c) for k, fam, seed, c in tasks]
    res = {
        f.name: {
            'evaluations': 0, 'hashes': set(), 'samples': [], 'planned': 0
        }
        for f in families
    }
    for fam, _, _, c in _TASKS:
        res[fam.name]['planned'] += c
    bad, errors = [], []
    by_name = {f.name: f for f in families}
    capped = False
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(procs, _limit)
    try:
        it = pool.imap_unordered(_task, range(len(_TASKS)))
        grace = None
        while True:
            now = time.time()
            left = cap_s - (now - t0)
            if grace is not None:
                left = min(left, grace - now)
            if left <= 0:
                capped = grace is None
                break
            try:
                name, out = it.next(timeout=left)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                capped = grace is None
                break
            r = res[name]
            r['evaluations'] += out['n']
            r['hashes'].update(out['hashes'])
            if len(r['samples']) < 2 and out['sample'] is not None:
                r['samples'].append(out['sample'])
            for case, text in out['bad']:
                if repr(case) not in known:
                    bad.append((name, case, text))
            errors += [(name, e) for e in out['errors']]
            if bad and grace is None:
                # look a little longer for a smaller failing case
                grace = time.time() + 3
    finally:
        pool.terminate()
        pool.join()
    if bad:
        bad.sort(key=lambda b: (len(repr(b[1])), repr(b[1])))
        bad = [_shrunk(by_name, *b) for b in bad[:3]]
        bad.sort(key=lambda b: (len(repr(b[1])), repr(b[1])))
    return {
        'families': res,
        'bad': bad,
        'errors': errors,
        'capped': capped,
        'wall_s': time.time() - t0,
        'docs': {f.name: f.doc for f in families},
    }


def _smaller(value):
    """Plain-data candidates with one element of some tuple dropped"""
    if not isinstance(value, tuple):
        return
    if len(value) > 1 and all(isinstance(v, tuple) for v in value):
        for i in range(len(value)):
            yield value[:i] + value[i + 1 :]
    for i, v in enumerate(value):
        for w in _smaller(v):
            yield (*value[:i], w, *value[i + 1 :])


def _shrunk(by_name, name, case, text, budget=6.0):
    """Greedy removal of parts; keeps only well-formed failing cases"""
    from . import valid

    fam = by_name[name]
    if not valid.is_case(case):
        return name, case, text
    t0 = time.time()
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in _smaller(case):
            if time.time() - t0 > budget:
                break
            try:
                if not valid.is_case(cand, like=case):
                    continue
                r = run_case(fam.check, cand)
            except Exception:
                continue
            if r is not None and r[0] == 'bad':
                case, text = cand, r[1]
                progress = True
                break
    return name, case, text


def decode(text):
    return eval(text, {'__builtins__': {}}, {'Fraction': Fraction})
