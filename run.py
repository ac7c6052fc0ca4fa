"""Decide one property: python run.py P05 [--tier quick|thorough]

Deductive part: contracts of the real functions in /repo are discharged over
symbolic inputs (vf.contracts).  Bounded part: public contracts evaluated on
generated inputs (vf.props), standing in for what the deductive part does not
reach.  Exit 0: held; exit 1 with a VIOLATION line: broken; 2: checker error.

    python run.py --replay FILE     re-run a reported violation
"""

import argparse
import json
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get('RENE_ROOT', '/repo'))
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'vf-no-bytecode')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

EVIDENCE = os.path.join(HERE, 'evidence')
FINDINGS = os.path.join(HERE, 'known_findings.txt')


def known_findings(pid):
    """Lines ``known: property=<id> case=<repr> # <what fails>``"""
    res = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                head = f'known: property={pid} case='
                if line.startswith(head):
                    case, _, text = line[len(head):].partition(' # ')
                    res[case] = text
    return res


def write_replay(pid, n, data):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{n}.json')
    data = {
        'property': pid,
        'how': f'python run.py --replay {os.path.relpath(path, HERE)}',
        **data,
    }
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=str)
        f.write('\n')
    return os.path.relpath(path, HERE)


def import_rene():
    import rene
    import rene.exact  # noqa: F401

    assert os.path.dirname(os.path.abspath(rene.__file__)) == os.path.join(
        REPO, 'rene'
    ), rene.__file__


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--part', choices=('all', 'proof', 'bounded'),
                    default='all')
    args = ap.parse_args()
    import_rene()
    if args.replay:
        return replay(args.replay)
    pid = args.property
    thorough = args.tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from vf import bounded, prove, props

    for f in sorted(os.listdir(os.path.join(EVIDENCE, 'replay'))) if (
        os.path.isdir(os.path.join(EVIDENCE, 'replay'))
    ) else ():
        if f.startswith(pid + '-'):
            os.remove(os.path.join(EVIDENCE, 'replay', f))
    known = known_findings(pid)
    proof = None
    if args.part != 'bounded':
        proof = prove.run(pid, thorough)
    b = None
    if args.part != 'proof':
        b = bounded.run(
            props.families(pid),
            seed,
            scale=25.0 if thorough else 1.0,
            cap_s=600.0 if thorough else 90.0,
            procs=min(8, os.cpu_count() or 1),
            known=known,
        )
    lines = []
    n = 0
    if b is not None:
        for name, case, text in b['bad']:
            n += 1
            path = write_replay(pid, n, {
                'kind': 'input', 'family': name, 'case': repr(case),
                'what': text, 'seed': seed,
            })
            lines.append(f'VIOLATION property={pid} replay={path}')
            print(f'{pid}: {name}: {text}\n    case {case!r}'[:1500])
            break
    if proof is not None:
        for v in proof['violations']:
            # a public counterexample found above already reports it
            n += 1
            path = write_replay(pid, n, v)
            tail = '' if v.get('input') else ' no-failing-input-found'
            if v.get('input') or not any('VIOLATION' in x for x in lines):
                lines.append(f'VIOLATION property={pid} replay={path}{tail}')
            print(f'{pid}: obligation {v["obligation"]} failed: '
                  f'{v["what"]}'[:1500])
    evidence(pid, args.tier, seed, proof, b, len(lines), time.time() - t0)
    for case, text in known.items():
        print(f'KNOWN-FINDING: property={pid} {text} {case}')
    if lines:
        # input-backed lines first
        lines.sort(key=lambda x: x.endswith('no-failing-input-found'))
        print(lines[0])
        return 1
    if b is not None and b['errors']:
        print(f'{pid}: checker error: {b["errors"][0]}', file=sys.stderr)
        return 2
    if proof is not None and proof['errors']:
        print(f'{pid}: checker error: {proof["errors"][0]}', file=sys.stderr)
        return 2
    if b is not None and not sum(
        f['evaluations'] for f in b['families'].values()
    ):
        print(f'{pid}: nothing was evaluated', file=sys.stderr)
        return 2
    print(f'{pid}: held ({summary(proof, b)})')
    return 0


def summary(proof, b):
    parts = []
    if proof is not None:
        parts.append(
            f'{proof["discharged"]}/{proof["obligations"]} obligations for any'
            f' input and {proof["shape_discharged"]}/'
            f'{proof["shape_obligations"]} for bounded shapes discharged,'
            f' {len(proof["functions"])} functions executed'
        )
        for u in proof['undischarged'][:5]:
            parts.append(f'undischarged: {u[:300]}')
    if b is not None:
        parts.append(
            f'{sum(f["evaluations"] for f in b["families"].values())} bounded'
            ' evaluations'
        )
    return ', '.join(parts)


def evidence(pid, tier, seed, proof, b, violations, wall):
    from vf import meta

    level = meta.LEVEL[pid]
    cov = {}
    if b is not None:
        fams = {
            k: {
                'evaluations': v['evaluations'],
                'planned': v['planned'],
                'distinct_nontrivial': len(v['hashes']),
                'contract': b['docs'][k],
            }
            for k, v in b['families'].items()
        }
        cov['evaluations'] = sum(f['evaluations'] for f in fams.values())
        cov['distinct_nontrivial'] = sum(
            f['distinct_nontrivial'] for f in fams.values()
        )
        cov['rule'] = (
            'BOUNDED stand-in: public contract evaluated on generated small'
            ' geometries (vf/cases.py) against the oracle (vf/oracle.py);'
            ' non-trivial: distinct case, operands not disjoint where the'
            ' family relates two of them'
        )
        cov['samples'] = [
            repr(s)[:400] for v in b['families'].values() for s in v['samples']
        ][:6]
        cov['bounded_families'] = fams
        cov['time_capped'] = b['capped']
    if proof is not None:
        cov['obligations'] = proof['obligations']
        cov['discharged'] = proof['discharged']
        cov['checker_cmd'] = (
            'PYTHONPATH=/opt/venv/lib/python3.12/site-packages python3-vt -B'
            f' run.py {pid} --tier {tier} --part proof'
        )
        cov['trusted_base'] = meta.TRUSTED
        cov['functions_under_contract'] = proof['functions']
        cov['backends'] = proof['backends']
        cov['solver_s'] = round(proof['solver_s'], 2)
        cov['undischarged'] = proof['undischarged']
        cov['shape_obligations'] = proof.get('shape_obligations', 0)
        cov['shape_discharged'] = proof.get('shape_discharged', 0)
        cov['paths'] = proof.get('paths', 0)
        cov['concrete_replays_of_paths'] = proof.get('replayed', 0)
        cov['contracts'] = proof['contracts']
    cov['explanation'] = meta.EXPLANATION.get(pid, meta.EXPLANATION['*'])
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(
            {
                'property': pid,
                'tier': tier if tier in ('quick', 'thorough') else 'quick',
                'seed': seed,
                'level': level,
                'coverage': cov,
                'assumptions': meta.ASSUMPTIONS,
                'wall_s': round(wall, 2),
                'violations': violations,
            },
            f,
            indent=1,
        )
        f.write('\n')


def replay(path):
    from vf import bounded, prove, props

    with open(path) as f:
        d = json.load(f)
    if d['kind'] == 'input':
        (fam,) = [
            x for x in props.families(d['property']) if x.name == d['family']
        ]
        r = bounded.run_case(fam.check, bounded.decode(d['case']))
        print(r)
        return 1 if r else 0
    return prove.replay(d)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
