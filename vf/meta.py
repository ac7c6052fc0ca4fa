"""Static descriptions that go to evidence and MANIFEST."""

PIDS = [f'P{i:02}' for i in range(1, 23)]
# the whole statement is a set of obligations over all inputs
PROVED = (
    'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11',
    'P12',
)
LEVEL = {p: 'proof' if p in PROVED else 'other' for p in PIDS}
TRUSTED = [
    'CPython 3.12 executing the real source (the engine replaces only the'
    ' scalar type, so every statement of rene is executed, none is dropped)',
    'vf/engine.py: path exploration and the splitting of obligations',
    'vf/induction.py: loop rule (state capture of frames at loop heads)',
    'z3 (linear and nonlinear real arithmetic), the polynomial normaliser of'
    ' vf/engine.py and sympy factorisation',
    'vf/oracle.py, vf/sym_arrangement.py and the *_spec.py modules: the'
    ' specifications themselves',
    'rithm.Fraction (assumed contract: exact field and total order)',
]
ASSUMPTIONS = [
    'rithm.fraction.Fraction implements exact rational arithmetic, total'
    ' order and value-based hashing',
    'dendroid red_black maps and prioq.PriorityQueue (called, executed and'
    ' not specified separately) are deterministic containers',
    'the pure Python implementation in /repo/rene is what runs (the Rust'
    ' extension is not built here)',
    'len, range, min, tuple, hash, frozenset and iteration of a'
    ' collections.abc.Sequence mean what Python documents (contracts any_*'
    ' give them to sequences of unknown length by this meaning)',
    'scalars are mathematical rationals; a refutation of a contract over'
    ' symbolic numbers is only reported after it is replayed with real'
    ' fractions on the real code',
    'contracts over abstract values (ranks, signs, opaque items) refuse any'
    ' operation whose outcome the case does not determine; then the contract'
    ' counts as not discharged and raises no alarm',
    'contracts of kind "shape" and bounded families cover the listed shapes'
    ' and cases only; they are never counted as proved',
]
_PROOF = (
    'Every obligation counted under obligations/discharged is for all'
    ' inputs: the real function runs on symbolic scalars, every feasible path'
    ' is explored, each excluded branch is refuted by the solver'
)
EXPLANATION = {
    '*': _PROOF + '. These cover the component functions listed under'
    ' contracts with kind "proof". Contracts of kind "shape" run the public'
    ' operation itself with a fixed number of vertices and symbolic'
    ' coordinates or parameters (shape_obligations, shape_discharged:'
    ' bounded in the number of vertices, unbounded in values).'
    ' bounded_families are generated concrete cases. Neither of the latter'
    ' two is counted as proved.',
    **{
        p: _PROOF + (
            '; loops over sequences of any length are discharged by'
            ' induction over the items (vf/induction.py)'
            if p in ('P08', 'P09', 'P10')
            else '; sequences of any length are opaque, their indices unknown'
            ' integers decided by z3 (vf/contracts/lengths.py)'
            if p in ('P07', 'P11') else ''
        ) + '. Shape contracts and bounded families are extra'
        ' cross-checks of the public functions.'
        for p in PROVED
    },
}
TECHNIQUE = {
    '*': 'contracts on the real functions: component contracts discharged for'
    ' all inputs, end-to-end postconditions discharged for bounded shapes'
    ' with symbolic coordinates (symbolic execution of the source, z3);'
    ' bounded contract check on generated inputs as labelled stand-in',
    **{
        p: 'pre/postconditions on the real functions, every obligation'
        ' discharged for all inputs (symbolic execution of the source, loop'
        ' induction, z3)'
        for p in PROVED
    },
}
NOTE = {
    '*': 'Component contracts are proved for all inputs. The end-to-end'
    ' postcondition is discharged for a listed set of shapes (bounded number'
    ' of vertices, all coordinate values of the parameters) and evaluated on'
    ' generated inputs against an exact oracle: bounded, not proved.',
    **{
        p: 'Proved for all inputs over the contracts listed in the evidence;'
        ' trusted: CPython, the engine, z3, exactness of rithm.Fraction.'
        for p in PROVED
    },
}


def proof_budget(pid, thorough):
    return 800.0 if thorough else 150.0
