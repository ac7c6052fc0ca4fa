"""Contracts per property."""


def contracts_of(pid):
    from . import (
        basic, crossings, fields, grid, keys, lengths, loops, mesh, ordertypes, pairs,
        single, states, sweeps, trapezoids, views,
    )

    res = []
    for mod in (basic, loops, keys, fields, states, sweeps, trapezoids, views,
                mesh, grid, lengths, ordertypes, crossings, single, pairs):
        f = getattr(mod, pid.lower(), None)
        if f is not None:
            res += f()
    if pid in ('P13', 'P14', 'P15', 'P16', 'P17', 'P18'):
        res = basic.prefilters() + res
    names = [c.name for c in res]
    assert len(set(names)) == len(names), names
    return res
