"""Writes DESIGN.md from its template, the contracts and the planted bugs."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.environ.get('RENE_ROOT', '/repo')]

from vf import meta, props  # noqa: E402
from vf.contracts import contracts_of  # noqa: E402

REACH = {
    'P01': 'The sign and crossing formulas are proved equal to the defining'
    ' polynomials for all coordinates; the orientation of a contour of any'
    ' number of vertices is the turn at its least vertex (that this is the'
    ' sign of the area is a lemma, checked for shapes).  The use of the in-circle test by the triangulation are shape'
    ' contracts (including near-degenerate parameter families) and families.',
    'P02': 'All comparisons of two and three symbolic points; hashes compared'
    ' on paths where points are equal.',
    'P03': 'Each predicate against the point-set definition on two symbolic'
    ' boxes, and relate_to against the predicates.',
    'P04': 'locate against "cross product zero and between" for any segment'
    ' and point.',
    'P05': 'relate_to against the relation computed by a symbolic'
    ' arrangement of the two segments.',
    'P06': 'Each operation against the symbolic arrangement of two segments.',
    'P07': 'Segments and boxes for all values.  Contours with any number of'
    ' different vertices: equal exactly if one cycle of vertices is the other'
    ' one, from any vertex in any direction, and then with equal hashes'
    ' (lengths and indices are unknown integers, z3 linear arithmetic);'
    ' multisegments, polygons and multipolygons with any number of parts, each'
    ' known by its equality.  Shapes for rings, multisegments, polygons under'
    ' all rotations, reversals and permutations.',
    'P08': 'Loop rule over parts: the box of any number of vertices, segments'
    ' or polygons; Polygon from its border (holes lie inside, precondition).',
    'P09': 'Loop rule over segments given the contract of Segment.locate'
    ' (P04).',
    'P10': 'Loop rule: even-odd rule over the edges of a ring of any length'
    ' (ghost: parity and boundary flag), polygon over holes, multipolygon over'
    ' polygons, each given the contract of its callee.  That parity equals'
    ' being inside is the Jordan curve theorem (trusted), cross-checked by'
    ' shape contracts.',
    'P11': 'Every method of every view against the tuple of the stored items,'
    ' for storage of any length (opaque items and arguments); constructors'
    ' with any number of parts: rejected below the minimum with ValueError,'
    ' otherwise a copy in order is kept, and the segments of a contour join'
    ' each vertex with the next one.  Types and views checked for'
    ' immutability; shapes for symbolic elements; families for slices and'
    ' index ranges.',
    'P12': 'Every operation of Empty with an opaque geometry of each type.',
    'P13': 'Component contracts: box prefilters, event order, sweep line'
    ' order, subdivision at intersections, fields of edges, one event of the'
    ' sweep for a sweep line of any length (neighbours checked, order of'
    ' recomputation, events handed over).  Shapes: pairs of polygons under'
    ' translation/scaling or with free vertices, checked region by region by a'
    ' symbolic arrangement.',
    'P14': 'As P13 for linear operands.',
    'P15': 'As P13 for linear against polygonal operands.',
    'P16': 'As P13 for relations; the oracle implements the documented'
    ' relation on the arrangement.',
    'P17': 'As P16 for linear against polygonal.',
    'P18': 'As P16 for polygonal operands.',
    'P19': 'Event and sweep line order, one event of the sweep for a sweep'
    ' line of any length, for all inputs; contours and'
    ' multisegments with free coordinates as shapes.',
    'P20': 'The operations of the quad-edge mesh (create, splice, connect,'
    ' delete, swap, base cases, candidate tests) for a mesh of any size by'
    ' lazy initialisation.  Shapes: symbolic point sets; families incl.'
    ' cocircular and'
    ' stretched grids.',
    'P21': 'Mesh operations as in P20, plus edge bookkeeping of constraints'
    ' and of triangles kept.  Shapes: symbolic polygons; families incl. spiky'
    ' star polygons with'
    ' holes.',
    'P22': 'Edge order and the search steps of nodes for all inputs; division'
    ' of one trapezoid (single, first, middle, last) with opaque neighbours:'
    ' subtree routing, bounds, component flags, mutual links; chains of two to'
    ' four trapezoids crossed by one edge, and the edges handed over, as shape'
    ' contracts with abstract ranks.  Shapes:'
    ' permutation of any seed, polygons and multisegments for all insertion'
    ' orders with a symbolic query point.',
}


GRID = (
    '  Operands of axis-parallel edges (`grid_*`): coordinates are known by'
    ' their order only, so that all orders together cover all coordinates of'
    ' the operands named.'
)
for _pid in ('P13', 'P14', 'P15', 'P16', 'P17', 'P18'):
    REACH[_pid] += (
        '  Edges of contours of any number of vertices in the wanted'
        ' direction (`any_*`: indices are unknown integers).'
    )
REACH['P19'] += (
    '  The collinearity test of a contour of any number of vertices'
    ' (`any_turns`).'
)
for _pid in ('P09', 'P10', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19',
             'P22'):
    REACH[_pid] += GRID


REACH['P20'] += (
    '  Order types (`order_points_*`): every set of up to six points.  Points'
    ' are known by their order, signs of orientations and incircle'
    ' determinants are chosen when asked for and kept consistent by the'
    ' three-term Grassmann-Plucker relations; failing signs that cannot be'
    ' completed belong to no points, other failing signs are reported with'
    ' points found for them.'
)
REACH['P21'] += (
    '  Order types (`order_*`): every polygon of up to six vertices, with or'
    ' without a triangular hole (disjoint or touching in a vertex; hexagons'
    ' in full in thorough).'
)
REACH['P22'] += (
    '  Order types (`order_*`): every polygon of up to six vertices (with or'
    ' without a triangular hole) and every multisegment of up to four'
    ' segments on six points, with any point to locate; one or several'
    ' insertion orders each.'
)

CROSS = (
    '  Order types with crossings (`cross_*`): {what}, the whole operation run'
    ' on points known by signs of orientations only.  A crossing of two'
    ' segments becomes one more point, placed consistently with the three-term'
    ' Grassmann-Plucker relations; the result is compared piece by piece with'
    ' the arrangement in the same signs.  `_full` contracts make no assumption'
    ' on points (axis directions are elements of the order type as well);'
    ' others take points of different abscissas and boxes that overlap'
    ' vertically.  Comparisons of points are replaced by their contract (P02),'
    ' orientation and crossing by theirs (P01); failing signs are reported'
    ' with points found for them, otherwise undischarged.'
)
for _pids, _what in (
    (('P14', 'P16'), (
        'any two of segment, two or three segments, triangular or'
        ' quadrilateral contour, of up to five points together (up to six in'
        ' thorough)'
    )),
    (('P15', 'P17'), (
        'a segment, two or three segments or a triangular contour against a'
        ' triangle, quadrilateral, triangle with a hole or two triangles, of up'
        ' to five points together (up to six in thorough)'
    )),
    (('P13', 'P18'), (
        'any two of triangle, quadrilateral, triangle with a hole, two'
        ' triangles, of up to five points together (two triangles of six'
        ' points in thorough, which is every pair of triangles)'
    )),
    (('P19',), (
        'is_valid of contours of up to six points and of up to four segments'
        ' on up to six points, valid or not'
    )),
):
    for _pid in _pids:
        REACH[_pid] += CROSS.format(what=_what)


def section():
    out = []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        items = [json.loads(x) for x in f]
    for d in items:
        pid = d['id']
        cs = contracts_of(pid)
        out.append(f'### {pid} {d["title"]} - level {meta.LEVEL[pid]}\n')
        out.append(REACH[pid] + '\n')
        why = d['why_tests_cant']
        out.append(f'Why tests cannot settle it: {why}\n')
        pr = [c for c in cs if c.kind == 'proof']
        if pr:
            out.append('Proof obligations from:\n')
            for c in pr:
                t = ', '.join(f'`{x}`' for x in c.targets)
                out.append(f'* `{c.name}`: {t}')
            out.append('')
        sh = [c for c in cs if c.kind != 'proof']
        if sh:
            quick = [c.name for c in sh if not c.thorough]
            more = len(sh) - len(quick)
            text = ', '.join(quick[:12]) + (
                ' ...' if len(quick) > 12 else ''
            )
            out.append(
                f'Shape contracts: {len(quick)} quick ({text}),'
                f' {more} more in thorough.\n'
            )
        fams = ', '.join(f'{f.name} ({f.count})' for f in props.families(pid))
        out.append(f'Bounded families (quick): {fams}; thorough 25 times.\n')
    return '\n'.join(out)


def seeds():
    root = os.path.join(HERE, 'seeded')
    out = [
        '| bug | property | needs | caught by |', '|---|---|---|---|',
    ]
    for name in sorted(os.listdir(root)) if os.path.isdir(root) else ():
        with open(os.path.join(root, name, 'meta.json')) as f:
            d = json.load(f)
        out.append(
            f'| {name}: {d["what_it_breaks"]} | {d["property"]} |'
            f' {d["needs"]} | {d.get("caught_by", "")} |'
        )
    return '\n'.join(out)


with open(os.path.join(HERE, 'tools', 'DESIGN.template.md')) as f:
    s = f.read()
s = s.replace('%PROPS%', section()).replace('%SEEDS%', seeds())
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(s)
