"""Writes properties.jsonl (kept as a script so that wording lives once)."""
import json

I = ['inputs']
H = ['inputs', 'histories']
EX = 'rene/_exact/'
P = []


def p(i, title, st, q, why, files, mech, over=I, state=(), observe=()):
    P.append({
        'id': f'P{i:02}', 'title': title, 'statement': st,
        'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            **({'state': [
                {'name': n, 'meaning': m, 'where': w} for n, m, w in state
            ]} if state else {}),
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


p(1, 'Geometric predicates are exact',
  'Orientation, in-circle and crossing-point computations are decided exactly'
  ' for all rational (and float) coordinates: the orientation of a contour is'
  ' the sign of its signed area, a Delaunay triangulation never puts a point'
  ' strictly inside of a circumcircle however close the call is, and properly'
  ' crossing segments are split exactly at the solution of both line'
  ' equations.',
  'every triple/quadruple of points, including nearly collinear and nearly'
  ' cocircular ones',
  'Tests sample random coordinates; they never meet calls decided by 1e-30'
  ' and compare the code with itself.',
  ['rene/_exact/__init__.py', 'rene/_utils.py',
   'rene/_geometries/base_contour.py'],
  [('orient', 'rene/_exact/__init__.py:orient'),
   ('crossing point', 'rene/_exact/__init__.py:to_segments_intersection'),
   ('cross product', 'rene/_utils.py:cross_multiply'),
   ('in-circle test',
    'rene/_utils.py:locate_point_in_point_point_point_circle'),
   ('contour orientation', 'rene/_utils.py:to_contour_orientation')],
  observe=['Contour.orientation', 'Segment.locate',
           'DelaunayTriangulation.from_points', 'Segment | Segment'])
p(2, 'Points are totally ordered and hashed consistently',
  'Points compare lexicographically by exact coordinate values: <, <=, >, >=,'
  ' == and != of any two points agree with each other and with that order,'
  ' equal points have equal hashes whatever number types they were built'
  ' from, and comparison with anything else is not accepted.',
  'every pair/triple of points over ints, fractions and floats',
  'Tests check order axioms on samples; an error on ties of one coordinate or'
  ' between number types needs every combination.',
  ['rene/_geometries/base_point.py', 'rene/_exact/point.py'],
  [('comparison operators', 'rene/_geometries/base_point.py:BasePoint'),
   ('exact coordinates', 'rene/_exact/point.py:Point.__new__')],
  observe=['Point.__lt__', 'Point.__eq__', 'Point.__hash__'])
p(3, 'Box relations are the relations of closed rectangles',
  'For valid boxes disjoint_with, touches, overlaps, encloses, enclosed_by,'
  ' covers, within and equals_to answer exactly what the two closed'
  ' rectangles, taken as point sets, do; for boxes with inner points exactly'
  ' one of them is true and relate_to names it (complemented when operands'
  ' swap). Box equality, hashing and is_valid follow the four sides.',
  'every pair of boxes (any order type of the eight side coordinates)',
  'There are thousands of order types of two boxes; tests draw random boxes'
  ' with ten-digit sides that almost never share a side.',
  ['rene/_geometries/base_box.py', 'rene/_exact/box.py', 'rene/_utils.py'],
  [('box predicates', 'rene/_geometries/base_box.py:BaseBox'),
   ('box pre-filters', 'rene/_utils.py:do_boxes_have_common_continuum')],
  observe=['Box.relate_to', 'Box.disjoint_with', 'Box.touches'])
p(4, 'Segment membership is exact',
  'Segment.locate answers BOUNDARY exactly for the points of the closed'
  ' segment and EXTERIOR for all others, `in` agrees with it, and swapping'
  ' the end points changes nothing.',
  'every segment and point', 'Random points are never on a random segment.',
  ['rene/_geometries/base_segment.py', 'rene/_utils.py'],
  [('locate', 'rene/_utils.py:locate_point_in_segment'),
   ('membership', 'rene/_geometries/base_segment.py:BaseSegment')],
  observe=['Segment.locate', 'Segment.__contains__'])
p(5, 'Segment-segment relation is the documented one',
  'relate_to of two segments is the relation of the two point sets (equal,'
  ' part of, overlap, cross, touch, disjoint), independent of the direction'
  ' of either, and swapping operands complements it.',
  'every pair of segments in every degenerate position',
  'Degenerate positions (collinear, shared end points) have measure zero'
  ' under random sampling.',
  ['rene/_relating/segment_endpoints.py', 'rene/_relating/segment.py',
   'rene/_enums.py', 'rene/_rene.py'],
  [('relation', 'rene/_relating/segment_endpoints.py:'
    'relate_endpoints_to_endpoints'),
   ('complement', 'rene/_enums.py:Relation.complement')],
  observe=['Segment.relate_to', 'Relation.complement'])
p(6, 'Segment-segment set operations follow Boolean algebra',
  'a & b, a | b, a - b and a ^ b of two segments contain exactly the parts'
  ' (up to isolated points) that Boolean algebra demands, as an empty'
  ' geometry, a segment or a valid multisegment whose segments meet only in'
  ' common end points.',
  'every pair of segments',
  'The many collinear and touching configurations are not hit by random'
  ' segments.',
  ['rene/_clipping/intersection.py', 'rene/_clipping/union.py',
   'rene/_clipping/difference.py', 'rene/_clipping/symmetric_difference.py',
   'rene/_geometries/base_segment.py'],
  [('intersection', 'rene/_clipping/intersection.py:'
    'intersect_segment_with_segment'),
   ('union', 'rene/_clipping/union.py:unite_segment_with_segment'),
   ('difference', 'rene/_clipping/difference.py:'
    'subtract_segment_from_segment'),
   ('symmetric difference', 'rene/_clipping/symmetric_difference.py:'
    'symmetric_subtract_segment_from_segment')],
  observe=['Segment.__and__', 'Segment.__or__', 'Segment.__sub__',
           'Segment.__xor__'])
p(7, 'Equality and hashing ignore the way a geometry is written down',
  'Geometries are equal exactly when they describe the same geometry:'
  ' direction of segments, rotation and direction of contours, order of'
  ' segments, holes and polygons do not matter, anything else does. Equal'
  ' geometries have equal hashes and other types are never equal.',
  'every geometry, every re-description of it and every other geometry',
  'Tests use a few fixed rewritings and never near misses.',
  ['rene/_geometries/base_contour.py', 'rene/_geometries/base_segment.py',
   'rene/_geometries/base_multisegment.py',
   'rene/_geometries/base_polygon.py',
   'rene/_geometries/base_multipolygon.py', 'rene/_utils.py'],
  [('contour equality', 'rene/_geometries/base_contour.py:_are_non_empty_unique_sequences_rotationally_equivalent'),
   ('hashes', 'rene/_geometries/base_*.py:__hash__')],
  observe=['==', '!=', 'hash()'])
p(8, 'Bounding boxes are tight',
  'bounding_box of every geometry is the smallest valid box containing it:'
  ' each of its sides is attained by some vertex and no vertex is outside.',
  'every non-empty geometry', 'Tests compare the box with itself after'
  ' transformations.',
  ['rene/_utils.py', 'rene/_geometries/base_segment.py',
   'rene/_geometries/base_contour.py'],
  [('points to box', 'rene/_geometries/base_contour.py:BaseContour.bounding_box'),
   ('merging boxes', 'rene/_utils.py:merge_boxes')],
  observe=['.bounding_box'])
p(9, 'Location in contours and multisegments is exact',
  'locate answers BOUNDARY for the points on some segment of the contour or'
  ' multisegment and EXTERIOR for all other points (also those enclosed by a'
  ' contour); `in` agrees with it.',
  'every valid contour/multisegment and every point',
  'Random points are almost never on a boundary.',
  ['rene/_geometries/base_contour.py',
   'rene/_geometries/base_multisegment.py', 'rene/_utils.py'],
  [('locate', 'rene/_geometries/base_contour.py:BaseContour.locate')],
  observe=['Contour.locate', 'Multisegment.locate', '__contains__'])
p(10, 'Location in polygons and multipolygons is exact',
  'locate answers BOUNDARY on borders and holes, INTERIOR inside of a border'
  ' and outside of its holes, and EXTERIOR elsewhere, whatever the'
  ' orientation of rings; `in` is true exactly off the exterior.',
  'every valid (multi)polygon and every point, incl. points level with'
  ' vertices and horizontal edges',
  'Degenerate ray positions are not hit by random points.',
  ['rene/_geometries/base_polygon.py',
   'rene/_geometries/base_multipolygon.py', 'rene/_utils.py'],
  [('region', 'rene/_utils.py:locate_point_in_region'),
   ('polygon', 'rene/_geometries/base_polygon.py:BasePolygon.locate'),
   ('multipolygon',
    'rene/_geometries/base_multipolygon.py:BaseMultipolygon.locate')],
  observe=['Polygon.locate', 'Multipolygon.locate', '__contains__'])
p(11, 'Geometries are immutable values with faithful sequence views',
  'A geometry keeps what it was built from, in order, whatever happens to'
  ' the sequence passed in; vertices, segments, holes and polygons are'
  ' read-only sequences that behave like a tuple of those elements. Too'
  ' short sequences are rejected with ValueError, geometry types cannot be'
  ' subclassed and components cannot be re-assigned. The representation of'
  ' a geometry is the constructor call that builds it, also when an equal'
  ' geometry written in another way was used before.',
  'every geometry, index, slice and search range',
  'Tests cover some indices of some views.',
  [EX + 'contour.py', EX + 'multisegment.py', EX + 'polygon.py',
   EX + 'multipolygon.py', EX + 'segment.py', EX + 'point.py'],
  [('views', EX + 'contour.py:_ContourVertices'),
   ('contour segments', 'rene/_utils.py:to_contour_segments')],
  over=H, observe=['Contour.vertices', 'Contour.segments',
                   'Multisegment.segments', 'Polygon.holes',
                   'Multipolygon.polygons'])
p(12, 'The empty geometry is neutral',
  'For every geometry x: x & empty and empty - x are empty; x | empty,'
  ' empty | x, x - empty, x ^ empty and empty ^ x are x; x is disjoint with'
  ' empty (equal, if empty itself), and empty contains no point.',
  'every geometry of every kind, both operand orders',
  'Needs every dispatch branch of every operator.',
  ['rene/_geometries/base_empty.py', 'rene/_geometries/base_contour.py',
   'rene/_geometries/base_polygon.py',
   'rene/_geometries/base_multipolygon.py',
   'rene/_geometries/base_multisegment.py',
   'rene/_geometries/base_segment.py'],
  [('operators', 'rene/_geometries/base_empty.py:BaseEmpty')],
  observe=['&', '|', '-', '^', 'relate_to', 'locate'])
SH = ['rene/_clipping/shaped.py', 'rene/_clipping/event.py',
      'rene/_clipping/events_queue_key.py',
      'rene/_clipping/sweep_line_key.py', 'rene/_clipping/intersection.py',
      'rene/_clipping/union.py', 'rene/_clipping/difference.py',
      'rene/_clipping/symmetric_difference.py', 'rene/_utils.py']
p(13, 'Set operations on polygons follow Boolean algebra',
  'For polygons and multipolygons a & b, a | b, a - b and a ^ b cover'
  ' exactly the regions that Boolean algebra demands, as an empty geometry,'
  ' a polygon or a multipolygon with simple rings, holes inside of their'
  ' border, non-overlapping parts and no edge inside or outside of the'
  ' region. Operands stay unchanged and results are valid operands.',
  'every pair of valid polygonal geometries, chains of operations',
  'Tests check algebraic identities, which a consistently wrong operation'
  ' keeps, on random polygons that rarely touch or overlap along edges.',
  SH,
  [('sweep', 'rene/_clipping/shaped.py:Operation'),
   ('selection of edges',
    'rene/_clipping/*.py:_detect_if_left_event_from_result'),
   ('box pre-filters', 'rene/_clipping/*.py')],
  over=H, observe=['Polygon &|-^', 'Multipolygon &|-^'])
p(14, 'Set operations on linear geometries follow Boolean algebra',
  'For segments, contours and multisegments a & b, a | b, a - b and a ^ b'
  ' contain exactly the parts (up to isolated points) that Boolean algebra'
  ' demands, as an empty geometry, a segment or a valid multisegment whose'
  ' segments meet only in common end points. Operands stay unchanged and'
  ' results are valid operands.',
  'every pair of valid linear geometries, chains of operations',
  'Random segments neither overlap nor touch.',
  ['rene/_clipping/linear.py'] + SH[1:],
  [('sweep', 'rene/_clipping/linear.py:Operation'),
   ('reduction', 'rene/_clipping/*.py:Linear*.reduce_events')],
  over=H, observe=['Contour &|-^', 'Multisegment &|-^', 'Segment &|-^'])
p(15, 'Clipping linear geometries by polygons is exact',
  'linear & polygonal (either operand order) contains exactly the parts of'
  ' the linear geometry inside or on the boundary of the polygonal one, and'
  ' contour or multisegment minus polygonal exactly the parts outside, up to'
  ' isolated points, as an empty geometry, a segment or a valid'
  ' multisegment.',
  'every pair of a valid linear and a valid polygonal geometry',
  'Lines running along boundaries or through vertices are not sampled.',
  ['rene/_clipping/mixed.py', 'rene/_clipping/intersection.py',
   'rene/_clipping/difference.py'] + SH[1:4],
  [('sweep', 'rene/_clipping/mixed.py:Operation'),
   ('box pre-filters', 'rene/_clipping/difference.py')],
  observe=['linear & polygonal', 'polygonal & linear',
           'linear - polygonal'])
RL = ['rene/_relating/event.py', 'rene/_relating/events_queue_key.py',
      'rene/_relating/sweep_line_key.py', 'rene/_relating/utils.py']
p(16, 'Relations of linear geometries are the documented ones',
  'relate_to between segments, contours and multisegments is the relation of'
  ' the point sets as documented on Relation (with crossing decided by'
  ' whether one separates the other around a common point), independent of'
  ' directions and order; swapping operands complements it.',
  'every pair of valid linear geometries',
  'Tests check symmetry and a few implications, on random inputs that are'
  ' mostly disjoint.',
  ['rene/_relating/linear.py', 'rene/_relating/multisegmental.py',
   'rene/_relating/segment.py', 'rene/_relating/segment_endpoints.py',
   'rene/_relating/contour.py', 'rene/_relating/multisegment.py'] + RL,
  [('sweep', 'rene/_relating/linear.py:Operation')],
  observe=['relate_to'])
p(17, 'Relations of linear and polygonal geometries are the documented ones',
  'relate_to between a linear and a polygonal geometry is the relation of'
  ' the point sets as documented on Relation, whatever the orientation of'
  ' rings and direction of segments; swapping operands complements it.',
  'every pair of a valid linear and a valid polygonal geometry',
  'Lines along boundaries or through vertices are not sampled.',
  ['rene/_relating/mixed.py', 'rene/_relating/polygon.py',
   'rene/_relating/multipolygon.py', 'rene/_relating/multisegmental.py',
   'rene/_relating/segment.py'] + RL,
  [('sweep', 'rene/_relating/mixed.py:LinearShapedOperation')],
  observe=['relate_to'])
p(18, 'Relations of polygonal geometries are the documented ones',
  'relate_to between polygons and multipolygons is the relation of the'
  ' closed regions as documented on Relation, whatever the orientation and'
  ' order of rings; swapping operands complements it.',
  'every pair of valid polygonal geometries',
  'Touching, nested and edge-sharing regions are not sampled.',
  ['rene/_relating/shaped.py', 'rene/_relating/polygon.py',
   'rene/_relating/multipolygon.py'] + RL,
  [('sweep', 'rene/_relating/shaped.py:Operation')],
  observe=['relate_to'])
p(19, 'Validity of contours and multisegments is decided exactly',
  'Contour.is_valid is true exactly for simple closed polylines without'
  ' collinear consecutive edges; Multisegment.is_valid exactly when any two'
  ' segments have nothing or only a common end point in common.',
  'every contour with distinct consecutive vertices and every multisegment',
  'Tests only assert the result on generated valid geometries.',
  ['rene/_bentley_ottmann/base.py', 'rene/_bentley_ottmann/'
   'events_registry.py', 'rene/_bentley_ottmann/events_queue_key.py',
   'rene/_bentley_ottmann/sweep_line_key.py',
   'rene/_geometries/base_contour.py',
   'rene/_geometries/base_multisegment.py'],
  [('sweep', 'rene/_bentley_ottmann/base.py:sweep'),
   ('contour validity', 'rene/_geometries/base_contour.py:is_valid')],
  observe=['Contour.is_valid', 'Multisegment.is_valid'])
p(20, 'Delaunay triangulations are Delaunay',
  'The triangles of DelaunayTriangulation.from_points are counterclockwise,'
  ' tile the convex hull of the points without overlap, use every point as'
  ' a vertex, and no point lies strictly inside of a circumcircle; border is'
  ' the convex hull, collinear points give no triangles, and a triangulation'
  ' is falsy exactly if there are less than two different points.',
  'every finite point set, any order and with repetitions',
  'Tests check counts and hulls on random points in general position.',
  ['rene/_triangulation/delaunay.py', 'rene/_triangulation/mesh.py',
   'rene/_triangulation/quad_edge.py', 'rene/_exact/triangulation.py'],
  [('merge', 'rene/_triangulation/mesh.py:build_delaunay_triangulation'),
   ('in-circle', 'rene/_utils.py:'
    'locate_point_in_point_point_point_circle')],
  observe=['DelaunayTriangulation.triangles', '.border', 'bool()'])
p(21, 'Constrained Delaunay triangulations respect the polygon',
  'The triangles of ConstrainedDelaunayTriangulation.from_polygon are'
  ' counterclockwise, use only vertices of the polygon, tile exactly the'
  ' polygon without its holes, have every polygon edge as an edge, and every'
  ' edge that is not a polygon edge is locally Delaunay; border is the'
  ' border of the polygon.',
  'every valid polygon with holes (rings meeting at most in common vertices)',
  'Tests check triangle counts and areas.',
  ['rene/_triangulation/constrained_delaunay.py',
   'rene/_triangulation/mesh.py', 'rene/_triangulation/vertices.py',
   'rene/_exact/triangulation.py'],
  [('constraint insertion',
    'rene/_triangulation/constrained_delaunay.py:constrain'),
   ('cutting holes', 'rene/_triangulation/constrained_delaunay.py:cut')],
  observe=['ConstrainedDelaunayTriangulation.triangles', '.border'])
p(22, 'Trapezoidations locate points exactly for every seed',
  'Trapezoidation.from_polygon and from_multisegment locate every point'
  ' exactly as the geometry itself does, whatever the seed of the insertion'
  ' order, the orientation of rings and the direction of segments; `in`'
  ' agrees with it.',
  'every valid polygon/multisegment (meeting only in common end points),'
  ' every seed, every point',
  'Tests use a few seeds and points in general position.',
  ['rene/_seidel/trapezoidation.py', 'rene/_seidel/edge.py',
   'rene/_seidel/node.py', 'rene/_seidel/leaf.py',
   'rene/_seidel/x_node.py', 'rene/_seidel/y_node.py',
   'rene/_seidel/trapezoid.py', 'rene/_exact/trapezoidation.py',
   'rene/_utils.py'],
  [('edge insertion', 'rene/_seidel/trapezoidation.py'),
   ('permutation', 'rene/_utils.py:permute')],
  over=['inputs', 'schedules'],
  observe=['Trapezoidation.locate', 'Trapezoidation.__contains__'])

import os
root = os.environ.get('RENE_ROOT', '/repo')
for x in P:
    assert len(x['title']) <= 80, x['title']
    for f in x['anchors']['files']:
        assert os.path.exists(os.path.join(root, f)), f
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
