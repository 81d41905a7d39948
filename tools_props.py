"""writes properties.jsonl and MANIFEST.json (kept in one place)"""
import json

W = 'wagyu/'
P = []


def prop(id, title, statement, over, text, why, files, mech, level, note, technique, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, technique=technique, na=na, state=state))


DED = 'contract-based deductive verification of the real source (own VC generator for Python, z3/cvc5)'
BND = '; bounded contract checking of what is not proved'

prop('C01', 'Boolean operations return exactly the region the operands define',
     'For every pair of operands, every operation (intersection, union, difference, symmetric difference) and every pair of filling rules, a point belongs to the returned multipolygon exactly when its memberships in the two operands, each decided by its winding number and filling rule, combine to true under the operation. Where all crossings of edges are grid points this holds at every point off the edges; otherwise at every point farther than one unit from every edge.',
     ['inputs', 'configurations'], 'all operand rings, all four operations, all sixteen pairs of filling rules',
     'The guarantee ranges over all polygons and all crossing patterns; the tests compare a few generated cases with the bundled native implementation and check that results have the right types.',
     ['wagyu/wagyu.py', 'wagyu/ring_manager.py', 'wagyu/bound.py', 'wagyu/local_minimum.py'],
     [('sweep over scanbeams', 'wagyu/ring_manager.py execute_vatti'), ('topology correction', 'wagyu/ring_manager.py correct_topology'),
      ('entry points', 'wagyu/wagyu.py execute')],
     'exploration', 'Bounded: the postcondition of the public operations is evaluated on generated operands against an exact winding-number definition of the region; the functions below it (C02, C03, C05, C06, C07, C08...) are under contract. No inductive proof of the whole sweep.',
     'bounded checking of the contract of the whole operation; its parts are proved under the other properties')
prop('C02', 'A piece of boundary is kept exactly when it bounds the result',
     'Given the winding numbers around a piece of an operand boundary, the piece is part of the boundary of the result exactly when it separates inside from outside of its own operand and the other operand does not mask it under the operation. This holds for every operation, every pair of filling rules, either operand and every winding number.',
     ['inputs', 'configurations'], 'all integers as winding numbers, four operations, sixteen pairs of rules, two operands',
     'Winding numbers are unbounded and the case table has hundreds of rows; tests compare a few random rows with the native code.',
     ['wagyu/bound.py', 'wagyu/ring_manager.py'], [('decision', 'wagyu/bound.py is_contributing'), ('rule of each operand', 'wagyu/bound.py is_even_odd_fill_kind, is_even_odd_alt_fill_kind')],
     'proof', 'Every obligation of the decision functions is discharged over mathematical integers for all inputs.', DED)
prop('C03', 'Winding counts follow the geometry through starts and crossings',
     'When a chain of edges starts or two chains cross, the winding counts recorded for them are those of the regions beside them, determined by the directions of the edges to their left and the filling rules. Crossing two chains leaves every other chain untouched.',
     ['inputs', 'histories'], 'all sequences of active edges, directions, operands and filling rules; all crossings',
     'The counts depend on the whole list of active edges to the left, of any length; tests sample short lists and compare with the native code.',
     ['wagyu/bound.py', 'wagyu/ring_manager.py'], [('counts at a start', 'wagyu/bound.py set_winding_count'), ('counts at a crossing', 'wagyu/ring_manager.py intersect_bounds'), ('insertion order', 'wagyu/bound.py insert_bound_into_abl')],
     'proof', 'Loop invariants over the active list; see evidence for obligations discharged and the bounded remainder.', DED + BND)
prop('C04', 'Tolerant comparisons of doubles are exact to four units in the last place',
     'Two doubles are considered equal exactly when at most four representable numbers apart (both zeros at one position), and the strict and non-strict comparisons built on it agree with that relation. This holds for every pair of non-NaN doubles, infinities and subnormal numbers included.',
     ['inputs'], 'all 2^128 pairs of doubles except NaN',
     'Errors sit at sign changes, subnormals and at distances of four or five units, which random tests do not reach.',
     ['wagyu/utils.py'], [('ordered bit pattern', 'wagyu/utils.py _double_to_biased'), ('comparisons', 'wagyu/utils.py are_floats_*')],
     'proof', 'Bit-precise proof (IEEE-754 bit patterns as bit vectors) of every obligation.', DED)
prop('C05', 'Coordinates are rounded to the nearest grid line',
     'Rounding a coordinate gives the nearest integer: ties go away from zero in plain rounding, and to the lower or upper neighbour in directed rounding, whole numbers being kept. A rounded point has both coordinates rounded the same way and is a new point.',
     ['inputs'], 'all coordinates of magnitude below 2^51',
     'Ties and almost-ties of either sign are measure-zero cases for random tests.',
     ['wagyu/utils.py', 'wagyu/point.py'], [('rounding', 'wagyu/utils.py round_half_up, round_towards_min, round_towards_max'), ('points', 'wagyu/point.py round')],
     'proof', 'Proved over the reals; float arithmetic (floor(value) + 0.5) is exact below 2^51 and treated as mathematical.', DED)
prop('C06', 'Edge geometry is exact',
     'An edge keeps its two ends with the greater ordinate at the bottom, knows its slope, and reports the abscissa on its line at a height, the extreme columns it touches within a pixel row, whether it is parallel to another edge, and its crossing point with another segment exactly when the segments meet in a single point. Three points are recognised as collinear, and one as between the others, exactly when they are.',
     ['inputs'], 'all edges and points with real coordinates',
     'Degenerate directions, touching ends and signs of slopes are special cases over a continuum of inputs.',
     ['wagyu/edge.py', 'wagyu/point.py'], [('construction', 'wagyu/edge.py Edge.__init__'), ('crossing', 'wagyu/edge.py Edge.__and__'), ('columns', 'wagyu/edge.py get_min_x, get_max_x, get_current_x'), ('collinearity', 'wagyu/point.py')],
     'proof', 'Proved with real arithmetic in place of floating point (assumption).', DED)
prop('C07', 'Sorting and searching primitives are correct and lose nothing',
     'Sorting a sequence gives a permutation of it in the requested order and reports each exchange it makes; searching returns the first matching position or the length; rotation and ordered unique insertion keep every element. No other data is changed.',
     ['inputs'], 'sequences of any length and any content, any comparison',
     'Correctness must hold for sequences of every length and for ties; tests sample short ones.',
     ['wagyu/bubble_sort.py', 'wagyu/utils.py', 'wagyu/intersect_node.py', 'wagyu/ring_manager.py', 'wagyu/local_minimum.py'], [('exchange sort', 'wagyu/bubble_sort.py'), ('quicksort', 'wagyu/utils.py quicksort'), ('search', 'wagyu/utils.py find, find_if'), ('ordered insertion', 'wagyu/utils.py insort_unique')],
     'proof', 'Loop invariants with a ghost multiset of the content; partial correctness (termination checked bounded).', DED + BND)
prop('C08', 'Vertex rings stay circular and lose no vertex',
     'At all times the vertices of a ring form one closed circle in which the predecessor and successor links agree. Inserting a vertex, reversing a ring, and joining or splitting rings keep exactly the vertices they should, in the right cyclic order.',
     ['inputs', 'histories'], 'rings of any size, any position in the ring, any sequence of edits',
     'Ring sizes and edit positions are unbounded; a wrong link shows only when the ring is walked later.',
     ['wagyu/point_node.py', 'wagyu/ring.py', 'wagyu/ring_manager.py'], [('insertion', 'wagyu/point_node.py place_before'), ('reversal', 'wagyu/point_node.py reverse'), ('joining', 'wagyu/ring_manager.py append_ring'), ('splitting', 'wagyu/ring_manager.py correct_self_intersection')],
     'proof', 'Ring topology described by ghost enumerations of the vertices; see evidence for the proved and the bounded part.', DED + BND)
prop('C09', 'Splitting and merging rings conserves enclosed area',
     'Splitting a ring at a repeated vertex yields two rings whose signed areas add up to the original; removing duplicate vertices or collinear overlaps and merging rings along shared edges keeps the total signed area. Every vertex left belongs to the ring that contains it.',
     ['inputs', 'histories'], 'rings of any size and shape, any pair of coincident vertices',
     'The sums range over rings of unbounded size; tests check only that values have the right types and agree with the native code on small cases.',
     ['wagyu/ring_manager.py', 'wagyu/point_node.py'], [('split', 'wagyu/ring_manager.py correct_self_intersection'), ('duplicates', 'wagyu/ring_manager.py remove_duplicate_points'), ('collinear paths', 'wagyu/point_node.py fix_collinear_path, find_start_and_end_of_collinear_edges')],
     'proof', 'See evidence for the proved and the bounded part.', DED + BND)
prop('C10', 'Ring measures are exact and cached measures never go stale',
     'The area, size, bounding box and orientation reported for a ring are those of its current vertices: signed area by the shoelace sum, number of vertices, exact extents, and hole exactly when the area is not positive. Comparing rings for sorting orders them by absolute area with emptied rings last or first consistently.',
     ['inputs', 'histories'], 'rings of any size; any history of edits and queries',
     'Sums over unbounded rings and staleness after edits are beyond sampled unit tests.',
     ['wagyu/ring.py', 'wagyu/point_node.py'], [('measures', 'wagyu/point_node.py stats'), ('cache', 'wagyu/ring.py recalculate_stats, reset_stats, set_stats, area, is_hole, size'), ('order', 'wagyu/ring.py __lt__')],
     'proof', 'The measures are proved with a loop invariant over the whole ring (recursive ghost sums).', DED + BND)
prop('C11', 'Points and rings are classified correctly against a ring',
     'A point is reported on, inside or outside a ring exactly as crossing parity says. A ring is reported inside another exactly when its region is contained in it, for rings that do not cross.',
     ['inputs'], 'rings of any size, any point; any pair of non-crossing rings',
     'Vertices level with the point and edges through it are degenerate cases over rings of unbounded size.',
     ['wagyu/point_node.py', 'wagyu/ring.py', 'wagyu/box.py'], [('crossing parity', 'wagyu/point_node.py point_in_polygon'), ('containment', 'wagyu/ring.py inside_of'), ('touching rings', 'wagyu/point_node.py inside_or_outside_special')],
     'proof', 'See evidence for the proved and the bounded part.', DED + BND)
prop('C12', 'The hierarchy of rings is a consistent tree with alternating orientation',
     'Every ring that is alive is listed exactly once among the children of its parent (or at the top level), the parent relation has no cycles, and exteriors and holes alternate. Assigning, reassigning, replacing and removing rings keep this, and refuse relations between rings of equal orientation.',
     ['inputs', 'histories'], 'trees of any size and shape, any history of edits',
     'Consistency must survive every sequence of edits; tests exercise single steps on small trees.',
     ['wagyu/ring_manager.py', 'wagyu/ring.py'], [('edits', 'wagyu/ring_manager.py assign_as_child, assign_as_sibling, reassign_as_child, replace_ring, remove_ring'), ('slots', 'wagyu/ring.py set_to_children, remove_from_children'), ('rebuild', 'wagyu/ring_manager.py correct_tree')],
     'proof', 'Edits are proved function by function; the rebuilding of the tree and nesting of final results are bounded.', DED + BND)
prop('C13', 'Preparing a ring for the sweep loses none of its boundary',
     'Splitting an input ring into monotone chains keeps its boundary: the winding number of every point off the ring is unchanged, chains are connected and run upwards, the two chains of a minimum start together, and chains are paired at their maxima. Only repeated vertices, spikes and vertices inside straight runs disappear, and rings without area add nothing.',
     ['inputs'], 'rings of any size, with repeats, spikes, collinear runs and horizontals anywhere',
     'Spikes and horizontals may occur anywhere, also across the start of the ring, in combinations that sampled tests do not reach.',
     ['wagyu/linear_ring.py', 'wagyu/local_minimum.py', 'wagyu/bound.py'], [('edges', 'wagyu/linear_ring.py edges'), ('chains', 'wagyu/bound.py create_bound_towards_minimum, create_bound_towards_maximum, fix_horizontals, move_horizontals'), ('minima', 'wagyu/local_minimum.py add_linear_ring')],
     'exploration', 'The parts are under contract (horizontals, rotation); the whole decomposition is checked bounded against exact winding numbers.', DED + BND)
prop('C14', 'Results are assembled from the ring tree completely and in order',
     'Every live exterior becomes one polygon followed by its holes, and islands inside holes become polygons of their own; nothing is dropped or duplicated. Each output ring is closed, has at least three distinct vertices and non-zero area, and its direction depends only on whether it is an exterior or a hole and on the requested orientation.',
     ['inputs', 'configurations'], 'ring trees of any depth and width with emptied slots; both orientations',
     'Depth and width of the tree are unbounded and removed rings leave gaps anywhere.',
     ['wagyu/polygon.py', 'wagyu/ring_manager.py'], [('assembly', 'wagyu/polygon.py rings_to_polygons, point_node_to_linear_ring'), ('entry', 'wagyu/ring_manager.py build_result')],
     'proof', 'See evidence for the proved and the bounded part.', DED + BND)
prop('C15', 'Operands are never disturbed and operations are repeatable',
     'Adding rings, asking for the extents and running operations leave the rings and points of the caller and the prepared operands unchanged. Any sequence of operations on one object gives each time the result a fresh object would give, and the reported extents are the exact extents of the prepared edges.',
     ['inputs', 'histories'], 'all operands, all sequences of operations and queries on one object',
     'It is a statement about all histories of calls; tests call each operation once on fresh objects.',
     ['wagyu/wagyu.py', 'wagyu/linear_ring.py', 'wagyu/local_minimum.py'], [('extents', 'wagyu/wagyu.py bounds'), ('re-initialisation', 'wagyu/local_minimum.py initialize'), ('copies', 'wagyu/edge.py reverse_horizontal')],
     'proof', 'Frame conditions are proved of the functions under contract; whole histories are bounded.', DED + BND)
prop('C16', 'Values compare by content and containers report their parts',
     'Points, edges, boxes, rings, polygons and multipolygons are equal exactly when their contents are, element by element and in order. Containers report their length and elements, positions from the end included, and refuse positions out of range.',
     ['inputs'], 'all values; containers of any length',
     'Equality ranges over containers of any length, with differences in any single place.',
     ['wagyu/point.py', 'wagyu/edge.py', 'wagyu/box.py', 'wagyu/linear_ring.py', 'wagyu/polygon.py', 'wagyu/local_minimum.py'], [('equality', '__eq__ of the value classes'), ('access', '__len__, __getitem__')],
     'proof', 'Proved for containers of any length.', DED)
prop('C17', 'Result vertices come from the operands and edges are snapped to them',
     'Every vertex of a result is a vertex of an operand or the rounding to the grid of a crossing of operand edges. No vertex lies inside an edge of the result, and where crossings are exact every edge of the result lies on edges of the operands.',
     ['inputs'], 'all operands and operations',
     'It quantifies over all crossing patterns; tests do not check it.',
     ['wagyu/ring_manager.py', 'wagyu/intersect_node.py', 'wagyu/edge.py'], [('collecting grid points', 'wagyu/ring_manager.py build_hot_pixels, hot_pixels_on_swap'), ('snapping', 'wagyu/ring_manager.py insert_hot_pixels_in_path, hot_pixel_set_left_to_right, hot_pixel_set_right_to_left')],
     'proof', 'Snapping functions under contract; whole operations bounded.', DED + BND)
prop('C18', 'The Python package and the native library agree',
     'For the same operands, operation and filling rules the pure Python implementation and the native library return the same polygons, up to the order of polygons and holes and the starting vertex of rings, and report the same extents, or fail with the same message.',
     ['inputs', 'configurations'], 'all operands, operations, filling rules and orientations',
     'The tests compare the two on small generated inputs only.',
     ['wagyu/wagyu.py', 'src/main.cpp', 'include/mapbox/geometry/wagyu/wagyu.hpp'], [('native entry points', 'src/main.cpp'), ('python entry points', 'wagyu/wagyu.py')],
     'exploration', 'Bounded: the native library is compiled from the current tree and compared on generated operands; C++ templates are outside the verifier.',
     'bounded relational contract checking (native library rebuilt from source)')
prop('C19', 'Every operation completes',
     'Operations on finite operands end and return a result; they neither loop forever nor fail.',
     ['inputs', 'configurations'], 'all finite operands, operations and filling rules',
     'Termination and absence of failures range over all inputs; tests run a few.',
     ['wagyu/ring_manager.py', 'wagyu/wagyu.py'], [('topology correction loop', 'wagyu/ring_manager.py correct_topology'), ('placement of rings', 'wagyu/ring_manager.py correct_tree')],
     'exploration', 'Bounded: generated operands with a time limit; known findings are listed by call site. Partial correctness elsewhere.',
     'bounded contract checking with time limits')

CLAIMED = None      # all


def main():
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            if p['state']:
                d['anchors']['state'] = p['state']
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=[], not_applicable=[],
             notes='One command per property: python3-vt check.py <id> [quick|thorough]. '
                   'Guarded hooks: none; the checks read the source of /repo and import it unchanged.')
    for p in P:
        if p['na']:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
            continue
        m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'],
                                thorough_cmd='python3-vt check.py %s thorough' % p['id'],
                                technique=p['technique'], level=p['level'], level_note=p['note']))
    with open('/verif/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
