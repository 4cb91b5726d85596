"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []; NA = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na: NA.append(dict(property=id, reason=na))
M = 'ristra/math/'; U = 'ristra/utils/'; G = 'ristra/geometry/'; A = 'ristra/atomics/src/'
p('M01', 'Array arithmetic, comparison and assignment act element by element',
  'For every fixed-size array and multi-dimensional array, +, -, *, / and their compound forms, with another array of the same shape or a scalar on either side, yield in each position exactly the scalar operation on the elements in that position, for floating-point and integer element types alike, and leave operands that are not assigned unchanged, also when an operand is assigned to itself. Equality, ordering, fill, swap, copy and conversion agree with comparing, filling or copying the elements one by one in order.',
  'every element value and scalar, for lengths 1-5 and shapes up to three dimensions', 'the tests add, scale and divide a few fixed vectors of doubles; they never divide integer arrays, compare arrays that differ late, or alias operands',
  [M+'array.h', M+'multi_array.h'], [('array arithmetic operators', M+'array.h'), ('multi_array arithmetic operators', M+'multi_array.h')])
p('M02', 'Every index tuple names one element; checked access rejects the others',
  'In a multi-dimensional array of any extents, distinct index tuples within the extents name distinct elements, laid out in row-major order, and call, bracket and linear access agree on the element. Checked access returns that element for an index within the extent and raises an out-of-range error for every other index, in every dimension; size, extents and iteration cover exactly the elements.',
  'every index value (the whole integer range), for arrays of one to four dimensions with different extents', 'the tests index a few positions of one 2-d and one 3-d shape and never an out-of-range one',
  [M+'array.h', M+'multi_array.h'], [('offset computation', M+'multi_array.h'), ('checked accessor at()', M+'array.h')])
p('M03', 'Vector algebra and min/max identities hold for every vector',
  'Dot product, magnitude, absolute value, unit vector, cross, triple and outer product, reflection and rotation of vectors satisfy their defining equations for every vector in one to four dimensions (a unit vector has length one and the same direction, a cross product is orthogonal to both factors, a reflection preserves length and applied twice is the identity). Minimum, maximum, extremal element and average of containers of any size hold in each position the smaller or larger of the two arguments and lie within the range of the elements, and scalar helpers (square, cube, sign) equal their definitions.',
  'every component value; containers of zero to four elements', 'each function is tested on one or two concrete vectors, mostly axis-aligned, in 2-d or 3-d',
  [M+'vector.h', M+'general.h'], [('dot_product, cross_product, unit, reflect', M+'vector.h'), ('min, max, average', M+'general.h')])
p('M04', 'Matrix products, determinant, inverse, solve, norms and exponential are exact',
  'For every matrix, products with matrices and vectors (plain, accumulated and scaled) are the usual row-by-column ones, the determinant equals its permutation expansion, the inverse of a nonsingular matrix times the matrix is the identity, and solving a nonsingular system gives the vector that satisfies it, whichever entries vanish. Norms, double contraction, cofactors, and the rotation, reflection and projection matrices equal their definitions, and the matrix exponential is exact on nilpotent matrices, within tolerance on diagonal ones, and inverted by negating its argument.',
  'every entry, for square matrices of order 1-4 and rectangular products', 'the tests use one well-conditioned matrix per function; zero pivots, scaling factors other than 0 and 1 and rectangular shapes are not reached',
  [M+'matrix.h', M+'general.h'], [('determinant, inverse, solve', M+'matrix.h'), ('matrix_vector, matrix product', M+'matrix.h')])
p('M05', 'Tuple arithmetic acts on every component',
  'Adding, subtracting, multiplying and dividing tuples of numbers, with another tuple of the same length or a scalar and in compound form, applies the scalar operation to each component independently, whatever mix of numeric types the components have. Filling a tuple sets every component.',
  'every component value, tuples of one and three components, homogeneous and mixed types', 'the test uses one pair of tuples and does not cover every operator, scalar side or mixed types',
  [M+'tuple.h', U+'tuple_for_each.h'], [('tuple operators', M+'tuple.h')])
p('V01', 'A fixed-capacity vector behaves like a sequence and never overruns',
  'Starting from any content, every operation of the fixed-capacity vector (insert, erase, push, pop, resize, assign, swap, copy, compare, iterate) leaves the same elements in the same order, returns the same position and gives the same comparison result as on an unbounded sequence, for trivially copyable and other element types, including inserting an element of the vector itself. An operation that would exceed the capacity is rejected, and nothing outside the storage is read or written.',
  'every element value, size, position, count and stale content up to the capacity', 'the tests run a handful of fixed sequences; shifting inside insert and erase depends on position, count and size together',
  [U+'fixed_vector.h'], [('insert/erase shifting', U+'fixed_vector.h'), ('capacity assertions', U+'fixed_vector.h')], over=('inputs','histories'))
p('U01', 'Points and dimensioned arrays form a vector space with exact metric operations',
  'Dimensioned arrays, points and space vectors add, subtract, scale, divide and print element by element in every dimension and element type, also when an operand is modified by itself, and construct from and give access to their components by index and by axis. Distance, midpoint, centroid of a list, dot product, magnitude, cross product and normal satisfy their defining equations for every argument.',
  'every component value in dimensions 1-3 (thorough: 7); lists of up to four points', 'the tests compare a few literal points',
  [U+'dimensioned_array.h', G+'point.h', G+'space_vector.h'], [('dimensioned_array operators', U+'dimensioned_array.h'), ('distance, midpoint, centroid', G+'point.h'), ('dot, magnitude, normal', G+'space_vector.h')])
p('U02', 'String helpers give the documented pieces for every string',
  'For every string, base name, directory and extension are determined by the last separator and the last dot of the file name, splitting returns exactly the maximal nonempty pieces between the given delimiters in order, and replacing rewrites every occurrence from left to right and terminates. Digit counts and the (zero-padded) decimal text of numbers are exact, fixed-size strings hold the longest prefix that fits and are always terminated, and no helper reads or writes outside its arguments; indexing a constant or fixed-size string outside its length is rejected.',
  'every string up to a length bound over an alphabet of special and ordinary characters; every integer; every index', 'there are no tests for these helpers (only one for hashing literals)',
  [U+'string_utils.h', U+'trivial_string.h', U+'const_string.h'], [('basename, split, replace_all', U+'string_utils.h'), ('to_trivial_string', U+'trivial_string.h')])
p('U03', 'Zipped, filtered and viewed sequences visit exactly the right elements',
  'Iterating over zipped containers visits every position once, in order, through references to the containers\' own elements, and containers of different lengths are refused; filtered iteration visits exactly the elements satisfying the predicate; a view shows exactly the elements it was made from. Set intersection, removal of repeated neighbours and splitting a duration into days, hours, minutes and seconds give exactly the mathematical result.',
  'every element value, container lengths up to three or four, every predicate threshold, every duration in range', 'the zip test uses one length; filter, algorithms, views and time helpers have no tests',
  [U+'zip.h', U+'filter_iterator.h', U+'array_ref.h', U+'algorithm.h', U+'time_utils.h', U+'tuple_for_each.h', U+'tuple_visit.h'], [('zip proxies', U+'zip.h'), ('filter_iterator', U+'filter_iterator.h'), ('unsorted_intersection', U+'algorithm.h')])
p('G01', 'Planar shapes report their true area, centroid, midpoint and normal',
  'For every position of the vertices, triangles, quadrilaterals and polygons in the plane report a nonnegative area equal to the signed area of their outline up to sign, the area centroid when the area is not zero, the mean of the vertices as midpoint, and a normal whose length is the area, whichever way the vertices are passed. In space the normal is the vector area of the outline, and area and centroid of convex planar outlines equal those in their plane.',
  'every vertex coordinate, for 3 to 5 vertices (thorough: 8)', 'the tests use unit squares and a few literal shapes, for which vertex average and centroid coincide',
  [G+'shapes/triangle.h', G+'shapes/quadrilateral.h', G+'shapes/polygon.h', G+'centroid.h', G+'area.h', G+'normal.h'], [('triangle, quadrilateral, polygon', G+'shapes/'), ('centroid_2d, area_2d', G+'centroid_impl.h')])
p('G02', 'Solids report their true volume, centroid and midpoint',
  'For every position of the vertices, tetrahedra, hexahedra and polyhedra report a nonnegative volume equal to the magnitude of the signed volume enclosed by their faces, for either orientation and for distorted hexahedra whose quadrilateral faces are cut at their midpoint. Their centroid is the centroid of the enclosed volume when that is not zero, and the midpoint is the mean of the vertices (for a polyhedron, the mean of the midpoints of its faces).',
  'every vertex coordinate of tetrahedra, hexahedra, pyramids, prisms and parallelepipeds', 'the tests use axis-aligned cubes and one tetrahedron, where sign errors and wrong weights cancel',
  [G+'shapes/tetrahedron.h', G+'shapes/hexahedron.h', G+'shapes/polyhedron.h'], [('hexahedron volume and centroid', G+'shapes/hexahedron.h'), ('polyhedron volume and centroid', G+'shapes/polyhedron.h')])
exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None
import specs
with open(V + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
na = {n['property'] for n in NA}
man = dict(version=1, setup_cmd='bash setup.sh', checks=[dict(property=x['id'], quick_cmd=f'python3 check.py {x["id"]}', thorough_cmd=f'python3 check.py {x["id"]} --thorough',
    technique='symbolic execution of the LLVM IR of the real code, decided by z3 (bounded)', level='model_checking',
    level_note='Holds for all values within these bounds: ' + specs.PROPS[x['id']]['bounds'] + '. Outside: ' + (specs.PROPS[x['id']].get('outside') or 'larger sizes') + '. Trusts clang\'s IR, the engine, z3 and the library models; floating point is exact real arithmetic.') for x in P if x['id'] not in na],
    not_applicable=NA, notes='See DESIGN.md. Counterexamples are replayed on natively compiled code before they are reported.')
for x in P:
    assert len(x['title']) <= 80, x['id']
    assert x['statement'].count('. ') <= 2, x['id']
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
# DESIGN.md from DESIGN.in.md
import glob
t = open(V + '/tools/DESIGN.in.md').read()
ps = ''
for x in P:
    s = specs.PROPS.get(x['id'])
    if not s: continue
    ps += f"### {x['id']} {x['title']}\nHarness: {', '.join('harness/' + u['src'] for u in s['units'])}. {s.get('how', '')}\n" .replace(' \n', '\n') + f"Bounds: {s['bounds']}. Outside: {s.get('outside') or 'larger sizes'}.\nWhy tests cannot: {x['why_tests_cant']}.\n\n"
for n in NA: ps += f"### {n['property']} (not applicable)\n{n['reason']}\n\n"
sd = ''
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); sd += f"* `{os.path.basename(os.path.dirname(d))}` ({m['property']}): {m['what_it_breaks']}; needs {m['needs']}. {m.get('result', 'Caught by ' + m['property'] + '.')}\n"
open(V + '/DESIGN.md', 'w').write(t.replace('PROPS\n', ps).replace('SEEDS\n', sd))
