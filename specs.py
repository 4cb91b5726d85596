"""The properties: harness sources, bounds and assumptions."""
import os
COMMON_ASSUMPTIONS = [
  "floating-point values are encoded as exact real numbers (rational functions of the inputs, algebraic square roots): rounding, overflow, NaN and signed zero are outside; a decimal literal stands for the simplest fraction (denominator at most 20000) that rounds to it",
  "signed integer arithmetic wraps; memory is a set of disjoint byte-addressed objects; allocation succeeds up to 16 MB",
  "clang 18's translation of the sources to IR at -O1, the engine (engine/ksym.cpp), z3, and the library models in lib/support.cpp (C strings, std::string, tree and list primitives; stream output is a no-op) are trusted",
]
SHIM = ['-I' + os.path.dirname(os.path.abspath(__file__)) + '/harness/shim']
IO = ['-I' + os.path.dirname(os.path.abspath(__file__)) + '/harness/shim_io']
PROPS = {}
def prop(id, **kw): PROPS[id] = kw
prop('M01', units=[dict(src='math_elementwise.cpp')],
  bounds='element types double, float, int, long and mixes of them; lengths 1,2,3,5 and shapes 3, 2x3, 3x3, 2x3x4 (thorough: 9) with all element values; some hundreds of elements with one or a few symbolic',
  outside='integer division by -1 and 0; other lengths and element types')
prop('M02', units=[dict(src='math_index.cpp')], 
  bounds='shapes 5, 2x3, 3x2, 1x4, 4x1, 3x3, 2x3x2, 3x2x4 and arrays of 1, 3, 8 (thorough: 2x3x2x2, 4x5x3, 6x7), 20x30, 300; every index value of seven integer types; iteration over up to 300 elements',
  outside='other shapes; unchecked access outside the extents')
prop('M03', units=[dict(src='math_vector.cpp')], 
  bounds='components: every real value; dimensions 1-4; containers of 0-4 elements, and of some hundreds with one symbolic; integer element values: all',
  outside='rounding; rotation angles enter through sin and cos with sin^2+cos^2=1')
prop('M04', units=[dict(src='math_matrix.cpp')], 
  bounds='every real entry; determinant, inverse and solve up to 4x4; products up to 4x3; reflections and projections in 2 and 3 dimensions; sparse 5x5 (thorough 6x6); exponential for nilpotent, diagonal and zero matrices up to 4x4 given in the harness; integer and single-precision entries; products of large matrices with one symbolic entry',
  outside='larger orders; rounding and conditioning')
prop('V01', units=[dict(src='fixed_vector.cpp'), dict(src='fixed_vector_limits.cpp', inc=SHIM)],
  bounds='capacity 4 (thorough 6), every size, position and count, every stale content, element types int and a non-trivially-copyable class; one operation from any state (histories by induction over states); capacity 300 at nine positions; capacity 1; any count for the capacity checks',
  outside='exception safety of element copies; overlapping source ranges in range insert')
prop('M05', units=[dict(src='math_tuple.cpp')], 
  bounds='every component value; tuples of 1, 2, 3 and 6 components, of one type or of six, and of 4, 9, 16 reals; integer components with real scalars at sampled values',
  outside='longer tuples')
prop('U01', units=[dict(src='utils_dim.cpp'), dict(src='utils_dim_more.cpp', irflags=IO, irflags_all=True)],
  bounds='every component value in dimensions 1, 2, 3 (thorough 7); dimensions 4 to 64 and lists of 5 to 300 points with any one component or point arbitrary; lists of 1-4 points; int elements within +-1000, unsigned ones of any value',
  outside='other dimensions, integer overflow')
prop("U02", units=[dict(src="utils_strings.cpp"), dict(src="utils_string_limits.cpp", inc=SHIM), dict(src="utils_text.cpp", irflags=IO, irflags_all=True)], 
  bounds='strings of up to 4 (thorough 6) characters over four-letter alphabets, of 3 characters over all 256, and fixed texts of up to 400 characters; fixed sizes 1, 4, 5, 8, 300; every unsigned integer; every index',
  outside='longer strings over larger alphabets; text of numbers beyond 0-120 and eight large samples, widths beyond 8; non-ASCII text made wide')
prop('U03', units=[dict(src='utils_seq.cpp'), dict(src='utils_zip_limits.cpp', inc=SHIM)], 
  bounds='containers of 0-4 elements (thorough 5), every element value; up to 300 elements with fixed contents; durations: a list of day counts up to 106751991167299 and every second within a day (thorough: the hour, minute and second ranges of every duration below 2^62 s)',
  outside='longer containers')
prop('G01', units=[dict(src='geom_planar.cpp')], 
  bounds='every real coordinate; 3, 4, 5 vertices (thorough 6, 8), and 12, 40, 130 of which two are anywhere; in space: triangles, parallelograms, star-shaped planar quadrilaterals in one tilted plane; convex planar outlines of 7, 12 and 40 vertices; vector area of any 4 or 5 points (thorough 7)',
  outside='rounding; degenerate (zero-area) shapes for centroids; area of non-planar outlines (a convention)')
prop('G02', units=[dict(src='geom_solid.cpp')], 
  bounds='every real coordinate: tetrahedra, hexahedra (volume, midpoint), bricks of any size with one vertex anywhere (thorough: two), parallelepipeds, pyramids over parallelograms, prisms over 3, 6 and 20 sides (thorough 70)',
  outside='rounding; zero-volume solids for centroids; other polyhedra')
EL = dict(repo_srcs=['ristra/elements/elements.cc'])
prop('E01', units=[dict(src='elements_fixed.cpp', **EL)], bounds='every reference coordinate and every vertex position (reals) for the 4, 8 and 12 node quadrilaterals, the 8, 20 and 32 node hexahedra and the 16 node tesseract', outside='rounding')
prop('E02', units=[dict(src='elements_lagrange.cpp', max_instr=20000000, **EL)], bounds='1-d bases with any distinct nodes up to order 4 and any point; evenly spaced nodes up to order 10 (thorough 16), any point and any polynomial; tensor elements with any nodes to order 2 (quadrilateral) and 1 (hexahedron), evenly spaced to order 7 and 4; Chebyshev nodes to order 20', outside='higher orders; rounding; coincident nodes')
prop('E03', units=[dict(src='elements_jacobian.cpp', **EL)], bounds='every real matrix in 2, 3 and 4 dimensions; Jacobians assembled from 2 to 4 nodes with any coordinates and partials (thorough 8), and from 12, 32 and 16 nodes any one of which is arbitrary', outside='singular matrices; more nodes; rounding')
prop('E04', units=[dict(src='elements_quadrature.cpp', max_instr=50000000, **EL)], bounds='all rules of 1 to 8 points on the line; 2-d to 8, 3-d to 4 (thorough 8), 4-d to 3 (thorough 4) points per direction, and the list of combinations of every rule up to 8 points; every polynomial with coefficients in [-1,1] up to the degree of the rule (in several dimensions: all products up to degree 3 per axis, 15 in 2-d up to 4 points, and all pure powers), error at most 1e-13 on the line and 1e-11 in space', outside='rules of more than 8 points')
CONC = dict(instrument=True, extra_srcs=['conc_rt.cpp'], sanitize=['-fno-sanitize=all'])
prop('A01', units=[dict(src='atomics_rmw.cpp', name='atomics_rmw%d' % i, defs=['-DPART=%d' % i], **CONC) for i in (1, 2, 3, 4, 5)], bounds="one operation in any state of the variable against up to 2 (thorough 4) interfering writes of any value at any access, and 1 (thorough 2) spurious failures of a weak compare-exchange; int, long, short, unsigned char, float, double, pointers, two-int and three-int structs; strong, weak, their pun forms, lock and cpp; every operation and form of call; other threads follow the scheme's rule (lock: writes only under its mutex)", outside="more interference per operation; termination under endless interference; the Kokkos scheme; long double and padded types; operands that do not convert exactly to the value type; integer overflow in the user's operation")
prop('A02', units=[dict(src='atomics_order.cpp', name='atomics_order%d' % i, defs=['-DPART=%d' % i], **CONC) for i in (1, 2, 3, 4)], bounds='all six orders, every legal failure order, every form that takes one; int, unsigned char, short, long, float, double, pointers; one interfering write and one spurious failure', outside='what a weaker-than-needed order does to other variables (the order requested is taken as the contract); lock and serial take no order')
prop('A03', units=[dict(src='atomics_value.cpp', name='atomics_value%d%s' % (i, d[:1]), defs=['-DPART=%d' % i] + (['-DATOMICS_DEBUG'] if d else []), **CONC) for i in (1, 2, 3, 4, 5, 6) for d in ('', 'debug') if not d or i in (3, 5)], bounds='every value and operand the operation is defined for; int, unsigned, long, unsigned long, short, char types, float, double, pointers, structs of two and three ints; all schemes and forms incl. volatile; with ATOMICS_DEBUG for character and floating types', outside='Kokkos, long double, printing mode; the cpp scheme with operands that do not convert exactly; overflow')
prop('A04', units=[dict(src='atomics_lock.cpp', name='atomics_lock', **CONC)], bounds='every lock-scheme operation and form on int, long, unsigned char, float, double, pointers, structs; two variables and three numbers', outside='deadlock with mutexes of the user')
prop('W01', units=[dict(src='utils_view.cpp')], bounds='boxes of more than 2^32 elements (sizes, offsets and addresses only); indices: every value; bounds: rank 3, every extent up to 1000 and every stride; walks over boxes up to 3x3 (thorough 4x3) and 2x2x2, and some larger ones up to 20x15 and 2x3x2x3; views of ranks 1 to 4 over arrays and containers of up to 20 elements (some 2000), every index value; sections of a 3x4 array: all', outside='larger views and ranks; unchecked access outside the bounds; flattening a non-contiguous strided view; index operator< and > (no order is documented)')
prop('D01', units=[dict(src='assertions_dbc.cpp', name='assertions%d' % m, defs=['-DMODE=%d' % m], irflags=IO, irflags_all=True, repo_srcs=['ristra/assertions/dbc_impl.cc']) for m in (0, 1, 2, 3, 5)], bounds='every operand value (integers, reals); sets of up to 3 elements; text of values between -12 and 12; all actions (throw, notify, nothing) with contracts on, throw and nothing with contracts off', outside='longer texts; the abort that replaces an exception when exceptions are disabled; text of floating-point values')
LUAINC = ['-I/usr/include/lua5.3']
def lua_units(src, **kw):  # decided on the strict model; the same harness is validated on the real library
    return [dict(src=src, name=src[:-4], inc=LUAINC, defs=['-DMINILUA'], extra_srcs=['minilua.cpp'], irflags=IO + ['-frelaxed-template-template-args'], irflags_all=True, **kw),
            dict(src=src, name=src[:-4] + '_real', inc=LUAINC, ir_extra_srcs=['minilua.cpp'], libs=['-llua5.3'], irflags=IO + ['-frelaxed-template-template-args'], irflags_all=True, **kw)]
prop('L01', units=lua_units('lua_values.cpp'), bounds='every 64-bit integer, real, boolean and character value; strings of up to 3 (thorough 4) symbolic characters and of 40 characters; tables of up to 3 (5) elements nested up to two deep, and longer ones with a few symbolic elements; all Lua types in the place of the one asked for; 0-2 other values on the stack; values at any of 5 stack positions', outside='Lua library internals (replaced by a strict model of the C API; every explored trace is also run on the real liblua5.3); metatables; userdata, threads; numerals other than plain decimal text; not-a-number and infinities')
prop('L02', units=lua_units('lua_calls.cpp'), bounds='every argument and element value; calls with up to 5 arguments and 4 results, one call nested in another; tables of up to 3 elements, keys of one symbolic character, indices -2..9; 0-2 other values on the stack; up to 4 copies of a reference', outside='the Lua compiler and interpreter (a chunk or Lua function is a C function in the model); metatables; memory exhaustion other than at creation of the state; the text of error messages')
DBC = ['ristra/assertions/dbc_impl.cc']
prop('I01', units=lua_units('inputs_sources.cpp', repo_srcs=DBC), bounds='every integer, real, character and one-character key; each named input present or absent on its own; texts of up to 20 characters, tables of two elements; tables nested two deep, two sources at once', outside='Lua internals (strict model of the C API, traces re-run on liblua5.3); values kept directly in the base state; a key registered again without a Lua key keeps the earlier Lua key; the text printed on failure')
prop('I02', units=lua_units('inputs_engine.cpp', repo_srcs=DBC), bounds='every value of int, double, string (1-3 characters), vector and function inputs; every combination of present/absent sources and values; up to three resolutions in a row; one-character names; every validator bound', outside='keys the Lua source was never told about (the source throws); cached validity after a second resolution; contract checks that are disabled by default')
PYINC = ['-I/usr/include/python3.12']
def py_units(src, **kw):  # decided on the strict model; the same harness is validated on the real library
    return [dict(src=src, name=src[:-4], inc=PYINC, defs=['-DMINIPY'], extra_srcs=['minipy.cpp'], irflags=IO, irflags_all=True, **kw),
            dict(src=src, name=src[:-4] + '_real', inc=PYINC, ir_extra_srcs=['minipy.cpp'], libs=['-lpython3.12'], irflags=IO, irflags_all=True, **kw)]
prop('P01', units=py_units('python_embed.cpp'), bounds='every long, int, real and tuple index; calls with up to 5 arguments; every single failing Python call in each operation; texts of up to 3 characters', outside='the Python interpreter (replaced by a strict model of the C API; every explored trace is also run on the real libpython); the result of python_run_string; several failures in one operation; characters outside ASCII; Python 2')

PO = ['-I' + os.path.dirname(os.path.abspath(__file__)) + '/harness/shim_po']
prop('C01', units=[dict(src='init_arguments.cpp', irflags=PO + IO, irflags_all=True, libs=['-lboost_program_options'], samples=40)], bounds='four options (integer, real, text, flag) in one, two or four groups, each absent or in every form (long and short name, adjacent or separate value), among foreign tokens, in 8 orders; every digit and letter of the values; eleven kinds of malformed command line; two command lines in a row', outside='the parsing inside Boost.Program_options (replaced by a model; every explored trace is also run on the real library); abbreviated names, several flags in one token, options registered twice; other value types; the layout of the usage text')

prop('U04', units=[dict(src='utils_tuple.cpp')], bounds='every component value; tuples of 0-4 components, up to three at once, and of 8, 13, 20; loops of 0, 1, 2, 5, 17 to 129 steps; arrays of 1-4, 6, 12, 20 elements', outside='longer tuples; type predicates (settled by the compiler, not by values)')
prop('T01', units=[dict(src='catalyst_utils.cpp', irflags=['-DENCODED', '-DSTBI_NO_STDIO', '-DINCLUDE_NLOHMANN_JSON_HPP_'] + IO, irflags_all=True, samples=40)], bounds='files of up to 3 arbitrary bytes and of 17 to 5000 bytes that differ in one arbitrary byte, or in length; images of 49 to 160 values with up to 5 arbitrary pairs of values; up to 3 (and 20) scripts; texts of up to 4 characters and of 200; every sequence of two measurements of two timers with arbitrary times', outside='the JSON and image libraries and the file system, which the encoding replaces by models (every explored trace is also run with the real ones, in a scratch folder); JSON with escapes; the text of what is printed')
VTK = ['-I' + os.path.dirname(os.path.abspath(__file__)) + '/harness/shim_vtk', '-DRISTRA_ENABLE_CATALYST']
prop('T02', units=[dict(src='catalyst_grid.cpp', defs=VTK, irflags=['-DENCODED'] + IO, irflags_all=True, samples=40)], bounds='up to 4 points (and 40) and 3 cells of up to 8 corners with arbitrary coordinates and numbers; data of up to 4 elements (and 300) and 9 components; up to 3 scripts and 2 steps with arbitrary time, number and wishes of the pipelines', outside='VTK, Catalyst and MPI themselves, which are not installed: a model with their reference counting and ownership rules takes their place, in the replay as well; points of VTK hold floats')

prop('T03', units=[dict(src='catalyst_mesh.cpp', name='catalyst_mesh%d' % d, defs=VTK + ['-DDIMS=%d' % d], irflags=['-DENCODED'] + IO, irflags_all=True, samples=40) for d in (2, 3)], bounds='meshes of two and three dimensions with up to 4 points (and 40), 2 cells (and 3) of up to 4 corners (and 20) and 3 faces, arbitrary coordinates up to 1000, arbitrary corner numbers, owners and face directions; data of up to 3 elements and 9 components; texts of 3 characters', outside='FleCSI, its mesh and VTK, which are not installed: models take their place, in the replay as well; points are stored as floats')
