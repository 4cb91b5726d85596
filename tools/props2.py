L = 'ristra/elements/'
p('E01', 'Shape functions of the fixed-node elements interpolate exactly',
  'For the 4, 8 and 12 node quadrilaterals, the 8, 20 and 32 node hexahedra and the 16 node tesseract, each shape function is one at its own node and zero at the others, they sum to one at every point, and they reproduce every polynomial the element is complete for. Each partial derivative they report is the derivative of the corresponding shape function, and the physical position of a reference point is the combination of the vertex positions weighted by the shape functions, whatever the result held before.',
  'every reference coordinate and every vertex position', 'the only test prints values at one point of each element and asserts nothing',
  [L+'elements.cc', L+'elements.h'], [('basis, physical_position, partial_*_shape_fcn of Quad_4_2D, Quad_8_2D, Quad_12_2D, Hex8, Hex20, Hex32, Tess16', L+'elements.cc')])
p('E02', 'Arbitrary-order Lagrange elements interpolate exactly',
  'For every order and every set of distinct nodes, the one-dimensional basis values and slopes are those of the interpolating polynomials, so they sum to one and reproduce every polynomial up to the order with its derivative, and the generated nodes run from -1 to 1 in increasing, symmetric, Chebyshev spacing. The quadrilateral and hexahedral elements combine them as tensor products in a fixed node order, with matching partial derivatives, corner nodes and mapping to physical space in every coordinate.',
  'every point, every set of distinct nodes (order up to 3), every polynomial (order up to 8)', 'the only test prints values for one order and one point and asserts nothing',
  [L+'elements.cc', L+'elements.h'], [('QuadN and HexN: lagrange_1D, chebyshev_nodes_1D, basis_partials, corners, physical_position', L+'elements.cc')])
p('E03', 'Jacobians, their determinants and inverses are exact',
  'The Jacobian of an element in 2, 3 and 4 dimensions is the sum over its nodes of partial derivatives times coordinates, and the determinant returned with it is that of the matrix. The inverse of a nonsingular Jacobian times the Jacobian is the identity in every dimension, and nothing outside a matrix of that dimension is read or written.',
  'every vertex coordinate and partial derivative, every nonsingular matrix', 'the only test prints the result for one undistorted element',
  [L+'elements.cc'], [('jacobian, jacobian4D, jacobian_inverse_2d/3d/4d', L+'elements.cc')])
p('E04', 'Gauss quadrature integrates every polynomial of its degree',
  'An n-point Gauss-Legendre rule on the line has points inside (-1,1) and positive weights and integrates every polynomial of degree up to 2n-1 exactly, an n-point Gauss-Lobatto rule includes both end points and is exact up to degree 2n-3. The rules for quadrilaterals, hexahedra and tesseracts list every combination of the line points once with the weights of the line rule in each direction.',
  'every polynomial with coefficients in [-1,1]; every rule of up to eight points', 'the tests print one rule and assert nothing; an error in one tabulated digit is invisible',
  [L+'elements.cc'], [('LineGaussRuleInfo, LineLobattoRuleInfo, Gauss2D/3D/4D, Lobatto2D/3D/4D', L+'elements.cc')])
L = 'ristra/atomics/src/'; AF = [L+x for x in ('atomics.h','atomics-macro-class.h','atomics-macro-class-prepost.h','atomics-macro-function.h','atomics-macro-function-prepost.h','atomics-macro-member.h','atomics-macro-member-prepost.h','atomics-macro-operator.h','atomics-macro-operator-prepost.h')]
p('A01', 'Atomic updates are never lost and return their own result',
  'Whatever other threads write to an atomic variable, and whenever, each operation with the strong, weak, strong::pun, weak::pun, lock or cpp scheme replaces the value the variable held at one instant by exactly the operation applied to that value. The result returned belongs to that same update: the new value, or for post-increment and post-decrement the value replaced.',
  'every operation, type, form of call, and every interleaving with other writers of the variable', 'the thread tests run one lucky schedule and only check the final sum',
  AF, [('apply for each scheme; the functors made by atomics-macro-class*.h; punxstrong, punxweak', L+'atomics.h')], over=('inputs','schedules'))
p('A02', 'Atomic updates honour the memory order asked for',
  'An update made with a memory order is performed with an order at least as strong as the one passed, and a failed compare-exchange with at least the failure order passed. Without an argument the update is sequentially consistent.',
  'every operation, scheme, form of call and memory order', 'on x86 a weaker order rarely shows in a run, so the tests cannot see it',
  AF, [('memory order arguments of members, functions and apply', L+'atomics.h')], over=('inputs','schedules'))
p('A03', 'Atomic variables compute what their plain value type computes',
  'Used by one thread, every operation of an atomic variable (arithmetic, shifts, bits, min, max, increments, decrements), in every scheme and as member, function, operator, volatile or with another scheme asked for, changes the value and returns what the same operation on the plain type does, and touches nothing else. Construction, assignment, conversion, base() and ref() give access to that value.',
  'every value and operand for which the plain operation is defined', 'the tests compare a printed list for a few constants',
  AF, [('all operations', L+'atomics.h')], over=('inputs',))
p('A04', 'Lock-scheme operations run entirely under the one mutex of their type',
  'Every operation in the lock scheme reads and writes the variable only while it holds the mutex of that atomic type, the same one for all variables, operations and qualifiers of the type, and releases it before it returns. Types with another mutex number have a mutex of their own.',
  'every operation, type and form of call', 'a wrong or early-released mutex only shows under a particular schedule',
  AF, [('apply with lock; singleton_mutex', L+'atomics.h')], over=('inputs','schedules'))
L = 'ristra/utils/'
p('W01', 'Multidimensional views name exactly the elements of their box',
  'A strided, contiguous or static view of any array or container maps an index inside its bounds to the row-major (or given stride) element of the underlying data and nothing else, and at() and slice() throw std::out_of_range for exactly the indices outside. Slices, sections, flattening, const and kind conversions keep that mapping, iteration (forward, backward, random access, over indices or elements) visits each element once in row-major order with consistent distances and comparisons, an empty box is not visited at all, and views compare as the sequences of their elements.',
  'every index value, every extent and stride, every kind of view', 'the test of these classes is not part of the build; defects show only for particular shapes, strides or out-of-range indices',
  [L+'array_view.h'], [('index_t, strided_bounds, contiguous_bounds, static_bounds, bounds_iterator, strided_iterator, contiguous_iterator, strided_array_view, array_view, static_array_view, make_array_view', L+'array_view.h')])
L = 'ristra/assertions/'
p('D01', 'Contract assertions fire exactly when violated and say where',
  'Each design-by-contract macro evaluates its operands once, its value (for the comparison macros) is the condition itself, and the action chosen for the translation unit (throw, notify, nothing) runs exactly when the condition is false: never when it is true, and for Require, Check, Ensure and the comparison macros only where contracts are enabled; Insist always. The report names the file, line, function and the text of the assertion with the offending values. The error macros throw the exception type they name, exactly when their condition says so, and behave as one statement.',
  'every operand value, every enabled/disabled and action combination', 'the tests sample one operand pair per macro in the modes that are built',
  [L+x for x in ('dbc.h','dbc_impl.h','dbc_impl.cc','errors.h','exceptions.h','here.h')], [('Insist, Require, Check, Ensure, Equal, NotEqual, InOpenRange, GreaterThan, GreaterEqual, LessThan, OneOf; assertf, assertf_l, build_message', L+'dbc.h'), ('THROW_*, assert_true', L+'errors.h'), ('HERE_STR', L+'here.h')])
L = 'ristra/embedded/'
p('L01', 'Lua values convert exactly or are refused, and the stack is left as found',
  'Asking a Lua value for a C++ type (integers of any width, floating point, bool, string, vector, array, matrix, nested) gives exactly the value Lua holds, element by element in order, or throws std::runtime_error when the Lua type, the number of elements or the range does not fit; nothing is truncated, wrapped or filled in. A default is used exactly when the value is nil. Whether it succeeds or throws, a conversion leaves the values other code has on the Lua stack as they were.',
  'every value, type, length and stack content', 'the tests convert one script of well-formed values; wrong types, ranges and lengths and the state of the stack are not looked at',
  [L+'embed_lua.h'], [('lua_value<T>::get, lua_result_t conversions and as()', L+'embed_lua.h')])
p('L02', 'Lua tables and functions are reached faithfully and safely',
  'A global, a key or an index of a table names exactly the Lua value stored there (empty when there is none), and its size is that of the value. A call passes each argument once, in order, with its type and value, gives back all results in order, and throws std::runtime_error when the value is not a function, the function fails, or it returns nothing or nil. References stay valid as long as any copy exists, also after the variable is changed or the lua_t is gone, are released exactly once with the last copy, and the Lua stack is left as it was found after every access, call and failure.',
  'every value, key, index, argument and result, every lifetime order of the objects', 'the tests make one successful call of each kind; failures, lifetimes and stack growth are not looked at',
  [L+'embed_lua.h'], [('lua_t, lua_base_t, lua_ref_t, lua_result_t operator() and operator[], lua_push, Lua_Func_Wrapper, lua_try_access, lua_try_access_as', L+'embed_lua.h')])
p('P01', 'Python values, calls and modules pass through exactly and references balance',
  'Numbers handed to Python arrive as int or float objects of exactly that value, and converting an object back gives its value (a float asked for as long is truncated toward zero) or throws std::runtime_error when it has none in range. A call passes its arguments in order, any number of them, and returns the result of the function, argument tuples can be read and set only inside their bounds, and imports, attributes and paths (put first in sys.path) name what was asked for. Whatever Python call fails, std::runtime_error is thrown, no error stays pending and no reference is leaked or dropped: each function that returns a new object gives the caller one reference to free.',
  'every value and index, every point of failure', 'the one test of calls makes two successful ones; failures and reference counts are not looked at',
  [L+'embed_python.h'], [('python_get_value, python_as_long, python_as_double, python_*_tuple_element, python_build_args, python_call_function, python_import, python_get_attribute, python_add_to_path', L+'embed_python.h')], over=('inputs','fault_sequences'))
L = 'ristra/initialization/'
p('I01', 'Input sources return the value stored under the name and type asked for',
  'A hard-coded source returns, any number of times, the value last set under exactly that name and type, and reports false and leaves the target untouched otherwise. A Lua source looks each name up in the table and under the Lua key registered for it (a later registration of a value or table displaces the earlier one and says so), returns the value of the file converted to the type asked for, reports false when the file has no such entry, and throws for unknown names, missing tables, unreadable files and values of another type, with the type of the original error. Different sources do not affect each other through Lua state or registrations.',
  'every value, name, type and registration history', 'the tests read each value of one file once',
  [L+'input_source.h', L+'input.h'], [('hard_coded_source_t, lua_source_t', L+'input_source.h'), ('input_t', L+'input.h')], over=('inputs','histories'))
p('I02', 'Inputs resolve from Lua, then hard-coded values, and report what is missing',
  'After resolve_inputs each registered target, distinguished by name and type, has the value of the Lua source if it is there and otherwise that of the hard-coded source at the time of this resolution; the call returns true exactly when all targets were found, and those not found are reported as unresolved and throw when asked for. get_instant_value applies the same rule immediately and throws std::runtime_error when it finds nothing. An init_value delegates to the target "namespace:name", hands out the resolved value exactly when it was found and its own validator accepts it, throws otherwise, and its status says which.',
  'every combination of sources and values, every order of registration, resolution and access', 'the tests resolve one fixed set of inputs once per engine',
  [L+'input_engine.h', L+'init_value.h', L+'inputs_impl.h'], [('resolve_inputs, resolved, get_value, get_instant_value, register_*', L+'input_engine.h'), ('init_value_t', L+'init_value.h')], over=('inputs','histories'))
p('C01', 'Command line options reach the program with their values or are refused',
  'process_arguments accepts every command line in which each registered option (of any group, in any order, by its long or short name) occurs at most once with a well-formed value, ignoring tokens it was not told about, and afterwards count and as<T> give exactly the options and values of that command line, with the caller\'s default for an option that is absent. A missing, malformed, repeated or unwanted value is reported as an error. Usage text (on error to cerr, on help to cout, and from print_missing_argument) names the program and every registered option with its message, and appears only when asked for.',
  'every option value, form, grouping, order and mixture with foreign tokens', 'no test covers command line processing',
  [L+'arguments.h'], [('command_line_arguments_t, command_line_variables_t', L+'arguments.h')], over=('inputs','histories'))
L = 'ristra/utils/'
p('U04', 'Tuple and counting helpers visit every component once, in order',
  'The compile-time loops (static_for, tuple_for_each, tuple_visit over any number of tuples) call the function once for every index or component, in order, on the component itself where the tuple can be written. Zipping pairs the components at equal positions, as copies (tuple_zip) or as references to the originals (tuple_tie, ctie). Conversions to arrays, fills, array extents, products and the function objects plus, minus, multiplies and divides keep every value, count and order.',
  'every component value, for tuples of 0 to 17 components of mixed types', 'the tests use one or two tuples with fixed values; several of the helpers have no test',
  [L+x for x in ('functional.h','static_for.h','template_helpers.h','tuple_for_each.h','tuple_visit.h','tuple_zip.h','tuple_to_array.h','type_traits.h')], [('static_for', L+'static_for.h'), ('tuple_for_each', L+'tuple_for_each.h'), ('tuple_visit', L+'tuple_visit.h'), ('tuple_zip, tuple_tie', L+'tuple_zip.h'), ('to_array', L+'tuple_to_array.h'), ('make_array, fill, multiply', L+'template_helpers.h')])
L = 'ristra/io/catalyst/utils/'
p('T01', 'The Catalyst helpers compare, list, log and time faithfully',
  'compareFiles is true exactly when both files can be read and hold the same bytes; imageCompare exactly when both images load with the same width, height and channels and at most 2 percent of their values differ; fileExists exactly when the file can be opened. getCatalystScripts returns the listed scripts in order, as paths beside the input file (none for an empty name or an absent key) and throws for an input that cannot be read, and replaceInString replaces the first occurrence or throws if there is none. A log is written whole to its named file, replacing it or (writeLogApp) appending to it, and InsituTimer reports under each name the time from the last start to the following stop, or -1 while running or unknown.',
  'every file content, list, text and order of starts and stops within the bounds', 'no test builds these helpers',
  [L+x for x in ('catalystUtils.hpp','insituLog.hpp','insituTimer.hpp')], [('getCatalystScripts, replaceInString, fileExists, imageCompare, compareFiles', L+'catalystUtils.hpp'), ('InsituLog, writeLog, writeLogApp, writeLogNew', L+'insituLog.hpp'), ('InsituTimer', L+'insituTimer.hpp')], over=('inputs','histories'))
L = 'ristra/io/catalyst/'
p('T02', 'Catalyst and the VTK grids receive exactly what the caller gave',
  'Every point, cell, scalar, vector, tensor and field array passed to an UnstructuredGrid (or the set*Data functions) reaches the VTK grid once, in order, under its name and on points (0) or cells (otherwise), and each write produces one .vtu or .pvtu file of that grid with the pieces asked for. The adaptor loads its scripts in order and for each step asks the processor once with the time and step given, forcing output on the last step, and runs the pipelines on the grid exactly when the processor wants the step. Objects are released exactly once and data the caller owns is never freed or changed.',
  'every coordinate, index, value, count within the bounds and order of calls', 'no test builds these headers; VTK is not installed, so a recording model of it takes its place',
  [L+'adaptor.h', L+'vtk/unstructuredGrid.h'], [('adaptor_t, initAdaptor, processCatalyst, finalizeAdaptor', L+'adaptor.h'), ('UnstructuredGrid, setScalarData, setVectorData, setTensorData, writeUnstructuredGrid', L+'vtk/unstructuredGrid.h')], over=('inputs','histories'))
p('T03', 'The mesh handed to Catalyst is the mesh of the simulation',
  'createMesh, writePointsToGrid and writeCellsToGrid give VTK every vertex at its own number with its coordinates (zero for missing dimensions) and, for every cell (createMesh: every owned cell, in order), one polyhedron with the corner numbers of the cell and all its faces, each with its corner count and its corners in order, reversed when the cell is not the first cell of the face. addScalar, addVector and addTensor put each value on cells unless points are asked for; outputVTKUnstructredGrid writes the grid once to the name given, and outputFile leaves exactly the text in the file or reports that it cannot. The grid of createMesh or initVTKUnstructuredGrid is a new one, nothing is leaked and the mesh is not changed.',
  'every mesh, coordinate, numbering, ownership and face direction within the bounds', 'no test builds this header; FleCSI and VTK are not installed, so models take their place',
  [L+'flecsale_unstructuredGrid.h'], [('createMesh, writePointsToGrid, writeCellsToGrid, addScalar, addVector, addTensor, outputVTKUnstructredGrid, outputFile, initVTKUnstructuredGrid', L+'flecsale_unstructuredGrid.h')], over=('inputs',))
