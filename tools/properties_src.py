"""Writes /verif/properties.jsonl.  Run after editing: python3 tools/properties_src.py"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()), 'quantifier': {'over': over, 'text': ' '.join(text.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': ['src/' + f for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = hook
    P.append(d)


p('C01', 'Every element is constructed once and destroyed once',
  '''For every operation that changes the length or storage of a container - growing, shrinking, reallocating, inserting, erasing,
  shifting, appending, popping, clearing - each element slot is constructed exactly once before it is read or destroyed and destroyed
  exactly once before its storage is reused or released. When the operation returns, exactly the slots below the new size hold live
  elements, and no value is read from a slot that was never constructed, was already destroyed, or was moved from.''',
  ['inputs', 'programs'], 'all sizes, capacities, positions and counts the operation accepts, and all element types (treated as opaque)',
  '''Element types in the tests are a handful, their sizes are small, and a leaked or doubly destroyed element is only visible with an
  instrumented type at the one length where it happens; none of the container tests run in this environment.''',
  ['arrayManipulation.hpp', 'bufferManipulation.hpp', 'MallocBuffer.hpp', 'StackBuffer.hpp', 'ChaiBuffer.hpp'],
  [('placement construction, destruction and shifting primitives', 'src/arrayManipulation.hpp'),
   ('reserve / resize / free on a buffer', 'src/bufferManipulation.hpp')])

p('C02', 'Length-changing operations keep every value in its place',
  '''After inserting, emplacing, appending, erasing, popping or resizing, every surviving value is found at exactly the position the
  operation defines, in the original relative order; the new positions hold exactly the values given (or the default value); and the
  reported size is the defined one. Nothing outside the affected range changes, also when the operation had to enlarge the storage.''',
  ['inputs', 'programs'], 'all sizes, capacities, positions, counts and values',
  '''Tests compare against std::vector for a few sizes and positions; an off-by-one at a boundary (insert at the end, erase of
  the last range, growth exactly at capacity) only shows for the size/position pair that hits it.''',
  ['arrayManipulation.hpp', 'bufferManipulation.hpp', 'Array.hpp'],
  [('shift, insert, erase, emplace primitives', 'src/arrayManipulation.hpp'), ('the same on growable buffers', 'src/bufferManipulation.hpp'),
   ('one-dimensional array front end and default-dimension resize', 'src/Array.hpp')])

p('C03', 'Multi-dimensional indexing, slicing and permuted layout agree',
  '''For every dimension count, layout permutation and extents, indexing with parentheses, indexing by successive brackets, and indexing
  through a slice of any depth name the same element; distinct in-range index tuples name distinct elements inside the allocation, and all
  in-range tuples together cover it exactly. The strides reported are those of a dense array in the layout order given by the permutation,
  and the dimension order used for sizes never depends on the permutation. Visiting the values of a slice passes each index tuple once with
  its element.''',
  ['inputs', 'programs'], 'all extents and index tuples, dimension counts one to four and all layout permutations of them',
  'The tests sample a few permutations and small extents; agreement for all extents and tuples is an algebraic identity, not a sample.',
  ['indexing.hpp', 'ArraySlice.hpp', 'ArrayView.hpp', 'Array.hpp', 'sliceHelpers.hpp', 'typeManipulation.hpp'],
  [('linear index and stride computation', 'src/indexing.hpp'), ('slices', 'src/ArraySlice.hpp'), ('array views', 'src/ArrayView.hpp'), ('for-each over slices', 'src/sliceHelpers.hpp')])

p('C04', 'Checked builds stop an out-of-range access before it happens',
  '''When bounds checking is compiled in, every accessor and every operation taking a position stops through the error mechanism before any
  memory is touched if an index is negative or not below the bound that applies to it, for each dimension independently. It never stops on
  an index that is in range.''',
  ['inputs', 'configurations'], 'all integer index values (negative included) and all extents, for every accessor, with bounds checking on',
  '''The test build has bounds checking off; where it is on, death tests try one bad index per accessor, never the interplay of one
  dimension's bad index with the others.''',
  ['indexing.hpp', 'ArraySlice.hpp', 'ArrayView.hpp', 'ArrayOfArraysView.hpp', 'SortedArrayView.hpp', 'SparsityPatternView.hpp', 'CRSMatrixView.hpp', 'arrayManipulation.hpp', 'bufferManipulation.hpp', 'Macros.hpp'],
  [('index checks', 'src/indexing.hpp'), ('position checks of the manipulation primitives', 'src/arrayManipulation.hpp')])

p('C05', 'Owners release storage once; copies are deep; moves empty the source',
  '''Every owning container frees each allocation it made exactly once over its lifetime, including when it is assigned over, copied, moved,
  cleared or destroyed. A copy shares no storage with its source and equals it; after a move the source owns nothing and reports being
  empty, and the target has exactly what the source had; the source can still be destroyed, assigned to and copied. Copy assigning a container to itself leaves it
  unchanged, move assigning it to itself leaves a container in a valid state.''',
  ['histories', 'programs'], 'all sequences of construction, copy, move, assignment (self-assignment included) and destruction, all owning container types',
  'Tests check a few copies and moves for values; leaks and double frees need an allocator oracle and self-assignment is never tried.',
  ['Array.hpp', 'SortedArray.hpp', 'ArrayOfArrays.hpp', 'ArrayOfSets.hpp', 'SparsityPattern.hpp', 'CRSMatrix.hpp', 'ArrayOfArraysView.hpp', 'bufferManipulation.hpp', 'MallocBuffer.hpp'],
  [('special member functions of the owning classes', 'src/Array.hpp and siblings'), ('copyInto and free', 'src/bufferManipulation.hpp')])

p('C06', 'Sorted-unique ranges: lookup, insertion and removal are those of a set',
  '''On a strictly increasing range, a lookup returns the first position whose value is not less than the one asked for, membership answers
  are exact, and inserting or removing one value or a strictly increasing batch of values leaves exactly the mathematical union or difference,
  strictly increasing. The returned count is the number of values actually added or removed, and an operation that changes nothing leaves the range as it was.''',
  ['inputs', 'histories'], 'all strictly increasing ranges, all values, all strictly increasing batches',
  'Tests use random small sets; a comparison or boundary slip in the batch merge shows only for particular interleavings of the two ranges.',
  ['sortedArrayManipulation.hpp', 'SortedArray.hpp', 'SortedArrayView.hpp', 'ArrayOfSetsView.hpp', 'ArrayOfSets.hpp'],
  [('find, contains, insert, remove on raw ranges', 'src/sortedArrayManipulation.hpp'), ('container front ends', 'src/SortedArray.hpp')])

p('C07', 'Arrays of arrays keep their inner arrays separate',
  '''In every container of variable-length arrays, the inner arrays occupy disjoint ranges of one allocation, the size of an inner array never
  exceeds its capacity, and an operation on one inner array changes no value, size or capacity of another. Growing, compressing, rebuilding from given
  capacities, or inserting and erasing whole inner arrays keeps every value of every other inner array in order.''',
  ['inputs', 'histories'], 'all numbers of arrays, sizes, capacities, positions and all operation sequences that keep the layout invariant',
  'Tests compare random histories against vector-of-vectors with small sizes; isolation for every layout is not sampled.',
  ['ArrayOfArraysView.hpp', 'ArrayOfArrays.hpp', 'ArrayOfSetsView.hpp', 'ArrayOfSets.hpp', 'SparsityPatternView.hpp'],
  [('offsets/sizes/values layout and its updates', 'src/ArrayOfArraysView.hpp'), ('owning front end', 'src/ArrayOfArrays.hpp')],
  state=[('offsets', 'start of each inner array in the shared allocation; one more than the number of arrays', 'src/ArrayOfArraysView.hpp'),
         ('sizes', 'number of live values of each inner array', 'src/ArrayOfArraysView.hpp')])

p('C08', 'Sparse matrix entries always stay with their column',
  '''In a compressed sparse row matrix every operation that adds, removes, moves or reallocates column indices of a row performs the matching operation on the row's
  entries, so that the entry found at a position is always the one stored for the column at that position. Adding to existing entries changes exactly
  the entries of the columns named and no others.''',
  ['inputs', 'histories'], 'all matrices, rows, columns and batches, all operation sequences',
  'Tests use random small matrices; a missed callback matters only in the branch (front insertion, reallocation, batch overlap) that takes it.',
  ['CRSMatrixView.hpp', 'CRSMatrix.hpp', 'SparsityPatternView.hpp', 'SparsityPattern.hpp', 'sortedArrayManipulation.hpp'],
  [('entry callbacks', 'src/CRSMatrixView.hpp'), ('parallel buffers passed through every reallocation', 'src/CRSMatrix.hpp')])

p('C09', 'Read-only views stay read-only and views never outlive temporaries',
  '''A view, slice or container reached through a read-only conversion gives no way to change values, and one whose sizes are fixed gives no way
  to change sizes or, for sorted data, the keys: any program that tries fails to compile. Calling a conversion to a view or slice (to...View...,
  toSlice..., conversion operators, first index of a multi-dimensional array) on a temporary owning container fails to compile, while every intended conversion compiles.''',
  ['programs'], 'all client programs using the public member functions and conversions of the container, view and slice types',
  'A test that compiles cannot show what must not compile, and the existing tests do not try.',
  ['ArrayView.hpp', 'Array.hpp', 'ArraySlice.hpp', 'SortedArray.hpp', 'SortedArrayView.hpp', 'ArrayOfArrays.hpp', 'ArrayOfArraysView.hpp', 'ArrayOfSets.hpp', 'ArrayOfSetsView.hpp', 'SparsityPattern.hpp', 'SparsityPatternView.hpp', 'CRSMatrix.hpp', 'CRSMatrixView.hpp'],
  [('view conversion operators, deleted rvalue overloads, enable_if on constness', 'src/*.hpp')])

p('C10', 'Views and slices refer to the owner they were made from',
  '''Every conversion from a container to a view, and from a view to a less capable view or slice, refers to the very same storage with the same
  extents, strides, sizes and offsets: it copies no values and a write through one is seen through the other. Copying or moving a view never allocates or releases the viewed storage.''',
  ['programs', 'inputs'], 'all container and view types and all their conversions, all contents',
  'Tests check a few conversions by value comparison on fixed contents; sharing of every field for every conversion is a structural fact.',
  ['ArrayView.hpp', 'Array.hpp', 'ArraySlice.hpp', 'SortedArrayView.hpp', 'ArrayOfArraysView.hpp', 'ArrayOfSetsView.hpp', 'SparsityPatternView.hpp', 'CRSMatrixView.hpp'],
  [('toView and relatives, converting constructors', 'src/*View.hpp')])

p('C11', 'Moving between memory spaces moves every part and marks writes',
  '''Moving a container or view to a memory space moves each buffer it is made of to that space exactly once, values nested in it included, and records a
  modification for exactly the buffers the destination may write: never for constant data, and not on a device for offsets or sorted values. Zeroing and copying happen where the data was last used, with the destination (only) recorded as modified
  there first. Nontrivial values are destroyed on the host, after their buffers were moved back, and resizing records its change on the host. A buffer with nothing in it, or asked for no space, is left alone.''',
  ['programs', 'histories', 'configurations'], 'all container and view forms, destination spaces and touch flags; zero, memcpy, resizing and destruction for every size',
  'There is no device in the tests: with one memory space every omission is invisible.',
  ['ChaiBuffer.hpp', 'ArrayView.hpp', 'Array.hpp', 'ArrayOfArraysView.hpp', 'SortedArrayView.hpp', 'SparsityPatternView.hpp', 'CRSMatrixView.hpp', 'bufferManipulation.hpp', 'memcpy.hpp'],
  [('move and registerTouch', 'src/ChaiBuffer.hpp'), ('per-container move', 'src/*View.hpp')])

p('C12', 'Concurrent operations update shared state only through the given atomic policy',
  '''Every operation documented as callable concurrently updates the shared size or entries only by atomic operations of the caller's policy, obtains its position from a
  single atomic fetch, writes only to the slot so obtained, and performs no plain read-modify-write of shared state.''',
  ['schedules', 'inputs'], 'all interleavings of concurrent callers on the same inner array or row',
  'A lost update needs a particular interleaving; the tests run few iterations and mostly sequential policies.',
  ['ArrayOfArraysView.hpp', 'ArrayOfArrays.hpp', 'CRSMatrixView.hpp'],
  [('atomic append and atomic accumulation', 'src/ArrayOfArraysView.hpp, src/CRSMatrixView.hpp')])

p('C13', 'Error checks fire exactly when their condition says so',
  '''Each error, throw, assert and warning macro triggers if and only if the relation in its name holds between its operands, evaluates its operands
  exactly once when it does not trigger, and when it triggers does what its family promises: call the installed error handler, throw the given exception type, or print and go on. Assertion forms do nothing and evaluate
  nothing in release builds, and a null error handler is never installed.''',
  ['inputs', 'configurations'], 'all operand values, all macro variants, debug and release configurations',
  'The tests exercise some macros with one true and one false pair each; wrong polarity at equality or a mis-forwarded variant is not reached.',
  ['Macros.hpp', 'system.cpp', 'system.hpp'],
  [('macro families', 'src/Macros.hpp'), ('error handler', 'src/system.cpp')])

p('C14', 'Integer conversion keeps the value or reports an error',
  '''Converting an integer of any built-in type to any other through the checked conversion returns the same mathematical value whenever the target type can represent it,
  and otherwise calls the error mechanism; it never returns a different value. The numeric limits reported for each arithmetic type are those of that type.''',
  ['inputs'], 'all ordered pairs of integer types and all source values',
  'Tests try the extreme values of some pairs; a missing case for one signedness/width combination is invisible to them.',
  ['limits.hpp'], [('checked conversion and its dispatch', 'src/limits.hpp')])

p('C15', 'Floating point trap settings are scoped and restored',
  '''Enabling, disabling or setting floating point exceptions changes exactly the exceptions named and returns the previous mask, and the scope guard enables again, on every way out of the scope, every exception that was enabled
  when it was entered. Default trapping enables division by zero, overflow and invalid, and nothing else.''',
  ['inputs', 'histories'], 'all masks, all prior environments, all nestings of guards and exits by exception',
  'Tests exercise one guard and one mask.',
  ['system.cpp', 'system.hpp'], [('fpe control and scope guard', 'src/system.cpp, src/system.hpp')])

p('C16', 'Signal handling and stack traces never run away',
  '''Installing the signal handlers covers every fatal signal and resetting puts back, for the very same signals, the dispositions in force before the installation; when a handler that exits runs, the default
  dispositions are back for every one of them before the error handler is called, so that it cannot be re-entered. Collecting a stack trace never touches memory beyond the frames obtained, reports each of them in order (those of the collecting functions aside), and releases each
  name buffer the symbol demangling allocated exactly once.''',
  ['fault_sequences', 'histories'], 'all signals, all numbers of stack frames, all symbol lookup outcomes',
  'Tests raise one or two signals in child processes; the failure of a symbol lookup or a nested fault cannot be sampled reliably.',
  ['system.cpp'], [('signal table, handler, stack trace', 'src/system.cpp')])

p('C17', 'Fixed-size tensor operations compute their textbook formulas',
  '''Every dense and symmetric fixed-size vector, matrix and tensor operation stores, for every input value, exactly the expression that defines it in linear algebra, writes
  every output component and nothing else, and leaves its read-only operands unchanged. Symmetric operands are read and written in the documented component order.''',
  ['inputs', 'programs'], 'all real input values, all supported extents (checked per extent), C arrays and slices',
  'Tests compare against a few random inputs with tolerances; swapped components or a wrong sign in one entry of one extent can hide.',
  ['genericTensorOps.hpp', 'fixedSizeSquareMatrixOps.hpp', 'fixedSizeSquareMatrixOpsImpl.hpp', 'tensorOps.hpp'],
  [('generic kernels', 'src/genericTensorOps.hpp'), ('2x2 and 3x3 kernels', 'src/fixedSizeSquareMatrixOpsImpl.hpp')])

p('C18', 'Operands of mismatched extents are rejected',
  '''Calling a fixed-size tensor operation with an operand whose extents do not match those named in the call fails to compile when the extents are known at compile time (C arrays, types with a static SIZE) or
  the rank is wrong, for each operand position of each operation; calls whose extents match compile. Where an operand's extents are known at run time only, a build with bounds checks reports the mismatch before the operation returns,
  and accepts matching extents.''',
  ['programs', 'inputs'], 'all operations, operand positions and extents',
  'What must not compile is not exercised by any test, and mismatched run-time extents are out-of-range accesses.',
  ['genericTensorOps.hpp', 'fixedSizeSquareMatrixOpsImpl.hpp', 'fixedSizeSquareMatrixOps.hpp', 'tensorOps.hpp'],
  [('size checks of each operand', 'src/genericTensorOps.hpp')])

p('C19', 'Math wrappers agree with the standard library functions they name',
  '''Each wrapper in the math layer computes, for every argument and argument type, what the standard function of that name computes, in the precision of the argument (integers in double precision),
  with arguments in the documented order. Minimum, maximum and absolute value follow the same rule. (Host functions on plain arithmetic types.)''',
  ['inputs', 'programs'], 'all argument values; all arithmetic argument types',
  'The tests compare at some points with tolerance, and no test runs the packed types here.',
  ['math.hpp'], [('host wrappers', 'src/math.hpp')])

p('C20', 'Bulk copies transfer exactly the elements of equally shaped ranges',
  '''A bulk copy between slices or arrays copies exactly the elements of the source range to the destination range, each to the same index, refuses operands whose sizes or strides differ or that are not contiguous, and refuses
  no others. Copying between arrays brings each to the space it is in and registers only the destination as modified. Setting every value of an array or matrix, or zeroing it, writes every element (zeroing a matrix: all storage of its entries) and
  nothing outside the range.''',
  ['inputs', 'programs'], 'all extents, dimension counts and sub-range indices',
  'Tests copy fixed shapes with matching layouts.',
  ['memcpy.hpp', 'umpireInterface.cpp', 'umpireInterface.hpp', 'ArraySlice.hpp', 'ArrayView.hpp', 'CRSMatrixView.hpp'], [('size and stride agreement checks, byte count', 'src/memcpy.hpp'), ('contiguity test', 'src/ArraySlice.hpp'), ('fills', 'src/ArrayView.hpp, src/CRSMatrixView.hpp')])

p('C21', 'Text input either fills the array exactly or is rejected',
  '''Parsing a textual array yields an array with exactly the extents and values written, in row-major reading order, or stops through the error mechanism; malformed text (unbalanced or too deep nesting, ragged rows, missing or extra
  separators, values separated only by blanks, values that cannot be read as the element type) is never accepted, well-formed text is not refused, and nothing is read or written outside the text, the array or the counters of the parser.
  Blanks are the only white space (documented).''',
  ['inputs'], 'all input texts; arrays of one to three dimensions',
  'Tests parse a fixed list of good and bad strings.',
  ['input.hpp'], [('string to array parser', 'src/input.hpp')])

p('C22', 'Python code modifies only what its access level allows',
  '''Through the Python interface, values can be changed only while the access level in force (read-only until the exposing code or set_access_level raises it) grants at least modification, and sizes and the contents of sets and sorted arrays only while it grants resizing; the arrays handed to Python describe exactly
  the container's values, with their type, extents and strides, and are writable exactly when modification is granted, and never for offsets, sizes, sorted values, sets or column indices. A refused operation raises a Python exception and changes nothing; a permitted one has the effect of the C++ operation of the same name.''',
  ['programs', 'histories'], 'all sequences of Python calls and access-level changes',
  'The Python tests are not built here and exercise single calls.',
  ['python/PyArray.cpp', 'python/PySortedArray.cpp', 'python/PyArrayOfArrays.cpp', 'python/PyArrayOfSets.cpp', 'python/PyCRSMatrix.cpp', 'python/numpyHelpers.cpp', 'python/numpyHelpers.hpp', 'python/PyFunc.cpp', 'python/python.cpp', 'python/pythonHelpers.hpp'],
  [('access level verification at the head of mutating methods', 'src/python/Py*.cpp'), ('writeable flag', 'src/python/numpyHelpers.cpp')])

p('C23', 'Python misuse raises an exception instead of crashing',
  '''Every Python method reports missing, uninitialised or wrongly typed arguments, out-of-range positions, and failed conversions through a Python exception: the failure of each step that can fail is tested before its result is used, and whenever a method returns failure an exception is set.''',
  ['inputs', 'fault_sequences'], 'all argument values and all failures of the interpreter calls used',
  'Tests pass valid arguments; failing allocations or conversions are not sampled.',
  ['python/PyArray.cpp', 'python/PySortedArray.cpp', 'python/PyArrayOfArrays.cpp', 'python/PyArrayOfSets.cpp', 'python/PyCRSMatrix.cpp', 'python/numpyHelpers.cpp', 'python/numpyHelpers.hpp', 'python/PyFunc.cpp', 'python/python.cpp', 'python/pythonHelpers.cpp'],
  [('guard macros and null checks', 'src/python/pythonHelpers.hpp')])

p('C24', 'Python references are neither leaked nor released twice',
  '''Along every path of every function that handles Python objects, each new reference is released once or handed to the caller, a borrowed reference is never released, and no object is used after its last reference was given up.''',
  ['programs', 'fault_sequences'], 'all control-flow paths including those on which interpreter calls fail',
  'Reference counts are not observed by any test.',
  ['python/pythonHelpers.hpp', 'python/pythonHelpers.cpp', 'python/PyArray.cpp', 'python/PySortedArray.cpp', 'python/PyArrayOfArrays.cpp', 'python/PyArrayOfSets.cpp', 'python/PyCRSMatrix.cpp', 'python/numpyHelpers.cpp', 'python/numpyHelpers.hpp', 'python/PyFunc.cpp', 'python/python.cpp'],
  [('owning reference wrapper', 'src/python/pythonHelpers.hpp')])

p('C25', 'Every buffer type honours the same storage contract',
  '''For each buffer type, reallocating makes the capacity at least the one asked for and keeps the values below the given size, capacity reports storage that is really usable, freeing returns the storage once and leaves the
  buffer empty, and copying or moving a buffer handle follows the documented shallow or deep rule. A fixed-capacity buffer refuses to grow beyond its capacity.''',
  ['inputs', 'programs'], 'all sizes and capacities, all element types, each buffer type',
  'Tests allocate a few sizes with trivially copyable types.',
  ['MallocBuffer.hpp', 'StackBuffer.hpp', 'ChaiBuffer.hpp', 'bufferManipulation.hpp'],
  [('reallocate, free, capacity', 'src/MallocBuffer.hpp, src/StackBuffer.hpp, src/ChaiBuffer.hpp')])

p('C26', 'Compile-time permutation and type helpers are exact',
  '''The compile-time helpers answer exactly: a sequence counts as a permutation only if it holds each dimension once, the unit-stride dimension is the last in layout order, the
  member, expression and all-of predicates match their definitions, and the view-type selectors name the type the matching conversion member returns (or the type itself, read-only
  where a read-only view is asked for). Products of extents and element counts converted between types are exact, or the conversion is refused.''',
  ['inputs', 'programs'], 'all permutations and malformed sequences up to five dimensions, all predicate argument patterns up to that length',
  'Tests instantiate a few sequences.',
  ['typeManipulation.hpp', 'indexing.hpp'], [('constexpr predicates and selections', 'src/typeManipulation.hpp')])

p('C27', 'Sorting rearranges, keeps pairs together and stays in its storage',
  '''Sorting two ranges together only moves values about, however long the input and however inconsistent the comparison: one value and its partner are out of place at a time, what is done to a value is done to its partner at the same position, and
  every place ends up holding a value, so the result is a rearrangement with each value still beside its partner. The auxiliary storage is never overrun, whatever the order of the input. With a comparison that is an order the whole range comes out sorted. Duplicate removal
  looks at each value of the sorted range once, keeps in front, in order, the first and every value the last one kept is less than, and returns their number; sorting with duplicate removal sorts the whole range first. A range is reported as sorted exactly
  if no value is less than the one before it.''',
  ['inputs'], 'all lengths, values and value orders, including adversarial ones',
  'Tests sort random data; the auxiliary range stack overflows only for crafted orders.',
  ['sortedArrayManipulation.hpp', 'sortedArrayManipulationHelpers.hpp'],
  [('introsort and its range stack, paired iterators', 'src/sortedArrayManipulationHelpers.hpp'), ('duplicate removal', 'src/sortedArrayManipulation.hpp')])

p('C28', 'Debugger display never reads beyond the container',
  '''The debugger display hooks describe each array with an address, extent list and element count that all lie inside the container, for every size including zero. The rows they add are written inside the display buffer; a row that is malformed or does not fit is reported as failure and leaves the rows before it as they were.''',
  ['inputs'], 'all extents and contents', 'Nothing in the tests calls the debugger hooks.',
  ['totalview/tv_helpers.hpp', 'totalview/tv_data_display.c'], [('type display hooks', 'src/totalview')])

p('C29', 'Symmetric eigenvalues and eigenvectors are accurate',
  '''For every symmetric matrix of order two or three the computed eigenvalues and eigenvectors satisfy the eigenvalue equation to a small multiple of rounding error, eigenvalues in ascending order.''',
  ['inputs'], 'all finite symmetric matrices', 'Accuracy near repeated eigenvalues is not sampled densely.',
  ['fixedSizeSquareMatrixOpsImpl.hpp', 'fixedSizeSquareMatrixOps.hpp'], [('closed-form eigenvalues', 'src/fixedSizeSquareMatrixOpsImpl.hpp')])

p('C30', 'Printed output describes the container completely',
  '''Printing a container lists every value once, in index order, inside braces that mirror its dimensions or rows, each row with its own number and values. The text of a dense array has one separator between neighbours and none elsewhere, as its reader expects; this holds for every extent including zero. Everything goes to the stream given.''',
  ['inputs'], 'all extents and values', 'Tests print fixed small arrays.',
  ['output.hpp', 'input.hpp'], [('stream operators', 'src/output.hpp')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P))
