WHY = {
 'C01': '''Specified: a slot typestate (raw, live, moved-from) for every index of every value buffer. Construction needs raw,
 reading and destruction need live (destruction also of moved-from), release of storage needs raw everywhere, and at return exactly [0,size) is live. Ranges with symbolic
 ends carry the state; loops over slots become range actions. Tests sample a few sizes and types; the rule covers every size, capacity, position and count. ''',
 'C02': '''Specified per operation as the exact origin of the value in each slot afterwards (old slot, argument, default) as a function of a symbolic index,
 and the reported size. Decided from the symbolic content of slot ranges, and for arrays of arrays by following one arbitrary value (its fate). Resizing of a dimension other than the
 outermost is decided from the transfer function of one slab.''',
 'C03': '''The address named by every way of indexing is computed as a polynomial in indices and extents; all ways must give the same polynomial, equal to the one of the dense layout of the permutation.''',
 'C04': '''Checked build. For each operation: on a path that goes on to touch storage (or returns) the position is proved in range; on a path that calls the error handler the position is proved out of range;
 no storage is touched before.''',
 'C05': '''Allocation typestate (held once by one owner, released once, never used afterwards) through every special member, from any valid state; source and target compared field by field and value by value.''',
 'C06': '''Values are points of a total order; the path condition of each comparison is a fact about the order; loop invariants over the order (everything left of lo is smaller, ...) are found from templates
 and checked to be inductive. The resulting range is compared with the union or difference by the fate of one arbitrary old value and one arbitrary value of the batch.''',
 'C07': '''One arbitrary value of one arbitrary inner array is followed through the operation (moves, shifts, reallocation) and must end in the same place of the same inner array; layout invariant of offsets and sizes at entry and exit.''',
 'C08': '''As C07 with columns and entries together, plus a mirror rule: every effect on the columns of a row has the same effect at the same place of the entries, so entry and column stay together.''',
 'C09': '''Every mutating expression is tried on every read-only form and must be ill-formed, and the same expression on the modifiable form must compile (so that a witness cannot fail for the wrong reason).''',
 'C10': '''Field by field equality of a view with its owner as symbolic terms; any event (allocation, release, read or write of values) in a conversion is a violation.''',
 'C11': '''Buffers are replaced by an opaque buffer type whose move, moveNested, registerTouch and reallocate are events; each obligation is a rule on the sequence of events of every path.''',
 'C12': '''At each atomic operation every shared cell is forgotten (arbitrary interference). A plain load, store or read-modify-write of shared sizes or entries, or a write to any slot but the one obtained from the fetch, is a violation.''',
 'C13': '''Each expansion has opaque operands; the condition of the path that reaches the handler must be equivalent to the relation in the name, and each operand is evaluated once.''',
 'C14': '''The IR of each of the 121 conversions is an exact piecewise affine function; compared with the identity on the representable interval.''',
 'C15': '''Interpretation over a model of the trap mask; the final masks are boolean terms compared by truth table per bit.''',
 'C16': '''Dispositions are a symbolic table; order of effects (defaults restored before the handler is called) is judged on each path; trace buffers by bounds and allocation typestate.''',
 'C17': '''Each output component is a rational normal form of the inputs, equal to the definition.''',
 'C18': '''Compile-fail witnesses per operand and dimension; for run-time extents the error path condition.''',
 'C19': '''Result terms of the wrapper and of the standard function are compared for identity.''',
 'C20': '''At each memcpy/memset, source, destination and byte count must be exactly those of the ranges; error paths must be equivalent to a mismatch; fills must reach every index (one arbitrary one) and stay inside.''',
 'C21': '''Product of the parser with an automaton of the accepted texts: its control (level, flags, last character) is enumerated, its counters are related to those of the specification by affine equalities
 iterated to a fixpoint, so texts of every length are covered; the reading functions by order rules on what is taken from the stream and where each value goes.''',
 'C22': '''Every function the Python type tables name is followed on every path; a changing call of the container (virtual call, resolved through debug information) needs the comparison of the access level in force on its path. The classes behind the virtual calls are interpreted with
 symbolic containers: flags, storage, type, extents and strides of each array handed out are compared with the container's own.''',
 'C23': '''Every interpreter call may fail independently; its result is a typestate (untested, good, failed with an exception pending). Positions must be entailed by tests on the path, converted values must be the container's type, alive and as many as said; the conversion itself is checked against that contract.''',
 'C24': '''Ownership accounting per object and path: new, borrowed, stolen and given references are credits; at return the credits left must be those handed to the caller or kept in objects that live on.''',
 'C25': '''Allocation typestate and slot typestate of each buffer operation against the contract.''',
 'C27': '''The move operations of the element type are the typestate transitions (a hole and a value out); loops by inductive equalities between the hole, the iterators and the pending operation on the partner, found by
 iterating candidate facts to a fixpoint. Each sorting step is a contract (starts and ends with no value out), so the sort of any length is covered. That the last pass sorts follows from what the comparisons before each move and each placement said. Where the partition scans of an inconsistent comparison run to is not decided.''',
 'C28': '''Bounds entailment for each write under an inductive cursor invariant; products of extents compared with the size of what is described.''',
 'C30': '''The trace of insertions, loops as repeated segments, parsed against the grammar of the container; positions compared by linear arithmetic.''',
 'C26': '''Constant expressions evaluated by the type checker for every small argument list, against an independent definition in Python; polynomial identities for the products.''',
}
NA = {}
NA['C29'] = '''A bound on floating point rounding error of an iterative/trigonometric formula: no static domain available here bounds the error of acos/cos based eigenvalues near repeated roots, and the algebraic identity does not imply it.'''
