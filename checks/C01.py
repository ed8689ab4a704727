"""Every element is constructed once and destroyed once."""
from checks import lengths
TECHNIQUE = 'abstract interpretation of LLVM IR: typestate of element slots (raw, live, moved-from) over symbolic slot ranges'
LEVEL_NOTE = '''Every path of every length- or storage-changing operation of arrayManipulation, bufferManipulation, MallocBuffer, ChaiBuffer, Array, SortedArray, ArrayOfArrays and ArrayOfSets for an opaque element type, with symbolic sizes,
capacities, positions and counts. In arrays of arrays one arbitrary slot is followed. Sparsity patterns hold integers; the entries of a CRSMatrix are C08's. Unbounded-integer arithmetic; CHAI is represented by its interface.'''
EXPLANATION = '''Each operation is compiled for an element type whose constructors, assignments and destructor are opaque transitions of a slot typestate (raw, live, moved-from). Every path of the optimised IR is followed with symbolic sizes;
loops are summarised in closed form or by inductive invariants. Decided at each transition: the slot is in the state the transition needs; at the end: exactly the slots below the size are live, none beyond, all in storage that is alive.
For arrays of arrays an arbitrary element, and an arbitrary slot that holds none, is followed through every relocation.'''
ASSUMPTIONS = ['lengths do not overflow their integer type']


def run(ctx):
    lengths.drive(ctx, 'slots', lengths.slots)
