"""Length-changing operations keep every value in its place."""
from checks import lengths
TECHNIQUE = 'abstract interpretation of LLVM IR: symbolic slot ranges carry the origin of each value; relocation (fate) analysis for arrays of arrays; transfer function of one slab for non-outermost dimensions'
LEVEL_NOTE = '''Every path of the operations of arrayManipulation, bufferManipulation, MallocBuffer, StackBuffer, ChaiBuffer, one-dimensional Array, SortedArray, ArrayOfArrays and ArrayOfSets with symbolic sizes, capacities, positions and
counts; resizing of the default dimension of two- and three-dimensional arrays in five layouts. Values of an opaque type and of int. Index arithmetic over the integers.'''
EXPLANATION = '''Values are names: a range of slots holds, position by position, the values of a range of an earlier state, the default value, or copies of an argument. Each operation is followed on every path with symbolic sizes, positions and
counts, and at its end the range each promised value must be in is compared with the range it is in; sizes are compared likewise. Where a dimension that is not the outermost one changes, the transfer function of one iteration over the
slabs, the number of slabs and their order are decided.'''
ASSUMPTIONS = ['lengths do not overflow their integer type', 'arguments do not alias the elements of the container that is changed']


def run(ctx):
    lengths.drive(ctx, 'values', lengths.values)
