"""The entries of a sparse matrix stay with their columns."""
from checks import C07
from engine import addrow, batch, fate, lifecycle, mirror, order, probe

TECHNIQUE = 'abstract interpretation of LLVM IR: relocation (fate) analysis of entries under the order of their columns, mirror rule on the effects on the two parallel ranges, relational loop invariants'
LEVEL_NOTE = '''Every path of each public operation of CRSMatrix and CRSMatrixView that changes the pattern, for symbolic rows, sizes, offsets, capacities, columns and positions: single and batch insertion and removal, row capacities, resize,
compress, reserve, rebuild, assimilate, copy, move, destruction, accessors, and the addToRow family. One thread; RAJA stands as its definition. A batch insertion into a row that holds values and has to grow at the same time is
composed: growing is decided by the single-value operations, which use the same callback, the insertion with room. setValues and zero: see C20.'''
EXPLANATION = '''Columns of a row are members of a total order, strictly increasing. For a symbolic position k of a row whose column is below, equal to or above the one inserted or removed, the entry at k is followed through the
operation and has to arrive where the column at k is (C06, C07 decide where that is), to be destroyed with it, or to be made from the value given for it. For batches every effect on the columns - each move, creation and
destruction, in each pass of each loop - is matched with the effect on the entries at the same position, of the same length and distance, with values from the same place of those given. Operations on whole rows keep each entry at
the offset and position of its column, and there is room for the entries wherever there is room for the columns. For addToRow it is decided by inductive invariants that each addition goes to an entry whose column is the one the
value was given for, that every value is added once, and only by the atomic policy given.'''
ASSUMPTIONS = ['index arithmetic does not overflow', 'the matrix satisfies the layout invariant before the operation and its rows are strictly increasing', 'arrayManipulation functions do what C01 and C02 decide',
               'the columns given to addToRow are in the row (documented)', 'a row never has more columns than the matrix', 'one thread at a time']


def run(ctx):
    hs = order.HANDLERS + fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS
    ctx.drive('sparse.cpp', handlers=hs, lvir_args=fate.OPAQUE, opts={'access': fate.access}, finish=C07.compress)
    ctx.drive('sparsebatch.cpp', handlers=mirror.HANDLERS + batch.HANDLERS + hs, lvir_args=tuple(batch.OPAQUE), opts=dict(batch.OPTS, root_seconds=400), finish=mirror.finish)
    ctx.drive('addrow.cpp', handlers=addrow.HANDLERS + batch.HANDLERS + hs, lvir_args=tuple(batch.OPAQUE), opts=dict(addrow.OPTS, root_seconds=400), finish=addrow.finish)
