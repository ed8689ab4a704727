"""Lookup, insertion and removal on strictly increasing ranges are those of a set."""
from engine import batch, fate, lifecycle, order, probe

TECHNIQUE = 'abstract interpretation of LLVM IR: relational loop invariants over an ordered value domain, relocation (fate) analysis of the stored values, case split on path predicates'
LEVEL_NOTE = '''find, contains, insert and remove, of one value and of a strictly increasing batch, on a raw range, through SortedArray and its view and through the sets of ArrayOfSets and its view, for every size, position
and (totally ordered) value; the range is strictly increasing before. Loops (the binary search, the nested searches and shifts of the batches) are covered by inductive invariants that the analysis finds and checks, over both
ranges. Batches read through other iterators than pointers, and hash based std::set sources, are not covered.'''
EXPLANATION = '''Values are abstract members of a total order; the range is known to be strictly increasing only. For a symbolic position k of the range, with the value there below, equal to or above the value given, the analysis follows
the value at k through the operation and decides where it is afterwards: at k, one further up or down exactly as the answer says, or gone when it is the one removed. The value inserted is found at the one place between the smaller
and the larger values. The answers of lookups are decided against the positions: everything before the answer is smaller, the value there is not, a member is reported only where a position holds it, a non-member only when no
position does. The reported count agrees with the change of the size. Each comparison is shown to look only at positions of the range. For batches each pass of the loop is decided - which values it moves, by how far, that it
removes only what is in the batch and passes over nothing that is (or inserts exactly what is missing, between the right neighbours) - and that the passes join: each starts where the one before ended, the distances count up, the
last reaches the end, the left over values are destroyed, and the count returned is the number of passes.'''
ASSUMPTIONS = ['the comparison is a strict total order', 'the range is strictly increasing before the operation', 'arrayManipulation functions do what C01 and C02 decide', 'index arithmetic does not overflow',
               'the value given is not itself an element of the container']


def run(ctx):
    hs = order.HANDLERS + fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS
    ctx.drive('setops.cpp', handlers=hs, lvir_args=tuple(fate.OPAQUE), opts={'access': fate.access})
    ctx.drive('setbatch.cpp', handlers=batch.HANDLERS + hs, lvir_args=tuple(batch.OPAQUE), opts=dict(batch.OPTS, root_seconds=400), finish=batch.finish)
    ctx.drive('setcalls.cpp', handlers=batch.HANDLERS + hs, lvir_args=batch.WHOLE_OPAQUE, opts={'access': fate.access})
