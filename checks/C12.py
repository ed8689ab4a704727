"""Concurrent operations update shared state only through the given atomic policy."""
from engine import addrow, batch, conc, fate, lifecycle, order, probe

TECHNIQUE = 'abstract interpretation of LLVM IR: effect analysis of shared memory under arbitrary interference at every atomic operation'
LEVEL_NOTE = '''Every path of emplaceBackAtomic (view and owner, class and plain element types, with and without bounds checking) and of the addToRow family with a non-sequential policy, for symbolic sizes, offsets and positions.
RAJA's atomic operations themselves are trusted. Loads and stores that happen inside the element's own constructor are its own.'''
EXPLANATION = '''Every load and store of the operation to memory that is not a local is an obligation. An append performs exactly one atomic operation, an increment by one of the size of the array appended to, with the caller's
policy (a type of the driver's own, so that a policy put in its place shows); no load or store touches the sizes otherwise; the old value it returns is any number the precondition allows - other threads may have appended any
number of values - and the value is created in exactly the slot of that number, and nothing else is written. In addToRow every update of an entry is one atomic addition with the caller's policy; there are no plain stores outside locals
and entries are neither copied out nor assigned.'''
ASSUMPTIONS = ['the values appended by all threads fit in the capacity of the array (documented)', 'RAJA atomic operations are atomic and return the old value', 'no other operation runs at the same time']


def run(ctx):
    hs = order.HANDLERS + fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS
    for defs in (('NDEBUG',), ('NDEBUG', 'LVARRAY_BOUNDS_CHECK')):
        ctx.drive('atomic.cpp', handlers=conc.HANDLERS + hs, defs=defs, opts={'access': conc.access}, finish=conc.finish, lvir_args=fate.OPAQUE)
    ctx.drive('addrow.cpp', handlers=addrow.HANDLERS + batch.HANDLERS + hs, lvir_args=tuple(batch.OPAQUE), opts=dict(addrow.OPTS, access=addrow.access, root_seconds=400), finish=addrow.concurrent, exclude='serial',
              keep=lambda l: l in (addrow.LAB_POL, addrow.LAB_PLAIN, addrow.LAB_UPDATE))
