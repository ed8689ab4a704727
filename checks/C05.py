"""Owners release their storage once, copies are deep, moves empty the source."""
from engine import fate, heap, lifecycle, probe
from checks import C25
from checks.C17 import UNROLL
TECHNIQUE = 'abstract interpretation of LLVM IR: typestate of heap allocations and of element slots through the special members and operations of each owning class'
LEVEL_NOTE = '''Array (one and two dimensions) and SortedArray over MallocBuffer and ChaiBuffer with non-trivial elements, ArrayOfArrays, ArrayOfSets, SparsityPattern and CRSMatrix over MallocBuffer, each in symbolic states.
Histories are covered by induction over states: every operation is taken from any valid owner to a valid owner. Deep copies of the four jagged containers are decided for values of ArrayOfArrays and ArrayOfSets (relocation analysis, as
C07); for the entries of CRSMatrix see C08. ChaiBuffer on the host. For jagged containers driven here the storage is one the container itself made (resize, insert), so gaps between rows hold values.'''
EXPLANATION = '''The special members, swap, clear, reserve and the operations that change the length are driven on owners in symbolic states. Every allocation carries a typestate (made, freed) and every element slot one (raw, constructed with an
origin, destroyed). On every path it is decided that no allocation is freed twice, used after it was freed, freed with a pointer that is not one, or lost; that the storage an owner reports afterwards is one live allocation of its
capacity; that all elements of a copy have the values of the source, that the source is as before and that the two have different storage; that a move hands over the very allocation, size, capacity and strides and leaves the source empty with
no storage; that an object moved from can be destroyed, assigned over and copied; that copy assignment to itself changes nothing and move assignment to itself leaves a valid owner.'''
ASSUMPTIONS = ['index arithmetic does not overflow', 'malloc succeeds', 'owners satisfy their invariant (storage of capacity elements, the first size ones constructed) before the operation', 'two different owners do not share storage']

CHAI = ('NDEBUG', 'VF_CHAI', 'LVARRAY_USE_CHAI')


def owners(ctx, defs, only=None):
    args = UNROLL if 'VF_DIM' in ' '.join(defs) else ()
    hs = (C25.CHAI if 'VF_CHAI' in defs else []) + heap.HANDLERS + lifecycle.HANDLERS
    ctx.drive('owners.cpp', defs=defs, handlers=hs, opts={'access': heap.access}, finish=heap.leaks, only=only, lvir_args=args)


def run(ctx):
    for extra in ((), ('VF_SORTED',), ('VF_2D=camp::idx_seq<0,1>', 'VF_DIM=0'), ('VF_2D=camp::idx_seq<1,0>', 'VF_DIM=1')):
        for d in (('NDEBUG',), CHAI):
            owners(ctx, d + extra)
    for k in range(4):
        ctx.drive('tables.cpp', defs=('NDEBUG', 'VF_KIND=%d' % k), handlers=heap.HANDLERS + lifecycle.HANDLERS, opts={'access': heap.access}, finish=heap.leaks)
    hs = fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS
    for src in ('arrays.cpp', 'sets.cpp'):
        ctx.drive(src, handlers=hs, lvir_args=fate.OPAQUE, opts={'access': fate.access}, only='^vf_(destroy|copy|move|assimilate)')
