"""Bulk copies transfer exactly the elements of equally shaped ranges."""
from engine import bulk, fate, lifecycle, probe
from checks.C17 import UNROLL
TECHNIQUE = 'abstract interpretation of LLVM IR: polyhedral facts at each bulk copy and fill against the extents, strides and storage of both ranges'
LEVEL_NOTE = '''memcpy between slices of rank one to three in every order of dimensions, with symbolic extents and any extents in between (a slice of an array of higher rank), with and without a resource, and between sliced arrays of rank one to
three; setValues and zero of ArrayView and CRSMatrixView; the Umpire layer, in builds with and without Umpire. Umpire and std::memcpy themselves are trusted. Slices of rank four and more are not driven.'''
EXPLANATION = '''On every path that copies, the destination, source and number of bytes of the one copy are decided to be the first element of each range and the product of the extents times the element size; the strides are equal, as are the
extents (rank one and two) or the products of extents (rank three), and no extents lie between the dimensions, so the same offset is the same index in both and nothing outside the range is written. Ranges of equal shape that are
whole arrays - empty ones among them - are never refused. The array versions slice at the indices given and, before the copy, move each array to the space it is in, registering only the destination as modified. setValues gives
every element its value and no other location one (loops in closed form; for matrices any one row stands for all), zero fills exactly the range (for matrices: the storage of the entries).
The layer below issues exactly one copy or fill of its arguments on every path.'''
ASSUMPTIONS = ['index arithmetic does not overflow, except where a number of bytes is narrowed', 'the strides of a slice are those of an array it was taken from', 'source and destination do not overlap', 'RAJA::forall runs every index of its segment once']


def run(ctx):
    hs = bulk.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS
    for defs in (('NDEBUG',), ('NDEBUG', 'LVARRAY_USE_UMPIRE')):
        ctx.drive('bulk.cpp', handlers=hs, defs=defs, lvir_args=UNROLL, finish=bulk.finish)
        ctx.drive('umpire.cpp', handlers=bulk.LIBRARY + lifecycle.HANDLERS, defs=defs)
        ctx.drive('fills.cpp', handlers=bulk.HANDLERS + fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS, defs=defs, opts={'access': fate.access}, exclude='Same')
        ctx.drive('fills.cpp', handlers=bulk.HANDLERS + lifecycle.HANDLERS, defs=defs, lvir_args=UNROLL, only='Same')
        ctx.drive('fills.cpp', handlers=bulk.HANDLERS + fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS, defs=defs + ('VF_FORALL_ANY',), opts={'access': fate.access, 'narrow': True})
