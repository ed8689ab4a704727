"""What the operations that change the length of a container do with slots (C01) and with values (C02)."""
from engine import build, fate, grid, heap, lifecycle, probe
from checks import C25
from checks.C17 import UNROLL

SLOTS = (lifecycle.LAB_SLOT, lifecycle.LAB_AFTER, fate.LAB_USE, fate.LAB_OVER, fate.LAB_LOST, fate.LAB_GAP, grid.LAB_NEW, grid.LAB_GONE, heap.LAB_F, 'no path runs into undefined behaviour', 'loops end')
BOTH = SLOTS[-2:] + (grid.LAB_NEW,)
STORE = (heap.LAB_A, heap.LAB_L, C25.LAB_L, C25.LAB_A, fate.LAB_CELL)


def slots(label):
    return label in SLOTS


def values(label):
    return (label not in SLOTS or label in BOTH) and label not in STORE and 'storage' not in label and 'capacity' not in label


CHAI = ('NDEBUG', 'VF_CHAI', 'LVARRAY_USE_CHAI')
OWNERS = ((), ('VF_SORTED',), ('VF_2D=camp::idx_seq<0,1>', 'VF_DIM=0'), ('VF_2D=camp::idx_seq<1,0>', 'VF_DIM=1'))
TRIVIAL = (('NDEBUG',), CHAI, ('NDEBUG', 'VF_STACK=8'), ('NDEBUG', 'VF_STACK=3'))


def drive(ctx, judge, keep):
    table = [('arrayManipulation.cpp', ('NDEBUG',), lifecycle.HANDLERS, {'judge': judge}, (), None)]
    for d in (('NDEBUG',), CHAI):
        hs = (C25.CHAI if 'VF_CHAI' in d else []) + heap.HANDLERS + lifecycle.HANDLERS
        table.append(('buffers.cpp', d, hs, {'judge': judge, 'access': heap.access, 'noret': 'Elsewhere$'}, (), None))
        for extra in OWNERS:
            table.append(('owners.cpp', d + extra, hs, {'judge': judge, 'access': heap.access}, tuple(UNROLL) if len(extra) == 2 else (), None))
    if judge == 'values':
        for d in TRIVIAL:
            table.append(('trivial.cpp', d, (C25.CHAI if 'VF_CHAI' in d else []) + heap.HANDLERS + lifecycle.HANDLERS, {'access': heap.access, 'noret': 'Elsewhere$'}, (), None))
    hs = fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS
    for src in ('arrays.cpp', 'sets.cpp') + (('gaps.cpp',) if judge == 'slots' else ()):
        table.append((src, ('NDEBUG',), hs, {'access': fate.access}, tuple(fate.OPAQUE), None))
    table.append(('grids.cpp', ('NDEBUG',), grid.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS, {}, tuple(fate.OPAQUE) + tuple(UNROLL), grid.finish))
    build.prefetch([(src, d, args, (), None) for src, d, _, _, args, _ in table])
    for src, d, hs, opts, args, fin in table:
        ctx.drive(src, defs=d, handlers=hs, opts=opts, lvir_args=args, keep=keep, exclude='Elsewhere|Handle$', **({'finish': fin} if fin else {}))
