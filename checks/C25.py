"""The storage contract of the buffer types."""
from engine import build, heap, lifecycle
from engine.interp import short
from engine.terms import *

TECHNIQUE = 'abstract interpretation of LLVM IR: allocator typestate (each block released once, when empty, never used afterwards) with element slot typestate'
LEVEL_NOTE = '''Every path of every buffer operation, stand-alone and through bufferManipulation, with symbolic sizes, capacities and positions. MallocBuffer and ChaiBuffer with an opaque element type and with int, StackBuffer with int
for two lengths. CHAI itself is represented by its interface (allocate, free of a record), sequential host configuration; unbounded-integer arithmetic.'''
EXPLANATION = '''Each operation is compiled for each buffer type and followed on every path with symbolic sizes, capacities and positions. Storage is tracked by an allocator typestate: a block is released exactly once, at its start, when no
element lives in it; every access falls inside a block that is alive; a block neither released nor held by a live buffer at the end is a leak; two buffers holding one block are a double release. Capacity is compared with the bytes of the
block really held; surviving, new and moved values are compared position by position. A StackBuffer operation that returns has asked for no more than the length, and one that asks for no more does not report an error.'''
ASSUMPTIONS = ['malloc returns storage of the size asked for', 'CHAI allocates and frees the storage named by a record, once per call']
LAB_A = 'a request that fits is not refused'


def h_fits(ip, fn, st, ins, a):
    st.info['fits'] = ip.asbool(st, a[0])


def h_end(ip, fn, st, ins, a):
    st.info.pop('fits', None)


def refused(ip, f, outs, rep):
    heap.leaks(ip, f, outs, rep)
    for kind, st, v in outs + ip.loop_errors:
        if kind == 'error':
            if f.endswith('Elsewhere'):
                rep.ok('a memory space that is not there is refused')
            elif 'fits' in st.info:
                s = st.copy()
                s.facts.add(st.info['fits'])
                rep.check(s.facts.dead or s.facts.contradictory(), LAB_A, 'an error is reported although the request fits: %r' % (st.info['fits'],), short(v[1].get('loc')), lifecycle.trailtext(st))
            elif f == 'vf_popBack' or ip.opts.get('accept'):
                rep.check(False, LAB_A, 'an error is reported for a valid request', short(v[1].get('loc')), lifecycle.trailtext(st))


LAB_L = 'the CHAI array manager is only asked to allocate or release while its lock is held'


def h_lock(ip, fn, st, ins, a):
    st.info['locked'] = True
    if ins['ty'] != 'void':
        st.env[ins['id']] = const(0)


def h_unlock(ip, fn, st, ins, a):
    st.info['locked'] = False
    if ins['ty'] != 'void':
        st.env[ins['id']] = const(0)


def locked(h):
    def g(ip, fn, st, ins, a):
        if not ip.silent:
            ip.rep.check(st.info.get('locked', False), LAB_L, 'the lock is not held', short(ins.get('loc')), lifecycle.trailtext(st))
        return h(ip, fn, st, ins, a)
    return g


CHAI = [(r'pthread_mutex_lock', h_lock), (r'pthread_mutex_unlock', h_unlock)] + [(r, locked(h) if 'ArrayManager::allocate' in r or 'ArrayManager::free' in r else h) for r, h in heap.CHAI]


def unlocked(ip, f, outs, rep):
    refused(ip, f, outs, rep)
    for kind, st, v in outs:
        if kind == 'ret' and 'locked' in st.info:
            rep.check(not st.info['locked'], LAB_L, 'the lock is still held at the end', f, lifecycle.trailtext(st))


def run(ctx):
    chai = ('NDEBUG', 'VF_CHAI', 'LVARRAY_USE_CHAI')
    jobs = [('buffers.cpp', ('NDEBUG',), heap.HANDLERS), ('buffers.cpp', chai, CHAI + heap.HANDLERS),
            ('trivial.cpp', ('NDEBUG',), heap.HANDLERS), ('trivial.cpp', chai, CHAI + heap.HANDLERS),
            ('trivial.cpp', ('NDEBUG', 'VF_STACK=8'), heap.HANDLERS), ('trivial.cpp', ('NDEBUG', 'VF_STACK=3'), heap.HANDLERS)]
    build.prefetch([(src, defs, (), (), None) for src, defs, _ in jobs])
    for src, defs, hs in jobs:
        ctx.drive(src, defs=defs, handlers=[(r'^vf_fits$', h_fits), (r'^vf_end$', h_end)] + hs + lifecycle.HANDLERS, opts={'access': heap.access, 'accept': 'VF_STACK' not in ''.join(defs), 'noret': 'Elsewhere$'}, finish=unlocked)
