"""Storage obtained from malloc: each block is released once, when nothing lives in it, and never used afterwards."""
from .terms import *
from .interp import Ev, Rec, Unsupported, Fork, short
from . import lifecycle

LAB_F = 'storage is released exactly once, after its elements were destroyed'
LAB_A = 'only storage that is allocated is read or written'
LAB_L = 'storage that nothing refers to any more was released'


def loc(ins):
    return short(ins.get('loc'))


def has_elem(ip, st, b):
    """whether elements were ever created in this block"""
    def rec(r):
        if r.kind == 'loop':
            return any((e.base == b and isinstance(e.val, tuple)) or (isinstance(e.rec, Rec) and rec(e.rec)) for e in r.events)
        return r.base == b and isinstance(r.val, tuple)
    return ('region', b) in st.info or any(rec(r) for r in st.log)


def add_block(st, b, size, what):
    st.info[('heap', b)] = ('alive', size, what)
    if b not in st.info.get('blocks', ()):
        st.info['blocks'] = st.info.get('blocks', ()) + (b,)


def h_malloc(ip, fn, st, ins, a):
    if st.loopctx:
        raise Unsupported('allocation in a loop')
    new = Poly.of(fresh('heap', 'base'))
    b, _ = ip.base_of(new)
    add_block(st, b, a[0], loc(ins))
    st.events.append(('malloc', new, a[0], ins))
    st.env[ins['id']] = new


def h_free(ip, fn, st, ins, a):
    p = a[0]
    if st.loopctx:
        raise Unsupported('release in a loop')
    st.events.append(('free', p, ins))
    if p.isconst() and p.cval() == 0 or st.facts.proves(eq(p, 0)):
        return
    b, off = ip.base_of(p)
    t = lifecycle.trailtext(st)
    if b is None or ('heap', b) not in st.info:
        ip.rep.check(False, LAB_F, 'releases %r, which was not obtained from the allocator' % p, loc(ins), t)
        return
    state, size, what = st.info[('heap', b)]
    if not ip.rep.check(state == 'alive', LAB_F, 'releases the storage %r a second time' % p, loc(ins), t):
        return
    if not ip.rep.check(st.facts.proves(eq(off, 0)), LAB_F, 'releases %r, which is not the start of the allocation' % p, loc(ins), t):
        return
    if has_elem(ip, st, b):
        s = st.copy()
        k = Poly.of(fresh('slot'))
        es = lifecycle.elem_size(ip)
        s.facts.add(ge(k, 0))
        s.facts.add(le(k * es + es, size))
        if not s.facts.contradictory():
            def chk(s):
                v = lifecycle.slot(ip, s, p + k * es)
                if s.facts.contradictory() or not isinstance(v, tuple):
                    return
                ip.rep.check(v[0] == 'raw', LAB_F, 'element %r of the released storage %s' % (k, lifecycle.vtext(v)), loc(ins), lifecycle.trailtext(s))
            lifecycle.forall(ip, s, chk)
    ip.rep.ok(LAB_F)
    st.info[('heap', b)] = ('freed', size, loc(ins))


def h_heap(ip, fn, st, ins, a):
    p = a[0]
    if p.isconst() and p.cval() == 0:
        return
    b, off = ip.base_of(p)
    add_block(st, b, a[1], 'given')


def h_owned(ip, fn, st, ins, a):
    """the storage at p, n bytes at least, belongs to a live object"""
    p, n = a[0], a[1]
    if ip.silent:
        return
    w = lifecycle.where(ip, st, ins)
    t = lifecycle.trailtext(st)
    if p.isconst() and p.cval() == 0:
        ip.rep.check(st.facts.proves(le(n, 0)), LAB_A, 'a capacity of %r bytes is reported without any storage' % n, w, t)
        return
    b, off = ip.base_of(p)
    if b is None or ('heap', b) not in st.info:
        ip.rep.check(False, LAB_A, '%r is not storage obtained from the allocator' % p, w, t)
        return
    state, size, what = st.info[('heap', b)]
    ip.rep.check(state == 'alive', LAB_A, 'the storage %r was released at %s' % (p, what), w, t)
    ip.rep.check(st.facts.proves(eq(off, 0)) and st.facts.proves(le(n, size)), LAB_A, 'the storage reported as usable (%r bytes at offset %r) exceeds the allocation of %r' % (n, off, size), w, t)
    kept = st.info.get('kept', ())
    ip.rep.check(b not in kept, LAB_F, 'two owners hold the storage %r' % p, w, t)
    st.info['kept'] = kept + (b,)


def access(ip, st, p, size, write, ins):
    if ip.silent or st.loopctx and st.loopctx['rec'] is None:
        return
    b, off = ip.base_of(p)
    if b is None and p.isconst():
        if not (isinstance(size, Poly) and st.facts.proves(le(size, 0))) and not st.facts.contradictory():
            ip.rep.check(False, LAB_A, '%s through a null pointer (address %r)' % ('write' if write else 'read', p), loc(ins), lifecycle.trailtext(st))
        return
    if b is None or ('heap', b) not in st.info:
        return
    state, n, what = st.info[('heap', b)]
    if state != 'alive':
        ip.rep.check(False, LAB_A, '%s of %r after the storage was released at %s' % ('write' if write else 'read', p, what), loc(ins), lifecycle.trailtext(st))
        return
    fx = st.facts
    if not (fx.proves(ge(off, 0)) and fx.proves(le(off + size, n))):
        if any(k in repr(off) for k in ('hv', 'part', 'inv#', 'nested', 'lread')):
            raise Unsupported('imprecise address %r' % p)
        if isinstance(size, Poly) and fx.proves(le(size, 0)):
            return
        ip.rep.check(False, LAB_A, '%s of %r, not known to be inside the allocation of %r bytes' % ('write' if write else 'read', p, n), loc(ins), lifecycle.trailtext(st))
        return
    ip.rep.ok(LAB_A)


def leaks(ip, f, outs, rep):
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        kept = st.info.get('kept', ())
        for b in st.info.get('blocks', ()):
            state, n, what = st.info[('heap', b)]
            rep.check(state != 'alive' or b in kept, LAB_L, 'the storage %r (%s) is neither released nor owned by anything at the end' % (Poly.of(Atom.byid[b]), what), ip.target_loc(st) if hasattr(ip, 'target_loc') else f, lifecycle.trailtext(st))


HANDLERS = [
    (r'^malloc$', h_malloc),
    (r'^free$', h_free),
    (r'^vf_heap$', h_heap),
    (r'^vf_owned$', h_owned),
]


# ---- CHAI: a record names the storage of a buffer in each memory space; CPU is space 1
def h_new(ip, fn, st, ins, a):
    if st.loopctx:
        raise Unsupported('allocation in a loop')
    new = Poly.of(fresh('new', 'base'))
    st.env[ins['id']] = new


def ptr_slot(rec, space):
    return rec + 8 + space * 8


def h_allocate(ip, fn, st, ins, a):
    rec, space = a[1], a[2]
    size = ip.read(st, rec, 8)
    new = Poly.of(fresh('heap', 'base'))
    b, _ = ip.base_of(new)
    add_block(st, b, size, loc(ins))
    ip.write(st, ptr_slot(rec, space), 8, new)
    rb, _ = ip.base_of(rec)
    st.info[('rec', rb)] = (new, space)
    st.events.append(('allocate', rec, size, space, ins))


def h_chai_free(ip, fn, st, ins, a):
    rec = a[1]
    st.events.append(('chaifree', rec, ins))
    if rec.isconst() and rec.cval() == 0:
        return
    rb, _ = ip.base_of(rec)
    r = st.info.get(('rec', rb))
    if r is None:
        # a record without storage in any space
        return
    if r == 'freed':
        ip.rep.check(False, LAB_F, 'releases the record %r a second time' % rec, loc(ins), lifecycle.trailtext(st))
        return
    st.info[('rec', rb)] = 'freed'
    h_free(ip, fn, st, ins, [r[0]])


def h_record(ip, fn, st, ins, a):
    rec, p, n = a
    st.facts.add(ge(rec, 1))
    rb, _ = ip.base_of(rec)
    h_heap(ip, fn, st, ins, [p, n])
    ip.write(st, ptr_slot(rec, 1), 8, p)
    st.info[('rec', rb)] = (p, 1)


def h_owned_record(ip, fn, st, ins, a):
    if ip.silent or (a[0].isconst() and a[0].cval() == 0):
        return
    rb, _ = ip.base_of(a[0])
    r = st.info.get(('rec', rb))
    ip.rep.check(r is not None and r != 'freed' and r[0] == a[1], LAB_A, 'the record %r does not describe the storage %r of the buffer' % (a[0], a[1]), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


def h_instance(ip, fn, st, ins, a):
    st.env[ins['id']] = Poly.of(atom('base', '@chaimanager'))


def h_nothing(ip, fn, st, ins, a):
    if ins['ty'] != 'void':
        st.env[ins['id']] = const(0)


CHAI = [
    (r'^operator new\(', h_new),
    (r'^operator delete\(', h_nothing),
    (r'ArrayManager::allocate\(', h_allocate),
    (r'ArrayManager::free\(', h_chai_free),
    (r'ArrayManager::getInstance\(', h_instance),
    (r'^vf_record$', h_record),
    (r'^vf_owned_record$', h_owned_record),
    (r'^pthread_mutex_|^__gthread|^__cxa_guard', h_nothing),
]
