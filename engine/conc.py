"""Operations that may run concurrently: what they do to memory other threads see.

Interference is total: between vf_shared and vf_serial an atomic operation on the shared counter returns any value that
the documented precondition allows (the appends of all threads fit), unrelated to what a plain read would have seen."""
import re
from . import lifecycle, fate
from .interp import Unsupported, short
from .terms import *

LAB_POL = 'shared state is only updated by atomic operations of the policy given'
LAB_PLAIN = 'no plain access to state that other threads update'
LAB_ONE = 'each append takes its position from one atomic increment'
LAB_SLOT = 'a thread writes only the slot it was given'


def private(st, b):
    return b is not None and Atom.byid[b].name.startswith('&')


def h_shared(ip, fn, st, ins, a):
    sizes, cell, slots, room, bytes_ = a[:5]
    st.info['shared'] = (ip.base_of(sizes)[0], cell, slots, room, bytes_, lifecycle.str_arg(ip, ins['args'][5]))
    st.info['shared0'] = len(st.events)
    st.info['got'] = ()


def h_serial(ip, fn, st, ins, a):
    st.info['served'] = st.info.pop('shared')


def h_atomic(ip, fn, st, ins, a):
    if 'shared' not in st.info:
        return fate.h_atomic(ip, fn, st, ins, a)
    if st.loopctx:
        raise Unsupported('an atomic operation in a loop')
    b, cell, slots, room, bytes_, pol = st.info['shared']
    m = re.search(r'RAJA::atomic(\w+)<([^,>]*)', ins['dn'])
    op, got = m.group(1), m.group(2).strip()
    w, tr = short(ins.get('loc')), lifecycle.trailtext(st)
    if got != pol:
        ip.rep.fail(LAB_POL, 'policy %s is used, the one given is %s' % (got, pol), w, tr)
    else:
        ip.rep.ok(LAB_POL)
    if not st.facts.proves(eq(a[0], cell)):
        ip.rep.fail(LAB_ONE, 'the atomic operation is on %r, not on the size of the array' % (a[0],), w, tr)
    elif op == 'Inc' or op == 'Add' and a[1] == const(1):
        ip.rep.ok(LAB_ONE)
    else:
        ip.rep.fail(LAB_ONE, 'the size is changed by atomic%s' % op, w, tr)
    old = Poly.of(fresh('old'))
    st.facts.add(ge(old, 0))
    st.facts.add(lt(old, room))
    st.info['got'] += (old,)
    st.env[ins['id']] = old


def access(ip, st, p, size, write, ins):
    s = st.info.get('shared')
    if s is None or ip.silent:
        return fate.access(ip, st, p, size, write, ins)
    b, cell, slots, room, bytes_, pol = s
    x, off = ip.base_of(p)
    if private(st, x):
        return
    w, tr = short(ins.get('loc')), lifecycle.trailtext(st)
    if x == b:
        ip.rep.fail(LAB_PLAIN, 'plain %s of the size at %r' % ('write' if write else 'read', p), w, tr)
        return
    ip.rep.ok(LAB_PLAIN)
    if not write:
        return
    if x is None or fate.imprecise(p):
        raise Unsupported('a write to %r' % p)
    if x == ip.base_of(slots)[0]:
        slot(ip, st, s, p, size if isinstance(size, Poly) else const(size), w)
    else:
        ip.rep.fail(LAB_SLOT, 'a write to %r, which other threads see' % p, w, tr)


def slot(ip, st, s, p, size, w):
    b, cell, slots, room, bytes_, pol = s
    got = st.info['got']
    if len(got) == 1 and st.facts.proves(eq(p, slots + got[0] * bytes_)) and st.facts.proves(le(size, bytes_)):
        ip.rep.ok(LAB_SLOT)
        st.info['filled'] = True
    else:
        ip.rep.fail(LAB_SLOT, 'a write of %r bytes at %r; the slot is number %s of the array' % (size, p, ' or '.join(map(repr, got)) or 'unknown'), w, lifecycle.trailtext(st))


def finish(ip, f, outs, rep):
    for kind, st, v in outs:
        if kind != 'ret' or 'served' not in st.info:
            continue
        s = st.info['served']
        if st.facts.contradictory():
            continue
        w = short(getattr(f, 'loc', None)) or 'src/ArrayOfArraysView.hpp'
        got = st.info['got']
        if len(got) == 1:
            rep.ok(LAB_ONE)
        else:
            rep.fail(LAB_ONE, '%d atomic operations on the size' % len(got), 'src/ArrayOfArraysView.hpp', lifecycle.trailtext(st))
            continue
        made = st.info.get('filled', False)
        for e in st.events[st.info['shared0']:]:
            if e[0] != 'fate':
                if e[0] in ('realloc', 'free', 'gloop', 'loop'):
                    raise Unsupported('event %s in a concurrent operation' % e[0])
                continue
            for x in e[2]:
                if x.kind == 'read':
                    continue
                b, off = ip.base_of(x.p)
                if private(st, b):
                    continue
                ww = short(e[3].get('loc'))
                if x.kind == 'make' and b == ip.base_of(s[2])[0]:
                    slot(ip, st, s, x.p, x.n * s[4], ww)
                    made = True
                else:
                    if x.n.isconst() and x.n.cval() == 0 or st.facts.proves(le(x.n, 0)):
                        continue
                    rep.fail(LAB_SLOT, '%r affects values of other threads' % x, ww, lifecycle.trailtext(st))
        if made:
            rep.ok('the value appended is in its slot')
        else:
            rep.fail('the value appended is in its slot', 'nothing is written to the slot', 'src/ArrayOfArraysView.hpp', lifecycle.trailtext(st))


HANDLERS = [(r'^vf_shared$', h_shared), (r'^vf_serial$', h_serial), (r'RAJA::atomic(\w+)<', h_atomic)]
