"""Bulk copies and fills: one call that copies exactly the bytes expected, after the moves that belong to it."""
import re
from . import lifecycle, probe
from .interp import Unsupported, short
from .terms import *

LAB_ARGS = 'a bulk copy writes exactly the destination range, from the source range'
LAB_ONE = 'the range is copied once'
LAB_TOUCH = 'what is filled is registered as modified'
LAB_ROWS = 'every row is visited'
LAB_FIT = 'ranges of the same shape are not refused'
LAB_MOVE = 'both ranges are in their space, only the destination is registered as modified'


def h_copies(ip, fn, st, ins, a):
    st.info['copies'] = tuple(a[:3])
    st.info['at'] = len(st.events)
    st.info['done'] = 0


def h_fills(ip, fn, st, ins, a):
    st.info['fills'] = tuple(a[:3])
    st.info['done'] = 0
    st.info['at'] = len(st.events)


def h_filled(ip, fn, st, ins, a):
    """the buffer was moved to the space it is in and registered as modified before"""
    evs = st.events[st.info['at']:]
    at = next((i for i, e in enumerate(evs) if e[0] == 'copy'), len(evs))
    mine = [(i, e) for i, e in enumerate(evs) if e[0] in ('move', 'movenested') and st.facts.proves(eq(e[1], a[0]))]
    sp = st.info.get(('space', repr(a[0])))
    if mine and mine[0][0] < at and mine[-1][1][-2] == TRUE and sp is not None and all(st.facts.proves(eq(e[2], sp)) for i, e in mine):
        ip.rep.ok(LAB_TOUCH)
    else:
        ip.rep.fail(LAB_TOUCH, 'the range is filled without a move to the space it is in that registers it as modified', lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


def h_copied(ip, fn, st, ins, a):
    for e in st.events[st.info.get('at', 0):]:
        # without a library: the intrinsic
        if e[0] == 'memcpy':
            done(ip, st, e[2][:3], 'copies', e[3])
        elif e[0] == 'memset':
            done(ip, st, e[2][:3], 'fills', e[3])
    if st.info.pop('copies', None) is None:
        st.info.pop('fills')
    if ip.silent:
        return
    if st.info['done'] == 1:
        ip.rep.ok(LAB_ONE)
    else:
        ip.rep.fail(LAB_ONE, 'it is copied %d times' % st.info['done'], lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


def h_copy(ip, fn, st, ins, a):
    if 'umpire::ResourceManager' in ins['dn']:
        # after the result object, if there is one, comes the manager
        a = a[2:] if len(a) == 6 else a[1:]
    elif len(a) == 5:
        a = a[1:]
    if len(a) == 4:
        a = (a[0], a[1], a[3])
    if ip.silent or st.loopctx:
        raise Unsupported('a bulk copy in a loop')
    st.events.append(('copy', a[0], a[1], a[2], ins))
    done(ip, st, a, 'copies', ins)


def h_set(ip, fn, st, ins, a):
    if ip.silent or st.loopctx:
        raise Unsupported('a fill in a loop')
    a = a[-3:]
    st.events.append(('copy', a[0], a[1], a[2], ins))
    b, off = ip.base_of(a[0])
    if b is not None and a[1] == const(0):
        ip.fill(st, a[0], a[2], const(0))
    done(ip, st, a, 'fills', ins)


def done(ip, st, a, kind, ins):
    if kind not in st.info:
        if {'copies': 'fills', 'fills': 'copies'}[kind] in st.info:
            ip.rep.fail(LAB_ARGS, 'a copy where a fill is asked for, or the other way round', short(ins.get('loc')), lifecycle.trailtext(st))
        return
    st.info['done'] += 1
    for got, want, what in zip(a, st.info[kind], ('the destination is', 'the %s is' % ('source' if kind == 'copies' else 'value'), 'the number of bytes is')):
        if st.facts.proves(eq(got, want)):
            ip.rep.ok(LAB_ARGS)
        elif st.facts.contradictory():
            return
        else:
            ip.rep.fail(LAB_ARGS, '%s %r, not %r' % (what, got, want), short(ins.get('loc')), lifecycle.trailtext(st))


def h_any(ip, fn, st, ins, a):
    st.env[ins['id']] = Poly.of(fresh('any'))


def h_moves(ip, fn, st, ins, a):
    st.info['moves'] = (a[0], a[1], len(st.events))


def h_moved(ip, fn, st, ins, a):
    if ip.silent:
        return
    d, s, n = st.info['moves']
    w, tr = lifecycle.where(ip, st, ins), lifecycle.trailtext(st)
    evs = st.events[n:]
    at = next((i for i, e in enumerate(evs) if e[0] == 'copy'), len(evs))
    for buf, name, touched in ((d, 'destination', TRUE), (s, 'source', FALSE)):
        mine = [(i, e) for i, e in enumerate(evs) if e[0] in ('move', 'movenested') and st.facts.proves(eq(e[1], buf))]
        where_ = st.info.get(('space', repr(buf)))
        ok = mine and mine[0][0] < at and all(e[-2] == touched and where_ is not None and st.facts.proves(eq(e[2], where_)) for i, e in mine)
        if ok:
            ip.rep.ok(LAB_MOVE)
        else:
            ip.rep.fail(LAB_MOVE, 'the %s is not moved to the space it is in%s before the copy' % (name, ' and registered as modified' if touched == TRUE else ', or is registered as modified,'), w, tr)


def h_space(ip, fn, st, ins, a):
    k = ('space', repr(a[0]))
    if k not in st.info:
        st.info[k] = ip.result(st, ins, 'space')
    st.env[ins['id']] = st.info[k]


def finish(ip, f, outs, rep):
    if not f.startswith('vf_fits'):
        return
    rep.ok(LAB_FIT)
    for kind, s, v in outs:
        if kind == 'error' and not s.facts.contradictory():
            rep.fail(LAB_FIT, 'a path with equal shapes ends in an error', '%s | %s' % (short(v.get('loc')), f) if isinstance(v, dict) else f, lifecycle.trailtext(s))


def h_row(ip, fn, st, ins, a):
    st.info['row'] = (a[0], a[1] == TRUE)


def h_forall(ip, fn, st, ins, a):
    """the iteration of the row looked at, or any other"""
    j, mine = st.info['row']
    if mine:
        for g, t in ((le(a[0], j), 'from %r on' % (a[0],)), (lt(j, a[1]), 'up to %r' % (a[1],))):
            if st.facts.proves(g):
                ip.rep.ok(LAB_ROWS)
            else:
                ip.rep.fail(LAB_ROWS, 'only rows %s are visited' % t, short(ins.get('loc')), lifecycle.trailtext(st))
        st.env[ins['id']] = j
        return
    i = Poly.of(fresh('row'))
    st.facts.add(ge(i, a[0]))
    st.facts.add(lt(i, a[1]))
    st.facts.add(ne(i, j))
    st.info['apart'] = st.info.get('apart', ()) + ((i, j),)
    st.env[ins['id']] = i


COMMON = [(r'^vf_row$', h_row), (r'^vf_forall$', h_forall), (r'^vf_copies$', h_copies), (r'^vf_copied$', h_copied), (r'^vf_fills$', h_fills), (r'^vf_filled$', h_filled), (r'^vf_any$', h_any), (r'^vf_moves$', h_moves), (r'^vf_moved$', h_moved), (r'^vf_buf_space$', h_space)]
HANDLERS = COMMON + [(r'umpireInterface::copy\(', h_copy), (r'umpireInterface::memset\(', h_set)]
LIBRARY = COMMON + [(r'umpire::ResourceManager::copy\(', h_copy), (r'umpire::ResourceManager::memset\(', h_set)]
