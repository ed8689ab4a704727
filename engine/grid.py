"""Changing a dimension that is not the outermost one in memory: each slab has to go to its new place, whole.

The values lie in `outer` slabs of inner * cur values. After the operation slab i has inner * m values and begins at inner * m * i. What is decided is the transfer function of one iteration of the loop over
the slabs (the generic iteration i), how many iterations there are and in which order, and what is done before and after."""
from . import fate, lifecycle
from .interp import short, Unsupported
from .terms import *

LAB = 'each slab of values goes to its new place'
LAB_NEW = 'new values fill exactly the room made for them'
LAB_GONE = 'exactly the values beyond the new extent are destroyed'


def h_begin(ip, fn, st, ins, a):
    st.info['grid'] = a
    st.info['grid0'] = len(st.events)


def h_end(ip, fn, st, ins, a):
    st.info['gridend'] = (a[0], len(st.events))


def op(name):
    def h(ip, fn, st, ins, a):
        st.events.append(('op', name, tuple(a), ins))
        if ins['ty'] != 'void':
            st.env[ins['id']] = ip.result(st, ins)
    return h


E = lifecycle.ELEM
HANDLERS = [
    (r'^vf_grid$', h_begin), (r'^vf_grid_end$', h_end),
    (r'arrayManipulation::shiftUp<', op('up')), (r'arrayManipulation::shiftDown<', op('down')),
    (r'arrayManipulation::', op('other')),
    (r'^%s::Elem\(\)$' % E, op('default')), (r'^%s::Elem\(%s const&\)$' % (E, E), op('copy')), (r'^%s::Elem\(%s&&\)$' % (E, E), op('other')), (r'^%s::~Elem\(\)$' % E, op('destroy')), (r'^%s::operator=' % E, op('other')),
]


def finish(ip, f, outs, rep):
    for kind, s, v in outs:
        if kind != 'ret' or 'grid' not in s.info:
            continue
        data, q, outer, cur, m, arg = s.info['grid']
        x = q * outer
        # with no slab, or slabs of nothing, there are no values
        for rel in (ge(m, cur + 1), eq(m, cur), le(m, cur - 1)):
            s2 = s.copy()
            for c in (ge(q, 1), ge(outer, 1), ge(x, 1), rel):
                s2.facts.add(c)
            # the product of the difference with a positive number
            for y in (q, outer, x):
                s2.facts.add(ge(y * (m - cur), y) if rel == ge(m, cur + 1) else eq(y * m, y * cur) if rel == eq(m, cur) else ge(y * (cur - m), y))
            try:
                one(ip, f, s2, rep)
            except Unsupported as e:
                if str(e) not in rep.undecided:
                    rep.undecided.append(str(e))


def simple(ev):
    """a loop that does the same operation in every pass -> (kappa, N, op)"""
    if ev[0] != 'loop' or not ev[3]:
        return None
    ops = [x for evs, _ in ev[3] for x in [[y for y in evs if y[0] in ('op', 'loop')]]]
    if any(len(x) != 1 or x[0][0] != 'op' or x[0][1] != ops[0][0][1] or x[0][2] != ops[0][0][2] for x in ops):
        return None
    return ev[1], ev[2], ops[0][0]


def piece(ev, names):
    """the slots an operation or a loop of single operations treats: (first slot, number of them, operation)"""
    if ev[0] == 'op' and ev[1] in names:
        return ev[2][0], const(1), ev
    x = simple(ev)
    if x is None or x[2][1] not in names:
        return None
    kid, n, o = x
    p = o[2][0]
    co = p.coef_of(kid)
    if co is None or not (co[0].isconst() and abs(co[0].cval()) == 4):
        return None
    first = co[1] if co[0].cval() > 0 else co[1] - (n - 1) * 4
    return first, n, (o[0], o[1], (co[1],) + tuple(o[2][1:]), o[3])


def joined(ps, fx):
    """pieces one after the other (a loop and its last pass) as one"""
    first, n, o = ps[0]
    for f, m, q in ps[1:]:
        if q[1] != o[1] or len(q[2]) > 1 and not fx.proves(eq(q[2][1], o[2][1])):
            return None
        if fx.proves(eq(f, first + n * 4)):
            n = n + m
        elif fx.proves(eq(first, f + m * 4)):
            first, n = f, n + m
        else:
            return None
    return first, n, o


def one(ip, f, s, rep):
    data, q, outer, cur, m, arg = s.info['grid']
    base, last = s.info['gridend']
    evs = [e for e in s.events[s.info['grid0']:last] if e[0] in ('op', 'loop')]
    fx = s.facts
    trail = lifecycle.trailtext(s)
    where = next((x for x, _ in reversed(s.trail) if x.startswith('src/')), f)
    pr = lambda z: fx.proves(eq(z, 0))

    def chk(cond, lab, msg, w=None):
        if cond:
            rep.ok(lab)
        else:
            rep.fail(lab, msg, '%s | %s' % (w or where, f), trail)
        return cond
    if fx.contradictory():
        return
    if not evs:
        chk(fx.proves(eq(m, cur)), LAB, 'nothing is done although the extent changes from %r to %r' % (cur, m))
        return
    if any(e[0] == 'op' and e[1] == 'other' for e in evs):
        raise Unsupported('an operation that is not known')
    grow, shrink = fx.proves(ge(m, cur + 1)), fx.proves(le(m, cur - 1))
    if not grow and not shrink:
        raise Unsupported('something is done although the extent stays')
    S = q * cur if grow else q * m
    A, R = q * (m - cur), q * (cur - m)
    if shrink:
        tail = [piece(e, ('destroy',)) for e in evs]
        evs = [e for e, p in zip(evs, tail) if p is None]
        tail = [p for p in tail if p]
        if not tail:
            chk(False, LAB_GONE, 'no value is destroyed')
            return
        w = short(tail[0][2][3].get('loc'))
        t = joined(tail, fx)
        if t is None:
            raise Unsupported('values are destroyed in several places')
        chk(pr(t[0] - base - q * m * outer * 4), LAB_GONE, 'values are destroyed from slot %r, the new size is %r' % ((t[0] - base).divexact(4), q * m * outer), w)
        chk(pr(t[1] - R * outer), LAB_GONE, '%r values are destroyed, %r are to go' % (t[1], R * outer), w)

    def slab(ops, fx):
        """what is done for one slab -> which slab it is"""
        pr = lambda z: fx.proves(eq(z, 0))
        if fx.contradictory():
            return None
        shift = [x for x in ops if x[0] == 'op' and x[1] in ('up', 'down')]
        rest = [x for x in ops if x not in shift]
        if len(shift) != 1:
            raise Unsupported('%d shifts per slab' % len(shift))
        x = shift[0]
        w = short(x[3].get('loc'))
        p, size, at, by = x[2][:4]
        if not chk(x[1] == ('up' if grow else 'down'), LAB, 'slabs are shifted %s although the extent %s' % (x[1], 'grows' if grow else 'shrinks'), w):
            return None
        # which slab this is: from the place it starts at
        i = (p - base).divexact(4)
        if i is not None and S.t:
            i = i.divexact(S)
        if i is None:
            chk(False, LAB, 'the values moved start at %r, which is not the beginning of a slab of %r' % (p - base, S), w)
            return None
        if not grow:
            if rest:
                raise Unsupported('something else is done for each slab')
            # shiftDown( ptr, size, index, n ): [index, size) goes n down
            chk(pr(at - R * i) and pr(by - R * i), LAB, 'values from position %r are moved down by %r, slab %r is %r below its place' % (at, by, i, R * i), w)
            chk(pr(size - at - S), LAB, '%r values are moved, a slab keeps %r' % (size - at, S), w)
            return i
        chk(pr(size - S), LAB, '%r values are moved, a slab has %r' % (size, S), w)
        chk(pr(at), LAB, 'the values are moved from position %r of the slab' % at, w)
        chk(pr(by - A * i), LAB, 'slab %r is moved by %r, its new place is %r further' % (i, by, A * i), w)
        ps = [piece(y, ('default', 'copy')) for y in rest]
        if any(r is None for r in ps):
            raise Unsupported('new values made in a form that is not known')
        if not ps:
            chk(False, LAB_NEW, 'no value is constructed', w)
            return i
        r = joined(ps, fx)
        if r is None:
            raise Unsupported('new values made in several places')
        first, cnt, o = r
        wn = short(o[3].get('loc'))
        chk(pr(first - base - (S * (i + 1) + A * i) * 4), LAB_NEW, 'new values begin at slot %r, the room made is at %r' % ((first - base).divexact(4), S * (i + 1) + A * i), wn)
        chk(pr(cnt - A), LAB_NEW, '%r values are constructed, there is room for %r' % (cnt, A), wn)
        if arg.isconst() and arg.cval() == 0:
            chk(o[1] == 'default', LAB_NEW, 'new values are not default values', wn)
        else:
            chk(o[1] == 'copy' and pr(o[2][1] - arg), LAB_NEW, 'new values are not copies of the one given', wn)
        return i
    seq = []        # the slabs in the order they are treated: (first, step, number)
    if evs and evs[0][0] == 'loop' and not piece(evs[0], ('default', 'copy', 'destroy')):
        _, kid, n, parts = evs[0]
        kp = Poly.of(Atom.byid[kid])
        for ops, dec in parts:
            f2 = fx.copy()
            for c in [ge(kp, 0), le(kp, n - 1)] + list(dec):
                f2.add(c)
            if f2.contradictory():
                continue
            i = slab(ops, f2)
            if i is None:
                return
            co = i.coef_of(kid)
            if co is None or not co[0].isconst():
                raise Unsupported('the order of the slabs')
            if (co[1], co[0].cval(), n) not in seq:
                seq.append((co[1], co[0].cval(), n))
        if len(seq) > 1:
            raise Unsupported('the order of the slabs')
        evs = evs[1:]
    if evs:
        i = slab(evs, fx)
        if i is None:
            return
        seq.append((i, None, const(1)))
    want = -1 if grow else 1
    at = None
    for first, step, n in seq:
        if at is None:
            ok = pr(first - (outer - 1)) if grow else pr(first) or pr(first - 1)
        else:
            ok = pr(first - at)
        chk(ok and step in (None, want), LAB, 'slab %r is moved at a time when another one is due, or is overwritten before it is moved' % first)
        at = first + n * want
    if at is None:
        chk(shrink and fx.proves(le(outer, 1)), LAB, 'no slab is moved, there are %r' % outer)
    else:
        chk(pr(at + 1) if grow else pr(at - outer), LAB, 'the last slab treated is %r, there are %r' % (at - want, outer))
