"""Adding to entries that exist: each addition goes to the entry of the column it is meant for, once."""
import re
from . import batch, fate, lifecycle
from .fate import cellread, ES, EL
from .interp import Unsupported, short
from .terms import *

LAB_COL = 'what is added goes to the entry of the column it was given for'
LAB_ONCE = 'every value given is added, once'
LAB_PLAIN = 'no plain write to state that other threads see'
LAB_UPDATE = 'entries are not copied, moved or assigned'
LAB_POL = 'entries are only updated by atomic operations of the policy given'


def h_add(ip, fn, st, ins, a):
    """vf_add( c, e, n, f, g, m, policy ): the row has n columns at c with entries at e; columns f and values g, m of them, are added"""
    c, e, n, f, g, m = a[:6]
    pol = lifecycle.str_arg(ip, ins['args'][6])
    st.info['add'] = (c, e, n, f, g, m, pol)
    ghost = Poly.of(fresh('ghost'))
    st.info['members'] = ((f, m, c, n, ghost),)
    for k in (c, e, n, f, g, m):
        pass


def prove(st, fx, g, depth=2, alts=3):
    if g.op == 'or':
        f2 = fx.copy()
        f2.add(neg(g))
        return fate.by_order(st, fate.ordered(st, f2, []), le(const(1), const(0)), depth, alts)
    return fate.by_order(st, fate.ordered(st, fx.copy(), [g]), g, depth, alts)


def lemmas_prove(st, fx, g):
    return 'add' in st.info and prove(st, fx, g)


def templates(ip, fn, st, F, I):
    if 'add' not in st.info:
        return
    c, e, n, f, g, m, pol = st.info['add']
    G = st.info['members'][0][4]
    cand = [F[x] for x in F] + [Poly.of(Atom.byid[i]) for i in sorted(fate.closed_atoms(st.facts, ())) if Atom.byid[i].name.startswith('x#')]
    for x in F:
        yield le(F[x], n)
        yield le(F[x], m)
        for i in cand:
            if i == F[x]:
                continue
            yield le(F[x], cellread(G + i * ES))
            yield disj(ge(i, m), le(F[x], cellread(G + i * ES)))


def generic(ip, fn, L, st):
    return 'add' in st.info


def addition(ip, st, ins, p, v, pol):
    if 'add' not in st.info:
        raise Unsupported('an addition outside the operation')
    c, e, n, f, g, m, want = st.info['add']
    v = fate.source(ip, st, v)
    if ip.base_of(p)[0] != ip.base_of(e)[0] or ip.base_of(v)[0] != ip.base_of(g)[0]:
        if not ip.silent:
            ip.rep.fail(LAB_COL, 'the value at %r is added to what is at %r' % (v, p), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))
        return
    k, i = (p - e).divexact(ES), (v - g).divexact(ES)
    if k is None or i is None:
        raise Unsupported('an addition between elements')
    st.events.append(('add', k, i, ins))
    if ip.silent:
        return
    if want != 'any':
        if pol == want:
            ip.rep.ok(LAB_POL)
        else:
            ip.rep.fail(LAB_POL, 'the entry is updated %s, the policy is %s' % ('with policy ' + pol if pol else 'without an atomic operation', want), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))
    fx = fate.layout(st, st.facts.copy(), [k, i])
    if fx.contradictory():
        return
    goals = (ge(i, 0), lt(i, m), ge(k, 0), lt(k, n), eq(cellread(c + k * ES), cellread(f + i * ES)))
    if all(fx.proves(x) or prove(st, fx, x) for x in goals):
        ip.rep.ok(LAB_COL)
    elif fate.imprecise(k) or fate.imprecise(i):
        raise Unsupported('imprecise position %r' % k)
    else:
        ip.rep.fail(LAB_COL, 'value %r is added to entry %r, which is not known to be that of its column' % (i, k), lifecycle.where(ip, st, ins), lifecycle.trailtext(st) + [repr(x) for x in fx.clauses()][-8:])


def h_plus(ip, fn, st, ins, a):
    addition(ip, st, ins, a[0], a[1], '')
    if ins['ty'] != 'void':
        st.env[ins['id']] = a[0]


def h_atomic(ip, fn, st, ins, a):
    # the old value comes back in a local
    if len(a) == 3:
        a = a[1:]
    addition(ip, st, ins, a[0], a[1], re.search(r'atomicAdd<(.*?),', ins['dn']).group(1))


def h_end(ip, fn, st, ins, a):
    st.info['added'] = True


def adds(evs):
    out = []
    for e in evs:
        if e[0] == 'add':
            out.append(e)
        elif e[0] == 'loop' and any(adds(x) for x, d in e[3]):
            raise Unsupported('additions in a loop in closed form')
    return out


def finish(ip, f, outs, rep):
    for kind, s, v in outs:
        if kind != 'ret' or 'added' not in s.info:
            continue
        c, e, n, ff, g, m, pol = s.info['add']
        fx = fate.layout(s, s.facts.copy())
        if fx.contradictory():
            continue
        evs = s.events[s.info['opstart']:]
        last = adds(evs)
        where = short(last[-1][3].get('loc')) if last else 'src/CRSMatrixView.hpp'
        ck = batch.Check(ip, rep)
        has = [x for x in evs if x[0] == 'gloop' and any(adds(y) for y, d in x[1])]
        if not last and not has:
            ck(fx.proves(le(m, 0)), LAB_ONCE, 'nothing is added', s, where)
            continue
        if len(last) > 1 or len(has) > 1:
            ck(False, LAB_ONCE, '%d additions in the last pass, %d loops' % (len(last), len(has)), s, where)
            continue
        keys = {k: b for k, b in batch.groups(ip).items() if any(adds(y[3]) for y in b)}
        if last:
            x, end = last[0][2], m - 1
        else:
            # as many passes as the loop makes, nothing after the last
            x, end = next(y[0][2] for y in (adds(z) for z, d in has[0][1]) if y), m
        ck(holds(s, fx, eq(x, end)), LAB_ONCE, 'the last value added is %r of %r' % (x, m), s, where, (x,))
        if not has:
            ck(holds(s, fx, eq(x, 0)), LAB_ONCE, 'only value %r is added' % x, s, where, (x,))
            continue
        mine = [b for k, b in keys.items() if k & fate.deep_atoms(x)]
        if len(mine) != 1:
            raise Unsupported('the passes of the loop cannot be told')
        init, st0 = mine[0][0][1], mine[0][0][5]
        ck(holds(st0, fate.ordered(st0, st0.facts.copy()), eq(batch.subst(x, init), 0)), LAB_ONCE, 'the first value added is %r' % batch.subst(x, init), st0, where)
        for loc, ini, nxt, ev, s2, st in mine[0]:
            a = adds(ev)
            f2 = fate.ordered(s2, s2.facts.copy())
            if f2.contradictory() or holds(s2, f2, batch.FALSE):
                continue
            if len(a) != 1:
                ck(False, LAB_ONCE, '%d additions in one pass' % len(a), s2, where)
                continue
            ck(holds(s2, f2, eq(batch.subst(x, nxt), a[0][2] + 1)), LAB_ONCE, 'value %r is added after value %r' % (batch.subst(x, nxt), a[0][2]), s2, where)


def access(ip, st, p, size, write, ins):
    if 'add' not in st.info or 'added' in st.info or not write or ip.silent:
        return fate.access(ip, st, p, size, write, ins)
    b, off = ip.base_of(p)
    if b is None or fate.imprecise(p):
        raise Unsupported('a write to %r' % p)
    if Atom.byid[b].name.startswith('&'):
        ip.rep.ok(LAB_PLAIN)
    else:
        ip.rep.fail(LAB_PLAIN, 'a write to %r, which other threads see' % p, short(ins.get('loc')), lifecycle.trailtext(st))


def concurrent(ip, f, outs, rep):
    """the only thing that happens to entries is addition"""
    def walk(evs, st):
        for e in evs:
            if e[0] in ('gloop', 'loop'):
                for x, d in e[-1]:
                    walk(x, st)
            elif e[0] == 'fate':
                for x in e[2]:
                    b, off = ip.base_of(x.p)
                    if x.kind == 'read' or b is not None and Atom.byid[b].name.startswith('&'):
                        continue
                    rep.fail(LAB_UPDATE, '%r in an operation that only adds' % x, short(e[3].get('loc')), lifecycle.trailtext(st))
    for kind, s, v in outs:
        if kind == 'ret' and 'added' in s.info and not s.facts.contradictory():
            walk(s.events[s.info['opstart']:], s)
            rep.ok(LAB_UPDATE)


def holds(st, fx, g):
    return fx.proves(g) or prove(st, fx, g)


HANDLERS = [(r'^vf_add$', h_add), (r'^vf_added$', h_end), (r'^operator\+=\(%s&, %s const&\)' % (EL, EL), h_plus), (r'RAJA::atomicAdd<.*%s' % EL, h_atomic)]
OPTS = {'access': fate.access, 'lemmas': fate.ordered, 'lemmas_prove': lemmas_prove, 'templates': [templates], 'generic': generic}
