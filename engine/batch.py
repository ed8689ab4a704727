"""Batch insertion into and removal from a strictly increasing range: what one pass of each loop does, and how the passes join up."""
import os
import re
from . import fate, lifecycle, order
from .fate import cellread, ES, by_order, ordered
from .interp import Unsupported, short, deep_atoms
from .terms import *

FIND = r'LvArray::sortedArrayManipulation::find<(const )?Elem\b'
OPAQUE = ('--loops-as-is', fate.OPAQUE[0], fate.OPAQUE[1] + '|LvArray::sortedArrayManipulation::find<(const )?Elem( const)?[*,>]')
LAB_DONE = 'every value of the batch is handled, once'
LAB_DIFF = 'removal leaves the difference, in order'
LAB_UNION = 'insertion leaves the union, in order'
LAB_COUNT = 'the count returned is the number of values added or removed'
LAB_OLD = 'values are looked at before they are moved'
LAB_FIND = 'a lookup is given a part of the range'
FALSE = le(const(1), const(0))


def h_batch(ip, fn, st, ins, a):
    kind = lifecycle.str_arg(ip, ins['args'][0])
    st.info['batch'] = (kind,) + tuple(a[1:7])


def h_end(ip, fn, st, ins, a):
    st.info['bres'] = a[0]


def look(ip, st, ins, k, n):
    if not ip.silent and 'batch' in st.info:
        ip.__dict__.setdefault('looks', []).append((k, n, st.facts.copy(), st, ins, st.info['batch'][1]))


def h_find(ip, fn, st, ins, a):
    """the contract of find, which the lookup roots establish"""
    p, n = a[0], a[1]
    b = ip.base_of(p)[0]
    v = cellread(fate.source(ip, st, a[2]))
    for start, size, base in st.info.get('sorted', ()):
        if base == b:
            k = (p - start).divexact(ES)
            if k is None or not k.isint():
                raise Unsupported('a lookup at %r' % p)
            if not ip.silent and 'opstart' in st.info:
                fx = ordered(st, st.facts.copy(), [k])
                if fx.contradictory() or fx.proves(ge(k, 0)) and fx.proves(ge(n, 0)) and fx.proves(le(k + n, size)):
                    ip.rep.ok(LAB_FIND)
                elif fate.imprecise(k + n):
                    raise Unsupported('imprecise range %r + %r' % (k, n))
                else:
                    ip.rep.fail(LAB_FIND, '%r values from position %r of a range of %r' % (n, k, size), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))
            break
    else:
        raise Unsupported('a lookup in %r' % p)
    for start, size, base in st.info['sorted']:
        if base == ip.base_of(a[2])[0]:
            order.read(ip, st, ins, a[2], start, size)
    if order.moved(st):
        raise Unsupported('values are compared after some were moved')
    look(ip, st, ins, k, n)
    r = Poly.of(fresh('r'))
    st.env[ins['id']] = r
    for g in (ge(r, 0), le(r, n), disj(eq(r, 0), lt(cellread(p + (r - 1) * ES), v)), disj(eq(r, n), ge(cellread(p + r * ES), v))):
        st.facts.add(g)


def generic(ip, fn, L, st):
    if 'batch' not in st.info:
        return False
    for b in L['blocks']:
        for i in fn.blocks[b]['insts']:
            d = i.get('dn', '')
            if re.match(FIND, d) or re.match(r'^%s::operator(<|>|==|!=|<=|>=)\(' % fate.EL, d) or re.search(r'arrayManipulation::shift', d):
                return True
    return False


def pointers(ip, st, F):
    """header pointers into the batch -> value at offset"""
    kind, ptr, size, f, m, k, q = st.info['batch']
    fb, foff = ip.base_of(f)
    return fb, foff


def templates(ip, fn, st, F, I):
    if 'batch' not in st.info:
        return
    kind, ptr, size, f, m, k, q = st.info['batch']
    fb, foff = ip.base_of(f)
    for x in F:
        yield le(F[x], size)
        yield le(F[x], size - 1)
        yield le(F[x], foff + m * ES)
        yield le(F[x], foff + (m - 1) * ES)
        if kind in ('mirror', 'add'):
            continue
        if kind == 'remove':
            yield le(F[x], k)
            yield le(F[x], foff + q * ES)
        for y in F:
            if x == y or deep_atoms(F[y]) == deep_atoms(F[x]):
                continue
            ax, by = cellread(ptr + F[x] * ES), cellread(Poly.of(Atom.byid[fb]) + F[y])
            if not any(b != 1 for _m, b in F[y].t.items()):
                continue        # a pointer counts whole elements
            if kind == 'remove':
                yield eq(ax, by)
            else:
                yield disj(eq(F[x], size), ge(ax, by))
                yield disj(eq(F[x], size), le(F[y], foff + (m - 1) * ES))


def split(ip, st, F, I):
    if st.info.get('batch', (None,))[0] != 'remove' or st.info.get('split'):
        return [()]
    k = st.info['batch'][5]
    out = [()]
    for x in F:
        if I[x].isconst() or len(F[x].t) != 1 or next(iter(F[x].t.values())) != 1:
            continue
        out = [c + (g,) for c in out for g in (lt(k, F[x]), eq(k, F[x]), gt(k, F[x]))]
    return out


def fates(ev):
    return [e for e in ev if e[0] == 'fate']


def moves(ev):
    """has the pass effects (loops inside it included)"""
    return any(e[0] == 'fate' or e[0] == 'loop' and any(moves(x) for x, d in e[3]) or e[0] == 'gloop' and any(moves(x) for x, d in e[1]) for e in ev)


def prove(st, fx, g):
    """by contradiction, for what speaks of the value followed or of places not looked at so far"""
    b = st.info.get('batch')
    if b is None:
        return False
    if not (deep_atoms(g) & (deep_atoms(b[5]) | deep_atoms(b[6]))) and not any(Atom.byid[i].kind == 'init' for i in deep_atoms(g)):
        return False
    f2 = fx.copy()
    f2.add(neg(g))
    return by_order(st, ordered(st, f2, []), FALSE, 1)


class Pass:
    def __init__(self, st, ev, ptr, up):
        self.st, self.ev = st, ev
        fs = fates(ev)
        if any(e[0] in ('loop', 'gloop') and moves([e]) for e in ev):
            raise Unsupported('a pass with a loop of moves')
        mv = [(e, y) for e in fs for y in e[2] if y.kind == 'move']
        self.where = short(fs[0][3].get('loc')) if fs else None
        if len(mv) != 1:
            raise Unsupported('a pass with %d moves' % len(mv))
        y = mv[0][1]
        self.s = (y.p - ptr).divexact(ES)
        self.n = ((y.to - y.p) if up else (y.p - y.to)).divexact(ES)
        if self.s is None or self.n is None:
            raise Unsupported('a move between elements')
        self.e = self.s + y.n
        self.make = [z for e in fs for z in e[2] if z.kind == 'make']
        self.kill = [z for e in fs for z in e[2] if z.kind == 'kill']
        self.names = [e[1] for e in fs]


def facts(st, extra=()):
    return ordered(st, st.facts.copy(), extra)


def holds(st, fx, g):
    if g.op == 'or':
        return holds(st, fx, g.a) or holds(st, fx, g.b) or by_order(st, ordered(st, fx.copy(), [g]), g, 3, 2)
    return by_order(st, ordered(st, fx.copy(), [g]), g, 3, 2)


class Check:
    def __init__(self, ip, rep):
        self.ip, self.rep = ip, rep

    def __call__(self, cond, lab, msg, st, where='src/sortedArrayManipulation.hpp', vals=()):
        if cond:
            self.rep.ok(lab)
        else:
            if any(fate.imprecise(v) for v in vals):
                raise Unsupported('imprecise value in: ' + msg)
            self.rep.fail(lab, msg, where or 'src/sortedArrayManipulation.hpp', lifecycle.trailtext(st) + [repr(c) for c in st.facts.clauses()][-6:])


def member(st, fx, v, base, start, n):
    """a position of the range at base that is known to hold v"""
    fx = ordered(st, fx.copy(), [v])
    if fx.contradictory():
        return True
    for i in fate.closed_atoms(fx, (v,)):
        at = Atom.byid[i]
        if at.kind == 'init' and isinstance(at.args[1], Poly) and (base,) in at.args[1].t:
            k = (at.args[1] - start).divexact(ES)
            if k is not None and fx.proves(ge(k, 0)) and fx.proves(lt(k, n)) and fx.proves(eq(Poly.of(at), v)):
                return True
    return False


def absent(st, fx, v, start, n):
    k = Poly.of(fresh('k'))
    fx = fx.copy()
    for g in (ge(k, 0), lt(k, n), eq(cellread(start + k * ES), v)):
        fx.add(g)
    return by_order(st, ordered(st, fx, []), FALSE, 3, 2)


def subst(p, mp):
    return p.subst({a: v for a, v in mp.items()})


def groups(ip):
    g = {}
    for loc, init, nxt, ev, s2, st in ip.gbodies:
        g.setdefault(frozenset(init), []).append((loc, init, nxt, ev, s2, st))
    return g


def finish(ip, f, outs, rep):
    if not any('bres' in s.info for kind, s, v in outs):
        return
    ck = Check(ip, rep)
    for kind, s, v in outs:
        if kind == 'ret' and 'bres' in s.info:
            (removal if s.info['batch'][0] == 'remove' else insertion)(ip, s, ck)


def last_pass(s):
    """-> effects of the last pass of the batch loop and what follows"""
    ev = s.events[s.info.get('opstart', 0):]
    at = [i for i, e in enumerate(ev) if e[0] == 'gloop' and moves([e])]
    if len(at) > 1:
        raise Unsupported('more than one loop of moves')
    if at and moves(ev[:at[0]]):
        raise Unsupported('moves before the loop')
    return bool(at), ev[at[0] + 1:] if at else ev


def removal(ip, s, ck):
    _, ptr, size, f, m, k, q = s.info['batch']
    fb = ip.base_of(f)[0]
    r = s.info['bres']
    fx = facts(s)
    if fx.contradictory():
        return
    looped, tail = last_pass(s)
    if not looped and not moves(tail):
        ck(holds(s, fx, FALSE), LAB_DIFF, 'nothing is removed, but the value at %r is in the batch' % k, s)
        return
    # the last pass, then the values left over are destroyed
    i = next((i for i, e in enumerate(tail) if e[0] == 'loop' or e[0] == 'fate' and e[1] in ('kill', 'destroy')), len(tail))
    P = Pass(s, tail[:i], ptr, False)

    def one(p):
        st = p.st
        fx = facts(st)
        pos = p.s - 1
        ck(holds(st, fx, ge(pos, 0)) and holds(st, fx, lt(pos, size)) and holds(st, fx, le(p.e, size)), LAB_DIFF, 'the values moved down are those from %r to %r of %r' % (p.s, p.e, size), st, p.where, (p.s, p.e))
        ck(member(st, fx, cellread(ptr + pos * ES), fb, f, m), LAB_DIFF, 'the value at %r is removed, but it is not known to be in the batch' % pos, st, p.where, (pos,))
        g = fx.copy()
        g.add(ge(k, p.s))
        g.add(lt(k, p.e))
        ck(holds(st, g, FALSE), LAB_DIFF, 'a value of the batch stays, between %r and %r' % (p.s, p.e), st, p.where, (p.s, p.e))
    one(P)
    ck(holds(s, fx, eq(P.e, size)), LAB_DIFF, 'the last values moved down end at %r, not at %r' % (P.e, size), s, P.where, (P.e,))
    mine = [(key, bodies) for key, bodies in groups(ip).items() if key & (deep_atoms(P.s) | deep_atoms(P.n)) and any(moves(b[3]) for b in bodies)]
    if len(mine) > 1:
        raise Unsupported('more than one loop of moves')
    if not mine:
        inits = [(s, P.s, P.n)] if not looped and not any(Atom.byid[a].name.startswith('x#') for a in deep_atoms(P.n)) else None
        if inits is None:
            # the loop is left in its first pass on every path
            raise Unsupported('the loop of moves is not repeated')
        passes = []
    else:
        key, bodies = mine[0]
        passes = [(b, Pass(b[4], b[3], ptr, False)) for b in bodies]
        seen = ip.__dict__.setdefault('batchseen', set())
        for b, p in passes:
            if id(b[4]) not in seen:
                seen.add(id(b[4]))
                one(p)
        for b, y in passes:
            loc, init, nxt, ev, s2, st = b
            for x in [p for _, p in passes] + [P]:
                fy = facts(s2)
                ck(holds(s2, fy, eq(subst(x.s, nxt), y.e + 1)), LAB_DIFF, 'the next values are moved from %r, after a removal at %r' % (subst(x.s, nxt), y.e), s2, y.where)
                ck(holds(s2, fy, eq(subst(x.n, nxt), y.n + 1)), LAB_COUNT, 'the next values move by %r, after %r' % (subst(x.n, nxt), y.n), s2, y.where)
        init, st = bodies[0][1], bodies[0][5]
        inits = [(st, subst(P.s, init), subst(P.n, init))]
        for kk, n, fx2, st2, ins, start in getattr(ip, 'looks', []):
            if start == ptr and key & fate.closed_atoms(fx2, (kk,)):
                ck(holds(st2, ordered(st2, fx2.copy(), [kk]), ge(kk, P.s - 1)), LAB_OLD, 'position %r is looked at when values from %r on may still be where they were' % (kk, P.s - 1), st2, short(ins.get('loc')), (kk,))
    for st, s0, n0 in inits:
        fx0 = facts(st)
        ck(holds(st, fx0, eq(n0, 1)), LAB_COUNT, 'the first values move by %r' % n0, st, P.where)
        ck(holds(st, fx0, le(s0 - 1, k)), LAB_DIFF, 'the first removal is at %r, but the value at %r is in the batch' % (s0 - 1, k), st, P.where)
    ck(holds(s, fx, eq(r, P.n)), LAB_COUNT, 'returns %r after %r removals' % (r, P.n), s, P.where, (r,))
    # what is left over at the end is destroyed
    at, total = None, const(0)
    for e in tail[i:]:
        if e[0] == 'loop':
            es = [fates(x) for x, d in e[3]]
            y = es[0][0][2] if es[0] else []
            if any(len(x) != 1 or repr(x[0][2]) != repr(y) for x in es) or len(y) != 1 or y[0].kind != 'kill' or y[0].n != const(1):
                raise Unsupported('a final loop of a form that is not known')
            p0 = y[0].p.subst({e[1]: const(0)})
            if (y[0].p - p0) != Poly.of(Atom.byid[e[1]]) * ES:
                raise Unsupported('a final loop of a form that is not known')
            p, n = p0, e[2]
        elif e[0] == 'fate':
            if len(e[2]) != 1 or e[2][0].kind != 'kill':
                raise Unsupported('more effects after the values have moved')
            p, n = e[2][0].p, e[2][0].n
        elif e[0] == 'gloop' and moves([e]):
            raise Unsupported('a final loop of a form that is not known')
        else:
            continue
        if at is None:
            at = p
        elif not holds(s, fx, eq(p, at + total * ES)):
            raise Unsupported('final effects out of order')
        total = total + n
    ck(at is not None and holds(s, fx, eq(at, ptr + (size - P.n) * ES)) and holds(s, fx, eq(total, P.n)), LAB_DIFF, '%r values from %r are destroyed at the end, %r were removed' % (total, at, P.n), s, P.where)


def insertion(ip, s, ck):
    _, ptr, size, f, m, k, q = s.info['batch']
    fb, foff = ip.base_of(f)
    pb = ip.base_of(ptr)[0]
    N = s.info['bres']
    fx = facts(s)
    if fx.contradictory():
        return
    looped, tail = last_pass(s)
    gs = groups(ip)
    atoms = fate.closed_atoms(s.facts, (N,))

    def classify(st, v):
        fv = facts(st, [v])
        if fv.contradictory():
            return 'dead'
        if member(st, fv, v, pb, ptr, size):
            return 'in'
        if absent(st, fv, v, ptr, size):
            return 'out'
        return None

    # which loops lead here
    count = move = None
    for key, bodies in gs.items():
        if not (key & atoms):
            continue
        if any(moves(b[3]) for b in bodies):
            move = (key, bodies)
        else:
            # a header variable that some passes leave alone and others add to
            cs = [a for a in key if all((b[2][a] - Poly.of(Atom.byid[a])).isconst() for b in bodies) and len(set((b[2][a] - Poly.of(Atom.byid[a])).cval() for b in bodies)) > 1 or a in deep_atoms(N)]
            if cs:
                count = (key, bodies, cs)
    seen = ip.__dict__.setdefault('batchseen', set())

    def down(key, bodies, what):
        """each pass handles the batch value just below the one before, the first the last one"""
        loc, init, nxt, ev, s2, st = bodies[0]
        cur = [a for a in key if all(b[2][a] == Poly.of(Atom.byid[a]) - 1 for b in bodies) and init[a].isconst() and init[a].cval() == 0]
        if os.environ.get('BDBG'):
            print(what, {Atom.byid[a].name: (bodies[0][1][a], [b[2][a] for b in bodies]) for a in key})
        if len(cur) != 1:
            raise Unsupported('%s: the batch is not walked from its end (%d candidates)' % (what, len(cur)))
        return cur[0]

    def value(cur):
        return cellread(f + (m + Poly.of(Atom.byid[cur]) - 1) * ES)
    if count is None:
        raise Unsupported('the loop that counts is not known')
    cs = count[2]
    if len(cs) != 1:
        raise Unsupported('the loop that counts is not known')
    cs = cs[0]
    cur1 = down(count[0], count[1], 'counting')
    for loc, init, nxt, ev, s2, st in count[1]:
        if id(s2) in seen:
            continue
        seen.add(id(s2))
        d = [nxt[cs] - Poly.of(Atom.byid[cs])]
        if not d[0].isconst():
            raise Unsupported('the count changes by %r' % d)
        c = classify(s2, value(cur1))
        if c != 'dead':
            ck(c is not None and int(d[0].cval()) == (1 if c == 'out' else 0), LAB_COUNT, 'the count changes by %r for a value that is %s' % (d[0], {'in': 'in the range', 'out': 'not in the range', None: 'not known to be in the range or not'}[c]), s2, loc)
    loc, init, nxt, ev, s2, st = count[1][0]
    n0 = init[cs]
    ck(holds(st, facts(st), eq(n0, 0)), LAB_COUNT, 'the count starts at %r' % n0, st, loc)
    # the last pass of the count
    d = N - Poly.of(Atom.byid[cs])
    if not d.isconst() and holds(s, fx, eq(d, 0)):
        d = const(0)
    if N.isconst():
        # a literal: compare with what the count is known to be there
        for k in (0, 1):
            if holds(s, fx, eq(Poly.of(Atom.byid[cs]), k)):
                d = N - k
    if not d.isconst():
        raise Unsupported('the count is %r' % N)
    left = m + Poly.of(Atom.byid[cur1])
    if holds(s, fx, eq(left, 0)):
        # tested before each pass
        ck(d.cval() == 0, LAB_COUNT, 'the count changes by %r after the loop' % d, s, loc)
        c = 'dead'
    else:
        ck(holds(s, fx, eq(left - 1, 0)), LAB_DONE, 'counting ends before the first value of the batch', s, loc)
        c = classify(s, value(cur1))
    ck(c is not None and (c == 'dead' or int(d.cval()) == (1 if c == 'out' else 0)), LAB_COUNT, 'the count changes by %r for a value that is %s' % (d, {'in': 'in the range', 'out': 'not in the range'}.get(c, 'not known to be in the range or not')), s, loc)
    if move is None:
        if moves(tail):
            raise Unsupported('moves outside a loop')
        ck(holds(s, fx, eq(N, 0)), LAB_UNION, '%r values are new but nothing is inserted' % N, s)
        return
    key, bodies = move
    cur2 = down(key, bodies, 'inserting')

    def one(st, p, ev, where):
        v = value(cur2)
        c = classify(st, v)
        if c == 'dead':
            return
        fx = facts(st)
        if p is None:
            ck(c == 'in', LAB_UNION, 'a value of the batch that is %s is left out' % {'out': 'not in the range'}.get(c, 'not known to be in the range'), st, where)
            return
        ck(c == 'out', LAB_UNION, 'a value of the batch that is %s is inserted' % {'in': 'in the range already'}.get(c, 'not known to be new'), st, p.where)
        ck(holds(st, fx, ge(p.s, 0)) and holds(st, fx, le(p.s, p.e)) and holds(st, fx, le(p.e, size)), LAB_UNION, 'the values moved up are those from %r to %r of %r' % (p.s, p.e, size), st, p.where, (p.s, p.e))
        ck(holds(st, fx, disj(eq(p.s, 0), lt(cellread(ptr + (p.s - 1) * ES), v))), LAB_UNION, 'inserted at %r, before a value that is not known to be smaller' % p.s, st, p.where)
        ck(holds(st, fx, disj(eq(p.s, p.e), lt(v, cellread(ptr + p.s * ES)))), LAB_UNION, 'inserted at %r, after a value that is not known to be larger' % p.s, st, p.where)
        ok = len(p.make) == 1 and p.make[0].n == const(1) and holds(st, fx, eq(p.make[0].p, ptr + (p.s + p.n - 1) * ES)) and isinstance(p.make[0].val, tuple) and len(p.make[0].val) == 2 and p.make[0].val[1] == f + (m + Poly.of(Atom.byid[cur2]) - 1) * ES
        ck(ok, LAB_UNION, 'what is stored with the move from %r by %r is %r' % (p.s, p.n, [(z, z.val) for z in p.make]), st, p.where)
        ck(p.names.index('shiftUp') == 0 if 'shiftUp' in p.names else False, LAB_UNION, 'the new value is stored before the old ones have moved', st, p.where)
    ps = []
    for b in bodies:
        p = Pass(b[4], b[3], ptr, True) if moves(b[3]) else None
        ps.append((b, p))
        if id(b[4]) not in seen:
            seen.add(id(b[4]))
            one(b[4], p, b[3], b[0])
    T = Pass(s, tail, ptr, True) if moves(tail) else None
    left = m + Poly.of(Atom.byid[cur2])
    if T is not None or not holds(s, fx, eq(left, 0)):
        one(s, T, tail, bodies[0][0])
        ck(holds(s, fx, eq(left - 1, 0)), LAB_DONE, 'inserting ends before the first value of the batch', s, bodies[0][0])
    X = [p for _, p in ps if p] + ([T] if T else [])
    for b, y in ps:
        loc, init, nxt, ev, s2, st = b
        fy = facts(s2)
        for x in X:
            ck(holds(s2, fy, eq(subst(x.e, nxt), y.s if y else x.e)), LAB_UNION, 'the next values moved end at %r' % subst(x.e, nxt), s2, loc)
            ck(holds(s2, fy, eq(subst(x.n, nxt), y.n - 1 if y else x.n)), LAB_COUNT, 'the next values move by %r' % subst(x.n, nxt), s2, loc)
    init, st = bodies[0][1], bodies[0][5]
    for x in X:
        ck(holds(st, facts(st), eq(subst(x.e, init), size)), LAB_UNION, 'the first values moved end at %r' % subst(x.e, init), st, bodies[0][0])
        ck(holds(s, fx, eq(subst(x.n, init), N)), LAB_COUNT, 'the first values move by %r, %r are new' % (subst(x.n, init), N), s, bodies[0][0])
    for kk, n, fx2, st2, ins, start in getattr(ip, 'looks', []):
        if start == ptr and key & fate.closed_atoms(fx2, (kk,)):
            for x in X[:1]:
                ck(holds(st2, ordered(st2, fx2.copy(), [kk]), le(kk + n, x.e)), LAB_OLD, 'positions up to %r are looked at when those from %r on have moved' % (kk + n, x.e), st2, short(ins.get('loc')), (kk,))


WHOLE = r'LvArray::sortedArrayManipulation::(insert|remove)<Elem, (const )?Elem ?(const ?)?\*'
WHOLE_OPAQUE = (fate.OPAQUE[0], fate.OPAQUE[1] + '|' + WHOLE)


def h_whole(ip, fn, st, ins, a):
    kind = re.search(WHOLE, ins['dn']).group(1)
    r = Poly.of(fresh('r'))
    st.env[ins['id']] = r
    st.facts.add(ge(r, 0))
    st.facts.add(le(r * ES, a[3] - a[2]))
    if kind == 'remove':
        st.facts.add(le(r, a[1]))
    st.events.append(('whole', kind, tuple(a[:4]), r, ins))


def h_batched(ip, fn, st, ins, a):
    if ip.silent:
        return
    lab = lifecycle.str_arg(ip, ins['args'][6])
    kind = lifecycle.str_arg(ip, ins['args'][0])
    es = [e for e in st.events[st.info.get('opstart', 0):] if e[0] == 'whole']
    if any(e[0] in ('loop', 'gloop') for e in st.events[st.info.get('opstart', 0):]) and not es:
        raise Unsupported('a batch handled in another way')
    fx = fate.layout(st, st.facts.copy(), list(a[1:6]))
    if fx.contradictory():
        ip.rep.ok(lab)
        return
    if not es:
        # nothing to do
        ok = fx.proves(eq(a[5], 0)) and (fx.proves(eq(a[3], a[4])) or kind == 'remove' and fx.proves(eq(a[2], 0)))
        what = 'the batch is not handled'
    else:
        ok = len(es) == 1 and es[0][1] == kind and all(fx.proves(eq(x, y)) for x, y in zip(es[0][2], a[1:5])) and fx.proves(eq(es[0][3], a[5]))
        what = '%s with %r, returns %r' % (es[0][1], es[0][2], a[5])
    if ok:
        ip.rep.ok(lab)
    else:
        ip.rep.fail(lab, what, lifecycle.where(ip, st, es[0][4] if es else ins), lifecycle.trailtext(st))


HANDLERS = [(r'^vf_batched$', h_batched), (WHOLE, h_whole), (r'^vf_batch$', h_batch), (r'^vf_batch_end$', h_end), (FIND, h_find)]
OPTS = {'access': fate.access, 'lemmas': fate.ordered, 'lemmas_prove': prove, 'templates': [templates], 'split': split, 'generic': generic}
