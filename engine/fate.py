"""What becomes of one element of a container of arrays.

The primitives of arrayManipulation are taken at their contract (C01, C02 establish it): each is a set of range effects on element slots - kill, move, make, read.
A symbolic element (or a symbolic slot that holds nothing) is followed through the sequence of effects of an operation, loops included; it has to be
destroyed once, or to arrive at the position the operation defines."""
import re
from .terms import *
from .interp import Rec, Fork, Unsupported, short, deep_atoms
from . import lifecycle, probe

ES = 4
PRIMS = r'LvArray::arrayManipulation::(destroy|uninitialized\w+|resize|shiftUp|shiftDown|erase|emplaceBack|append|emplace|insert|popBack)<(const )?(Elem|int)\b'
LAB_USE = 'an element is destroyed once and not used afterwards'
LAB_OVER = 'nothing is constructed over, or shifted onto, an element of another array'
LAB_LOST = 'no element is left behind when storage is replaced or released'
LAB_GAP = 'a slot that holds no element is never moved, copied or destroyed'


class Eff:
    """kill(p, n) | move(p, n, to) | make(p, n, val) | read(p, n); sizes in elements"""
    __slots__ = ('kind', 'p', 'n', 'to', 'val')

    def __init__(self, kind, p, n, to=None, val=None):
        self.kind, self.p, self.n, self.to, self.val = kind, p, n, to, val

    def subst(self, mp):
        s = lambda x: x.subst(mp) if isinstance(x, Poly) else tuple(s(y) for y in x) if isinstance(x, tuple) else x
        return Eff(self.kind, s(self.p), s(self.n), s(self.to), s(self.val))

    def __repr__(self):
        return '%s(%r, %r%s)' % (self.kind, self.p, self.n, ', to %r' % self.to if self.to is not None else '')


def effects(ip, st, name, a):
    c = const
    if name == 'destroy' and len(a) == 2:
        return [Eff('kill', a[0], a[1])]
    if name == 'uninitializedCopy' and len(a) == 3:
        # the source ends are pointers, the second possibly by reference
        return None
    if name == 'uninitializedMove' and len(a) == 3:
        return [Eff('read', a[2], a[1]), Eff('make', a[0], a[1], val=('copy', a[2]))]
    if name == 'uninitializedShiftDown' and len(a) == 3:
        return [Eff('move', a[0], a[1], a[0] - a[2] * ES)]
    if name == 'uninitializedShiftUp' and len(a) == 3:
        return [Eff('move', a[0], a[1], a[0] + a[2] * ES)]
    if name == 'shiftUp' and len(a) == 4:
        return [Eff('move', a[0] + a[2] * ES, a[1] - a[2], a[0] + (a[2] + a[3]) * ES)]
    if name == 'shiftDown' and len(a) == 4:
        return [Eff('kill', a[0] + (a[2] - a[3]) * ES, a[3]), Eff('move', a[0] + a[2] * ES, a[1] - a[2], a[0] + (a[2] - a[3]) * ES)]
    if name == 'erase' and len(a) in (3, 4):
        n = a[3] if len(a) == 4 else c(1)
        return [Eff('kill', a[0] + a[2] * ES, n), Eff('move', a[0] + (a[2] + n) * ES, a[1] - a[2] - n, a[0] + a[2] * ES)]
    if name == 'emplaceBack':
        return [Eff('make', a[0] + a[1] * ES, c(1), val=('args',) + tuple(a[2:]))]
    if name == 'append' and len(a) == 4:
        n = (a[3] - a[2]).divexact(ES)
        return [Eff('read', a[2], n), Eff('make', a[0] + a[1] * ES, n, val=('copy', a[2]))]
    if name == 'emplace':
        return [Eff('move', a[0] + a[2] * ES, a[1] - a[2], a[0] + (a[2] + 1) * ES), Eff('make', a[0] + a[2] * ES, c(1), val=('args',) + tuple(a[3:]))]
    if name == 'insert' and len(a) == 5:
        return [Eff('read', a[3], a[4]), Eff('move', a[0] + a[2] * ES, a[1] - a[2], a[0] + (a[2] + a[4]) * ES), Eff('make', a[0] + a[2] * ES, a[4], val=('copy', a[3]))]
    if name == 'popBack' and len(a) == 2:
        return [Eff('kill', a[0] + (a[1] - 1) * ES, c(1))]
    return None


def h_prim(ip, fn, st, ins, a):
    m = re.search(PRIMS, ins['dn'])
    name = m.group(1)
    if name == 'uninitializedCopy' and len(a) == 3:
        last = ip.mem_read(st, a[1], 8, 'ptr', ins)
        n = (last - a[0]).divexact(ES) if isinstance(last, Poly) else None
        effs = None if n is None else [Eff('read', a[0], n), Eff('make', a[2], n, val=('copy', a[0]))]
    elif name == 'resize' and len(a) >= 3:
        # both directions, each empty in the other case
        effs = 'resize'
    else:
        effs = effects(ip, st, name, a)
    if effs is None:
        raise Unsupported('arrayManipulation::%s called in a way that is not known' % name)
    if effs == 'resize':
        effs = [Eff('kill', a[0] + a[2] * ES, a[1] - a[2]), Eff('make', a[0] + a[1] * ES, a[2] - a[1], val=('args',) + tuple(a[3:]))]
    if st.loopctx:
        ip.next_seq(st)
    st.events.append(('fate', name, effs, ins))
    if ins['ty'] != 'void':
        # append, insert: the number of elements
        st.env[ins['id']] = next(e.n for e in effs if e.kind == 'make')


def single(kind):
    def h(ip, fn, st, ins, a):
        one = const(1)
        if kind == 'dflt':
            effs = [Eff('make', a[0], one, val=('args',))]
        elif kind == 'copy':
            effs = [Eff('read', a[1], one), Eff('make', a[0], one, val=('args', source(ip, st, a[1])))]
        elif kind == 'move':
            effs = [Eff('read', a[1], one), Eff('make', a[0], one, val=('args', source(ip, st, a[1])))]
        elif kind == 'kill':
            effs = [Eff('kill', a[0], one)]
        else:
            effs = [Eff('read', a[1], one), Eff('kill', a[0], one), Eff('make', a[0], one, val=('args', source(ip, st, a[1])))]
            if ins['ty'] != 'void':
                st.env[ins['id']] = a[0]
        b, off = ip.base_of(a[0])
        if b is not None and Atom.byid[b].name.startswith('&'):
            # a local of the operation: it stands for what it was copied from
            st.info[('local', b, off)] = None if kind in ('dflt', 'kill') else source(ip, st, a[1])
            return
        if st.loopctx:
            ip.next_seq(st)
        st.events.append(('fate', kind, effs, ins))
    return h


def source(ip, st, p):
    """the element a local was copied from"""
    b, off = ip.base_of(p)
    q = st.info.get(('local', b, off)) if b is not None else None
    return p if q is None else q


def compare(rel):
    """the elements are whatever they are; what they are is named by where they are and what happened before"""
    def h(ip, fn, st, ins, a):
        kx, ky = ((repr(p), len(st.events)) for p in a[:2])
        if rel in ('==', '!='):
            f = batom('elt_eq', *sorted((kx, ky), key=repr))
        elif rel in ('<', '>='):
            f = batom('elt_lt', kx, ky)
        else:
            f = batom('elt_lt', ky, kx)
        st.env[ins['id']] = neg(f) if rel in ('!=', '<=', '>=') else f
    return h


# ---------------------------------------------------------------- layout
def h_layout(ip, fn, st, ins, a):
    """offsets, sizes, number of arrays of a container in a consistent state"""
    st.info['layout'] = st.info.get('layout', ()) + ((a[0], a[1], a[2]),)
    for p, k in ((a[0], a[2] + 1), (a[1], a[2])):
        b, off = ip.base_of(p)
        if b in Atom.addr:
            st.facts.add(ge(cellread(Atom.addr[b] + 8), k))


def closed_atoms(facts, extra):
    seen = set()
    for c in facts.clauses():
        seen |= set(deep_atoms(c))
    for x in extra:
        seen |= set(deep_atoms(x))
    return seen


def cellread(p):
    a = atom('init', '', p, 'i64')
    a.name = '*(%r)' % p
    return Poly.of(a)


def layout(st, fx, extra=()):
    """fx with the layout invariant instantiated at the indices that occur (fx.lay: what was instantiated already)"""
    seen = None
    lays = list(fx.lay)
    for nth, (off, sz, n) in enumerate(st.info.get('layout', ())):
        if seen is None:
            seen = closed_atoms(fx, extra)
        mine, done = lays[nth] if nth < len(lays) else (frozenset(), frozenset())
        ob = next(m[0] for m in off.t if len(m) == 1 and Atom.byid[m[0]].kind == 'base')
        sb = next(m[0] for m in sz.t if len(m) == 1 and Atom.byid[m[0]].kind == 'base')
        idx = {n: 1}
        for i in seen - mine:
            at = Atom.byid[i]
            if at.kind != 'init' or not isinstance(at.args[1], Poly):
                continue
            p = at.args[1]
            for base, start in ((ob, off), (sb, sz)):
                if (base,) in p.t:
                    k = (p - start).divexact(8)
                    if k is not None and k.isint():
                        idx[k] = 1
        idx = list(idx)
        O = lambda k: cellread(off + k * 8)
        S = lambda k: cellread(sz + k * 8)
        new, nd = [], set(done)
        if () not in nd:
            new.append(ge(n, 0))
            nd.add(())
        kn = {k: k.key() for k in idx}
        inr = []
        for k in idx:
            if (kn[k], 'in') not in nd:
                if not fx.proves(ge(k, 0)) or not fx.proves(le(k, n)):
                    continue
                nd.add((kn[k], 'in'))
                new.append(ge(O(k), 0))
            inr.append(k)
            if (kn[k], 'sz') not in nd and fx.proves(lt(k, n)):
                nd.add((kn[k], 'sz'))
                new += [ge(S(k), 0), le(O(k) + S(k), O(k + 1))]
        for k in inr:
            for l in inr:
                if k is l or (kn[k], kn[l], 2) in nd:
                    continue
                if (kn[k], kn[l], 1) in nd or fx.proves(le(k, l)):
                    if (kn[k], kn[l], 1) not in nd:
                        nd.add((kn[k], kn[l], 1))
                        new.append(le(O(k), O(l)))
                    if fx.proves(le(k + 1, l)):
                        nd.add((kn[k], kn[l], 2))
                        new += [le(O(k) + S(k), O(l)), le(O(k + 1), O(l))]
        if new:
            born = set()
            for f in new:
                born |= set(deep_atoms(f))
            mine = mine | (born - seen)
            seen = seen | born
            fx.addall(new)
        if nth < len(lays):
            lays[nth] = (mine, frozenset(nd))
        else:
            lays.append((mine, frozenset(nd)))
    fx.lay = tuple(lays)
    return ordered(st, fx, extra)


def ordered(st, fx, extra=()):
    """fx with the order of strictly increasing ranges instantiated at the positions that occur"""
    known = set()
    for _ in range(3):
        more = member(st, fx, extra, known)
        if fx.dead:
            return fx
        for nth, (start, n, base) in enumerate(st.info.get('sorted', ())):
            idx = {}
            for i in closed_atoms(fx, extra):
                at = Atom.byid[i]
                if at.kind == 'init' and isinstance(at.args[1], Poly) and (base,) in at.args[1].t:
                    k = (at.args[1] - start).divexact(ES)
                    if k is not None and k.isint():
                        idx[k] = Poly.of(at)
            ks = [k for k in idx if fx.proves(ge(k, 0)) and fx.proves(lt(k, n))]
            new = []
            for i, k in enumerate(ks):
                for l in ks[i + 1:]:
                    if (nth, k, l) in known:
                        continue
                    for x, y in ((k, l), (l, k)):
                        if fx.proves(le(x, y)):
                            if fx.proves(lt(x, y)):
                                known.add((nth, k, l))
                                new.append(lt(idx[x], idx[y]))
                            else:
                                new.append(le(idx[x], idx[y]))
                        # and the other way round
                        elif fx.proves(le(idx[x], idx[y])):
                            if fx.proves(lt(idx[x], idx[y])):
                                known.add((nth, k, l))
                                new.append(lt(x, y))
                            else:
                                new.append(le(x, y))
            new = [f for f in new if f.op != 'const' and not fx.has(f)]
            if new:
                fx.addall(new)
                more = True
            if fx.dead:
                return fx
        if not more:
            break
    return fx


def member(st, fx, extra, known):
    """each value of the first range is one of the second"""
    more = False
    for nth, (f, m, c, n, g) in enumerate(st.info.get('members', ())):
        base = next(x[0] for x in f.t if len(x) == 1 and Atom.byid[x[0]].kind == 'base')
        gb = next(iter(g.t))[0]
        idx = {}
        for i in closed_atoms(fx, extra):
            at = Atom.byid[i]
            if at.kind != 'init' or not isinstance(at.args[1], Poly):
                continue
            for b, start in ((base, f), (gb, g)):
                if (b,) in at.args[1].t:
                    k = (at.args[1] - start).divexact(ES)
                    if k is not None and k.isint():
                        idx[k] = 1
        for i in idx:
            if ('member', nth, i) in known or not fx.proves(ge(i, 0)) or not fx.proves(lt(i, m)):
                continue
            known.add(('member', nth, i))
            w = cellread(g + i * ES)
            new = [x for x in (ge(w, 0), lt(w, n), eq(cellread(c + w * ES), cellread(f + i * ES))) if x.op != 'const' and not fx.has(x)]
            if new:
                fx.addall(new)
                more = True
            if fx.dead:
                return more
    return more


def undecided_pair(st, fx, f):
    """two positions of a sorted range whose order is not known"""
    for start, n, base in st.info.get('sorted', ()):
        idx = {}
        for i in sorted(closed_atoms(fx, [f])):
            at = Atom.byid[i]
            if at.kind == 'init' and isinstance(at.args[1], Poly) and (base,) in at.args[1].t:
                k = (at.args[1] - start).divexact(ES)
                if k is not None and k.isint():
                    idx[k] = i in deep_atoms(f)
        ks = sorted((k for k in idx if fx.proves(ge(k, 0)) and fx.proves(lt(k, n))), key=lambda k: (not idx[k], -max(deep_atoms(k), default=0)))
        for i, k in enumerate(ks):
            for l in ks[i + 1:]:
                if not any(fx.proves(c) for c in (lt(k, l), gt(k, l), eq(k, l))):
                    return k, l
    return None


def by_order(st, fx, f, depth, alts=0):
    """f, whatever the order of the positions it speaks of, and whichever part of up to alts alternatives holds"""
    if fx.dead or fx.contradictory() or fx.proves(f):
        return True
    o = p = None
    if alts:
        o = max((o for o in fx.ors if not fx.proves(o.a) and not fx.proves(o.b)), key=lambda o: max(deep_atoms(o)), default=None)
    if o is None and depth:
        p = undecided_pair(st, fx, f)
    if p is not None:
        cases, depth = [[lt(*p)], [eq(*p)], [gt(*p)]], depth - 1
    elif o is not None:
        cases, alts = [[o.a], [neg(o.a), o.b]], alts - 1
    else:
        return False
    for c in cases:
        f2 = fx.copy()
        for g in c:
            f2.add(g)
        f2 = ordered(st, f2, [f])
        if not by_order(st, f2, f, depth, alts):
            return False
    return True


def h_prove(ip, fn, st, ins, a):
    """vf_prove with the layout instantiated"""
    lab = lifecycle.str_arg(ip, ins['args'][1])
    f = ip.asbool(st, a[0])
    if ip.silent:
        return
    if st.tri(f) is True:
        ip.rep.ok(lab)
        return
    fx = layout(st, st.facts.copy(), [f])
    if fx.contradictory() or fx.proves(f) or st.info.get('sorted') and by_order(st, fx, f, 3):
        ip.rep.ok(lab)
        return
    if imprecise(f):
        raise Unsupported('imprecise value in %r' % (f,))
    ip.rep.fail(lab, 'cannot show %r' % (f,), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


def imprecise(p):
    return any(k in repr(p) for k in ('hv', 'part', 'inv#', 'nested', 'lread'))


# ---------------------------------------------------------------- following one slot
class Walk:
    def __init__(self, ip, st, track, gap, until=None):
        self.ip, self.st, self.gap = ip, st, gap
        self.track = track
        self.bad = []
        self.cases = 0

    def base(self, p):
        return self.ip.base_of(p)

    def fail(self, lab, msg, ins, fx):
        if fx.contradictory() or layout(self.st, fx.copy(), [x for x in ()]).contradictory():
            return
        self.bad.append((lab, msg, short(ins.get('loc')), [repr(c) for c in fx.clauses()][-6:]))

    def split(self, fx, conds):
        """partition: all conditions hold | the first that does not"""
        self.cases += 1
        if self.cases > 600:
            raise Unsupported('too many cases in following an element')
        rest = fx
        for c in conds:
            if rest.proves(c):
                continue
            out = rest.copy()
            out.add(neg(c))
            if not out.dead and not out.contradictory():
                out = layout(self.st, out)
                if not out.contradictory():
                    yield out, False
            if rest.proves(neg(c)):
                return
            rest = rest.copy()
            rest.add(c)
            rest = layout(self.st, rest)
            if rest.dead or rest.contradictory():
                return
        yield rest, True

    def inside(self, loc, p, n):
        return [gt(n, 0), ge(loc, p), lt(loc, p + n * ES)]

    def apply(self, effs, ins, loc, fx, alive, k):
        """continue with k(loc, fx, alive) after one event; alive: 'live' | 'gap' | 'done'"""
        lb, lo = self.base(loc)
        mine = []
        for e in effs:
            for what, p in ((e.kind, e.p), ('dst', e.to)):
                if p is None:
                    continue
                b, o = self.base(p)
                if b is None:
                    raise Unsupported('address %r of unknown origin' % p)
                if b == lb:
                    mine.append((what, p, e))
        order = {'kill': 0, 'move': 0, 'read': 0, 'dst': 1, 'make': 1}
        mine.sort(key=lambda x: order[x[0]])
        self.seq(mine, 0, ins, loc, fx, alive, k)

    def seq(self, mine, i, ins, loc, fx, alive, k):
        if i == len(mine):
            return k(loc, fx, alive)
        what, p, e = mine[i]
        for f2, ins_ in self.split(fx, self.inside(loc, p, e.n)):
            if not ins_:
                self.seq(mine, i + 1, ins, loc, f2, alive, k)
                continue
            if what == 'read':
                if alive != 'live':
                    self.fail(LAB_GAP if self.gap else LAB_USE, 'slot %r holds no element but is read' % loc, ins, f2)
                else:
                    self.seq(mine, i + 1, ins, loc, f2, alive, k)
            elif what == 'kill':
                if alive != 'live':
                    self.fail(LAB_GAP if self.gap else LAB_USE, 'slot %r holds no element but is destroyed' % loc, ins, f2)
                elif any(w == 'make' and self.proves_in(f2, loc, q, x.n) for w, q, x in mine):
                    k(loc, f2, 'replaced')
                else:
                    k(loc, f2, 'gone')
            elif what == 'move':
                if alive != 'live':
                    self.fail(LAB_GAP if self.gap else LAB_USE, 'slot %r holds no element but is moved' % loc, ins, f2)
                else:
                    k(loc - e.p + e.to, f2, alive)
            else:
                if alive == 'live':
                    self.fail(LAB_OVER, '%r lies where the element at %r still lives' % ('the destination' if what == 'dst' else 'the new element', loc), ins, f2)
                else:
                    k(loc, f2, 'filled')

    def proves_in(self, fx, loc, p, n):
        return all(fx.proves(c) for c in self.inside(loc, p, n))

    def walk(self, evs, i, loc, fx, alive, k):
        if fx.dead or fx.contradictory():
            return
        while i < len(evs):
            if alive in ('filled', 'replaced'):
                return k(loc, fx, alive)
            e = evs[i]
            nxt = lambda l, f, al, j=i + 1: self.walk(evs, j, l, f, al, k)
            if e[0] == 'fate':
                return self.apply(e[2], e[3], loc, fx, alive, nxt)
            if e[0] == 'realloc':
                buf, data, size, space, cap, new, ins = e[1:]
                b, o = self.base(data)
                if b is not None and b == self.base(loc)[0]:
                    for f2, ins_ in self.split(fx, self.inside(loc, data, size)):
                        if ins_:
                            if alive == 'gap':
                                self.fail(LAB_GAP, 'slot %r holds no element but is moved to the new storage' % loc, ins, f2)
                                continue
                            if alive == 'gone':
                                self.fail(LAB_USE, 'slot %r was destroyed but is moved to the new storage' % loc, ins, f2)
                                continue
                            for f3, fits in self.split(f2, [lt(loc, data + cap * ES)]):
                                if fits:
                                    self.walk(evs, i + 1, loc - data + new, f3, alive, k)
                                else:
                                    self.walk(evs, i + 1, loc, f3, 'gone', k)
                        elif alive == 'live':
                            self.fail(LAB_LOST, 'the element at %r is not among the %r elements carried over' % (loc, size), ins, f2)
                        else:
                            k(loc, f2, alive)
                    return
            elif e[0] == 'free':
                b, o = self.base(e[2]) if isinstance(e[2], Poly) else (None, None)
                if b is not None and b == self.base(loc)[0]:
                    if alive == 'live':
                        self.fail(LAB_LOST, 'the storage is released while the element at %r still lives' % loc, e[3], fx)
                        return
                    return k(loc, fx, alive)
            elif e[0] in ('loop', 'gloop'):
                if e[0] == 'gloop':
                    rel = self.relevant_any(e, loc)
                    if rel:
                        raise Unsupported('a loop whose effect is not in closed form')
                    i += 1
                    continue
                r = self.loop(e, loc, fx, alive, nxt)
                if r != 'none':
                    return
            i += 1
        k(loc, fx, alive)

    def relevant_any(self, e, loc):
        def rec(x):
            if isinstance(x, (tuple, list)):
                if len(x) and x[0] in ('fate', 'realloc', 'free'):
                    return True
                return any(rec(y) for y in x)
            return False
        return rec(e[1:])

    def loop(self, e, loc, fx, alive, nxt):
        _, kid, N, parts = e
        lb, lo = self.base(loc)
        if alive == 'gone' and all(y.kind == 'make' for y in flat(e) if isinstance(y, Eff)) and not any(x[0] in ('realloc', 'free') for x in tuples(e)):
            return 'none'
        rel = self.rel(parts, lb, loc)
        if not rel:
            return 'none'
        if alive == 'gone' and not any(y.kind in ('kill', 'move', 'read') and self.base(y.p)[0] == lb for r, d in rel for x in r for y in x[2]):
            # whatever is constructed there later
            return 'none'
        cand = self.candidate(rel, kid, loc, fx, lb)
        kp = Poly.of(Atom.byid[kid])
        for f2, hit in self.split(fx, [ge(cand, 0), lt(cand, N)]):
            if not hit:
                self.untouched(rel, kid, kp, None, N, loc, f2, alive)
                nxt(loc, f2, alive)
                continue
            self.untouched(rel, kid, kp, (None, cand), N, loc, f2, alive)
            mp = {kid: cand}
            for r, dec in rel:
                f3 = f2.copy()
                for d in dec:
                    f3.add(d.subst(mp))
                f3 = layout(self.st, f3)
                if f3.dead or f3.contradictory():
                    continue
                evs = [(x[0], x[1], [y.subst(mp) for y in x[2]], x[3]) for x in r]

                def after(l, f, al):
                    if al in ('live', 'gap', 'gone'):
                        self.untouched(rel, kid, kp, (cand, None), N, l, f, al)
                    nxt(l, f, al)
                self.walk(evs, 0, loc, f3, alive, after)
            # partitions of the body without any effect
            for evs, dec in parts:
                if any(dec is d2 for _, d2 in rel):
                    continue
                f3 = f2.copy()
                for d in dec:
                    f3.add(d.subst(mp))
                if not (f3.dead or f3.contradictory()):
                    nxt(loc, f3, alive)
        return 'did'

    def rel(self, parts, lb, loc):
        """the iterations' effects on one buffer"""
        rel = []
        for evs, dec in parts:
            r = []
            for x in evs:
                if x[0] == 'fate':
                    if any(self.base(p)[0] in (lb, None) for y in x[2] for p in (y.p, y.to) if p is not None):
                        r.append(x)
                elif x[0] in ('realloc', 'free', 'loop', 'gloop'):
                    c = collapse(x)
                    if c is not None:
                        if any(self.base(p)[0] in (lb, None) for y in c[2] for p in (y.p, y.to) if p is not None):
                            r.append(c)
                    elif self.relevant_any((0, x), loc):
                        raise Unsupported('storage changes or nested loops inside a loop over arrays')
            if r:
                rel.append((r, dec))
        return rel

    def candidate(self, rel, kid, loc, fx, lb, sources=True):
        """the iteration that deals with this slot: the address names the same offset"""
        cand = None
        for r, dec in rel:
            for x in r:
                for y in x[2]:
                    for what, p in ((y.kind, y.p), ('dst', y.to)):
                        if p is None or not sources and what not in ('dst', 'make') or self.base(p)[0] != lb:
                            continue
                        c = self.solve(p, kid, loc)
                        if c is None:
                            continue
                        if cand is not None and cand != c and not fx.proves(eq(cand, c)):
                            raise Unsupported('several iterations of one loop may deal with the slot')
                        cand = c
        if cand is None:
            raise Unsupported('cannot tell which iteration deals with the slot %r' % loc)
        return cand

    def solve(self, p, kid, loc):
        """kappa for which p(kappa) names the array (or the very slot) of loc"""
        co = p.coef_of(kid)
        if co is not None and co[0].t and co[0].isconst():
            q = (loc - co[1]).divexact(co[0])
            return q
        for m in p.t:
            for x in m:
                at = Atom.byid[x]
                if at.kind != 'init' or not isinstance(at.args[1], Poly) or kid not in deep_atoms(Poly.of(at)):
                    continue
                q = at.args[1]
                co = q.coef_of(kid)
                if co is None or not co[0].isconst() or not co[0].t:
                    continue
                # the array index the slot was named with
                for m2 in loc.t:
                    for x2 in m2:
                        a2 = Atom.byid[x2]
                        if a2.kind == 'init' and isinstance(a2.args[1], Poly) and self.base(a2.args[1])[0] == self.base(q)[0]:
                            return (a2.args[1] - co[1]).divexact(co[0])
        return None

    def untouched(self, rel, kid, kp, rng, N, loc, fx, alive):
        """no iteration kappa of [0, N), or of the part of it before / after rng, reaches the slot"""
        s = fx.copy()
        k = Poly.of(fresh('iter'))
        s.add(ge(k, 0))
        s.add(lt(k, N))
        if rng is not None:
            if rng[0] is None:
                s.add(lt(k, rng[1]))
            else:
                s.add(gt(k, rng[0]))
        if s.dead or s.contradictory():
            return
        lb, lo = self.base(loc)
        for r, dec in rel:
            s1 = s.copy()
            for d in dec:
                s1.add(d.subst({kid: k}))
            s1 = layout(self.st, s1, [y.subst({kid: k}).p for x in r for y in x[2]])
            if s1.dead or s1.contradictory():
                continue
            for x in r:
                for y0 in x[2]:
                    y = y0.subst({kid: k})
                    for what, p in ((y.kind, y.p), ('dst', y.to)):
                        if p is None or self.base(p)[0] != lb or alive != 'live' and what in ('dst', 'make') or alive == 'live' and what == 'read':
                            continue
                        s2 = s1.copy()
                        s2.add(gt(y.n, 0))
                        s2 = layout(self.st, s2, [p, y.n])
                        if s2.dead or s2.contradictory():
                            continue
                        if s2.proves(lt(loc, p)) or s2.proves(ge(loc, p + y.n * ES)):
                            continue
                        # the position of the iteration relative to the slot may decide
                        if imprecise(p) or imprecise(loc):
                            raise Unsupported('imprecise address %r' % p)
                        lab = LAB_OVER if what in ('dst', 'make') else LAB_GAP if self.gap else LAB_USE
                        self.bad.append((lab, 'another iteration of the loop (%r of %r) may reach the slot %r' % (what, y, loc), short(x[3].get('loc')), [repr(c) for c in s2.clauses()][-6:]))
                        return


def h_track(gap):
    def h(ip, fn, st, ins, a):
        st.info['track'] = (a[0], gap, len(st.events))
    return h


def run_walk(ip, st, ins, k):
    loc, gap, start = st.info['track']
    w = Walk(ip, st, loc, gap)
    fx = layout(st, st.facts.copy(), [loc])
    w.walk(st.events[start:], 0, loc, fx, 'gap' if gap else 'live', lambda l, f, al: k(w, l, f, al))
    for lab in (LAB_USE, LAB_OVER, LAB_LOST) if not gap else (LAB_GAP,):
        if not any(b[0] == lab for b in w.bad):
            ip.rep.ok(lab)
    for lab, msg, where, trail in w.bad:
        ip.rep.fail(lab, msg, where, trail)
    return w


def h_at(ip, fn, st, ins, a):
    """the element followed lives at a[0]"""
    if ip.silent:
        return
    lab = lifecycle.str_arg(ip, ins['args'][1])
    want = a[0]

    def k(w, l, f, al):
        fx = layout(st, f.copy(), [l, want])
        if fx.dead or fx.contradictory():
            return
        if al != 'live':
            w.bad.append((lab, 'the element was %s, it should be at %r' % ({'gone': 'destroyed', 'replaced': 'assigned over'}.get(al, al), want), lifecycle.where(ip, st, ins), [repr(c) for c in fx.clauses()][-6:]))
        elif not fx.proves(eq(l, want)):
            if imprecise(l) or imprecise(want):
                raise Unsupported('imprecise position %r' % want)
            w.bad.append((lab, 'the element is at %r, it should be at %r' % (l, want), lifecycle.where(ip, st, ins), [repr(c) for c in fx.clauses()][-6:]))
        else:
            ip.rep.ok(lab)
    run_walk(ip, st, ins, k)


def h_within(ip, fn, st, ins, a):
    """the element followed lives at one of a[0] .. a[1]"""
    if ip.silent:
        return
    lab = lifecycle.str_arg(ip, ins['args'][2])

    def k(w, l, f, al):
        fx = layout(st, f.copy(), [l])
        if fx.dead or fx.contradictory():
            return
        if al != 'live':
            w.bad.append((lab, 'the element was %s' % {'gone': 'destroyed', 'replaced': 'assigned over'}.get(al, al), lifecycle.where(ip, st, ins), [repr(c) for c in fx.clauses()][-6:]))
        elif not (fx.proves(ge(l, a[0])) and fx.proves(le(l, a[1]))):
            if imprecise(l) or imprecise(a[0]):
                raise Unsupported('imprecise position %r' % l)
            w.bad.append((lab, 'the element is at %r, it should be within %r .. %r' % (l, a[0], a[1]), lifecycle.where(ip, st, ins), [repr(c) for c in fx.clauses()][-6:]))
        else:
            ip.rep.ok(lab)
    run_walk(ip, st, ins, k)


def h_gone(ip, fn, st, ins, a):
    """the element followed was destroyed"""
    if ip.silent:
        return
    lab = lifecycle.str_arg(ip, ins['args'][0])

    def k(w, l, f, al):
        fx = layout(st, f.copy(), [l])
        if fx.dead or fx.contradictory():
            return
        if al not in ('gone', 'filled'):
            w.bad.append((lab, 'the element at %r is %s' % (l, {'live': 'still there', 'replaced': 'assigned over'}.get(al, al)), lifecycle.where(ip, st, ins), [repr(c) for c in fx.clauses()][-6:]))
        else:
            ip.rep.ok(lab)
    run_walk(ip, st, ins, k)


def h_still(ip, fn, st, ins, a):
    """the slot followed held no element, and nothing used it as one"""
    if ip.silent:
        return
    run_walk(ip, st, ins, lambda *x: None)


def h_from(ip, fn, st, ins, a):
    """the element at a[0] was created by this operation from the one at a[1]"""
    if ip.silent:
        return
    lab = lifecycle.str_arg(ip, ins['args'][2])
    origin(ip, st, ins, a[0], lab, a[1])


def h_fromnone(ip, fn, st, ins, a):
    """the element at a[0] was created by this operation from no arguments"""
    if ip.silent:
        return
    lab = lifecycle.str_arg(ip, ins['args'][1])
    origin(ip, st, ins, a[0], lab, None)


def origin(ip, st, ins, p, lab, src):
    """back from the final slot to the event that made it, then forward again through what followed"""
    n0 = st.info.get('opstart', 0)
    evs = st.events[n0:]
    where = lifecycle.where(ip, st, ins)
    w = Walk(ip, st, p, False)
    found = []

    def back(i, loc, fx):
        if fx.dead or fx.contradictory():
            return
        while i >= 0:
            e = evs[i]
            lb, lo = w.base(loc)
            if e[0] == 'fate':
                return seq(effs_on(e[2], lb), 0, e[3], lambda l, f, j=i - 1: back(j, l, f), loc, fx)
            if e[0] == 'realloc' and w.base(e[6])[0] == lb:
                loc = loc - e[6] + e[2]
            elif e[0] == 'free' and isinstance(e[2], Poly) and w.base(e[2])[0] == lb:
                w.bad.append((lab, 'the storage of %r was released' % loc, where, []))
                return
            elif e[0] in ('loop', 'gloop') and w.relevant_any(e, loc):
                if e[0] == 'gloop':
                    raise Unsupported('a loop whose effect is not in closed form')
                return backloop(e, i, loc, fx)
            i -= 1
        fx = layout(st, fx, [loc])
        if not fx.contradictory():
            w.bad.append((lab, 'nothing was created at %r' % loc, where, [repr(c) for c in fx.clauses()][-6:]))

    def effs_on(effs, lb):
        """what an event does to slots of one buffer, as seen from after it: filled first, then vacated"""
        todo = []
        for y in effs:
            if y.kind == 'make' and w.base(y.p)[0] == lb:
                todo.append((0, 'make', y.p, y))
            if y.kind == 'move' and w.base(y.to)[0] == lb:
                todo.append((1, 'dst', y.to, y))
            if y.kind in ('move', 'kill') and w.base(y.p)[0] == lb:
                todo.append((2, 'vacated', y.p, y))
        todo.sort(key=lambda t: t[0])
        return [t[1:] for t in todo]

    def seq(todo, j, ins, k, loc, fx):
        if j == len(todo):
            return k(loc, fx)
        what, q, y = todo[j]
        for f2, hit in w.split(fx, w.inside(loc, q, y.n)):
            if not hit:
                seq(todo, j + 1, ins, k, loc, f2)
            elif what == 'dst':
                k(loc - y.to + y.p, f2)
            elif what == 'make':
                made(y, ins, loc, f2)
            else:
                f2 = layout(st, f2, [loc])
                if not (f2.dead or f2.contradictory()):
                    w.bad.append((lab, 'the slot %r was vacated again' % loc, short(ins.get('loc')), [repr(c) for c in f2.clauses()][-6:]))

    def made(y, ins, loc, fx):
        fx = layout(st, fx, [loc])
        if fx.dead or fx.contradictory():
            return
        v = y.val
        if src is None:
            good = v == ('args',)
            got = 'from arguments'
        else:
            if v[0] == 'copy':
                got = v[1] + (loc - y.p)
            elif len(v) == 2:
                got = v[1]
            else:
                got = None
            if isinstance(got, Poly):
                got = source(ip, st, got)
            good = isinstance(got, Poly) and fx.proves(eq(got, src))
            if not good and got is not None and (imprecise(got) or imprecise(src)):
                raise Unsupported('imprecise source %r' % (got,))
        if good:
            ip.rep.ok(lab)
        else:
            w.bad.append((lab, 'the element at %r was made from %r, not from %r' % (p, got, src), short(ins.get('loc')), [repr(c) for c in fx.clauses()][-6:]))

    def backloop(e, i, loc, fx):
        _, kid, N, parts = e
        lb, lo = w.base(loc)
        rel = w.rel(parts, lb, loc)
        if not rel:
            return back(i - 1, loc, fx)
        fills = lambda x: any(isinstance(y, Eff) and (y.kind == 'make' and w.base(y.p)[0] == lb or y.kind == 'move' and w.base(y.to)[0] == lb) for y in flat(x))
        if not fills(e) and not any(fills(x) or x[0] == 'realloc' and w.base(x[6])[0] == lb for x in evs[:i]):
            # nothing up to here puts anything into this buffer
            w.bad.append((lab, 'nothing was created at %r' % loc, where, [repr(c) for c in fx.clauses()][-6:]))
            return
        cand = w.candidate(rel, kid, loc, fx, lb, sources=False)
        kp = Poly.of(Atom.byid[kid])
        for f2, hit in w.split(fx, [ge(cand, 0), lt(cand, N)]):
            if not hit:
                w.untouched(rel, kid, kp, None, N, loc, f2, 'live')
                back(i - 1, loc, f2)
                continue
            w.untouched(rel, kid, kp, (cand, None), N, loc, f2, 'live')
            for es, dec in parts:
                f3 = f2.copy()
                for d in dec:
                    f3.add(d.subst({kid: cand}))
                f3 = layout(st, f3)
                if f3.dead or f3.contradictory():
                    continue
                r = next((r for r, d in rel if d is dec), [])

                def inner(j, l, f, r=r):
                    if j < 0:
                        w.untouched(rel, kid, kp, (None, cand), N, l, f, 'live')
                        return back(i - 1, l, f)
                    x = r[j]
                    seq(effs_on([y.subst({kid: cand}) for y in x[2]], w.base(l)[0]), 0, x[3], lambda l2, f4: inner(j - 1, l2, f4), l, f)
                inner(len(r) - 1, loc, f3)
    back(len(evs) - 1, p, layout(st, st.facts.copy(), [p]))
    for l, msg, wh, trail in w.bad:
        ip.rep.fail(l, msg, wh, trail)


def h_atomic(ip, fn, st, ins, a):
    """one thread: the old value, and the cell counts up or down"""
    old = ip.read(st, a[0], 8)
    st.env[ins['id']] = old
    d = const(1) if len(a) < 2 else a[1]
    ip.write(st, a[0], 8, old + (-d if re.search('atomic(Dec|Sub)', ins['dn']) else d))


def h_scan(ip, fn, st, ins, a):
    """the inclusive scan of a[0] .. a[1] is written to a[2]"""
    b, off = ip.base_of(a[2])
    n = a[1] - a[0]
    st.info['scan'] = (a[0], n, a[2])
    if st.loopctx or b is None:
        raise Unsupported('a scan in a loop')
    st.log.append(Rec('fill', base=b, off=off, size=n, val=lambda o: Poly.of(atom('init', 'scan', Poly.of(Atom.byid[b]) + o, 'i64'))))


def h_scanned(ip, fn, st, ins, a):
    """the cells from a[1] on were left by the scan of the n values from a[0] on"""
    if ip.silent:
        return
    lab = 'the offsets are the running sum of the capacities asked for'
    s = st.info.get('scan')
    if s is None:
        if st.facts.proves(le(a[2], 0)):
            ip.rep.ok(lab)
            return
        ip.rep.fail(lab, 'nothing is summed', lifecycle.where(ip, st, ins), lifecycle.trailtext(st))
        return
    for g, w in ((s[0], a[0]), (s[1], a[2] * 8), (s[2], a[1])):
        if st.facts.proves(eq(g, w)):
            ip.rep.ok(lab)
        else:
            ip.rep.fail(lab, 'the sum uses %r, not %r' % (g, w), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


LAB_CELL = 'offsets and sizes are accessed inside their storage'


def capacity(st, b):
    """in bytes, of a buffer of offsets or sizes"""
    if ('bytes', b) in st.info:
        return st.info[('bytes', b)]
    for off, sz, n in st.info.get('layout', ()):
        if b in Atom.addr and any((b,) in p.t for p in (off, sz)):
            return cellread(Atom.addr[b] + 8) * 8
    return None


def access(ip, st, p, size, write, ins):
    if ip.silent or st.loopctx and st.loopctx['rec'] is None:
        return
    b, off = ip.base_of(p)
    if b is None or not (isinstance(size, Poly) or size == 8):
        return
    n = capacity(st, b)
    if n is None:
        return
    if st.facts.proves(ge(off, 0)) and st.facts.proves(le(off + size, n)):
        ip.rep.ok(LAB_CELL)
        return
    fx = layout(st, st.facts.copy(), [off])
    if fx.contradictory() or fx.proves(ge(off, 0)) and fx.proves(le(off + size, n)) or isinstance(size, Poly) and fx.proves(le(size, 0)):
        ip.rep.ok(LAB_CELL)
        return
    if imprecise(off):
        raise Unsupported('imprecise address %r' % p)
    ip.rep.fail(LAB_CELL, '%s of %r, the storage has %r bytes' % ('write' if write else 'read', p, n), short(ins.get('loc')), lifecycle.trailtext(st))


def h_realloc(ip, fn, st, ins, a):
    """no more is carried over than there was room for"""
    buf, data, size, space, cap, es = a
    if not ip.silent:
        b, off = ip.base_of(data)
        n = capacity(st, b) if b is not None else None
        if n is None and b in Atom.addr:
            n = cellread(Atom.addr[b] + 8) * es
        if n is not None and not imprecise(n):
            fx = layout(st, st.facts.copy(), [size])
            if fx.contradictory() or fx.proves(le(size * es, n)) or fx.proves(le(size, 0)):
                ip.rep.ok('storage is replaced by storage that takes over what it held')
            elif imprecise(size):
                raise Unsupported('imprecise size %r' % size)
            else:
                ip.rep.fail('storage is replaced by storage that takes over what it held', '%r values are carried over from storage of %r bytes' % (size, n), short(ins.get('loc')), lifecycle.trailtext(st))
    probe.h_realloc(ip, fn, st, ins, a)


def h_apart(ip, fn, st, ins, a):
    """two different indices: one path with the first below, one with it above"""
    out = []
    for c in (lt(a[0], a[1]), gt(a[0], a[1])):
        s = st.copy()
        s.facts.add(c)
        if not s.facts.dead:
            out.append((s, None))
    return 'states', out


def flat(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def tuples(x):
    if isinstance(x, (tuple, list)):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from tuples(y)


def collapse(e):
    """a loop that does the same to one slot after the other, as one effect on the range"""
    if e[0] != 'loop':
        return None
    _, kid, N, parts = e
    es = [x for evs, dec in parts for x in evs]
    if any(x[0] != 'fate' or len(x[2]) != 1 for x in es) or any(len(evs) != 1 for evs, dec in parts) or not es or len({repr(x[2]) for x in es}) != 1:
        return None
    y = es[0][2][0]
    if y.n != const(1) or y.to is not None or kid in deep_atoms(N) or y.kind not in ('make', 'kill') or y.kind == 'make' and y.val != ('args',):
        return None
    co = y.p.coef_of(kid)
    if co is None or co[0] != const(ES):
        return None
    return ('fate', es[0][1], [Eff(y.kind, co[1], N, None, y.val)], es[0][3])


def h_begin(ip, fn, st, ins, a):
    st.info['opstart'] = len(st.events)


def h_cell(ip, f, st, ins, a):
    st.env[ins['id']] = ip.read(st, a[0], 8)


EL = lifecycle.ELEM
HANDLERS = [
    (PRIMS, h_prim),
    (r'^vf_layout$', h_layout),
    (r'^vf_begin$', h_begin),
    (r'^vf_apart$', h_apart),
    (r'^vf_buf_realloc$', h_realloc),
    (r'^vf_scanned$', h_scanned),
    (r'RAJA::inclusive_scan<', h_scan),
    (r'RAJA::atomic(Inc|Dec|Add|Sub)<', h_atomic),
    (r'^vf_cell$', h_cell),
    (r'^vf_track$', h_track(False)),
    (r'^vf_gap$', h_track(True)),
    (r'^vf_at$', h_at),
    (r'^vf_gone$', h_gone),
    (r'^vf_within$', h_within),
    (r'^vf_still$', h_still),
    (r'^vf_from$', h_from),
    (r'^vf_fromnone$', h_fromnone),
    (r'^vf_prove$', h_prove),
    (r'^%s::Elem\(\)$' % EL, single('dflt')),
    (r'^%s::Elem\(%s const&\)$' % (EL, EL), single('copy')),
    (r'^%s::Elem\(%s&&\)$' % (EL, EL), single('move')),
    (r'^%s::~Elem\(\)$' % EL, single('kill')),
    (r'^%s::operator=\(' % EL, single('assign')),
    (r'^%s::operator<\(' % EL, compare('<')),
    (r'^%s::operator>\(' % EL, compare('>')),
    (r'^%s::operator<=\(' % EL, compare('<=')),
    (r'^%s::operator>=\(' % EL, compare('>=')),
    (r'^%s::operator==\(' % EL, compare('==')),
    (r'^%s::operator!=\(' % EL, compare('!=')),
]
OPAQUE = ('--opaque', r'RAJA::inclusive_scan<|LvArray::arrayManipulation::(destroy|uninitialized[A-Za-z]+|resize|shiftUp|shiftDown|erase|emplaceBack|append|emplace|insert|popBack)<(const )?(Elem|int)( const)?[*,>]')
