"""Arrays of arrays keep their inner arrays separate."""
from engine import build, fate, lifecycle, probe
from engine.interp import short, deep_atoms, Unsupported
from engine.terms import *

TECHNIQUE = 'abstract interpretation of LLVM IR: relocation (fate) analysis of every stored value through each operation, over the offset/size layout invariant'
LEVEL_NOTE = '''Every path of each operation of ArrayOfArrays, ArrayOfArraysView, ArrayOfSets and their views with symbolic numbers of arrays, sizes, offsets, capacities and positions. The element primitives of
arrayManipulation.hpp are taken at their contracts (C01, C02); atomics are sequential (one thread: the concurrent part is C12). Index arithmetic over the integers. Batch insertion and removal into a set are left to C06.'''
EXPLANATION = '''A container that satisfies the layout invariant (0 <= offset(k), offset(k) + size(k) <= offset(k+1), the last offset within the values, size and offset buffers long enough) is given to one operation. The analysis follows, for
a symbolic array i and a symbolic position in it, where its value goes: through each move, shift, relocation, creation and destruction of values, and through each write to offsets and sizes. On every path it is decided that the
value an operation promises to keep is found where offset and size say afterwards, that new values lie inside the array that was asked to grow, that each other array keeps its values, size and (where promised) capacity, that the
layout invariant holds again, that no operation of the primitives reaches outside the array concerned, and that offsets and sizes are accessed only inside their storage. compress() is decided by the transfer function of one
iteration of its loop.'''
ASSUMPTIONS = ['index arithmetic does not overflow', 'the container satisfies the layout invariant before the operation', 'arrayManipulation functions do what C01 and C02 decide', 'one thread at a time',
               'two different containers do not share storage']
LAB_C = 'compress moves each array to where its new offset is, next to the one before it'


def at_entry(v, kid, before):
    """a value in terms of what the cells held when the iteration began"""
    mp = {}
    for a in deep_atoms(v):
        at = Atom.byid[a]
        if at.kind == 'lread':
            _, b, off, size, ty, seq = at.args
            if before is not None and seq > before and off == before[1]:
                raise Unsupported('a cell read again after it was written')
            mp[a] = fate.cellread(Poly.of(Atom.byid[b]) + off)
    return v.subst(mp)


def compress(ip, f, outs, rep):
    if 'compress' not in f:
        return
    for lid, kap, parts, st in ip.bodies:
        (off, sz, n), = st.info['layout'][:1]
        val = st.info['track'][0]
        vb, ob = ip.base_of(val)[0], ip.base_of(off)[0]
        kp = Poly.of(kap)
        mine = [p for p in parts if any(x[0] == 'fate' for x in p[1]) or any(e.base == ob for e in p[0])]
        if not mine:
            continue
        for kind, s, v in outs:
            for e in s.events:
                if e[0] == 'loop' and e[1] == kap.id:
                    rep_check(rep, fate.layout(s, s.facts.copy()).proves(eq(e[2], n - 1)), 'the loop makes %r passes, there are %r arrays after the first' % (e[2], n - 1), 'src/ArrayOfArraysView.hpp', s.facts)
        for lev, evs, dec, s in mine:
            ws = [e for e in lev if e.base == ob]
            fs = [y for x in evs if x[0] == 'fate' for y in x[2] if ip.base_of(y.p)[0] == vb]
            where = next((short(x[3].get('loc')) for x in evs if x[0] == 'fate'), 'src/ArrayOfArraysView.hpp')
            if len(ws) != 1 or ws[0].val is None or any(e.base is None for e in lev) or any(y.kind != 'move' for y in fs):
                raise Unsupported('compress in a form that is not known')
            cell = Poly.of(Atom.byid[ob]) + ws[0].off
            if any(Atom.byid[a].kind == 'lread' and Atom.byid[a].args[2] == ws[0].off and Atom.byid[a].args[5] > ws[0].seq for y in fs for q in (y.p, y.n, y.to) for a in deep_atoms(q)):
                raise Unsupported('a cell read again after it was written')
            i = (cell - off).divexact(8) - 1
            O = lambda k: fate.cellread(off + k * 8)
            S = lambda k: fate.cellread(sz + k * 8)
            new = at_entry(ws[0].val, kap.id, None)
            fx = fate.layout(s, s.facts.copy(), [O(i), S(i), O(i + 1), S(i + 1)])
            if fx.contradictory():
                continue
            if any(fate.imprecise(x) for x in (new,)):
                raise Unsupported('imprecise offset %r' % new)
            rep_check(rep, fx.proves(eq(new, O(i) + S(i))), 'the new offset of array i + 1 is %r, not the end of array i' % new, where, fx)
            if not fs:
                rep_check(rep, fx.proves(eq(new, O(i + 1))) or fx.proves(eq(S(i + 1), 0)), 'the offset of array i + 1 changes but its values are not moved', where, fx)
            for y in fs:
                p, m, to = at_entry(y.p, kap.id, None), at_entry(y.n, kap.id, None), at_entry(y.to, kap.id, None)
                base = Poly.of(Atom.byid[vb])
                rep_check(rep, fx.proves(eq(p, base + O(i + 1) * 4)) and fx.proves(eq(m, S(i + 1))), 'the values moved are %r from %r, not those of array i + 1' % (m, p), where, fx)
                rep_check(rep, fx.proves(eq(to, base + new * 4)), 'the values are moved to %r but the offset becomes %r' % (to, new), where, fx)


def rep_check(rep, cond, msg, where, fx):
    if cond:
        rep.ok(LAB_C)
    else:
        rep.fail(LAB_C, msg, where, [repr(c) for c in fx.clauses()][-8:])


def run(ctx):
    hs = fate.HANDLERS + probe.HANDLERS + lifecycle.HANDLERS
    ctx.drive('arrays.cpp', handlers=hs, lvir_args=fate.OPAQUE, finish=compress, opts={'access': fate.access})
    ctx.drive('sets.cpp', handlers=hs, lvir_args=fate.OPAQUE, finish=compress, opts={'access': fate.access})
