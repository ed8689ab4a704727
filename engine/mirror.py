"""Two parallel ranges: whatever moves, appears or goes in the first does so in the second."""
from . import batch, fate, lifecycle
from .fate import ES
from .interp import Unsupported, short
from .terms import *

LAB = 'what happens to the columns of a row happens to its entries'


def h_mirror(ip, fn, st, ins, a):
    """the ranges at a[0] and a[1] (moved to a new address with their storage); new ones come from a[2] and a[3]"""
    st.info['mirror'] = tuple(a[:4])


def h_mirror_end(ip, fn, st, ins, a):
    st.info['mirrored'] = tuple(a[:2])


def storage(ip, st, evs, p):
    """where the range is after the storage was replaced"""
    for e in evs:
        if e[0] == 'realloc' and ip.base_of(e[2])[0] == ip.base_of(p)[0]:
            p = p - e[2] + e[6]
    return p


def side(ip, st, evs, bases):
    """effects on one of the ranges, in order: moves and creations, and the slots cleared"""
    out, kills = [], []
    for e in evs:
        c = fate.collapse(e) if e[0] == 'loop' else e
        if c is None or c[0] != 'fate':
            continue
        for y in c[2]:
            if ip.base_of(y.p)[0] not in bases and (y.to is None or ip.base_of(y.to)[0] not in bases):
                continue
            if y.kind == 'kill':
                kills.append((y, c[3]))
            elif y.kind != 'read':
                out.append((y, c[3]))
    return out, kills


def joined(fx, kills):
    out = []
    for y, ins in kills:
        if fx.proves(le(y.n, 0)):
            continue
        if out and fx.proves(eq(out[-1][0] + out[-1][1] * ES, y.p)):
            out[-1] = (out[-1][0], out[-1][1] + y.n, ins)
        else:
            out.append((y.p, y.n, ins))
    return out


def compare(ip, st, evs, rep, prm):
    c, e, f, g = prm
    fx = fate.layout(st, st.facts.copy())
    if fx.contradictory():
        return
    A, KA = side(ip, st, evs, {ip.base_of(c)[0]})
    B, KB = side(ip, st, evs, {ip.base_of(e)[0]})

    def same(x, y):
        if x == y or fx.proves(eq(x, y)):
            return True
        if fate.imprecise(x) or fate.imprecise(y):
            raise Unsupported('imprecise position %r or %r' % (x, y))
        return False

    def bad(msg, ins):
        rep.fail(LAB, msg, short(ins.get('loc')) if ins else 'src/CRSMatrixView.hpp', [repr(z) for z in fx.clauses()][-6:])
    A = [x for x in A if not fx.proves(le(x[0].n, 0))]
    B = [x for x in B if not fx.proves(le(x[0].n, 0))]
    for i in range(max(len(A), len(B))):
        if i >= len(B):
            return bad('%r of the columns is not followed by the entries' % A[i][0], A[i][1])
        if i >= len(A):
            return bad('%r of the entries, which the columns do not do' % B[i][0], B[i][1])
        (x, xi), (y, yi) = A[i], B[i]
        if x.kind != y.kind:
            return bad('columns: %r, entries: %r' % (x, y), yi)
        if not same(x.p - c, y.p - e) or not same(x.n, y.n) or x.to is not None and not same(x.to - c, y.to - e):
            return bad('columns: %s of %r from %r to %r, entries: %r from %r to %r' % (x.kind, x.n, x.p - c, x.to and x.to - c, y.n, y.p - e, y.to and y.to - e), yi)
        if x.kind == 'make':
            if not all(isinstance(z.val, tuple) and len(z.val) == 2 for z in (x, y)) or x.val[0] != y.val[0] and not (x.n == const(1) and y.n == const(1)):
                return bad('columns: %r made from %r, entries: %r made from %r' % (x, x.val, y, y.val), yi)
            u, w = fate.source(ip, st, x.val[1]), fate.source(ip, st, y.val[1])
            if not same(u - f, w - g):
                return bad('the column is the one at %r of those given, the entry the one at %r' % (u - f, w - g), yi)
        rep.ok(LAB)
    KA, KB = joined(fx, KA), joined(fx, KB)
    for i in range(max(len(KA), len(KB))):
        if i >= len(KB) or i >= len(KA):
            return bad('%s left alive' % ('entries are' if i >= len(KB) else 'columns are'), (KA + KB)[-1][2])
        if not same(KA[i][0] - c, KB[i][0] - e) or not same(KA[i][1], KB[i][1]):
            return bad('columns: %r destroyed from %r, entries: %r from %r' % (KA[i][1], KA[i][0] - c, KB[i][1], KB[i][0] - e), KB[i][2])
        rep.ok(LAB)


def finish(ip, f, outs, rep):
    done = [(k, s) for k, s, v in outs if k == 'ret' and 'mirrored' in s.info]
    if not done:
        return
    seen = set()
    for k, s in done:
        evs = s.events[s.info.get('opstart', 0):]
        c, e, x, y = s.info['mirror']
        c2, e2 = s.info['mirrored']
        # growing the storage is decided by the other roots; what counts here happens afterwards
        last = max((i for i, z in enumerate(evs) if z[0] == 'realloc'), default=-1)
        prm = (c2, e2, x, y)
        tail = evs[last + 1:]
        inside(ip, s, tail, rep, prm)
        compare(ip, s, tail, rep, prm)
        for b in ip.gbodies:
            if batch.moves(b[3]) and (id(b[4]), repr(prm)) not in seen:
                seen.add((id(b[4]), repr(prm)))
                bases = {ip.base_of(c2)[0], ip.base_of(e2)[0]}
                if side(ip, b[4], b[3], bases) == ([], []):
                    continue
                inside(ip, b[4], b[3], rep, prm)
                compare(ip, b[4], b[3], rep, prm)


def inside(ip, st, evs, rep, prm):
    """one iteration of each loop in closed form"""
    for e in evs:
        if e[0] == 'loop' and fate.collapse(e) is None and batch.moves([e]):
            for x, dec in e[3]:
                s = st.copy()
                k = Poly.of(Atom.byid[e[1]])
                s.facts = s.facts.copy()
                for g in (ge(k, 0), lt(k, e[2])) + tuple(dec):
                    s.facts.add(g)
                if not s.facts.contradictory():
                    inside(ip, s, x, rep, prm)
                    compare(ip, s, x, rep, prm)


HANDLERS = [(r'^vf_mirror$', h_mirror), (r'^vf_mirror_end$', h_mirror_end)]
