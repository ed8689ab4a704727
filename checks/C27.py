"""Sorting: a rearrangement that keeps pairs together, in bounded storage; duplicate removal."""
import re
from engine import lifecycle
from engine.interp import short, Unsupported
from engine.terms import *

TECHNIQUE = 'abstract interpretation of LLVM IR: typestate of places (a hole, a value out) with a pairing rule, bounds entailment for the auxiliary storage, relational loop invariants'
LEVEL_NOTE = '''dualSort with each of its steps (partitioning, the stack of ranges, insertion) for any two ranges of any length; removeDuplicates, makeSortedUnique, isSorted, and makeSorted up to the standard sort it calls on the host. The values are of a type that can only be
moved. Where the unguarded scans of the partition stop is not decided: it takes a comparison that is an order and a pivot between two others.'''
EXPLANATION = '''The element type's own move operations carry the typestate: taking a value makes a hole, a value is put only into the hole, moving between places moves the hole, and no step of the sort begins or ends with a value out. The same operation has to follow
on the partner at the same position before anything else happens. The stack of ranges is read and written in bounds, and keeps positions in pairs. For the last pass every shift and every placement has to be justified by the answer of the comparison just made, and every
position has had its turn; it has to be given the whole range. For duplicate removal each comparison is of the next value with the last one kept, each value found different goes to the next place, and the count is returned. Loops are summarised by
inductive invariants found by fixpoint iteration.'''
ASSUMPTIONS = ['index arithmetic does not overflow', 'a comparison asked the same again answers the same (sortedness only)', 'std::sort sorts the range it is given']

LAB_BOUNDS = 'the auxiliary storage is accessed in bounds'
LAB_PAIR = 'what is done to a value is done to its partner'
LAB_WHOLE = 'the whole range is sorted'
LAB_END = 'a sorting step starts and ends with every value in a place'
BASE = [atom('base', 'values'), atom('base', 'partners')]
KEEP = r'^[^(]*LvArray::sortedArrayManipulation::internal::(unguardedPartition|unguardedPartitionPivot|insertionSort|introsortLoop)<'
CELL = lambda n: Poly.of(atom('base', '@vfg_' + n))


def side(ip, p):
    b, off = ip.base_of(p)
    for k in (0, 1):
        if b == BASE[k].id:
            return k, off
    return None, off


def h_temp(ip, fn, st, ins, a):
    b, _ = ip.base_of(a[0])
    if b is None or b not in ip.alloca_size and b not in (BASE[0].id, BASE[1].id):
        raise Unsupported('a value of which it is not known where it is')
    st.env[ins['id']] = TRUE if b in ip.alloca_size else FALSE


def h_index(ip, fn, st, ins, a):
    k, off = side(ip, a[0])
    if k is None:
        st.env[ins['id']] = const(-1) if ip.base_of(a[0])[0] in ip.alloca_size else ip.result(st, ins, 'idx')
        return
    if a[1].isconst() and a[1].cval() != k:
        raise Unsupported('a value of one range taken for one of the other')
    st.env[ins['id']] = off


def h_less(ip, fn, st, ins, a):
    st.env[ins['id']] = ip.result(st, ins, 'less')


def clean(ip, st):
    return [eq(ip.read(st, CELL(c), 8, 'i64'), 0) for c in ('full0', 'full1', 'pending')]


def require(ip, st, lab, what, where):
    if ip.silent:
        return
    for f in clean(ip, st):
        ip.rep.check(st.tri(f) is True, lab, '%s: cannot show %r' % (what, f), where, lifecycle.trailtext(st))


def paired(ip, st, vs, what, where):
    """values that come in pairs, one for each range, are at the same position of both"""
    n = 0
    while n < len(vs):
        if not isinstance(vs[n], Poly):
            n += 1
            continue
        k, off = side(ip, vs[n])
        if k is None:
            n += 1
            continue
        k2, off2 = side(ip, vs[n + 1]) if n + 1 < len(vs) and isinstance(vs[n + 1], Poly) else (None, None)
        if k != 0 or k2 != 1:
            raise Unsupported('positions of the two ranges that do not come in pairs')
        if not ip.silent:
            ip.rep.check(st.facts.proves(eq(off, off2)), LAB_PAIR, '%s: position %r of one range, %r of the other' % (what, off, off2), where, lifecycle.trailtext(st))
        n += 2


def h_step(ip, fn, st, ins, a):
    w = lifecycle.where(ip, st, ins)
    st.events.append(('step', a, ins))
    require(ip, st, LAB_END, 'a step of the sort is called', w)
    paired(ip, st, a, 'an argument', w)
    for c in ('hole0', 'hole1', 'kind', 'at'):
        ip.mem_write(st, CELL(c), 8, Poly.of(fresh('any')))
    if ins['ty'] != 'void':
        i = Poly.of(fresh('pos'))
        st.env[ins['id']] = ('agg', {0: Poly.of(BASE[0]) + i, 1: Poly.of(BASE[1]) + i})


def h_answer(ip, fn, st, ins, a):
    r = Poly.of(fresh('answer'))
    st.facts.add(ge(r, 0))
    st.facts.add(le(r, 1))
    st.env[ins['id']] = r


def h_std(ip, fn, st, ins, a):
    """the standard sort: of the whole range"""
    st.events.append(('std', a, ins))


HANDLERS = [(r'^vf_answer$', h_answer), (r'^(void )?std::(stable_)?sort<', h_std), (r'^vf_is_temp$', h_temp), (r'^vf_index$', h_index), (r'^vf_less$', h_less), (KEEP, h_step)]


def slot(ip, p):
    """the auxiliary array of iterators pairs: (local, byte offset of the pair, half)"""
    b, off = ip.base_of(p)
    if b not in ip.alloca_size or not (isinstance(ip.alloca_size[b], Poly) and ip.alloca_size[b].isconst() or isinstance(ip.alloca_size[b], int)):
        return None
    size = ip.alloca_size[b]
    size = size if isinstance(size, int) else size.cval()
    if size < 64:
        return None
    half = 0
    for m, c in off.t.items():
        if m == ():
            half = c % 16
        elif c % 16:
            return None
    return (b, off - half, half // 8) if half in (0, 8) else None


def loaded(ip, st, p, size, ty, v, ins):
    s = slot(ip, p)
    if s is None or ty != 'ptr' or size != 8:
        return v
    if isinstance(v, Poly) and side(ip, v)[0] is not None:
        return v
    b, off, half = s
    v0 = ip.read(st, Poly.of(Atom.byid[b]) + off, 8, 'ptr')
    k, o = side(ip, v0)
    if k is not None:
        return Poly.of(BASE[half]) + o
    return Poly.of(BASE[half]) + Poly.of(atom('position', v0))


def stored(ip, st, p, size, v, ins):
    s = slot(ip, p)
    if s is None:
        return
    if size != 8 or not isinstance(v, Poly) or side(ip, v)[0] is None:
        raise Unsupported('the auxiliary storage does not hold pairs of positions')
    k, off = side(ip, v)
    b, o, half = s
    h = st.info.get('half')
    if h is None:
        st.info['half'] = (b, o, half, k, off)
        return
    st.info['half'] = None
    if h[0] != b or h[1] != o or h[2] == half or k != half or h[3] != h[2]:
        raise Unsupported('the auxiliary storage is filled in another order')
    if not ip.silent:
        ip.rep.check(st.facts.proves(eq(off, h[4])), LAB_PAIR, 'a pair of positions kept for later: %r and %r' % (h[4], off), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


def access(ip, st, p, size, write, ins):
    b, off = ip.base_of(p)
    if ip.silent or b is None or b not in ip.alloca_size:
        return
    n = ip.alloca_size[b]
    if off.isconst() and not (isinstance(n, int) and n >= 64 or isinstance(n, Poly) and not le(n, 63) == TRUE):
        return
    size = Poly.const(size) if isinstance(size, int) else size
    ip.rep.check(st.facts.proves(ge(off, 0)) and st.facts.proves(le(off + size, n)), LAB_BOUNDS, '%s byte %r of %r' % ('writes' if write else 'reads', off, n), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


def setup(ip, st, args):
    for c in ('full0', 'full1', 'pending'):
        ip.write(st, CELL(c), 8, const(0))
    ps = [a for a in ip.fn.js['args'] if a['ty'] == 'ptr']
    pairs = {}
    for a in ps:
        m = re.match(r'(.*)\.coerce([01])$', a['name'])
        if m:
            pairs.setdefault(m.group(1), {})[int(m.group(2))] = a
        elif a['name'] in ('a', 'b') and ip.fn.name in ('vf_pairs', 'vf_unique', 'vf_insertion'):
            st.env[a['id']] = Poly.of(BASE[a['name'] == 'b'])
    for n, d in pairs.items():
        if len(d) == 2:
            i = Poly.of(atom('sym', 'position of ' + n))
            for k in (0, 1):
                st.env[d[k]['id']] = Poly.of(BASE[k]) + i


def setup2(ip, st, args):
    for a in ip.fn.js['args']:
        if a['name'] in ('a', 'b'):
            st.env[a['id']] = Poly.of(BASE[a['name'] == 'b'])


def finish(ip, f, outs, rep):
    if f == 'vf_pairs':
        last = {}
        for kind, st, v in outs:
            evs = [e for e in st.events if e[0] == 'step']
            if kind == 'ret' and evs and not st.facts.proves(le(sym('n'), 1)):
                last.setdefault(evs[-1][2]['dn'], (st, evs[-1][2]))
        few = [d for d, (st, i) in last.items() if not st.facts.proves(ge(sym('n'), 65))]
        for d, (st, i) in last.items():
            rep.check(d in few or not few, LAB_WHOLE, 'many values are not sorted by the pass that is shown to sort', lifecycle.where(ip, st, i), lifecycle.trailtext(st))
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        w = ip.fn.dn
        require(ip, st, LAB_END, 'at the end', w)
        if isinstance(v, tuple) and v[0] == 'agg':
            paired(ip, st, [v[1][0], v[1][1]], 'the position returned', w)
        if f == 'vf_pairs':
            whole(ip, st, [e for e in st.events if e[0] == 'step'], rep)


def whole(ip, st, evs, rep):
    """the last pass is over the whole range"""
    n = sym('n')
    if st.facts.proves(le(n, 1)):
        return
    if not evs:
        raise Unsupported('the range is sorted in a way that is not known')
    vs = [side(ip, x) for x in evs[-1][1] if isinstance(x, Poly)]
    ends = [x for x in evs[-1][1][1:] if isinstance(x, Poly) and side(ip, x)[0] is None] + [o for k, o in vs[1:] if k == 0]
    ok = bool(vs) and vs[0][0] == 0 and st.facts.proves(eq(vs[0][1], 0)) and any(st.facts.proves(eq(x, n)) for x in ends)
    rep.check(ok, LAB_WHOLE, 'the last pass is not over all %r values: it is given %s' % (n, ', '.join(repr(x) for x in evs[-1][1])), lifecycle.where(ip, st, evs[-1][2]), lifecycle.trailtext(st))


def finish2(ip, f, outs, rep):
    for kind, st, v in outs:
        if kind == 'ret' and f in ('vf_sort', 'vf_sortunique'):
            evs = [e for e in st.events if e[0] == 'std']
            whole(ip, st, evs, rep)


def prepare(js):
    for f in js['functions']:
        m = re.match(KEEP, f.get('dn', ''))
        if m:
            f['name'] = 'vf_step_' + m.group(1)
            f['root'] = True
    return js


def run(ctx):
    ctx.drive('sorting.cpp', handlers=HANDLERS + lifecycle.HANDLERS, lvir_args=('--keep', KEEP), opts={'access': access, 'loaded': loaded, 'stored': stored, 'inner_cells': True}, setup=setup, finish=finish, prepare=prepare)
    ctx.drive('insertion.cpp', handlers=HANDLERS + lifecycle.HANDLERS, opts={'inner_cells': True, 'templates': [lambda ip, fn, st, F, I: [ge(f, 1) for f in F.values()]]}, setup=setup2, finish=finish2, lvir_args=('--opaque', r'^(void )?std::(stable_)?sort<'))
