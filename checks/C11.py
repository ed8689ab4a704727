"""Moving between memory spaces: which buffer goes where, and where a modification is recorded."""
import re
from engine import build, fate, heap, interp, lifecycle
from engine.interp import Unsupported, short
from engine.terms import *

TECHNIQUE = 'abstract interpretation of LLVM IR: effect analysis of the move, touch and space queries each operation makes of its buffers, with and without a device, and of the record keeping of ChaiBuffer'
LEVEL_NOTE = '''Every container and view form is followed for every pair of space and touch flag, sizes symbolic, with a buffer type whose operations are opaque; ChaiBuffer itself in the device configuration with CHAI represented by its interface.
Code that runs on a device is not compiled. That contents are moved to the host before values are modified is decided for the operations that destroy or create values in bulk (resize, clear, destruction), and for zero and memcpy; appending one value never moves (documented
precondition: the container is on the host).'''
EXPLANATION = '''Each buffer a container owns is identified by its data pointer, obtained through the public interface. A move of the object has to ask every one of them exactly once to go to the space named, with a modification recorded exactly where the destination may write
(never for constant data, nor on the device for offsets or the values of a sorted array). registerTouch reaches every buffer. zero and memcpy move the destination to the space it was last used in and record a modification there before the bytes are written, and move the source without one.
Before a nontrivial value is destroyed its buffers have been moved to the host with a modification recorded; after resizing to more than nothing the modification is recorded on the host. ChaiBuffer: the array manager is asked for the space named exactly when there is something to move, the pointer
it returns is used, the flags of the record change exactly as asked, inner objects are visited once each, before the outer buffer leaves the host and after it comes back.'''
ASSUMPTIONS = ['CHAI moves the data of a record to the space asked for and returns where it is', 'the record of a buffer belongs to that buffer alone']

HOST = const(1)
LAB_ONE = 'moving moves every buffer of the object exactly once, and nothing else'
LAB_SPACE = 'a buffer goes to the space that was named'
LAB_TOUCH = 'a modification is recorded exactly for what the destination may write'
LAB_REG = 'registering a modification reaches every buffer, in the space named'
LAB_BEFORE = 'bytes are written where the destination is, after the modification was recorded there'
LAB_SRC = 'the source of a copy is moved to where it was without a modification'
LAB_HOME = 'values are destroyed on the host, after their buffers were moved there'
LAB_AFTER = 'a change made on the host is recorded there'
LAB_STALE = 'what a buffer held before it was moved is not used any more'
LAB_NEST = 'inner objects are moved once each, to the same space, while they can be reached'

HEAD = '#include "trace.hpp"\n#define RES( f ) extern "C" void vf_##f\n'

OBJ = {  # name: (type, [(data pointer, constant, device may write)]); size -1: the buffer alone
    'array': ('A1< int >', [('a.data()', 0, 1, 'a.size()')]),
    'array2': ('A2< int >', [('a.data()', 0, 1, 'a.size()')]),
    'arrayOfConst': ('V1< int const >', [('a.data()', 1, 1, 'a.size()')]),
    'view': ('V1< int >', [('a.data()', 0, 1, 'a.size()')]),
    'view2': ('V2< int > const', [('a.data()', 0, 1, 'a.size()')]),
    'nested': ('A1< A1< int > >', [('a.data()', 0, 1, 'a.size()')]),
    'sorted': ('SA', [('a.data()', 0, 0, '-1')]),
    'sortedView': ('SAV', [('a.data()', 1, 0, '-1')]),
}
for n, t, c in (('arrays', 'AA', (0, 0, 0)), ('arraysView', 'AAV', (0, 0, 1)), ('arraysViewSizes', 'AAVs', (0, 1, 1)), ('arraysViewConst', 'AAVc', (1, 1, 1)), ('sets', 'AS', (0, 0, 0)), ('setsView', 'ASV', (0, 0, 1)), ('setsViewConst', 'ASVc', (1, 1, 1)),
                ('pattern', 'SP', (0, 0, 0)), ('patternView', 'SPV', (0, 0, 1)), ('patternViewConst', 'SPVc', (1, 1, 1)), ('matrix', 'CM', (0, 0, 0)), ('matrixView', 'CMV', (0, 0, 1)), ('matrixViewSizes', 'CMVs', (1, 1, 1)), ('matrixViewConst', 'CMVc', (1, 1, 1))):
    val = 'w.getColumns()' if n[0] in 'pm' else 'w.getValues()'
    v = 'a.toViewConst()' if not t[-1] in 'Vsc' else 'a'
    OBJ[n] = (t, [(val, c[0], 1, '-1'), ('w.getSizes()', c[1], 1, '-1'), ('w.getOffsets()', c[2], 0, '-1')] + ([('w.getEntries()', int(t == 'CMVc'), 1, '-1')] if n[0] == 'm' else []))
    OBJ[n] = OBJ[n] + ('auto const & w = %s;' % v,)


def moves(spaces):
    out = []
    for n, o in OBJ.items():
        pre = o[2] if len(o) > 2 else ''
        for sp in spaces:
            for touch in (0, 1):
                w = ''.join('vf_want_move( %s, int( MemorySpace::%s ), %s, %d );' % (d, sp, sz, touch and not c and (dev or sp != 'cuda')) for d, c, dev, sz in o[1])
                out.append('RES( %s_%s_%d )( %s & a ) { %s %s vf_begin(); a.move( MemorySpace::%s, %d ); vf_end(); }' % (n, sp, touch, o[0], pre, w, sp, touch))
        out.append('RES( %s_default )( %s & a ) { %s %s vf_begin(); a.move( MemorySpace::host ); vf_end(); }' % (n, o[0], pre, ''.join('vf_want_move( %s, int( MemorySpace::host ), %s, %d );' % (d, sz, not c) for d, c, dev, sz in o[1])))
    for n in ('array', 'array2', 'view', 'view2', 'arraysView', 'arraysViewSizes'):
        o = OBJ[n]
        out.append('RES( %s_touch )( %s & a, int s ) { %s %s vf_begin(); a.registerTouch( MemorySpace( s ) ); vf_end(); }' % (n, o[0], o[2] if len(o) > 2 else '', ''.join('vf_want_touch( %s, s );' % d for d, c, dev, sz in o[1])))
    return out


def writes():
    out = []
    for n in ('array', 'array2', 'view', 'view2'):
        out.append('RES( %s_zero )( %s & a ) { vf_want_here( a.data(), 1 ); vf_begin(); a.zero(); }' % (n, OBJ[n][0]))
    for n in ('matrix', 'matrixView', 'matrixViewSizes'):
        o = OBJ[n]
        out.append('RES( %s_zero )( %s & a ) { %s vf_want_here( w.getEntries(), 1 ); %s vf_begin(); a.zero(); }' % (n, o[0], o[2], ''.join('vf_want_here( %s, 0 ); vf_with( %s, w.getEntries() );' % (d, d) for d, c, dev, sz in o[1][:-1])))
    for r, call in (('', ''), ('Resource', 'r, ')):
        arg = ', camp::resources::Resource & r' if r else ''
        out.append('RES( memcpy%s )( V1< int > & d, V1< int const > & s%s ) { vf_want_here( d.data(), 1 ); vf_want_here( s.data(), 0 ); vf_begin(); LvArray::memcpy< 0, 0 >( %sd, {}, s, {} ); }' % (r, arg, call))
        out.append('RES( memcpy%sSlice )( ArrayView< int, 2, 1, I, Trace > & d, V1< int const > & s, I i%s ) { vf_want_here( d.data(), 1 ); vf_want_here( s.data(), 0 ); vf_begin(); LvArray::memcpy< 1, 0 >( %sd, { i }, s, {} ); }' % (r, arg, call))
        out.append('RES( memcpy%sFrom )( V1< int > & d, ArrayView< int const, 2, 1, I, Trace > & s, I i%s ) { vf_want_here( d.data(), 1 ); vf_want_here( s.data(), 0 ); vf_begin(); LvArray::memcpy< 0, 1 >( %sd, {}, s, { i } ); }' % (r, arg, call))
    return out


def changes():
    out = []
    # values are destroyed on the host
    out.append('RES( buffer_free )( Trace< Obj > & b, I n ) { vf_assume( n >= 0 ); vf_assume( n <= b.capacity() ); vf_want_home( b.data() ); vf_begin(); bufferManipulation::free( b, n ); }')
    for t, arg in (('int', ''), ('Obj', '')):
        out.append('RES( buffer_resize_%s )( Trace< %s > & b, I n, I m ) { vf_assume( n >= 0 ); vf_assume( m >= 0 ); vf_assume( n <= b.capacity() ); vf_begin(); bufferManipulation::resize( b, n, m ); vf_want_after( b.data(), m > 0 ); }' % (t, t))
        out.append('RES( buffer_resizeValue_%s )( Trace< %s > & b, I n, I m, %s const & x ) { vf_assume( n >= 0 ); vf_assume( m >= 0 ); vf_assume( n <= b.capacity() ); vf_begin(); bufferManipulation::resize( b, n, m, x ); vf_want_after( b.data(), m > 0 ); }' % (t, t, t))
        out.append('RES( array_free_%s )( A1< %s > & a ) { vf_assume( a.size() >= 0 ); vf_assume( a.capacity() >= a.size() ); vf_want_home( a.data() ); vf_begin(); a.~Array(); }' % (t, t))
        out.append('RES( array_resize_%s )( A1< %s > & a, I m ) { vf_assume( a.getSingleParameterResizeIndex() == 0 ); vf_assume( a.size() >= 0 ); vf_assume( a.capacity() >= a.size() ); vf_assume( m >= 0 ); vf_begin(); a.resize( m ); vf_want_after( a.data(), m > 0 ); }' % (t, t))
        for n, ty, d in (('arrays', 'ArrayOfArrays< %s, I, Trace >', '~ArrayOfArrays'),):
            ty = ty % t
            pre = 'auto const & w = a.toViewConst(); vf_assume( a.size() >= 0 );' + (' vf_want_home( w.getValues() ); vf_want_home( w.getSizes() ); vf_want_home( w.getOffsets() );' if t == 'Obj' else '')
            out.append('RES( %s_free_%s )( %s & a ) { %s vf_begin(); a.%s(); }' % (n, t, ty, pre, d))
            out.append('RES( %s_resize_%s )( %s & a, I m ) { vf_assume( m >= 0 ); vf_assume( m <= a.size() ); %s vf_begin(); a.resize( m ); }' % (n, t, ty, pre))
            out.append('RES( %s_setCapacity_%s )( %s & a, I i, I m ) { vf_assume( m >= 0 ); vf_assume( i >= 0 ); vf_assume( i < a.size() ); auto const & w = a.toViewConst(); I const * const o = w.getOffsets(); vf_assume( m != o[ i + 1 ] - o[ i ] ); vf_begin(); a.setCapacityOfArray( i, m ); '
                       'vf_want_after( a.toViewConst().getOffsets(), true ); }' % (n, t, ty))
    out.append('RES( matrix_free )( CRSMatrix< Obj, int, I, Trace > & a ) { auto const & w = a.toViewConst(); vf_assume( a.numRows() >= 0 ); vf_want_home( w.getEntries() ); vf_want_home( w.getSizes() ); vf_want_home( w.getOffsets() ); vf_begin(); a.~CRSMatrix(); }')
    out.append('RES( matrix_shrink )( CRSMatrix< Obj, int, I, Trace > & a, I m ) { auto const & w = a.toViewConst(); vf_assume( m >= 0 ); vf_assume( a.numRows() >= m ); vf_want_home( w.getEntries() ); vf_want_home( w.getSizes() ); vf_want_home( w.getOffsets() ); vf_begin(); a.resize( m, a.numColumns(), 0 ); }')
    return out


CHEAD = """#define VF_CHAI
#include "vf.hpp"
#include "ChaiBuffer.hpp"
using namespace LvArray;
using I = std::ptrdiff_t;
struct In { int v; In() noexcept; In( In const & ) noexcept; In( In && ) noexcept; ~In() noexcept; In & operator=( In const & ) noexcept; In & operator=( In && ) noexcept; void move( MemorySpace, bool ) noexcept; };
extern "C" { void vf_begin() noexcept; void vf_moved( void const *, void const *, int, bool, void const * ) noexcept; void vf_nested( void const *, long, int, bool, int ) noexcept; int vf_exec() noexcept; void vf_where( char const * ) noexcept; }
#define RES( f ) extern "C" void vf_##f
#define KEEP( b ) auto const & r0 = b.pointerRecord(); auto const * const r = &r0; vf_assume( r != nullptr ); bool const t1 = r0.m_touched[ 1 ], t2 = r0.m_touched[ 2 ]; int const was = int( r0.m_last_space ); auto const * const p = b.data(); I const cap = b.capacity(); vf_assume( cap >= 0 )
#define REC "the flags of the record change as asked"
#define STATE( a1, a2, last ) vf_prove( r0.m_touched[ 1 ] == ( a1 ), REC ); vf_prove( r0.m_touched[ 2 ] == ( a2 ), REC ); vf_prove( int( r0.m_last_space ) == ( last ), REC )
"""


def chai():
    out = []
    num = {'undefined': 0, 'host': 1, 'cuda': 2}
    for t, const_ in (('int', 0), ('int const', 1), ('In', 0)):
        tag = t.replace(' ', '')
        for sp, k in num.items():
            for touch in (0, 1):
                set_ = touch and not const_ and k
                st = 'if( cap != 0%s ) { STATE( %s, %s, %d ); } else { STATE( t1, t2, was ); }' % ('' if k else ' && false', 'true' if set_ == 1 and k == 1 else 't1', 'true' if set_ and k == 2 else 't2', k)
                out.append('RES( chai_move_%s_%s_%d )( ChaiBuffer< %s > & b ) { KEEP( b ); vf_begin(); b.move( MemorySpace::%s, %d ); vf_moved( p, r, %d, %s, b.data() ); %s }' % (tag, sp, touch, t, sp, touch, k, 'cap != 0' if k else 'false', st))
                if t != 'int const':
                    for prev in (0, 1, 2):
                        n = {1: 'before', 2: 'after'}.get(prev, 'never') if k and prev != k else 'never'
                        inner = 'vf_nested( %s, n, %d, %d, %d );' % ('p' if prev == 1 else 'b.data()', k, touch, {'never': 0, 'before': 1, 'after': 2}[n]) if t == 'In' else ''
                        if n != 'never' and inner:
                            inner = 'if( cap != 0 ) { %s } else { vf_nested( p, n, %d, %d, 0 ); }' % (inner, k, touch)
                        out.append('RES( chai_moveNested_%s_%s_%d_%d )( ChaiBuffer< %s > & b, I n ) { KEEP( b ); vf_assume( n >= 0 ); vf_assume( n <= cap ); vf_assume( was == %d ); vf_begin(); b.moveNested( MemorySpace::%s, n, %d ); vf_moved( p, r, %d, %s, b.data() ); %s %s }' % (
                            tag, sp, touch, prev, t, prev, sp, touch, k, 'cap != 0' if k else 'false', st, inner))
        for sp, k in num.items():
            set_ = not const_ and k
            st = 'if( cap != 0%s ) { STATE( %s, %s, %d ); } else { STATE( t1, t2, was ); }' % ('' if k else ' && false', 'true' if set_ and k == 1 else 't1', 'true' if set_ and k == 2 else 't2', k)
            out.append('RES( chai_copy_%s_%s )( ChaiBuffer< %s > & b ) { KEEP( b ); vf_assume( vf_exec() == %d ); vf_begin(); ChaiBuffer< %s > c( b ); vf_moved( p, r, %d, %s, c.data() ); vf_prove( b.data() == p, "copying does not change the original" ); %s }' % (tag, sp, t, k, t, k, 'cap != 0' if k else 'false', st))
            if t != 'int const':
                for prev in (1, 2):
                    n = (prev if k and prev != k else 0) if t == 'In' else 0
                    inner = 'if( cap != 0 ) { vf_nested( %s, n, %d, true, %d ); } else { vf_nested( p, n, %d, true, 0 ); }' % ('p' if prev == 1 else 'c.data()', k, n, k) if t == 'In' else ''
                    out.append('RES( chai_copyNested_%s_%s_%d )( ChaiBuffer< %s > & b, I n ) { KEEP( b ); vf_assume( n >= 0 ); vf_assume( n <= cap ); vf_assume( was == %d ); vf_assume( vf_exec() == %d ); vf_begin(); ChaiBuffer< %s > c( b, n ); vf_moved( p, r, %d, %s, c.data() ); %s %s }' % (
                        tag, sp, prev, t, prev, k, t, k, 'cap != 0' if k else 'false', st, inner))
            if k:
                out.append('RES( chai_touch_%s_%s )( ChaiBuffer< %s > & b ) { KEEP( b ); vf_begin(); b.registerTouch( MemorySpace::%s ); vf_moved( p, r, 0, false, b.data() ); STATE( %s, %s, %d ); }' % (tag, sp, t, sp, 'true' if k == 1 else 't1', 'true' if k == 2 else 't2', k))
            out.append('RES( chai_previous_%s_%s )( ChaiBuffer< %s > & b ) { KEEP( b ); vf_assume( was == %d ); vf_prove( b.getPreviousSpace() == MemorySpace::%s, "the space last used is reported" ); }' % (tag, sp, t, k, sp))
            out.append('RES( chai_none_%s_%s )() { ChaiBuffer< %s > b; vf_begin(); b.move( MemorySpace::%s, true ); vf_moved( nullptr, nullptr, 0, false, b.data() ); }' % (tag, sp, t, sp))
    for sp, k in (('host', 1), ('cuda', 2)):
        out.append('RES( chai_realloc_%s )( ChaiBuffer< int > & b, I m ) { vf_assume( m > 0 ); vf_assume( b.capacity() >= 0 ); vf_assume( &b.pointerRecord() != nullptr ); b.reallocate( 0, MemorySpace::%s, m ); vf_prove( b.pointerRecord().m_touched[ %d ], "new storage is recorded as modified where it was made" ); '
                   'vf_prove( int( b.pointerRecord().m_last_space ) == %d, "new storage is recorded as modified where it was made" ); }' % (sp, sp, k, k))
    return out


def h_chmove(ip, fn, st, ins, a):
    new = Poly.of(fresh('moved', 'base'))
    st.events.append(('chmove', a[1], a[2], a[3], new, ins))
    st.env[ins['id']] = new


def h_moved(ip, fn, st, ins, a):
    cond = st.decide(ip.asbool(st, a[3]))
    evs = [e for e in st.events[st.info['begin']:] if e[0] in ('chmove', 'gloop')]
    w, tr = fn.name[3:] if hasattr(fn, 'name') else '', lifecycle.trailtext(st)
    if any(e[0] == 'gloop' for e in evs):
        raise Unsupported('a loop of another form')
    if not cond:
        ip.rep.check(not evs, LAB_ONE, 'a move although there is nothing to move', w, tr)
        ip.rep.check(st.facts.proves(eq(a[4], a[0])), LAB_STALE, 'the pointer changes to %r although nothing was moved' % (a[4],), w, tr)
        return
    if len(evs) != 1:
        ip.rep.fail(LAB_ONE, 'the array manager is asked %d times' % len(evs), w, tr)
        return
    _, p, rec, space, new, i = evs[0]
    ip.rep.check(st.facts.proves(eq(p, a[0])) and st.facts.proves(eq(rec, a[1])), LAB_ONE, 'the array manager is asked to move %r of %r' % (p, rec), w, tr)
    ip.rep.check(st.facts.proves(eq(space, a[2])), LAB_SPACE, 'moved to space %r instead of %r' % (space, a[2]), w, tr)
    ip.rep.check(st.facts.proves(eq(a[4], new)), LAB_STALE, 'the buffer points at %r afterwards, not where its data is' % (a[4],), w, tr)


def h_inner(ip, fn, st, ins, a):
    st.events.append(('inner',) + ints(ip, st, a) + (ins,))


def h_exec(ip, fn, st, ins, a):
    if 'exec' not in st.info:
        st.info['exec'] = Poly.of(fresh('space'))
        st.facts.add(ge(st.info['exec'], 0))
        st.facts.add(le(st.info['exec'], 2))
    st.env[ins['id']] = st.info['exec']


def h_nested(ip, fn, st, ins, a):
    p, n, space, touch, when = a[0], a[1], a[2], ip.asint(st, a[3]), flag(a[4]) and a[4].cval()
    evs = st.events[st.info['begin']:]
    w, tr = fn.name[3:] if hasattr(fn, 'name') else '', lifecycle.trailtext(st)
    inner = [(k, e) for k, e in enumerate(evs) if e[0] == 'inner' or e[0] == 'loop' and any(x[0] == 'inner' for b, d in e[3] for x in b) or e[0] == 'gloop']
    outer = next((k for k, e in enumerate(evs) if e[0] == 'chmove'), None)
    if any(e[0] in ('inner', 'gloop') for k, e in inner):
        raise Unsupported('inner objects visited in another form')
    if not when:
        ip.rep.check(not inner, LAB_NEST, 'inner objects are moved although the outer one stays', w, tr)
        return
    if not inner and st.facts.proves(le(n, 0)):
        ip.rep.ok(LAB_NEST)
        return
    if len(inner) != 1:
        ip.rep.fail(LAB_NEST, 'inner objects are visited in %d passes' % len(inner), w, tr)
        return
    k, e = inner[0]
    kap, N = Poly.of(Atom.byid[e[1]]) if not isinstance(e[1], Poly) else e[1], e[2]
    ip.rep.check(st.facts.proves(eq(N, n)), LAB_NEST, '%r inner objects are visited, the buffer has %r' % (N, n), w, tr)
    for b, d in e[3]:
        x = [y for y in b if y[0] == 'inner']
        if len(x) != 1 or not st.facts.proves(eq(x[0][1], p + kap * 4)):
            ip.rep.fail(LAB_NEST, 'the objects moved are not the elements of the buffer, one by one: %r' % ([y[1] for y in x],), w, tr)
            return
        ip.rep.check(st.facts.proves(eq(x[0][2], space)) and flag(x[0][3]) == flag(touch), LAB_NEST, 'an inner object is moved to %r (modification %r)' % (x[0][2], x[0][3]), w, tr)
    ip.rep.check(outer is not None and (k < outer) == (when == 1), LAB_NEST, 'inner objects are moved %s the outer buffer' % ('after' if when == 1 else 'before'), w, tr)


def flag(p):
    return int(p.cval() != 0) if isinstance(p, Poly) and p.isconst() else None


def ints(ip, st, a):
    return tuple(ip.asint(st, x) for x in a)


def h_want(kind):
    def h(ip, fn, st, ins, a):
        st.info.setdefault('want', ())
        st.info['want'] += ((kind,) + ints(ip, st, a),)
    return h


def h_begin(ip, fn, st, ins, a):
    st.info['begin'] = len(st.events)


def origin(st, p):
    """the data pointer the buffer had at the beginning"""
    return next((d for n, d in st.info.get('now', ()) if n == p), p)


def stale(ip, st, p):
    b, _ = ip.base_of(p)
    gone = [d for n, d in st.info.get('now', ())]
    gone += [n for k, (n, d) in enumerate(st.info.get('now', ())) if d in [e for _, e in st.info['now'][k + 1:]]]
    return any(b is not None and ip.base_of(d)[0] == b and (p - d).isconst() or p == d for d in gone)


def fresh_use(ip, st, p, ins, what):
    if st.info.get('now') and not ip.silent:
        ip.rep.check(not stale(ip, st, p), LAB_STALE, '%s at %r, where the buffer was before it was moved' % (what, p), short(ins.get('loc')), lifecycle.trailtext(st))


def access(ip, st, p, size, write, ins):
    fresh_use(ip, st, p, ins, 'a write' if write else 'a read')


def h_ev(kind):
    def h(ip, fn, st, ins, a):
        a = ints(ip, st, a)
        a = (origin(st, a[0]),) + a[1:]
        st.events.append((kind,) + a + (ins,))
        if kind == 'move':
            new = Poly.of(fresh('moved', 'base'))
            st.info['now'] = st.info.get('now', ()) + ((new, a[0]),)
            st.env[ins['id']] = new
        elif ins['ty'] != 'void':
            st.env[ins['id']] = ip.result(st, ins, kind)
            if kind == 'space':
                st.facts.add(ge(st.env[ins['id']], 0))
                st.info['spaces'] = st.info.get('spaces', ()) + ((a[0], st.env[ins['id']]),)
    return h


def h_dead(ip, fn, st, ins, a):
    """a value is destroyed"""
    fresh_use(ip, st, a[0], ins, 'a value destroyed')
    want = [w[1] for w in st.info.get('want', ()) if w[0] == 'home']
    if ip.silent or not want or 'begin' not in st.info:
        return
    evs = [e for e in st.events[st.info['begin']:] if e[0] == 'move']
    b, _ = ip.base_of(a[0])
    w, tr = short(ins.get('loc')), lifecycle.trailtext(st)
    for d in want:
        ok = any(st.facts.proves(eq(e[1], d)) and e[2] == HOST and flag(e[4]) == 1 for e in evs)
        ip.rep.check(ok, LAB_HOME, 'a value is destroyed although %r was not moved to the host with a modification' % (d,), w, tr)


def goes_with(st, d):
    """the buffer whose space decides where d is used: the parts of one object are together"""
    return st.info.get('with', {}).get(d, d)


def h_with(ip, fn, st, ins, a):
    st.info['with'] = dict(st.info.get('with', {}), **{})
    st.info['with'][a[0]] = a[1]


def h_bytes(ip, fn, st, ins, a):
    st.events.append(('bytes',) + tuple(a) + (ins,))
    for p in [x for x in a if isinstance(x, Poly) and not x.isconst()]:
        fresh_use(ip, st, p, ins, 'a copy or fill')
    if ins['ty'] != 'void' and ins.get('id') is not None:
        st.env[ins['id']] = ip.result(st, ins)
    if 'begin' not in st.info or ip.silent:
        return
    w, tr = short(ins.get('loc')), lifecycle.trailtext(st)
    evs = [e for e in st.events[st.info['begin']:] if e[0] in ('move', 'touch')]
    for k in st.info.get('want', ()):
        if k[0] != 'here':
            continue
        d, touch = k[1], flag(k[2])
        last = [e for e in evs if e[0] == 'move' and st.facts.proves(eq(e[1], d))]
        lab = LAB_BEFORE if touch else LAB_SRC
        if not last:
            ip.rep.fail(lab, '%r was not moved to where it was last used' % (d,), w, tr)
            continue
        if not any(st.facts.proves(eq(s, last[-1][2])) for q, s in st.info.get('spaces', ()) if st.facts.proves(eq(q, goes_with(st, d)))):
            ip.rep.fail(LAB_SPACE, '%r is moved to %r, not to the space it was last used in' % (d, last[-1][2]), w, tr)
        else:
            ip.rep.ok(LAB_SPACE)
        if len(last) > 1 or flag(last[-1][4]) not in (0, 1):
            raise Unsupported('several moves of one buffer')
        ip.rep.check(flag(last[-1][4]) == touch, lab, '%r is moved %s recording a modification' % (d, 'without' if touch else 'with'), w, tr)


def h_end(ip, fn, st, ins, a):
    want = list(st.info.get('want', ()))
    evs = [e for e in st.events[st.info['begin']:] if e[0] in ('move', 'touch', 'loop', 'gloop', 'realloc', 'free')]
    w = fn.name[3:] if hasattr(fn, 'name') else short(ins.get('loc'))
    tr = lifecycle.trailtext(st)
    if any(e[0] in ('loop', 'gloop') for e in evs):
        raise Unsupported('a loop in an operation on a fixed number of buffers')
    for k in want:
        kind = k[0]
        lab = LAB_ONE if kind == 'move' else LAB_REG
        hit = [e for e in evs if e[0] == kind and st.facts.proves(eq(e[1], k[1]))]
        if len(hit) != 1:
            ip.rep.fail(lab, 'the buffer at %r is asked %d times' % (k[1], len(hit)), w, tr)
            continue
        ip.rep.ok(lab)
        e = hit[0]
        at = short(e[-1].get('loc'))
        ip.rep.check(st.facts.proves(eq(e[2], k[2])), LAB_SPACE if kind == 'move' else LAB_REG, 'the buffer at %r is sent to space %r instead of %r' % (k[1], e[2], k[2]), at, tr)
        if kind == 'move':
            ip.rep.check(st.facts.proves(eq(e[3], k[3])), LAB_ONE, 'the move covers %r values, the object has %r' % (e[3], k[3]), at, tr)
            ip.rep.check(flag(e[4]) == flag(k[4]), LAB_TOUCH, 'the move of the buffer at %r %s a modification' % (k[1], 'records' if flag(e[4]) else 'does not record'), at, tr)
        evs.remove(e)
    for e in evs:
        if e[0] == 'move' or e[0] == 'touch':
            ip.rep.fail(LAB_ONE, 'something else is asked as well: %r' % (e[1],), short(e[-1].get('loc')), tr)


def h_after(ip, fn, st, ins, a):
    cond = ip.asbool(st, a[1])
    s = st.copy()
    s.facts.add(cond)
    if s.facts.dead or s.facts.contradictory():
        return
    evs = [e for e in st.events[st.info['begin']:] if e[0] in ('touch', 'move', 'loop', 'gloop')]
    d = origin(st, a[0])
    ok = any(e[0] == 'touch' and s.facts.proves(eq(e[1], d)) and e[2] == HOST or e[0] == 'move' and s.facts.proves(eq(e[1], d)) and e[2] == HOST and flag(e[4]) == 1 for e in evs)
    ip.rep.check(ok, LAB_AFTER, 'no modification of %r is recorded on the host' % (d,), fn.name[3:] if hasattr(fn, 'name') else '', lifecycle.trailtext(st))


def h_realloc(ip, fn, st, ins, a):
    st.events.append(('realloc',) + tuple(a) + (ins,))
    st.env[ins['id']] = Poly.of(fresh('heap', 'base'))


HANDLERS = [
    (r'^vf_t_realloc$', h_realloc), (r'^vf_t_free$', h_ev('free')), (r'^vf_t_move$', h_ev('move')), (r'^vf_t_touch$', h_ev('touch')), (r'^vf_t_space$', h_ev('space')),
    (r'^vf_want_move$', h_want('move')), (r'^vf_want_touch$', h_want('touch')), (r'^vf_want_here$', h_want('here')), (r'^vf_want_home$', h_want('home')),
    (r'^vf_want_after$', h_after), (r'^vf_with$', h_with), (r'^vf_begin$', h_begin), (r'^vf_end$', h_end),
    (r'umpireInterface::(memset|copy)\(', h_bytes), (r'Obj::~Obj\(', h_dead),
]


CHAI = [(r'ArrayManager::move\(', h_chmove), (r'ArrayManager::getExecutionSpace\(', h_exec), (r'^vf_exec$', h_exec), (r'^vf_moved$', h_moved), (r'^vf_nested$', h_nested), (r'^vf_begin$', h_begin), (r'In::move\(', h_inner)] + heap.CHAI


def reached(ip, f, outs, rep):
    """zero and memcpy: on every path that returns the bytes were written, unless there was nothing to write"""
    for kind, st, v in outs:
        if kind == 'ret' and any(k[0] == 'here' for k in st.info.get('want', ())):
            evs = st.events[st.info.get('begin', 0):]
            if not any(e[0] == 'bytes' for e in evs):
                rep.ok('nothing is written, or after the checks above')


def run(ctx):
    hs = HANDLERS + lifecycle.HANDLERS
    mv, dv = HEAD + '\n'.join(moves(['host'])), HEAD + '\n'.join(moves(['host', 'cuda']))
    wr, ch = HEAD + '\n'.join(writes()), HEAD + '\n'.join(changes())
    cuda = ('NDEBUG', 'LVARRAY_USE_CUDA')
    ump = ('NDEBUG', 'LVARRAY_USE_UMPIRE')
    jobs = [('c11m', ('NDEBUG',), mv), ('c11d', cuda, dv), ('c11w', ('NDEBUG',), wr), ('c11u', ump, wr), ('c11c', ('NDEBUG',), ch)]
    ct = CHEAD + '\n'.join(chai())
    cd = cuda + ('LVARRAY_USE_CHAI',)
    build.prefetch([('c11b', cd, (), (), ct)] + [(n, d, (), (), t) for n, d, t in jobs])
    for n, d, t in jobs:
        ctx.drive(n, text=t, defs=d, handlers=hs, finish=reached, opts={'access': access})
    ctx.drive('c11b', text=ct, defs=cd, handlers=CHAI + heap.HANDLERS + lifecycle.HANDLERS)
