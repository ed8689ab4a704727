"""Views and slices refer to the storage, extents, sizes and offsets of what they were made from."""
import itertools
import re
from engine import build, lifecycle, probe
from engine.interp import short
from engine.terms import *
from checks.C17 import UNROLL

TECHNIQUE = 'abstract interpretation of LLVM IR: field-by-field equality of every conversion result, effect analysis (no allocation, release, value access) of conversions and of view copies, moves and destruction'
LEVEL_NOTE = 'Every conversion, copy, move and assignment of every view type from an object with arbitrary contents. Ranks one to four; sequential host configuration. Buffers are opaque (C25 covers the concrete ones).'
EXPLANATION = '''Each conversion is compiled for an object of which nothing is known and the result is compared with the object through the public accessors: the pointers to values, sizes, offsets and entries, the
extents, strides and counts and capacities are proven equal for every content. No path may allocate, release, move or touch a buffer, nor read or write a value; creating, copying, assigning and destroying views included.'''
ASSUMPTIONS = ['the object converted is any object of its type; distinct buffers do not overlap']

HEAD = '''#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "probe.hpp"
using namespace LvArray;
extern "C" { void vf_begin() noexcept; void vf_end() noexcept; }
#define B ProbeBuffer
#define EQ( a, b, l ) vf_prove( ( a ) == ( b ), l )
template< typename A > inline void const * at0( A const & a, std::integral_constant< int, 1 > ) { return &a( 0 ); }
template< typename A > inline void const * at0( A const & a, std::integral_constant< int, 2 > ) { return &a( 0, 0 ); }
template< typename A > inline void const * at0( A const & a, std::integral_constant< int, 3 > ) { return &a( 0, 0, 0 ); }
template< typename A > inline void const * at0( A const & a, std::integral_constant< int, 4 > ) { return &a( 0, 0, 0, 0 ); }
template< typename A > inline void const * at0( A const & a ) { return at0( a, std::integral_constant< int, A::NDIM >() ); }
template< typename A, typename C > inline void sameArray( A const & a, C const & c )
{
  static_assert( A::NDIM == C::NDIM && A::USD == C::USD, "" );
  EQ( (void const *) a.data(), (void const *) c.data(), "the values are the same storage" );
  for( int k = 0; k < A::NDIM; ++k ) { EQ( a.dims()[ k ], c.dims()[ k ], "the extents agree" ); EQ( a.strides()[ k ], c.strides()[ k ], "the strides agree" ); }
  EQ( a.dataBuffer().capacity(), c.dataBuffer().capacity(), "the capacity agrees" );
  EQ( a.getSingleParameterResizeIndex(), c.getSingleParameterResizeIndex(), "the resize dimension agrees" );
}
template< typename S > inline long stride( S const & s, int k, ... ) { return s.strides()[ k ]; }
template< typename S > inline auto stride( S const & s, int k, int ) -> decltype( s.stride( k ) ) { return s.stride( k ); }
template< typename S, typename C > inline void sameSlice( S const & s, C const & c )
{
  EQ( at0( s ), at0( c ), "the values are the same storage" );
  for( int k = 0; k < C::NDIM; ++k ) { EQ( s.size( k ), c.size( k ), "the extents agree" ); EQ( stride( s, k, 0 ), stride( c, k, 0 ), "the strides agree" ); }
}
template< typename A, typename C > inline void sameSorted( A const & a, C const & c )
{ EQ( (void const *) a.data(), (void const *) c.data(), "the values are the same storage" ); EQ( a.size(), c.size(), "the sizes agree" ); }
template< typename A, typename C > inline void sameRaw( A const & a, C const & c )
{
  EQ( (void const *) a.getOffsets(), (void const *) c.getOffsets(), "the offsets are the same storage" );
  EQ( (void const *) a.getSizes(), (void const *) c.getSizes(), "the sizes are the same storage" );
}
template< typename A, typename C > inline void sameAoA( A const & a, C const & c, long i )
{
  EQ( a.size(), c.size(), "the number of arrays agrees" );
  EQ( a.capacity(), c.capacity(), "the capacity agrees" ); EQ( a.valueCapacity(), c.valueCapacity(), "the value capacity agrees" );
  EQ( (void const *) &a[ i ][ 0 ], (void const *) &c[ i ][ 0 ], "the values are the same storage" );
  EQ( a[ i ].size(), c[ i ].size(), "the sizes are the same storage" );
}
template< typename A, typename C > inline void sameMatrix( A const & a, C const & c, long i )
{
  EQ( a.numRows(), c.numRows(), "the number of rows agrees" ); EQ( a.numColumns(), c.numColumns(), "the number of columns agrees" );
  EQ( a.nonZeroCapacity(), c.nonZeroCapacity(), "the capacity agrees" );
  EQ( (void const *) &a.getColumns( i )[ 0 ], (void const *) &c.getColumns( i )[ 0 ], "the columns are the same storage" );
  EQ( a.getColumns( i ).size(), c.getColumns( i ).size(), "the sizes are the same storage" );
  EQ( (void const *) a.getOffsets(), (void const *) c.getOffsets(), "the offsets are the same storage" );
  EQ( a.numNonZeros( i ), c.numNonZeros( i ), "the sizes agree" );
}
template< typename A, typename C > inline void sameCRS( A const & a, C const & c, long i )
{
  sameMatrix( a, c, i );
  EQ( (void const *) a.getEntries(), (void const *) c.getEntries(), "the entries are the same storage" );
  EQ( (void const *) &a.getEntries( i )[ 0 ], (void const *) &c.getEntries( i )[ 0 ], "the entries of a row are the same storage" );
  EQ( a.getEntries( i ).size(), c.getEntries( i ).size(), "the sizes are the same storage" );
}
'''


def gen():
    src = []

    def fn(name, params, body):
        src.append('extern "C" void vf_%s( %s )\n{ %s }' % (name, params, body))

    def members(tag, V, same, extra='', par=''):
        """copy, move, assignment and destruction of a view type"""
        P = '%s & o%s' % (V, par)
        fn(tag + '_copy', P, 'vf_begin(); { %s v( o ); vf_end(); %s( v, o%s ); vf_begin(); } vf_end();' % (V, same, extra))
        fn(tag + '_assign', P + ', %s & q' % V, 'vf_begin(); q = o; vf_end(); %s( q, o%s );' % (same, extra))
        fn(tag + '_move', P, 'vf_begin(); %s w( o ); %s v( std::move( w ) ); vf_end(); %s( v, o%s );' % (V, V, same, extra))
        fn(tag + '_massign', P + ', %s & q' % V, 'vf_begin(); %s w( o ); q = std::move( w ); vf_end(); %s( q, o%s );' % (V, same, extra))
        fn(tag + '_selfassign', P, 'vf_begin(); %s w( o ); w = static_cast< %s const & >( w ); vf_end(); %s( w, o%s );' % (V, V, same, extra))

    def conv(tag, O, same, cs, extra='', par='', const=True):
        for nm, e in cs:
            for c in ('', 'const '):
                fn('%s_%s%s' % (tag, nm, c and '_c'), '%s %s& o%s' % (O, c, par), 'vf_begin(); { %s; vf_end(); %s( v, o%s ); vf_begin(); } vf_end();' % (e, same, extra))

    for nd in (1, 2, 3, 4):
        for perm in itertools.permutations(range(nd)):
            if nd == 4 and perm not in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)) or nd == 3 and perm not in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
                continue
            tag = ''.join(map(str, perm))
            usd = perm[-1]
            X = '%d, %d, long, B' % (nd, usd)
            V, C = 'ArrayView< int, %s >' % X, 'ArrayView< int const, %s >' % X
            A = 'Array< int, %d, camp::idx_seq< %s >, long, B >' % (nd, ', '.join(map(str, perm)))
            S, T = 'ArraySlice< int, %d, %d, long >' % (nd, usd), 'ArraySlice< int const, %d, %d, long >' % (nd, usd)
            views = [('view', 'auto v = o.toView()'), ('viewc', 'auto v = o.toViewConst()'), ('nested', 'auto v = o.toNestedView()'), ('nestedc', 'auto v = o.toNestedViewConst()'),
                     ('impc', '%s v = o' % C)]
            conv('array%s' % tag, A, 'sameArray', views + [('ref', '%s const & v = o' % V), ('cpy', '%s v( static_cast< %s const & >( o ) )' % (V, V))])
            conv('av%s' % tag, V, 'sameArray', views)
            conv('avc%s' % tag, C, 'sameArray', [x for x in views if x[0] != 'impc'])
            for t, O in (('array', A), ('av', V), ('avc', C)):
                conv('%s%s' % (t, tag), O, 'sameSlice', [('slice', 'auto v = o.toSlice()'), ('slicec', 'auto v = o.toSliceConst()'), ('impslice', '%s v = o' % (T if t == 'avc' else S))] + ([('impslicec', '%s v = o' % T)] if t != 'avc' else []))
            for t, O in (('s', S), ('sc', T)):
                conv('%s%s' % (t, tag), O, 'sameSlice', [('slicec', 'auto v = o.toSliceConst()'), ('impc', '%s v = o' % T), ('copy', '%s v( o )' % O)])
            members('av%s' % tag, V, 'sameArray')
            members('avc%s' % tag, C, 'sameArray')
            # what one writes the other reads
            ix = ', '.join('i%d' % k for k in range(nd))
            pi = ', '.join('long i%d' % k for k in range(nd))
            fn('rw%s' % tag, '%s & o, %s, int x' % (A, pi), 'auto v = o.toView(); auto s = o.toSlice(); v( %s ) = x; EQ( (long) &o( %s ), (long) &v( %s ), "a view reaches the same element" ); EQ( (long) &s( %s ), (long) &o( %s ), "a slice reaches the same element" );' % ((ix,) * 5))
            # reinterpretation with another element size
            last = 'i%d' % usd
            for big, small, f in (('int[ 2 ]', 'int', 2), ('int[ 4 ]', 'int', 4), ('long', 'short', 4)):
                k = '%s_%s' % (tag, f if big != 'long' else 'l')
                src.append('namespace { using Big%s = %s; using Sm%s = %s; }' % (k, big, k, small))
                jx = ', '.join('i%d * %d' % (q, f) if q == usd else 'i%d' % q for q in range(nd))
                unit = 'vf_assume( o.strides()[ %d ] == 1 ); ' % usd + ''.join('vf_assume( o.strides()[ %d ] >= 1 ); ' % q for q in range(nd) if q != usd) + ''.join('vf_assume( o.dims()[ %d ] >= 0 ); ' % q for q in range(nd)) + 'vf_assume( o.dataBuffer().capacity() >= 0 ); '
                chk = 'EQ( (void const *) y.data(), (void const *) o.data(), "the values are the same storage" ); '
                for q in range(nd):
                    rel = 'y.dims()[ %d ] %s' % (q, '* %d == o.dims()[ %d ]' % (f, q) if q == usd else '== o.dims()[ %d ]' % q)
                    chk += 'vf_prove( %s, "the extents are converted" ); ' % rel
                chk += ''.join('vf_prove( y.strides()[ %d ]%s == o.strides()[ %d ], "the strides are converted" ); ' % (q, '' if q == usd else ' * %d' % f, q) for q in range(nd))
                fn('big' + k, 'ArrayView< Sm%s, %s > & o, %s' % (k, X, pi), unit + 'vf_begin(); ArrayView< Big%s, %s > y( o ); vf_end(); %s' % (k, X, chk))
                chk2 = 'EQ( (void const *) y.data(), (void const *) o.data(), "the values are the same storage" ); '
                for q in range(nd):
                    rel = 'y.dims()[ %d ] == o.dims()[ %d ]%s' % (q, q, ' * %d' % f if q == usd else '')
                    chk2 += 'vf_prove( %s, "the extents are converted" ); ' % rel
                chk2 += 'EQ( (long) &y( %s ), (long) &o( %s ), "the same element is reached" );' % (jx, ix)
                fn('small' + k, 'ArrayView< Big%s, %s > & o, %s' % (k, X, pi), unit + 'vf_begin(); ArrayView< Sm%s, %s > y( o ); vf_end(); %s' % (k, X, chk2))
    # an array of arrays of arrays: inner objects are the very same
    fn('nest', 'Array< Array< int, 1, camp::idx_seq< 0 >, long, B >, 1, camp::idx_seq< 0 >, long, B > & o', 'vf_begin(); auto v = o.toNestedView(); auto w = o.toNestedViewConst(); vf_end(); sameArray( v, o ); sameArray( w, o );')
    # sorted arrays
    SV, SC, SO = 'SortedArrayView< int, long, B >', 'SortedArrayView< int const, long, B >', 'SortedArray< int, long, B >'
    cs = [('view', 'auto v = o.toView()'), ('viewc', 'auto v = o.toViewConst()')]
    for t, O in (('sorted', SO), ('sv', SV), ('svc', SC)):
        conv(t, O, 'sameSorted', cs)
        conv(t, O, 'sameSortedSlice', [('slice', 'auto v = o.toSlice()')])
    members('svc', SC, 'sameSorted')
    # arrays of arrays
    i = ', long i'
    own = 'ArrayOfArrays< int, long, B >'
    vt = [('v', 'ArrayOfArraysView< int, long const, false, B >'), ('vs', 'ArrayOfArraysView< int, long const, true, B >'), ('vc', 'ArrayOfArraysView< int const, long const, true, B >')]
    cs = [('view', 'auto v = o.toView()'), ('views', 'auto v = o.toViewConstSizes()'), ('viewc', 'auto v = o.toViewConst()')]
    for t, O in [('o', own)] + vt:
        conv('aoa' + t, O, 'sameAoA', cs, ', i', i)
        if t != 'o':
            conv('aoaraw' + t, O, 'sameRaw', cs)
    for t, O in vt:
        members('aoa' + t, O, 'sameAoA', ', i', i)
        members('aoaraw' + t, O, 'sameRaw')
    own = 'ArrayOfSets< int, long, B >'
    vt = [('v', 'ArrayOfSetsView< int, long const, B >'), ('vc', 'ArrayOfSetsView< int const, long const, B >')]
    cs = [('view', 'auto v = o.toView()'), ('viewc', 'auto v = o.toViewConst()'), ('aoa', 'auto v = o.toArrayOfArraysView()')]
    for t, O in [('o', own)] + vt:
        conv('aos' + t, O, 'sameAoA', cs, ', i', i)
    for t, O in vt:
        members('aos' + t, O, 'sameAoA', ', i', i)
    own = 'SparsityPattern< int, long, B >'
    vt = [('v', 'SparsityPatternView< int, long const, B >'), ('vc', 'SparsityPatternView< int const, long const, B >')]
    cs = [('view', 'auto v = o.toView()'), ('viewc', 'auto v = o.toViewConst()')]
    for t, O in [('o', own)] + vt:
        conv('sp' + t, O, 'sameMatrix', cs, ', i', i)
    for t, O in vt:
        members('sp' + t, O, 'sameMatrix', ', i', i)
    own = 'CRSMatrix< double, int, long, B >'
    vt = [('v', 'CRSMatrixView< double, int, long const, B >'), ('vs', 'CRSMatrixView< double, int const, long const, B >'), ('vc', 'CRSMatrixView< double const, int const, long const, B >')]
    cs = [('view', 'auto v = o.toView()'), ('views', 'auto v = o.toViewConstSizes()'), ('viewc', 'auto v = o.toViewConst()')]
    for t, O in [('o', own)] + vt:
        conv('crs' + t, O, 'sameCRS', cs, ', i', i)
        conv('crs' + t, O, 'sameMatrix', [('pat', 'auto v = o.toSparsityPatternView()')], ', i', i)
    for t, O in vt:
        members('crs' + t, O, 'sameCRS', ', i', i)
    return src


HEAD += '''template< typename S, typename C > inline void sameSortedSlice( S const & s, C const & c )
{
  EQ( (void const *) &s[ 0 ], (void const *) c.data(), "the values are the same storage" ); EQ( s.size(), c.size(), "the sizes agree" );
}
'''

LAB = 'conversions and view copies leave the storage alone'


def run(ctx):
    def h_begin(ip, f, st, ins, a):
        st.info['conv'] = True

    def h_end(ip, f, st, ins, a):
        st.info['conv'] = False

    def access(ip, st, p, size, write, ins):
        if not st.info.get('conv') or ip.silent:
            return
        b, off = ip.base_of(p)
        if b is None:
            ip.rep.check(False, LAB, 'a value is %s' % ('written' if write else 'read'), short(ins.get('loc')), lifecycle.trailtext(st))

    def fin(ip, f, outs, rep):
        for kind, st, v in outs:
            if kind == 'ret':
                ev = [e for e in st.events if e[0] in ('realloc', 'free', 'move', 'movenested', 'touch')]
                rep.check(not ev, LAB, 'a buffer is asked to %s' % (ev and ev[0][0]), f[3:] + ' ' + (short(ev[0][-1].get('loc')) if ev else ''), lifecycle.trailtext(st))

    hs = [(r'^vf_begin$', h_begin), (r'^vf_end$', h_end)] + probe.HANDLERS + lifecycle.HANDLERS
    src = gen()
    decl = [x for x in src if x.startswith('namespace')]
    fns = [x for x in src if not x.startswith('namespace')]
    texts = [HEAD + '\n'.join(decl + fns[i:i + 80]) for i in range(0, len(fns), 80)]
    build.prefetch([('c10', ('NDEBUG',), UNROLL, (), t) for t in texts])
    for t in texts:
        ctx.drive('c10', text=t, handlers=hs, lvir_args=UNROLL, opts={'access': access}, finish=fin)
