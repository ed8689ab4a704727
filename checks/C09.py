"""Read-only views stay read-only and views never outlive temporaries: witnesses decided by the type checker."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from engine import build
from .C18 import errors_by_line, compile_

TECHNIQUE = 'compile-fail / compile-pass witnesses decided by the type checker: for each view type and each mutating expression, and for each conversion of a temporary'
LEVEL_NOTE = '''The type checker decides each witness. Every public member of every view and slice type that writes a value, changes a size or hands out a pointer or reference through which one could, is tried on each read-only form;
every view or slice conversion is tried on a temporary of each owning type. A future member that opens a new way is outside the enumerated set.'''
EXPLANATION = '''For each container: the read-only forms (toViewConst, toViewConstSizes, toNestedViewConst, toSliceConst, implicit conversions, operator[], iteration pointers) are obtained and each expression that writes a value, grows, shrinks
or rekeys is applied to them; each has to be rejected by the compiler, while the same expression has to compile on the form that grants the right (which shows that it is rejected for that reason). Each conversion to a view
or slice is tried on a temporary (rejected) and on an lvalue (accepted). Conversions that drop the read-only form again have to be rejected too.'''
ASSUMPTIONS = ['clang++ decides; g++ agrees on the well-formedness of the witnesses']

HEAD = '''#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "memcpy.hpp"
#include "%(buf)s.hpp"
using namespace LvArray;
using I = std::ptrdiff_t;
template< typename T > using B = %(buf)s< T >;
template< typename T > using A1 = Array< T, 1, camp::idx_seq< 0 >, I, B >;
template< typename T > using A2 = Array< T, 2, camp::idx_seq< 0, 1 >, I, B >;
template< typename T > using P2 = Array< T, 2, camp::idx_seq< 1, 0 >, I, B >;
template< typename T > using A3 = Array< T, 3, camp::idx_seq< 1, 2, 0 >, I, B >;
template< typename T > using V1 = ArrayView< T, 1, 0, I, B >;
template< typename T > using V2 = ArrayView< T, 2, 1, I, B >;
template< typename T > using S1 = ArraySlice< T, 1, 0, I >;
template< typename T > using S1s = ArraySlice< T, 1, -1, I >;
template< typename T > using S2 = ArraySlice< T, 2, 1, I >;
template< typename T > using SA = SortedArray< T, I, B >;
template< typename T > using SV = SortedArrayView< T const, I, B >;
template< typename T > using AoA = ArrayOfArrays< T, I, B >;
template< typename T > using AoS = ArrayOfSets< T, I, B >;
template< typename T > using AV = ArrayOfArraysView< T, I const, false, B >;
template< typename T > using AVs = ArrayOfArraysView< T, I const, true, B >;
template< typename T > using AVc = ArrayOfArraysView< T const, I const, true, B >;
template< typename T > using OV = ArrayOfSetsView< T, I const, B >;
template< typename T > using OVc = ArrayOfSetsView< T const, I const, B >;
using SP = SparsityPattern< int, I, B >;
using SPV = SparsityPatternView< int, I const, B >;
using SPVc = SparsityPatternView< int const, I const, B >;
using CM = CRSMatrix< double, int, I, B >;
using CV = CRSMatrixView< double, int, I const, B >;
using CVs = CRSMatrixView< double, int const, I const, B >;
using CVc = CRSMatrixView< double const, int const, I const, B >;
template< typename T > T make();
template< typename T > void take( T );
template< typename T > struct Is { template< typename U > Is( U const & ) { static_assert( std::is_same< T, U >::value, "wrong type" ); } };
struct Pol {};
'''

OK, NO = [], []


def good(where, decl, expr):
    OK.append((where, decl, expr))


def bad(where, decl, expr):
    NO.append((where, decl, expr))


def forms(where, exprs, allow, deny):
    """each expression (with @ for the object) compiles on the forms in allow and is rejected on those in deny"""
    for e in exprs:
        for d in allow:
            good(where, d + ' & x', e.replace('@', 'x'))
        for d in deny:
            bad(where, d + ' & x', e.replace('@', 'x'))


def build_tables():
    del OK[:], NO[:]
    for T, val in (('int', '1'), ('std::string', '"a"')):
        w = [s % val for s in ('@[ 0 ] = %s;', '@( 0 ) = %s;', '*@.data() = %s;', '*@.begin() = %s;', '*( @.end() - 1 ) = %s;', '@.front() = %s;', '@.back() = %s;')]
        num = ['@.zero();'] if T == 'int' else []
        t = dict(T=T)
        V1, V1c = 'V1< %s > const' % T, 'V1< %s const > const' % T
        forms('src/ArrayView.hpp', w + ['@.template setValues< Pol >( %s );' % val, '%s & r = @[ 0 ];' % T, '%s * p = @.data();' % T, 'auto s = @.toSlice(); s[ 0 ] = %s;' % val, 'S1< %s > s = @;' % T,
                                       'auto v = @.toView(); v[ 0 ] = %s;' % val, 'V1< %s > v( @ );' % T, 'V1< %s > v = @;' % T, 'V1< %s > y; y = @;' % T, 'V1< %s > y( @.dimsArray(), @.stridesArray(), 0, @.dataBuffer() );' % T] + num, [V1], [V1c])
        forms('src/ArrayView.hpp', ['for( %s & r : @ ) {}' % T], [V1], [V1c])
        V2, V2c = 'V2< %s > const' % T, 'V2< %s const > const' % T
        forms('src/ArrayView.hpp', ['@[ 0 ][ 0 ] = %s;' % val, '@( 0, 0 ) = %s;' % val, 'S1< %s > s = @[ 0 ];' % T, 'S2< %s > s = @;' % T, 'S2< %s > s = @.toSlice();' % T, '@[ 0 ].begin()[ 0 ] = %s;' % val, '*@[ 0 ].dataIfContiguous() = %s;' % val], [V2], [V2c])
        # read-only conversions
        for o, src in (('A1< %s >' % T, 'src/Array.hpp'), ('V1< %s >' % T, 'src/ArrayView.hpp')):
            for c in ('toViewConst()', 'toSliceConst()', 'toNestedViewConst()'):
                good(src, '%s const & x' % o, 'auto v = x.%s; take( v[ 0 ] );' % c)
                bad(src, '%s & x' % o, 'auto v = x.%s; v[ 0 ] = %s;' % (c, val))
                bad(src, '%s & x' % o, 'auto v = x.%s; *v.begin() = %s;' % (c, val))
                bad(src, '%s & x' % o, 'auto v = x.%s; v( 0 ) = %s;' % (c, val))
            for m in ('toView()', 'toSlice()', 'toNestedView()'):
                good(src, '%s const & x' % o, 'auto v = x.%s; v[ 0 ] = %s;' % (m, val))
        # slices
        s1, s1c = 'S1< %s > const' % T, 'S1< %s const > const' % T
        forms('src/ArraySlice.hpp', ['@[ 0 ] = %s;' % val, '@( 0 ) = %s;' % val, '*@.begin() = %s;' % val, '*( @.end() - 1 ) = %s;' % val, '*@.dataIfContiguous() = %s;' % val, '%s * p = @;' % T, 'S1< %s > y = @;' % T, 'S1< %s > y( @ );' % T], [s1], [s1c])
        good('src/ArraySlice.hpp', s1 + ' & x', 'S1< %s const > y = x; take( y[ 0 ] );' % T)
        bad('src/ArraySlice.hpp', s1 + ' & x', 'auto y = x.toSliceConst(); y[ 0 ] = %s;' % val)
        s2, s2c = 'S2< %s > const' % T, 'S2< %s const > const' % T
        forms('src/ArraySlice.hpp', ['@[ 0 ][ 0 ] = %s;' % val, '@( 0, 0 ) = %s;' % val, 'S1< %s > y = @[ 0 ];' % T, 'auto y = @[ 0 ]; y[ 0 ] = %s;' % val], [s2], [s2c])
        bad('src/ArraySlice.hpp', s2 + ' & x', 'x.toSliceConst()( 0, 0 ) = %s;' % val)
        # an array reached through a reference to const cannot be resized
        for o in ('A1< %s >' % T,):
            forms('src/Array.hpp', ['@.resize( 3 );', '@.resize( 1, make< I const * >() );', '@.resizeDefault( 3, %s );' % (T + '{}'), '@.reserve( 3 );', '@.clear();', '@.emplace_back( %s );' % val, '@.emplace( 0, %s );' % val,
                                   '@.insert( 0, @.begin(), @.end() );', '@.pop_back();', '@.erase( 0 );', '@.template resizeDimension< 0 >( 3 );', '@.setSingleParameterResizeIndex( 0 );', '@ = make< %s >();' % o], [o], [o + ' const'])
        for e in ('x.resize( 3 );', 'x.reserve( 3 );', 'x.clear();', 'x.emplace_back( %s );' % val, 'x.pop_back();', 'x.erase( 0 );', 'x.emplace( 0, %s );' % val, 'x.resizeDefault( 3, %s{} );' % T):
            for d in (V1, 'V1< %s >' % T, V1c):
                bad('src/ArrayView.hpp', d + ' & x', e)
        bad('src/ArrayView.hpp', V2 + ' & x', 'x.dims()[ 0 ] = 3;')
        bad('src/ArrayView.hpp', V2 + ' & x', 'x.strides()[ 0 ] = 3;')
        bad('src/ArrayView.hpp', V2 + ' & x', 'x.dimsArray()[ 0 ] = 3;')
        bad('src/ArrayView.hpp', V2 + ' & x', 'x.stridesArray()[ 0 ] = 3;')
        bad('src/ArrayView.hpp', 'V2< %s > & x' % T, 'x.dims()[ 0 ] = 3;')
        bad('src/ArrayView.hpp', 'V2< %s > & x' % T, 'x.strides()[ 0 ] = 3;')
        # implicit conversions
        good('src/Array.hpp', 'A1< %s > const & x' % T, 'V1< %s const > v = x; S1< %s const > s = x; S1< %s > m = x; take< V1< %s const > >( x );' % (T, T, T, T))
        good('src/ArrayView.hpp', 'V1< %s > const & x' % T, 'V1< %s const > v = x; S1< %s const > s = x; S1< %s > m = x; take< S1< %s const > >( x );' % (T, T, T, T))
        # temporaries of owners
        for o, nd in (('A1< %s >' % T, 1), ('A2< %s >' % T, 2)):
            V, S = 'V%d< %s >' % (nd, T), 'S%d< %s >' % (nd, T)
            Vc, Sc = 'V%d< %s const >' % (nd, T), 'S%d< %s const >' % (nd, T)
            for m in ('toView()', 'toViewConst()', 'toNestedView()', 'toNestedViewConst()', 'toSlice()', 'toSliceConst()'):
                good('src/Array.hpp', o + ' & x', 'auto v = x.%s;' % m)
                good('src/Array.hpp', o + ' const & x', 'auto v = x.%s;' % m)
                bad('src/Array.hpp', '', 'auto v = make< %s >().%s;' % (o, m))
                bad('src/Array.hpp', '', 'auto v = make< %s const >().%s;' % (o, m))
                bad('src/Array.hpp', o + ' & x', 'auto v = std::move( x ).%s;' % m)
            for t_ in (Vc, S, Sc):
                good('src/Array.hpp', o + ' & x', '%s v = x;' % t_)
                bad('src/Array.hpp', '', '%s v = make< %s >();' % (t_, o))
                bad('src/Array.hpp', '', 'take< %s >( make< %s >() );' % (t_, o))
            for t_ in (S, Sc):
                bad('src/ArrayView.hpp', '', '%s v = make< %s >();' % (t_, V))
            for m in ('toSlice()', 'toSliceConst()'):
                bad('src/ArrayView.hpp', '', 'auto v = make< %s >().%s;' % (V, m))
                good('src/ArrayView.hpp', V + ' const & x', 'auto v = x.%s;' % m)
        good('src/ArrayView.hpp', 'A2< %s > & x' % T, 'auto s = x[ 0 ];')
        bad('src/ArrayView.hpp', '', 'auto s = make< A2< %s > >()[ 0 ];' % T)
        bad('src/ArrayView.hpp', '', 'auto s = make< A3< %s > >()[ 0 ];' % T)
        bad('src/ArrayView.hpp', '', 'auto s = make< V2< %s > >()[ 0 ];' % T)
        # sorted arrays
        sv = 'SV< %s > const' % T
        for d, src in ((sv, 'src/SortedArrayView.hpp'), ('SA< %s >' % T, 'src/SortedArray.hpp')):
            for e in ('x[ 0 ] = %s;', 'x( 0 ) = %s;', '*x.begin() = %s;', '*x.data() = %s;', '*( x.end() - 1 ) = %s;', 'x.toSlice()[ 0 ] = %s;', 'auto v = x.toView(); v[ 0 ] = %s;', 'auto v = x.toViewConst(); v[ 0 ] = %s;'):
                bad(src, d + ' & x', e % val)
            for e in ('%s & r = x[ 0 ];', '%s * r = x.data();', '%s * r = x.begin();', 'S1< %s > s = x;', 'S1< %s > s = x.toSlice();'):
                bad(src, d + ' & x', e % T)
            good(src, d + ' & x', 'take( x[ 0 ] ); take( *x.begin() ); %s const * p = x.data(); S1< %s const > s = x.toSlice(); auto v = x.toView(); auto c = x.toViewConst();' % (T, T))
        forms('src/SortedArray.hpp', ['@.insert( make< %s >() );' % T, '@.remove( make< %s >() );' % T, '@.clear();', '@.reserve( 3 );', '@.insert( @.begin(), @.end() );', '@.remove( @.begin(), @.end() );'], ['SA< %s >' % T], ['SA< %s > const' % T, sv])
        for m in ('toView()', 'toViewConst()', 'toSlice()'):
            good('src/SortedArray.hpp', 'SA< %s > const & x' % T, 'auto v = x.%s;' % m)
            bad('src/SortedArray.hpp', '', 'auto v = make< SA< %s > >().%s;' % (T, m))
        bad('src/SortedArrayView.hpp', '', 'auto v = make< SV< %s > >().toSlice();' % T)
        # arrays of arrays
        f = dict(T=T)
        for e in ('@( 0, 0 ) = %s;' % val, '@[ 0 ][ 0 ] = %s;' % val, '*@[ 0 ].begin() = %s;' % val, '%s & r = @( 0, 0 );' % T, 'S1< %s > s = @[ 0 ];' % T, 'AVs< %s > v = @.toViewConstSizes(); v( 0, 0 ) = %s;' % (T, val)):
            forms('src/ArrayOfArraysView.hpp', [e], ['AoA< %s > const' % T, 'AV< %s > const' % T, 'AVs< %s > const' % T], ['AVc< %s > const' % T])
        for e in ('@.emplaceBack( 0, %s );' % val, '@.emplaceBackAtomic< Pol >( 0, %s );' % val, '@.appendToArray( 0, &@( 0, 0 ), &@( 0, 0 ) );', '@.emplace( 0, 0, %s );' % val, '@.insertIntoArray( 0, 0, &@( 0, 0 ), &@( 0, 0 ) );', '@.eraseFromArray( 0, 0 );'):
            forms('src/ArrayOfArraysView.hpp', [e], ['AV< %s > const' % T], ['AVs< %s > const' % T, 'AVc< %s > const' % T])
        for e in ('@.resize( 3 );', '@.resize( 3, 3 );', '@.reserve( 3 );', '@.reserveValues( 3 );', '@.compress();', '@.resizeArray( 0, 3 );', '@.setCapacityOfArray( 0, 3 );', '@.appendArray( 3 );', '@.eraseArray( 0 );', '@.clearArray( 0 );',
                  '@.insertArray( 0, &@( 0, 0 ), &@( 0, 0 ) );'):
            forms('src/ArrayOfArrays.hpp', [e], ['AoA< %s >' % T], ['AoA< %s > const' % T, 'AV< %s > const' % T, 'AVs< %s > const' % T, 'AVc< %s > const' % T])
        for d in ('AoA< %s >' % T, 'AV< %s > const' % T, 'AVs< %s > const' % T, 'AVc< %s > const' % T):
            bad('src/ArrayOfArraysView.hpp', d + ' & x', 'x.getOffsets()[ 0 ] = 3;') if not d.startswith('AoA') else None
            bad('src/ArrayOfArraysView.hpp', d + ' & x', 'x.getSizes()[ 0 ] = 3;') if not d.startswith('AoA') else None
        good('src/ArrayOfArraysView.hpp', 'AV< %s > const & x' % T, 'take( x.getOffsets()[ 0 ] ); take( x.getSizes()[ 0 ] );')
        for d, m, t_ in (('AVc', 'toView()', 'AV'), ('AVc', 'toViewConstSizes()', 'AVs'), ('AVs', 'toView()', 'AV')):
            bad('src/ArrayOfArraysView.hpp', '%s< %s > const & x' % (d, T), '%s< %s > v = x.%s;' % (t_, T, m))
            bad('src/ArrayOfArraysView.hpp', '%s< %s > const & x' % (d, T), '%s< %s > v = x;' % (t_, T))
            bad('src/ArrayOfArraysView.hpp', '%s< %s > const & x' % (d, T), '%s< %s > v( x );' % (t_, T))
        for m, t_ in (('toView()', 'AV'), ('toViewConstSizes()', 'AVs'), ('toViewConst()', 'AVc')):
            good('src/ArrayOfArrays.hpp', 'AoA< %s > const & x' % T, '%s< %s > v = x.%s;' % (t_, T, m))
            bad('src/ArrayOfArrays.hpp', '', 'auto v = make< AoA< %s > >().%s;' % (T, m))
        good('src/ArrayOfArraysView.hpp', 'AV< %s > const & x' % T, 'AVs< %s > s = x.toViewConstSizes(); AVc< %s > c = x.toViewConst(); AVc< %s > d = s.toViewConst();' % (T, T, T))
        # arrays of sets
        for d in ('AoS< %s >' % T, 'OV< %s > const' % T, 'OVc< %s > const' % T):
            for e in ('x( 0, 0 ) = %s;' % val, 'x[ 0 ][ 0 ] = %s;' % val, '*x[ 0 ].begin() = %s;' % val, '%s & r = x( 0, 0 );' % T, 'S1< %s > s = x[ 0 ];' % T, 'S1< %s > s = x.getSetValues( 0 );' % T,
                      'x.toArrayOfArraysView()( 0, 0 ) = %s;' % val, 'x.toArrayOfArraysView().emplaceBack( 0, %s );' % val, 'x.emplaceBack( 0, %s );' % val, 'AV< %s > const & b = x;' % T, 'x.eraseFromArray( 0, 0 );'):
                bad('src/ArrayOfSetsView.hpp', d + ' & x', e)
            good('src/ArrayOfSetsView.hpp', d + ' & x', 'take( x( 0, 0 ) ); take( x[ 0 ][ 0 ] ); AVc< %s > v = x.toArrayOfArraysView(); OVc< %s > c = x.toViewConst();' % (T, T))
        forms('src/ArrayOfSetsView.hpp', ['@.insertIntoSet( 0, make< %s >() );' % T, '@.insertIntoSet( 0, &@( 0, 0 ), &@( 0, 0 ) );', '@.removeFromSet( 0, make< %s >() );' % T, '@.removeFromSet( 0, &@( 0, 0 ), &@( 0, 0 ) );', 'OV< %s > v = @.toView();' % T],
              ['OV< %s > const' % T], ['OVc< %s > const' % T])
        forms('src/ArrayOfSets.hpp', ['@.resize( 3 );', '@.reserve( 3 );', '@.reserveValues( 3 );', '@.compress();', '@.appendSet( 3 );', '@.insertSet( 0, 3 );', '@.eraseSet( 0 );', '@.clearSet( 0 );', '@.setCapacityOfSet( 0, 3 );', '@.reserveCapacityOfSet( 0, 3 );'],
              ['AoS< %s >' % T], ['AoS< %s > const' % T, 'OV< %s > const' % T, 'OVc< %s > const' % T])
        for m in ('toView()', 'toViewConst()', 'toArrayOfArraysView()'):
            good('src/ArrayOfSets.hpp', 'AoS< %s > const & x' % T, 'auto v = x.%s;' % m)
            bad('src/ArrayOfSets.hpp', '', 'auto v = make< AoS< %s > >().%s;' % (T, m))
    # sparsity patterns
    for d in ('SP', 'SPV const', 'SPVc const'):
        for e in ('x.getColumns( 0 )[ 0 ] = 1;', 'S1< int > s = x.getColumns( 0 );', '*x.getColumns( 0 ).begin() = 1;', 'x( 0, 0 ) = 1;', 'x[ 0 ][ 0 ] = 1;', 'x.emplaceBack( 0, 1 );', 'x.getOffsets()[ 0 ] = 1;' if d != 'SP' else 'x.insertIntoSet( 0, 1 );', 'x.insertIntoSet( 0, 1 );'):
            bad('src/SparsityPatternView.hpp', d + ' & x', e)
        good('src/SparsityPatternView.hpp', d + ' & x', 'S1< int const > s = x.getColumns( 0 ); SPVc v = x.toViewConst();')
    ins = ['@.insertNonZero( 0, 1 );', '@.removeNonZero( 0, 1 );', '@.insertNonZeros( 0, make< int * >(), make< int * >() );', '@.removeNonZeros( 0, make< int * >(), make< int * >() );']
    forms('src/SparsityPatternView.hpp', ins + ['SPV v = @.toView();'], ['SPV const'], ['SPVc const'])
    forms('src/SparsityPattern.hpp', ins, ['SP'], [])
    bad('src/SparsityPatternView.hpp', 'SPVc const & x', 'SPV v = x;')
    bad('src/SparsityPatternView.hpp', 'SPVc const & x', 'SPV v( x );')
    forms('src/SparsityPattern.hpp', ['@.resize( 3, 3, 3 );', '@.reserveNonZeros( 3 );', '@.reserveNonZeros( 0, 3 );', '@.compress();'], ['SP'], ['SP const', 'SPV const', 'SPVc const'])
    for m in ('toView()', 'toViewConst()'):
        good('src/SparsityPattern.hpp', 'SP const & x', 'auto v = x.%s;' % m)
        bad('src/SparsityPattern.hpp', '', 'auto v = make< SP >().%s;' % m)
    # matrices
    for d in ('CM', 'CV const', 'CVs const', 'CVc const'):
        for e in ('x.getColumns( 0 )[ 0 ] = 1;', 'S1< int > s = x.getColumns( 0 );', 'x.toSparsityPatternView().getColumns( 0 )[ 0 ] = 1;', 'x.toSparsityPatternView().insertNonZero( 0, 1 );', 'x( 0, 0 ) = 1;', 'x.emplaceBack( 0, 1 );', 'x.insertIntoSet( 0, 1 );', 'x.insertNonZero( 0, 1 );'):
            bad('src/CRSMatrixView.hpp', d + ' & x', e)
        good('src/CRSMatrixView.hpp', d + ' & x', 'S1< int const > s = x.getColumns( 0 ); S1< double const > e = x.getEntries( 0 ); CVc v = x.toViewConst(); SPVc p = x.toSparsityPatternView();')
    ent = ['@.getEntries( 0 )[ 0 ] = 1;', 'S1< double > s = @.getEntries( 0 );', '@.template setValues< Pol >( 1.0 );', '@.zero();', '@.template addToRow< Pol >( 0, make< int * >(), make< double * >(), 1 );', '@.template addToRowBinarySearch< Pol >( 0, make< int * >(), make< double * >(), 1 );',
           '@.template addToRowLinearSearch< Pol >( 0, make< int * >(), make< double * >(), 1 );', '@.template addToRowBinarySearchUnsorted< Pol >( 0, make< int * >(), make< double * >(), 1 );', 'CVs v = @.toViewConstSizes(); v.zero();']
    forms('src/CRSMatrixView.hpp', ent, ['CM', 'CV const', 'CVs const'], ['CVc const'])
    ins = ['@.insertNonZero( 0, 1, 2.0 );', '@.insertNonZeros( 0, make< int * >(), make< double * >(), 1 );', '@.removeNonZero( 0, 1 );', '@.removeNonZeros( 0, make< int * >(), 1 );']
    forms('src/CRSMatrixView.hpp', ins + ['CV v = @.toView();'], ['CV const'], ['CVs const', 'CVc const'])
    forms('src/CRSMatrix.hpp', ins, ['CM'], [])
    for a, b in (('CVc', 'CVs'), ('CVc', 'CV'), ('CVs', 'CV')):
        bad('src/CRSMatrixView.hpp', a + ' const & x', b + ' v = x;')
        bad('src/CRSMatrixView.hpp', a + ' const & x', b + ' v( x );')
    forms('src/CRSMatrix.hpp', ['@.resize( 3, 3, 3 );', '@.reserveNonZeros( 3 );', '@.reserveNonZeros( 0, 3 );', '@.compress();'], ['CM'], ['CM const', 'CV const', 'CVs const', 'CVc const'])
    for m in ('toView()', 'toViewConstSizes()', 'toViewConst()', 'toSparsityPatternView()'):
        good('src/CRSMatrix.hpp', 'CM const & x', 'auto v = x.%s;' % m)
        bad('src/CRSMatrix.hpp', '', 'auto v = make< CM >().%s;' % m)
    # nested containers
    nn = 'A1< A1< int > >'
    good('src/ArrayView.hpp', nn + ' & x', 'auto v = x.toView(); v[ 0 ].resize( 3 ); v[ 0 ][ 0 ] = 1; auto w = x.toNestedView(); w[ 0 ][ 0 ] = 1; auto c = x.toNestedViewConst(); take( c[ 0 ][ 0 ] );')
    for e in ('auto w = x.toNestedView(); w[ 0 ].resize( 3 );', 'auto w = x.toNestedView(); w[ 0 ] = w[ 1 ];', 'auto w = x.toNestedViewConst(); w[ 0 ].resize( 3 );', 'auto w = x.toNestedViewConst(); w[ 0 ][ 0 ] = 1;',
              'auto w = x.toNestedViewConst(); w[ 0 ] = w[ 1 ];', 'auto w = x.toViewConst(); w[ 0 ].resize( 3 );', 'auto w = x.toSliceConst(); w[ 0 ].resize( 3 );'):
        bad('src/ArrayView.hpp', nn + ' & x', e)
    na = 'A1< AoA< int > >'
    good('src/ArrayView.hpp', na + ' & x', 'auto w = x.toNestedView(); w[ 0 ]( 0, 0 ) = 1; w[ 0 ].emplaceBack( 0, 1 ); auto c = x.toNestedViewConst(); take( c[ 0 ]( 0, 0 ) );')
    for e in ('auto w = x.toNestedView(); w[ 0 ].resize( 3 );', 'auto w = x.toNestedViewConst(); w[ 0 ]( 0, 0 ) = 1;', 'auto w = x.toNestedViewConst(); w[ 0 ].emplaceBack( 0, 1 );'):
        bad('src/ArrayView.hpp', na + ' & x', e)


def units(items, start):
    return '\n'.join('inline void w%d( %s ) { %s }' % (start + i, d, e) for i, (_, d, e) in enumerate(items)) + '\n'


def run(ctx):
    for buf in ('MallocBuffer', 'ChaiBuffer') if ctx.tier == 'thorough' else ('MallocBuffer',):
        witness(ctx, buf)


def witness(ctx, buf):
    build_tables()
    w = build.workdir()
    head = HEAD % dict(buf=buf)
    path = os.path.join(w, 'pos.cpp')
    open(path, 'w').write(head + units(OK, 0))
    defs = ('NDEBUG',) + (('LVARRAY_USE_CHAI', 'LVARRAY_USE_UMPIRE') if buf == 'ChaiBuffer' else ())
    r = compile_(path, ['-D' + d for d in defs])
    err, stray = errors_by_line(r.stderr, path)
    if stray:
        c = build.classify(r.stderr)
        if c:
            raise build.Rejected(*c)
        raise build.AnalysisBroken('the headers do not compile: ' + stray[0])
    base = head.count('\n') + 1
    for i, (where, d, e) in enumerate(OK):
        ctx.check(base + i not in err, 'intended uses compile', 'given %s: %s is rejected: %s' % (d or 'nothing', e, err.get(base + i)), where)
    pch = os.path.join(w, 'head.hpp')
    open(pch, 'w').write('#pragma once\n' + head)
    r = subprocess.run([build.CLANG] + build.flags(defs) + ['-x', 'c++-header', pch, '-o', pch + '.pch'], capture_output=True, text=True)
    if r.returncode:
        raise build.AnalysisBroken('the headers do not compile: ' + r.stderr[:2000])

    def one(k):
        p = os.path.join(w, 's%d.cpp' % k)
        open(p, 'w').write('void w%d( %s ) { %s }\n' % (k, NO[k][1], NO[k][2]))
        rc = compile_(p, ['-D' + d for d in defs] + ['-include-pch', pch + '.pch'])
        os.unlink(p)
        return rc
    with ThreadPoolExecutor(8) as ex:
        for (where, d, e), r in zip(NO, ex.map(one, range(len(NO)))):
            if r.returncode not in (0, 1):
                raise build.AnalysisBroken('compiler failed on: ' + e)
            if 'precompiled header' in r.stderr:
                raise build.AnalysisBroken('compiler failed on: ' + r.stderr)
            if os.environ.get('VF_SHOW'):
                print(d, '|', e, '|', re.findall(r'error: (.*)', r.stderr)[:1])
            ctx.check(r.returncode == 1, 'forbidden uses are rejected', 'given %s: %s compiles' % (d or 'nothing', e), where)
    ctx.extra['witnesses'] = {'compile': len(OK), 'reject': len(NO)}
