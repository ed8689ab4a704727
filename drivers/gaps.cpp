// arrays of arrays and sets: what becomes of the slots that hold no element
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "follow.hpp"
using namespace LvArray;
using A = ArrayOfArrays< Elem, long, ProbeBuffer >;
using S = ArrayOfSets< Elem, long, ProbeBuffer >;
using V = ArrayOfArraysView< Elem, long const, false, ProbeBuffer >;
#define HOLE long const offj = vf_cell( off + j ), szj = vf_cell( sz + j ), offj1 = vf_cell( off + j + 1 ); vf_assume( j >= 0 ); vf_assume( j < n ); vf_assume( p >= szj ); vf_assume( p < offj1 - offj ); vf_gap( val + offj + p ); vf_begin()
#define GAP( name, T, params, pre, call ) \
RES( name )( T & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; vf_assume( j == i ); HOLE; call; vf_still(); } \
RES( name##Other )( T & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; OTHER; HOLE; call; vf_still(); }
#define GAP1( name, T, params, pre, call ) RES( name )( T & a, JP params ) { OPEN( a ); pre; HOLE; call; vf_still(); }
#define C ,
GAP( setCapacity, A, C long c, vf_assume( c >= 0 ), a.setCapacityOfArray( i, c ) )
GAP( emplaceBack, A, C Elem const & x, , a.emplaceBack( i, x ) )
GAP( appendToArray, A, C Elem const * f C long m, vf_assume( m >= 0 ), a.appendToArray( i, f, f + m ) )
GAP( emplace, A, C long k C Elem const & x, vf_assume( k >= 0 ); vf_assume( k <= szi ), a.emplace( i, k, x ) )
GAP( insertIntoArray, A, C long k C Elem const * f C long m, vf_assume( k >= 0 ); vf_assume( k <= szi ); vf_assume( m >= 0 ), a.insertIntoArray( i, k, f, f + m ) )
GAP( eraseFromArray, A, C long k C long m, vf_assume( k >= 0 ); vf_assume( m >= 0 ); vf_assume( k + m <= szi ), a.eraseFromArray( i, k, m ) )
GAP( clearArray, A, , , a.clearArray( i ) )
GAP( resizeArray, A, C long m, vf_assume( m >= 0 ), a.resizeArray( i, m ) )
GAP1( appendArray, A, C long m, vf_assume( m >= 0 ), a.appendArray( m ) )
GAP1( appendArrayOf, A, C Elem const * f C long m, vf_assume( m >= 0 ), a.appendArray( f, f + m ) )
GAP( insertArray, A, C Elem const * f C long m, vf_assume( m >= 0 ), a.insertArray( i, f, f + m ) )
GAP( eraseArray, A, , , a.eraseArray( i ) )
GAP1( resize, A, C long m, vf_assume( m >= 0 ), a.resize( m ) )
GAP1( resizeCap, A, C long m C long c, vf_assume( m >= 0 ); vf_assume( c >= 0 ), a.resize( m, c ) )
GAP1( reserveValues, A, C long m, vf_assume( m >= 0 ), a.reserveValues( m ) )
GAP( insertIntoSet, S, C Elem const & x, , a.insertIntoSet( i, x ) )
GAP( removeFromSet, S, C Elem const & x, , a.removeFromSet( i, x ) )
GAP( setCapacityOfSet, S, C long c, vf_assume( c >= 0 ), a.setCapacityOfSet( i, c ) )
GAP1( appendSet, S, C long c, vf_assume( c >= 0 ), a.appendSet( c ) )
GAP( eraseSet, S, , , a.eraseSet( i ) )
