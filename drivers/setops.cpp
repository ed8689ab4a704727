// sorted ranges as sets
#include "follow.hpp"
#include "sortedArrayManipulation.hpp"
#include "SortedArray.hpp"
#include "ArrayOfSets.hpp"
using namespace LvArray;
namespace S = LvArray::sortedArrayManipulation;
extern "C" { void vf_sorted( Elem const * p, long n ) noexcept; void vf_has( Elem const * p, long n, Elem const * v, char const * label ) noexcept; }
#define FIND "a lookup finds the first value not less than the one asked for"
#define MEMBER "membership answers are exact"
#define UNION "inserting leaves the union"
#define DIFF "removing leaves the difference"
#define RET "the answer says whether the range changed"
#define RANGE Elem const * const ptr, long size
#define SET vf_assume( size >= 0 ); vf_sorted( ptr, size )
#define K vf_assume( k >= 0 ); vf_assume( k < size )
RES( find )( RANGE, Elem const & v ) { SET; vf_begin(); long const r = S::find( ptr, size, v ); vf_prove( r >= 0, FIND ); vf_prove( r <= size, FIND ); if( r > 0 ) { vf_prove( ptr[ r - 1 ] < v, FIND ); } if( r < size ) { vf_prove( !( ptr[ r ] < v ), FIND ); } }
RES( findAll )( RANGE, Elem const & v, long k ) { SET; K; vf_begin(); long const r = S::find( ptr, size, v ); if( k < r ) { vf_prove( ptr[ k ] < v, FIND ); } else { vf_prove( !( ptr[ k ] < v ), FIND ); } }
RES( findGreater )( RANGE, Elem const & v ) { vf_assume( size >= 0 ); vf_begin(); long const r = S::find( ptr, size, v, S::greater< Elem >() ); vf_prove( r >= 0, FIND ); vf_prove( r <= size, FIND ); if( r > 0 ) { vf_prove( ptr[ r - 1 ] > v, FIND ); } if( r < size ) { vf_prove( !( ptr[ r ] > v ), FIND ); } }
RES( contains )( RANGE, Elem const & v, long k ) { SET; vf_begin(); if( S::contains( ptr, size, v ) ) { vf_has( ptr, size, &v, MEMBER ); } else { K; vf_prove( ptr[ k ] != v, MEMBER ); } }
#define OLD( v ) SET; K
#define NOTIN( v ) K; vf_prove( ptr[ k ] != v, RET )
using C = S::CallBacks< Elem >;
// a value of the range, below, at or above the one inserted
RES( insertBelow )( Elem * ptr, long size, Elem const & v, long k ) { SET; K; vf_assume( ptr[ k ] < v ); vf_track( ptr + k ); vf_begin(); S::insert( ptr, size, v, C() ); vf_at( ptr + k, UNION ); }
RES( insertSame )( Elem * ptr, long size, Elem const & v, long k ) { SET; K; vf_assume( ptr[ k ] == v ); vf_track( ptr + k ); vf_begin(); bool const r = S::insert( ptr, size, v, C() ); vf_prove( !r, RET ); vf_at( ptr + k, UNION ); }
RES( insertAbove )( Elem * ptr, long size, Elem const & v, long k ) { SET; K; vf_assume( ptr[ k ] > v ); vf_track( ptr + k ); vf_begin(); bool const r = S::insert( ptr, size, v, C() ); vf_at( ptr + k + r, UNION ); }
RES( insertAnswer )( Elem * ptr, long size, Elem const & v, long k ) { SET; K; bool const other = ptr[ k ] != v; vf_begin(); bool const r = S::insert( ptr, size, v, C() ); if( r ) { vf_prove( other, RET ); } else { vf_has( ptr, size, &v, RET ); } }
RES( removeBelow )( Elem * ptr, long size, Elem const & v, long k ) { SET; K; vf_assume( ptr[ k ] < v ); vf_track( ptr + k ); vf_begin(); S::remove( ptr, size, v, C() ); vf_at( ptr + k, DIFF ); }
RES( removeSame )( Elem * ptr, long size, Elem const & v, long k ) { SET; K; vf_assume( ptr[ k ] == v ); vf_track( ptr + k ); vf_begin(); bool const r = S::remove( ptr, size, v, C() ); vf_prove( r, RET ); vf_gone( DIFF ); }
RES( removeAbove )( Elem * ptr, long size, Elem const & v, long k ) { SET; K; vf_assume( ptr[ k ] > v ); vf_track( ptr + k ); vf_begin(); bool const r = S::remove( ptr, size, v, C() ); vf_at( ptr + k - r, DIFF ); }
RES( removeAnswer )( Elem * ptr, long size, Elem const & v, long k ) { SET; vf_begin(); bool const r = S::remove( ptr, size, v, C() ); if( !r ) { K; vf_prove( ptr[ k ] != v, RET ); } else { vf_has( ptr, size, &v, RET ); } }
// what is inserted is the value given, at the one place between the smaller and the larger values
RES( insertNew )( Elem * ptr, long size, Elem const & v, long q ) { SET; vf_assume( q >= 0 ); vf_assume( q <= size ); if( q > 0 ) { vf_assume( ptr[ q - 1 ] < v ); } if( q < size ) { vf_assume( ptr[ q ] > v ); } vf_begin(); bool const r = S::insert( ptr, size, v, C() ); vf_prove( r, RET ); vf_from( ptr + q, &v, UNION ); }

// the same through SortedArray
struct A : SortedArray< Elem, long, ProbeBuffer >
{
  long capacity() const { return buffer( *this, 0 ).capacity(); }
  template< typename S > static auto buffer( S const & s, int ) -> decltype( s.m_values ) const & { return s.m_values; }
  template< typename S > static ProbeBuffer< Elem > const & buffer( S const & s, long ) { return reinterpret_cast< ProbeBuffer< Elem > const & >( s ); }
};
#define ARR vf_assume( a.capacity() >= a.size() ); Elem const * const ptr = a.data(); long const size = a.size(); vf_assume( size >= 0 ); vf_sorted( ptr, size )
#define SIZE "the size counts the values"
RES( arrayInsertBelow )( A & a, Elem const & v, long k ) { ARR; K; vf_assume( ptr[ k ] < v ); vf_track( ptr + k ); vf_begin(); bool const r = a.insert( v ); vf_prove( a.size() == size + r, SIZE ); vf_at( a.data() + k, UNION ); }
RES( arrayInsertSame )( A & a, Elem const & v, long k ) { ARR; K; vf_assume( ptr[ k ] == v ); vf_track( ptr + k ); vf_begin(); bool const r = a.insert( v ); vf_prove( !r, RET ); vf_prove( a.size() == size, SIZE ); vf_at( a.data() + k, UNION ); }
RES( arrayInsertAbove )( A & a, Elem const & v, long k ) { ARR; K; vf_assume( ptr[ k ] > v ); vf_track( ptr + k ); vf_begin(); bool const r = a.insert( v ); vf_prove( a.size() == size + r, SIZE ); vf_at( a.data() + k + r, UNION ); }
RES( arrayInsertAnswer )( A & a, Elem const & v, long k ) { ARR; K; bool const other = ptr[ k ] != v; vf_begin(); bool const r = a.insert( v ); if( r ) { vf_prove( other, RET ); } else { vf_has( ptr, size, &v, RET ); } }
RES( arrayInsertNew )( A & a, Elem const & v, long q ) { ARR; vf_assume( q >= 0 ); vf_assume( q <= size ); if( q > 0 ) { vf_assume( ptr[ q - 1 ] < v ); } if( q < size ) { vf_assume( ptr[ q ] > v ); } vf_begin(); bool const r = a.insert( v ); vf_prove( r, RET ); vf_from( a.data() + q, &v, UNION ); }
RES( arrayRemoveBelow )( A & a, Elem const & v, long k ) { ARR; K; vf_assume( ptr[ k ] < v ); vf_track( ptr + k ); vf_begin(); bool const r = a.remove( v ); vf_prove( a.size() == size - r, SIZE ); vf_at( a.data() + k, DIFF ); }
RES( arrayRemoveSame )( A & a, Elem const & v, long k ) { ARR; K; vf_assume( ptr[ k ] == v ); vf_track( ptr + k ); vf_begin(); bool const r = a.remove( v ); vf_prove( r, RET ); vf_prove( a.size() == size - 1, SIZE ); vf_gone( DIFF ); }
RES( arrayRemoveAbove )( A & a, Elem const & v, long k ) { ARR; K; vf_assume( ptr[ k ] > v ); vf_track( ptr + k ); vf_begin(); bool const r = a.remove( v ); vf_at( a.data() + k - r, DIFF ); }
RES( arrayRemoveAnswer )( A & a, Elem const & v, long k ) { ARR; vf_begin(); bool const r = a.remove( v ); if( !r ) { K; vf_prove( ptr[ k ] != v, RET ); } else { vf_has( ptr, size, &v, RET ); } }
RES( arrayContains )( A & a, Elem const & v, long k ) { ARR; vf_begin(); bool const r = a.contains( v ); if( r ) { vf_has( ptr, size, &v, MEMBER ); } else { K; vf_prove( ptr[ k ] != v, MEMBER ); } }
RES( arrayCount )( A & a, Elem const & v, long k ) { ARR; vf_begin(); long const r = a.count( v ); vf_prove( r == 0 || r == 1, MEMBER ); if( r ) { vf_has( ptr, size, &v, MEMBER ); } else { K; vf_prove( ptr[ k ] != v, MEMBER ); } }
RES( viewContains )( A & a, Elem const & v, long k ) { ARR; auto const w = a.toView(); vf_begin(); bool const r = w.contains( v ); vf_prove( w.count( v ) == r, MEMBER ); if( r ) { vf_has( ptr, size, &v, MEMBER ); } else { K; vf_prove( ptr[ k ] != v, MEMBER ); } }

// and through the sets of an ArrayOfSets
using B = ArrayOfSets< Elem, long, ProbeBuffer >;
using W = ArrayOfSetsView< Elem, long const, ProbeBuffer >;
#define IN OPEN( a ); INDEX( i ); Elem const * const ptr = val + offi; long const size = szi; vf_sorted( ptr, size )
#define NOW AFTER( a, n ); vf_prove( wsz[ i ] == size + r, SIZE ); Elem const * const now = wval + woff[ i ]
RES( setInsertBelow )( B & a, long i, Elem const & x, long k ) { IN; K; vf_assume( ptr[ k ] < x ); vf_track( ptr + k ); vf_begin(); bool const r = a.insertIntoSet( i, x ); NOW; vf_at( now + k, UNION ); }
RES( setInsertSame )( B & a, long i, Elem const & x, long k ) { IN; K; vf_assume( ptr[ k ] == x ); vf_track( ptr + k ); vf_begin(); bool const r = a.insertIntoSet( i, x ); NOW; vf_prove( !r, RET ); vf_at( now + k, UNION ); }
RES( setInsertAbove )( B & a, long i, Elem const & x, long k ) { IN; K; vf_assume( ptr[ k ] > x ); vf_track( ptr + k ); vf_begin(); bool const r = a.insertIntoSet( i, x ); NOW; vf_at( now + k + r, UNION ); }
RES( setInsertAnswer )( B & a, long i, Elem const & x, long k ) { IN; K; bool const other = ptr[ k ] != x; vf_begin(); bool const r = a.insertIntoSet( i, x ); if( r ) { vf_prove( other, RET ); } else { vf_has( ptr, size, &x, RET ); } }
RES( setInsertNew )( B & a, long i, Elem const & x, long q ) { IN; vf_assume( q >= 0 ); vf_assume( q <= size ); if( q > 0 ) { vf_assume( ptr[ q - 1 ] < x ); } if( q < size ) { vf_assume( ptr[ q ] > x ); } vf_begin(); bool const r = a.insertIntoSet( i, x ); NOW; vf_prove( r, RET ); vf_from( now + q, &x, UNION ); }
RES( setRemoveBelow )( B & a, long i, Elem const & x, long k ) { IN; K; vf_assume( ptr[ k ] < x ); vf_track( ptr + k ); vf_begin(); long const r = -long( a.removeFromSet( i, x ) ); NOW; vf_at( now + k, DIFF ); }
RES( setRemoveSame )( B & a, long i, Elem const & x, long k ) { IN; K; vf_assume( ptr[ k ] == x ); vf_track( ptr + k ); vf_begin(); long const r = -long( a.removeFromSet( i, x ) ); NOW; vf_prove( r == -1, RET ); vf_gone( DIFF ); }
RES( setRemoveAbove )( B & a, long i, Elem const & x, long k ) { IN; K; vf_assume( ptr[ k ] > x ); vf_track( ptr + k ); vf_begin(); long const r = -long( a.removeFromSet( i, x ) ); NOW; vf_at( now + k + r, DIFF ); }
RES( setRemoveAnswer )( B & a, long i, Elem const & x, long k ) { IN; vf_begin(); bool const r = a.removeFromSet( i, x ); if( !r ) { K; vf_prove( ptr[ k ] != x, RET ); } else { vf_has( ptr, size, &x, RET ); } }
RES( setContains )( B & a, long i, Elem const & x, long k ) { IN; vf_begin(); bool const r = a.contains( i, x ); if( r ) { vf_has( ptr, size, &x, MEMBER ); } else { K; vf_prove( ptr[ k ] != x, MEMBER ); } }
RES( viewInsertBelow )( W & a, long i, Elem const & x, long k ) { IN; K; vf_assume( offi1 - offi > size ); vf_assume( ptr[ k ] < x ); vf_track( ptr + k ); vf_begin(); bool const r = a.insertIntoSet( i, x ); vf_prove( a.sizeOfSet( i ) == size + r, SIZE ); vf_at( ptr + k, UNION ); }
RES( viewInsertAbove )( W & a, long i, Elem const & x, long k ) { IN; K; vf_assume( offi1 - offi > size ); vf_assume( ptr[ k ] > x ); vf_track( ptr + k ); vf_begin(); bool const r = a.insertIntoSet( i, x ); vf_prove( a.sizeOfSet( i ) == size + r, SIZE ); vf_at( ptr + k + r, UNION ); }
RES( viewRemoveAbove )( W & a, long i, Elem const & x, long k ) { IN; K; vf_assume( ptr[ k ] > x ); vf_track( ptr + k ); vf_begin(); bool const r = a.removeFromSet( i, x ); vf_prove( a.sizeOfSet( i ) == size - r, SIZE ); vf_at( ptr + k - r, DIFF ); }
