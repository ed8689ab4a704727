// arrays of arrays: where every element goes
#include "ArrayOfArrays.hpp"
#include "follow.hpp"
using namespace LvArray;
using A = ArrayOfArrays< Elem, long, ProbeBuffer >;
using V = ArrayOfArraysView< Elem, long const, false, ProbeBuffer >;
// one inner array changes
RES( setCapacityOther )( A & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); OTHER; ANY; a.setCapacityOfArray( i, c ); AFTER( a, n ); ROOM( n ); KEPT; }
RES( setCapacity )( A & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); vf_assume( j == i ); ANY; a.setCapacityOfArray( i, c ); AFTER( a, n ); ROOM( n );
  if( p < c ) { AT( j, p, OWN ); } else TAIL( GONE1 ); vf_prove( woff[ i + 1 ] - woff[ i ] == c, "the capacity is the one asked for" ); vf_prove( wsz[ i ] <= c, SZ ); vf_prove( woff[ i ] == offi, SZ ); }
#define GROWS( name, params, pre, call, N, shift, newp, from ) \
RES( name##Other )( A & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; OTHER; ANY; call; AFTER( a, n ); ROOM( n ); KEPT; } \
RES( name )( A & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; vf_assume( j == i ); ANY; call; AFTER( a, n ); vf_prove( wsz[ i ] == szi + ( N ), SZ ); vf_prove( woff[ i + 1 ] - woff[ i ] >= wsz[ i ], SZ ); AT( j, shift, OWN ); } \
RES( name##New )( A & a, long i, long q params ) { OPEN( a ); INDEX( i ); pre; vf_assume( q >= 0 ); vf_assume( q < ( N ) ); vf_begin(); call; AFTER( a, n ); vf_prove( wsz[ i ] == szi + ( N ), SZ ); vf_from( wval + woff[ i ] + ( newp ) + q, from, NEW ); }
#define C ,
GROWS( emplaceBack, C Elem const & x, , a.emplaceBack( i, x ), 1, p, szi, &x )
GROWS( appendToArray, C Elem const * f C long m, vf_assume( m >= 0 ), a.appendToArray( i, f, f + m ), m, p, szi, f + q )
GROWS( emplace, C long k C Elem const & x, vf_assume( k >= 0 ); vf_assume( k <= szi ), a.emplace( i, k, x ), 1, ( p < k ? p : p + 1 ), k, &x )
GROWS( insertIntoArray, C long k C Elem const * f C long m, vf_assume( k >= 0 ); vf_assume( k <= szi ); vf_assume( m >= 0 ), a.insertIntoArray( i, k, f, f + m ), m, ( p < k ? p : p + m ), k, f + q )
#define SHRINKS( name, params, pre, call, NEWSIZE, gone, shift ) \
RES( name##Other )( A & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; OTHER; ANY; call; AFTER( a, n ); ROOM( n ); KEPT; } \
RES( name )( A & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; vf_assume( j == i ); ANY; call; AFTER( a, n ); vf_prove( wsz[ i ] == ( NEWSIZE ), SZ ); if( gone ) { vf_gone( GONE1 ); } else { AT( j, shift, OWN ); } }
SHRINKS( eraseFromArray, C long k C long m, vf_assume( k >= 0 ); vf_assume( m >= 0 ); vf_assume( k + m <= szi ), a.eraseFromArray( i, k, m ), szi - m, p >= k && p < k + m, ( p < k ? p : p - m ) )
SHRINKS( clearArray, , , a.clearArray( i ), 0, true, p )
SHRINKS( resizeArray, C long m, vf_assume( m >= 0 ), a.resizeArray( i, m ), m, p >= m, p )
SHRINKS( resizeArrayValue, C long m C Elem const & x, vf_assume( m >= 0 ), a.resizeArray( i, m, x ), m, p >= m, p )
RES( resizeArrayNew )( A & a, long i, long q, long m ) { OPEN( a ); INDEX( i ); vf_assume( m >= 0 ); vf_assume( q >= szi ); vf_assume( q < m ); vf_begin(); a.resizeArray( i, m ); AFTER( a, n ); vf_prove( wsz[ i ] == m, SZ ); vf_fromnone( wval + woff[ i ] + q, NEW ); }
RES( resizeArrayValueNew )( A & a, long i, long q, long m, Elem const & x ) { OPEN( a ); INDEX( i ); vf_assume( m >= 0 ); vf_assume( q >= szi ); vf_assume( q < m ); vf_begin(); a.resizeArray( i, m, x ); AFTER( a, n ); vf_prove( wsz[ i ] == m, SZ ); vf_from( wval + woff[ i ] + q, &x, NEW ); }
// arrays come and go
RES( appendSize )( A & a, long m, JP ) { OPEN( a ); vf_assume( m >= 0 ); ANY; a.appendArray( m ); AFTER( a, n + 1 ); ROOM( n + 1 ); KEPT; }
RES( appendSizeNew )( A & a, long m, long q ) { OPEN( a ); vf_assume( m >= 0 ); vf_assume( q >= 0 ); vf_assume( q < m ); vf_begin(); a.appendArray( m ); AFTER( a, n + 1 ); vf_prove( wsz[ n ] == m, SZ ); vf_fromnone( wval + woff[ n ] + q, NEW ); }
RES( append )( A & a, Elem const * f, long m, JP ) { OPEN( a ); vf_assume( m >= 0 ); ANY; a.appendArray( f, f + m ); AFTER( a, n + 1 ); ROOM( n + 1 ); KEPT; }
RES( appendNew )( A & a, Elem const * f, long m, long q ) { OPEN( a ); vf_assume( m >= 0 ); vf_assume( q >= 0 ); vf_assume( q < m ); vf_begin(); a.appendArray( f, f + m ); AFTER( a, n + 1 ); vf_prove( wsz[ n ] == m, SZ ); vf_from( wval + woff[ n ] + q, f + q, NEW ); }
#define WHERE vf_assume( i >= 0 ); vf_assume( i <= n )
RES( insertArrayBelow )( A & a, long i, Elem const * f, long m, JP ) { OPEN( a ); WHERE; vf_assume( m >= 0 ); vf_assume( j < i ); ANY; a.insertArray( i, f, f + m ); AFTER( a, n + 1 ); ROOM( n + 1 ); KEPT; }
RES( insertArrayAbove )( A & a, long i, Elem const * f, long m, JP ) { OPEN( a ); WHERE; vf_assume( m >= 0 ); vf_assume( j >= i ); ANY; a.insertArray( i, f, f + m ); AFTER( a, n + 1 ); ROOM( n + 1 ); AT( j + 1, p, KEEP ); vf_prove( wsz[ j + 1 ] == szj, SZ ); vf_prove( woff[ j + 2 ] - woff[ j + 1 ] >= szj, SZ ); }
RES( insertArrayNew )( A & a, long i, Elem const * f, long m, long q ) { OPEN( a ); WHERE; vf_assume( m >= 0 ); vf_assume( q >= 0 ); vf_assume( q < m ); vf_begin(); a.insertArray( i, f, f + m ); AFTER( a, n + 1 ); vf_prove( wsz[ i ] == m, SZ ); vf_from( wval + woff[ i ] + q, f + q, NEW ); }
RES( eraseArrayBelow )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); vf_assume( j < i ); ANY; a.eraseArray( i ); AFTER( a, n - 1 ); ROOM( n - 1 ); KEPT; }
RES( eraseArrayAbove )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); vf_assume( j > i ); ANY; a.eraseArray( i ); AFTER( a, n - 1 ); ROOM( n - 1 ); AT( j - 1, p, KEEP ); vf_prove( wsz[ j - 1 ] == szj, SZ ); vf_prove( woff[ j ] - woff[ j - 1 ] >= szj, SZ ); }
RES( eraseArray )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); vf_assume( j == i ); ANY; a.eraseArray( i ); AFTER( a, n - 1 ); vf_gone( GONE2 ); }
RES( resize )( A & a, long m, JP ) { OPEN( a ); vf_assume( m >= 0 ); ANY; a.resize( m ); AFTER( a, m ); ROOM( m ); if( j < m ) { KEPT; } else { vf_gone( GONE2 ); } }
RES( resizeCapacity )( A & a, long m, long c, JP ) { OPEN( a ); vf_assume( m >= 0 ); vf_assume( c > 0 ); ANY; a.resize( m, c ); AFTER( a, m ); ROOM( m ); if( j < m ) { KEPT; } else { vf_gone( GONE2 ); } }
RES( resizeNew )( A & a, long m, long c, long k ) { OPEN( a ); vf_assume( m >= 0 ); vf_assume( c >= 0 ); vf_assume( k >= n ); vf_assume( k < m ); a.resize( m, c ); AFTER( a, m ); vf_prove( wsz[ k ] == 0, SZ ); vf_prove( woff[ k + 1 ] - woff[ k ] == c, "new arrays have the capacity asked for" ); }
RES( reserve )( A & a, long m, JP ) { OPEN( a ); ANY; a.reserve( m ); AFTER( a, n ); KEPT; ROOM( n ); vf_prove( a.capacity() >= m, "the capacity is at least the one asked for" ); }
RES( reserveValues )( A & a, long m, JP ) { OPEN( a ); ANY; a.reserveValues( m ); AFTER( a, n ); KEPT; ROOM( n ); vf_prove( a.valueCapacity() >= m, "the capacity is at least the one asked for" ); }
RES( destroy )( A & a, JP ) { OPEN( a ); ANY; a.~A(); vf_gone( GONE2 ); }
RES( moveAssignOver )( A & a, A & b, JP ) { OPEN( a ); ANY; a = std::move( b ); vf_gone( GONE2 ); }
RES( moveAssign )( A & b, A & a, JP ) { OPEN( a ); ANY; b = std::move( a ); AFTER( b, n ); AT( j, p, KEEP ); vf_prove( wsz[ j ] == szj, SZ ); }
RES( moveConstruct )( A & a, JP ) { OPEN( a ); ANY; { A b( std::move( a ) ); AFTER( b, n ); AT( j, p, KEEP ); vf_prove( wsz[ j ] == szj, SZ ); } vf_gone( GONE2 ); }
RES( copySource )( A & a, A & b, JP ) { OPEN( a ); VALID( b ); ANY; b = static_cast< A const & >( a ); AFTER( a, n ); KEPT; }
RES( copyOver )( A & a, A & b, JP ) { OPEN( a ); vf_assume( b.size() >= 0 ); ANY; a = static_cast< A const & >( b ); vf_gone( GONE2 ); }
RES( copySelf )( A & a, JP ) { OPEN( a ); ANY; a = static_cast< A const & >( a ); AFTER( a, n ); KEPT; }
RES( copyNew )( A & a, A & b, JP ) { OPEN( a ); VALID( b ); ANY; b = static_cast< A const & >( a ); AFTER( b, n ); vf_prove( wsz[ j ] == szj, SZ ); vf_prove( wval != val, "a copy has storage of its own" ); vf_prove( woff[ n ] <= b.valueCapacity(), "the offsets stay inside the storage" ); vf_from( wval + woff[ j ] + p, val + offj + p, NEW ); }
// views
#define VIEW( name, params, pre, call, N, shift, newp, from ) \
RES( v##name##Other )( A & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; OTHER; ANY; call; AFTER( a, n ); ROOM( n ); KEPT; } \
RES( v##name )( A & a, long i, JP params ) { OPEN( a ); INDEX( i ); pre; vf_assume( j == i ); ANY; call; AFTER( a, n ); vf_prove( wsz[ i ] == szi + ( N ), SZ ); AT( j, shift, OWN ); } \
RES( v##name##New )( A & a, long i, long q params ) { OPEN( a ); INDEX( i ); pre; vf_assume( q >= 0 ); vf_assume( q < ( N ) ); vf_begin(); call; AFTER( a, n ); vf_prove( wsz[ i ] == szi + ( N ), SZ ); vf_from( wval + woff[ i ] + ( newp ) + q, from, NEW ); }
VIEW( emplaceBack, C Elem const & x, vf_assume( szi + 1 <= offi1 - offi ), v.emplaceBack( i, x ), 1, p, szi, &x )
VIEW( emplaceBackAtomic, C Elem const & x, vf_assume( szi + 1 <= offi1 - offi ), v.emplaceBackAtomic< RAJA::seq_atomic >( i, x ), 1, p, szi, &x )
VIEW( appendToArray, C Elem const * f C long m, vf_assume( m >= 0 ); vf_assume( szi + m <= offi1 - offi ), v.appendToArray( i, f, f + m ), m, p, szi, f + q )
VIEW( emplace, C long k C Elem const & x, vf_assume( szi + 1 <= offi1 - offi ); vf_assume( k >= 0 ); vf_assume( k <= szi ), v.emplace( i, k, x ), 1, ( p < k ? p : p + 1 ), k, &x )
VIEW( insertIntoArray, C long k C Elem const * f C long m, vf_assume( k >= 0 ); vf_assume( k <= szi ); vf_assume( m >= 0 ); vf_assume( szi + m <= offi1 - offi ), v.insertIntoArray( i, k, f, f + m ), m, ( p < k ? p : p + m ), k, f + q )
SHRINKS( veraseFromArray, C long k C long m, vf_assume( k >= 0 ); vf_assume( m >= 0 ); vf_assume( k + m <= szi ), v.eraseFromArray( i, k, m ), szi - m, p >= k && p < k + m, ( p < k ? p : p - m ) )
RES( compress )( A & a, JP ) { OPEN( a ); long const o0 = vf_cell( off ); ANY; a.compress(); AFTER( a, n ); vf_prove( wsz[ j ] == szj, SZ ); vf_prove( woff[ n ] == woff[ n - 1 ] + wsz[ n - 1 ], "after compress the last array has no room left" ); vf_prove( woff[ 0 ] == o0, SZ ); }
RES( capacities )( A & a, long m, long const * c, long k ) { OPEN( a ); vf_assume( m >= 0 ); a.resizeFromCapacities< RAJA::loop_exec >( m, c ); AFTER( a, m ); ROOM( m ); vf_prove( woff[ 0 ] == 0, SZ ); vf_assume( k >= 0 ); vf_assume( k < m ); vf_prove( wsz[ k ] == 0, SZ ); vf_prove( a.capacity() >= m, SZ ); vf_scanned( c, woff + 1, m ); }
RES( capacitiesGone )( A & a, long m, long const * c, JP ) { OPEN( a ); vf_assume( m >= 0 ); ANY; a.resizeFromCapacities< RAJA::loop_exec >( m, c ); vf_gone( GONE2 ); }
// what the accessors say
#define ACC "accessors read the array they name"
#define READ( x ) vf_prove( &( x )( i, k ) == val + offi + k, ACC ); vf_prove( &( x )[ i ][ k ] == val + offi + k, ACC ); vf_prove( ( x )[ i ].size() == szi, ACC ); vf_prove( ( x ).sizeOfArray( i ) == szi, ACC ); vf_prove( ( x ).capacityOfArray( i ) == offi1 - offi, ACC ); vf_prove( ( x ).size() == n, ACC );
RES( access )( A & a, long i, long k ) { OPEN( a ); INDEX( i ); vf_assume( k >= 0 ); vf_assume( k < szi ); READ( a ); auto const cv = a.toViewConstSizes(); auto const cc = a.toViewConst(); READ( v ); READ( cv ); READ( cc );
  vf_prove( a.capacity() == v.capacity(), ACC ); vf_prove( a.valueCapacity() == v.valueCapacity(), ACC ); vf_prove( cc.valueCapacity() == a.valueCapacity(), ACC ); }
RES( accessConst )( A const & a, long i, long k ) { OPEN( a ); INDEX( i ); vf_assume( k >= 0 ); vf_assume( k < szi ); READ( a ); }
