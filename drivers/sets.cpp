// arrays of sets: where every element goes
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "follow.hpp"
using namespace LvArray;
using A = ArrayOfSets< Elem, long, ProbeBuffer >;
using AA = ArrayOfArrays< Elem, long, ProbeBuffer >;
RES( setCapacityOther )( A & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); OTHER; ANY; a.setCapacityOfSet( i, c ); AFTER( a, n ); ROOM( n ); KEPT; }
RES( setCapacity )( A & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); vf_assume( j == i ); ANY; a.setCapacityOfSet( i, c ); AFTER( a, n ); ROOM( n );
  if( p < c ) { AT( j, p, OWN ); } else TAIL( GONE1 ); vf_prove( woff[ i + 1 ] - woff[ i ] == c, "the capacity is the one asked for" ); vf_prove( wsz[ i ] <= c, SZ ); }
RES( reserveCapacityOther )( A & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); OTHER; ANY; a.reserveCapacityOfSet( i, c ); AFTER( a, n ); ROOM( n ); KEPT; }
RES( reserveCapacity )( A & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); vf_assume( j == i ); ANY; a.reserveCapacityOfSet( i, c ); AFTER( a, n ); ROOM( n ); AT( j, p, OWN ); vf_prove( woff[ i + 1 ] - woff[ i ] >= c, "the capacity is at least the one asked for" ); }
RES( insertOther )( A & a, long i, Elem const & x, JP ) { OPEN( a ); INDEX( i ); OTHER; ANY; a.insertIntoSet( i, x ); AFTER( a, n ); ROOM( n ); KEPT; }
RES( insert )( A & a, long i, Elem const & x, JP ) { OPEN( a ); INDEX( i ); vf_assume( j == i ); ANY; bool const r = a.insertIntoSet( i, x ); AFTER( a, n ); ROOM( n ); vf_prove( wsz[ i ] == szi + r, SZ ); vf_prove( woff[ i + 1 ] - woff[ i ] >= wsz[ i ], SZ ); vf_within( wval + woff[ i ] + p, wval + woff[ i ] + p + 1, OWN ); }
RES( removeOther )( A & a, long i, Elem const & x, JP ) { OPEN( a ); INDEX( i ); OTHER; ANY; a.removeFromSet( i, x ); AFTER( a, n ); ROOM( n ); KEPT; }
RES( clearOther )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); OTHER; ANY; a.clearSet( i ); AFTER( a, n ); ROOM( n ); KEPT; }
RES( clear )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); vf_assume( j == i ); ANY; a.clearSet( i ); AFTER( a, n ); vf_prove( wsz[ i ] == 0, SZ ); vf_gone( GONE1 ); }
RES( append )( A & a, long m, JP ) { OPEN( a ); vf_assume( m >= 0 ); ANY; a.appendSet( m ); AFTER( a, n + 1 ); ROOM( n + 1 ); KEPT; vf_prove( wsz[ n ] == 0, SZ ); vf_prove( woff[ n + 1 ] - woff[ n ] == m, "the capacity is the one asked for" ); }
RES( insertSetBelow )( A & a, long i, long m, JP ) { OPEN( a ); vf_assume( i >= 0 ); vf_assume( i <= n ); vf_assume( m >= 0 ); vf_assume( j < i ); ANY; a.insertSet( i, m ); AFTER( a, n + 1 ); ROOM( n + 1 ); KEPT; }
RES( insertSetAbove )( A & a, long i, long m, JP ) { OPEN( a ); vf_assume( i >= 0 ); vf_assume( i <= n ); vf_assume( m >= 0 ); vf_assume( j >= i ); ANY; a.insertSet( i, m ); AFTER( a, n + 1 ); ROOM( n + 1 ); AT( j + 1, p, KEEP ); vf_prove( wsz[ j + 1 ] == szj, SZ ); vf_prove( wsz[ i ] == 0, SZ ); vf_prove( woff[ i + 1 ] - woff[ i ] == m, "the capacity is the one asked for" ); }
RES( eraseBelow )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); vf_assume( j < i ); ANY; a.eraseSet( i ); AFTER( a, n - 1 ); ROOM( n - 1 ); KEPT; }
RES( eraseAbove )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); vf_assume( j > i ); ANY; a.eraseSet( i ); AFTER( a, n - 1 ); ROOM( n - 1 ); AT( j - 1, p, KEEP ); vf_prove( wsz[ j - 1 ] == szj, SZ ); }
RES( erase )( A & a, long i, JP ) { OPEN( a ); INDEX( i ); vf_assume( j == i ); ANY; a.eraseSet( i ); AFTER( a, n - 1 ); vf_gone( GONE2 ); }
RES( resize )( A & a, long m, long c, JP ) { OPEN( a ); vf_assume( m >= 0 ); vf_assume( c >= 0 ); ANY; a.resize( m, c ); AFTER( a, m ); ROOM( m ); if( j < m ) { KEPT; } else { vf_gone( GONE2 ); } }
RES( reserve )( A & a, long m, JP ) { OPEN( a ); ANY; a.reserve( m ); AFTER( a, n ); KEPT; ROOM( n ); }
RES( reserveValues )( A & a, long m, JP ) { OPEN( a ); ANY; a.reserveValues( m ); AFTER( a, n ); KEPT; ROOM( n ); }
RES( compress )( A & a, JP ) { OPEN( a ); ANY; a.compress(); AFTER( a, n ); vf_prove( wsz[ j ] == szj, SZ ); vf_prove( woff[ n ] == woff[ n - 1 ] + wsz[ n - 1 ], "after compress the last array has no room left" ); }
RES( destroy )( A & a, JP ) { OPEN( a ); ANY; a.~A(); vf_gone( GONE2 ); }
RES( moveAssignOver )( A & a, A & b, JP ) { OPEN( a ); ANY; a = std::move( b ); vf_gone( GONE2 ); }
RES( moveAssign )( A & b, A & a, JP ) { OPEN( a ); ANY; b = std::move( a ); AFTER( b, n ); AT( j, p, KEEP ); vf_prove( wsz[ j ] == szj, SZ ); }
RES( moveConstruct )( A & a, JP ) { OPEN( a ); ANY; { A b( std::move( a ) ); AFTER( b, n ); AT( j, p, KEEP ); vf_prove( wsz[ j ] == szj, SZ ); } vf_gone( GONE2 ); }
RES( copyOver )( A & a, A & b, JP ) { OPEN( a ); vf_assume( b.size() >= 0 ); ANY; a = static_cast< A const & >( b ); vf_gone( GONE2 ); }
RES( copySelf )( A & a, JP ) { OPEN( a ); ANY; a = static_cast< A const & >( a ); AFTER( a, n ); KEPT; }
RES( copyNew )( A & a, A & b, JP ) { OPEN( a ); VALID( b ); ANY; b = static_cast< A const & >( a ); AFTER( b, n ); vf_prove( wsz[ j ] == szj, SZ ); vf_prove( wval != val, "a copy has storage of its own" ); vf_from( wval + woff[ j ] + p, val + offj + p, NEW ); }
RES( assimilateOver )( A & a, AA & b, JP ) { OPEN( a ); ANY; a.assimilate( std::move( b ), sortedArrayManipulation::SORTED_UNIQUE ); vf_gone( GONE2 ); }
RES( assimilate )( A & b, AA & a, JP ) { OPEN( a ); ANY; b.assimilate( std::move( a ), sortedArrayManipulation::SORTED_UNIQUE ); AFTER( b, n ); AT( j, p, KEEP ); vf_prove( wsz[ j ] == szj, SZ ); }
#define ACC "accessors read the set they name"
#define READ( x ) vf_prove( &( x )( i, k ) == val + offi + k, ACC ); vf_prove( &( x )[ i ][ k ] == val + offi + k, ACC ); vf_prove( ( x )[ i ].size() == szi, ACC ); vf_prove( ( x ).sizeOfSet( i ) == szi, ACC ); vf_prove( ( x ).capacityOfSet( i ) == offi1 - offi, ACC ); vf_prove( ( x ).size() == n, ACC );
RES( access )( A & a, long i, long k ) { OPEN( a ); INDEX( i ); vf_assume( k >= 0 ); vf_assume( k < szi ); READ( a ); auto const cc = a.toViewConst(); READ( v ); READ( cc ); auto const aa = a.toArrayOfArraysView(); vf_prove( &aa( i, k ) == val + offi + k, ACC ); vf_prove( aa.sizeOfArray( i ) == szi, ACC ); }
