// Markers and the shape of an array of arrays, for the drivers that follow single elements.
#pragma once
#include "probe.hpp"
extern "C"
{
void vf_layout( long const * off, long const * sz, long n ) noexcept;
void vf_begin() noexcept;
void vf_track( void const * ) noexcept;
void vf_gap( void const * ) noexcept;
void vf_at( void const *, char const * ) noexcept;
void vf_gone( char const * ) noexcept;
void vf_still() noexcept;
void vf_from( void const *, void const *, char const * ) noexcept;
void vf_fromnone( void const *, char const * ) noexcept;
long vf_cell( long const * ) noexcept;
void vf_apart( long, long ) noexcept;
void vf_scanned( long const * in, long const * out, long n ) noexcept;
void vf_within( void const * lo, void const * hi, char const * ) noexcept;
}
#define RES( f ) extern "C" void vf_##f
#define KEEP "values of other arrays stay in place"
#define OWN "values of the same array keep their order"
#define SZ "sizes and offsets after the operation"
#define NEW "new values are the ones given"
// any array of arrays with n arrays; j, p: any value of it
#define OPEN( a ) auto const v = a.toView(); long const n = a.size(); long const * const off = v.getOffsets(); long const * const sz = v.getSizes(); Elem const * const val = v.getValues(); \
  vf_layout( off, sz, n ); vf_assume( n >= 0 ); vf_assume( a.valueCapacity() >= vf_cell( off + n ) ); vf_assume( a.capacity() >= n )
#define ANY long const offj = vf_cell( off + j ), szj = vf_cell( sz + j ), offj1 = vf_cell( off + j + 1 ); vf_assume( j >= 0 ); vf_assume( j < n ); vf_assume( p >= 0 ); vf_assume( p < szj ); vf_track( val + offj + p ); vf_begin()
#define INDEX( i ) vf_assume( i >= 0 ); vf_assume( i < n ); long const szi = vf_cell( sz + i ), offi = vf_cell( off + i ), offi1 = vf_cell( off + i + 1 ); vf_assume( szi >= 0 )
#define AFTER( a, N ) auto const w = a.toView(); long const * const woff = w.getOffsets(); long const * const wsz = w.getSizes(); Elem const * const wval = w.getValues(); vf_prove( a.size() == ( N ), "the number of arrays" )
#define AT( jj, pp, what ) vf_prove( wsz[ jj ] > ( pp ), SZ ); vf_at( wval + woff[ jj ] + ( pp ), what )
#define KEPT AT( j, p, KEEP ); vf_prove( wsz[ j ] == szj, SZ ); vf_prove( woff[ j + 1 ] - woff[ j ] >= wsz[ j ], SZ )
#define ROOM( N ) vf_prove( woff[ N ] <= a.valueCapacity(), "the offsets stay inside the storage" )
#define JP long j, long p
#define TAIL( c ) { vf_gone( c ); }
#define GONE1 "values beyond the new end are destroyed"
#define GONE2 "the values of an array that is removed are destroyed"
#define OTHER vf_apart( j, i )
#define VALID( b ) vf_assume( b.size() >= 0 ); vf_layout( b.toView().getOffsets(), b.toView().getSizes(), b.size() )
