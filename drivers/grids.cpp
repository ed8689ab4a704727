// arrays of several dimensions: changing the default dimension when it is not the outermost one in memory
#include "probe.hpp"
#include "Array.hpp"
using namespace LvArray;
extern "C" { void vf_grid( void const * data, long inner, long outer, long cur, long m, long kind ) noexcept; void vf_grid_end( void const * data ) noexcept; }
#define RES( f ) extern "C" void vf_##f
#define STRIDE( i ) const_cast< long & >( a.strides()[ i ] )
#define SZ "the extents after the operation"
#define NN( a ) vf_assume( a.size( 0 ) >= 0 ); vf_assume( a.size( 1 ) >= 0 )
template< int N, typename P > using G = Array< Elem, N, P, long, ProbeBuffer >;
// dimension IDX is resized; DIMS: the dimensions from the outermost to the innermost in memory
#define GRID2( name, perm, idx, other ) \
RES( name )( G< 2, camp::idx_seq< perm > > & a, long m ) { long const d = a.size( other ), c = a.size( idx ); vf_assume( d >= 0 ); vf_assume( c >= 0 ); vf_assume( m >= 0 ); vf_assume( d * c >= 0 ); vf_assume( d * m >= 0 ); \
  a.setSingleParameterResizeIndex( idx ); STRIDE( idx ) = 1; STRIDE( other ) = c; \
  vf_grid( a.data(), 1, d, c, m, 0 ); a.resize( m ); vf_grid_end( a.data() ); vf_prove( a.size( idx ) == m, SZ ); vf_prove( a.size( other ) == d, SZ ); vf_prove( a.strides()[ idx ] == 1, SZ ); vf_prove( a.strides()[ other ] == m, SZ ); } \
RES( name##Value )( G< 2, camp::idx_seq< perm > > & a, long m, Elem const & x ) { long const d = a.size( other ), c = a.size( idx ); vf_assume( d >= 0 ); vf_assume( c >= 0 ); vf_assume( m >= 0 ); vf_assume( d * c >= 0 ); vf_assume( d * m >= 0 ); \
  a.setSingleParameterResizeIndex( idx ); STRIDE( idx ) = 1; STRIDE( other ) = c; \
  vf_grid( a.data(), 1, d, c, m, long( &x ) ); a.resizeDefault( m, x ); vf_grid_end( a.data() ); vf_prove( a.size( idx ) == m, SZ ); vf_prove( a.size( other ) == d, SZ ); vf_prove( a.strides()[ idx ] == 1, SZ ); vf_prove( a.strides()[ other ] == m, SZ ); }
#define C ,
GRID2( grid01, 0 C 1, 1, 0 )
GRID2( grid10, 1 C 0, 0, 1 )
// o: outermost, i: innermost
#define GRID3( name, perm, idx, o, i ) \
RES( name )( G< 3, camp::idx_seq< perm > > & a, long m ) { long const d = a.size( o ), c = a.size( idx ), q = a.size( i ); vf_assume( d >= 0 ); vf_assume( c >= 0 ); vf_assume( q >= 0 ); vf_assume( m >= 0 ); vf_assume( d * c * q >= 0 ); vf_assume( d * m * q >= 0 ); \
  a.setSingleParameterResizeIndex( idx ); STRIDE( i ) = 1; STRIDE( idx ) = q; STRIDE( o ) = c * q; \
  vf_grid( a.data(), q, d, c, m, 0 ); a.resize( m ); vf_grid_end( a.data() ); vf_prove( a.size( idx ) == m, SZ ); vf_prove( a.size( o ) == d, SZ ); vf_prove( a.size( i ) == q, SZ ); vf_prove( a.strides()[ i ] == 1, SZ ); vf_prove( a.strides()[ idx ] == q, SZ ); vf_prove( a.strides()[ o ] == m * q, SZ ); }
GRID3( grid012, 0 C 1 C 2, 1, 0, 2 )
GRID3( grid210, 2 C 1 C 0, 1, 2, 0 )
// the innermost of three
#define GRID3I( name, perm, idx, o, i ) \
RES( name )( G< 3, camp::idx_seq< perm > > & a, long m ) { long const d = a.size( o ), e = a.size( i ), c = a.size( idx ); vf_assume( d >= 0 ); vf_assume( c >= 0 ); vf_assume( e >= 0 ); vf_assume( m >= 0 ); vf_assume( d * e * c >= 0 ); vf_assume( d * e * m >= 0 ); \
  a.setSingleParameterResizeIndex( idx ); STRIDE( idx ) = 1; STRIDE( i ) = c; STRIDE( o ) = c * e; \
  vf_grid( a.data(), 1, d * e, c, m, 0 ); a.resize( m ); vf_grid_end( a.data() ); vf_prove( a.size( idx ) == m, SZ ); vf_prove( a.size( o ) == d, SZ ); vf_prove( a.size( i ) == e, SZ ); vf_prove( a.strides()[ idx ] == 1, SZ ); vf_prove( a.strides()[ i ] == m, SZ ); vf_prove( a.strides()[ o ] == m * e, SZ ); }
GRID3I( gridInner012, 0 C 1 C 2, 2, 0, 1 )
GRID3I( gridInner102, 1 C 0 C 2, 2, 1, 0 )
