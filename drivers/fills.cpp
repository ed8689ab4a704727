// Filling whole containers.
#include "Array.hpp"
#include "CRSMatrix.hpp"
#include "follow.hpp"
using namespace LvArray;
struct Pol {};
extern "C" { void vf_fills( void const * dst, long value, long bytes ) noexcept; void vf_copied() noexcept; void vf_filled( void const * ) noexcept; void vf_row( long j, bool mine ) noexcept; }
#define ALL "every value of the range is set"
#define REST "nothing outside the range is set"
#ifndef VF_FORALL_ANY
template< typename T, int N, int U, typename I > using V = ArrayView< T, N, U, I, ProbeBuffer >;
template< int N, int U > using W = V< long, N, U, long >;
#define TOTAL1( a ) ( a.size( 0 ) )
#define TOTAL2( a ) ( a.size( 0 ) * a.size( 1 ) )
#define TOTAL3( a ) ( a.size( 0 ) * a.size( 1 ) * a.size( 2 ) )
#define FILL( name, N, U, call, want ) \
RES( name##Each )( W< N, U > const & a, W< N, U > const & b, long x, long k ) { long const n = TOTAL##N( a ); vf_assume( k >= 0 ); vf_assume( k < n ); call; vf_prove( a.data()[ k ] == ( want ), ALL ); } \
RES( name##Rest )( W< N, U > const & a, W< N, U > const & b, long x, long k ) { long const n = TOTAL##N( a ); vf_assume( n >= 0 ); if( k >= 0 ) vf_assume( k >= n ); long const was = a.data()[ k ]; call; vf_prove( a.data()[ k ] == was, REST ); }
FILL( line, 1, 0, a.setValues< Pol >( x ), x )
FILL( rows, 2, 1, a.setValues< Pol >( x ), x )
FILL( columns, 2, 0, a.setValues< Pol >( x ), x )
FILL( cube, 3, 2, a.setValues< Pol >( x ), x )
FILL( lineFrom, 1, 0, a.setValues< Pol >( b.toViewConst() ), b.data()[ k ] )
FILL( rowsFrom, 2, 1, a.setValues< Pol >( b.toViewConst() ), b.data()[ k ] )
FILL( columnsFrom, 2, 0, a.setValues< Pol >( b.toViewConst() ), b.data()[ k ] )
RES( lineSame )( W< 1, 0 > const & a, W< 1, 0 > const & b ) { a.setValues< Pol >( b.toViewConst() ); vf_prove( a.size( 0 ) == b.size( 0 ), "the two ranges have the same extents" ); }
#define SAME2 vf_prove( a.size( 0 ) == b.size( 0 ), "the two ranges have the same extents" ); vf_prove( a.size( 1 ) == b.size( 1 ), "the two ranges have the same extents" ); vf_prove( a.strides()[ 0 ] == b.strides()[ 0 ], "the two ranges have the same strides" ); vf_prove( a.strides()[ 1 ] == b.strides()[ 1 ], "the two ranges have the same strides" )
RES( rowsSame )( W< 2, 1 > const & a, W< 2, 1 > const & b ) { a.setValues< Pol >( b.toViewConst() ); SAME2; }
RES( columnsSame )( W< 2, 0 > const & a, W< 2, 0 > const & b ) { a.setValues< Pol >( b.toViewConst() ); SAME2; }
// zero
RES( zeroLine )( V< long, 1, 0, long > const & a ) { vf_assume( a.size( 0 ) > 0 ); vf_fills( a.data(), 0, a.size( 0 ) * 8 ); a.zero(); vf_copied(); vf_filled( &a.dataBuffer() ); }
RES( zeroShort )( V< short, 1, 0, int > const & a ) { vf_assume( a.size( 0 ) > 0 ); vf_fills( a.data(), 0, long( a.size( 0 ) ) * 2 ); a.zero(); vf_copied(); vf_filled( &a.dataBuffer() ); }
RES( zeroPlane )( V< int, 2, 1, long > const & a ) { vf_assume( a.size( 0 ) * a.size( 1 ) > 0 ); vf_fills( a.data(), 0, a.size( 0 ) * a.size( 1 ) * 4 ); a.zero(); vf_copied(); vf_filled( &a.dataBuffer() ); }
#else
// matrices: entries of every row; the storage between rows belongs to the matrix too
template< typename T > using M = CRSMatrixView< T, long, long const, ProbeBuffer >;
#define ROWS( a ) auto const v = a.toViewConst(); long const n = a.numRows(); long const * const off = v.getOffsets(); long const * const sz = v.getSizes(); Elem const * const val = v.getEntries(); \
  vf_layout( off, sz, n ); vf_assume( n >= 0 )
#define HOLE long const offj = vf_cell( off + j ), szj = vf_cell( sz + j ), offj1 = vf_cell( off + j + 1 ); vf_assume( j >= 0 ); vf_assume( j < n ); vf_assume( p >= szj ); vf_assume( p < offj1 - offj ); vf_gap( val + offj + p ); vf_begin()
#define ANY_OF( a ) ROWS( a ); vf_assume( j >= 0 ); vf_assume( j < n ); vf_assume( p >= 0 ); long const offj = vf_cell( off + j ), szj = vf_cell( sz + j ); vf_assume( p < szj )
RES( matrix )( M< Elem > const & a, Elem const & x, long j, long p ) { ANY_OF( a ); vf_row( j, true ); vf_begin(); a.setValues< Pol >( x ); vf_from( val + offj + p, &x, ALL ); }
RES( matrixOther )( M< Elem > const & a, Elem const & x, long j, long p ) { ANY_OF( a ); vf_row( j, false ); vf_track( val + offj + p ); vf_begin(); a.setValues< Pol >( x ); vf_still(); }
RES( matrixGap )( M< Elem > const & a, Elem const & x, long i, long j, long p ) { ROWS( a ); INDEX( i ); vf_row( i, true ); vf_assume( j == i ); HOLE; a.setValues< Pol >( x ); vf_still(); }
// access to the buffer of the entries
template< typename T, typename I > struct Open : CRSMatrixView< T, int, I const, ProbeBuffer > { using P = CRSMatrixView< T, int, I const, ProbeBuffer >; static auto const & entries( P const & a ) { return static_cast< Open const & >( a ).m_entries; } };
template< typename T, typename I > using MI = CRSMatrixView< T, int, I const, ProbeBuffer >;
#define ZEROM( name, T, I ) RES( zeroMatrix##name )( MI< T, I > const & a ) { auto const & e = Open< T, I >::entries( a ); long const c = e.capacity(); vf_assume( c > 0 ); vf_fills( a.getEntries(), 0, c * long( sizeof( T ) ) ); a.zero(); vf_copied(); vf_filled( &e ); }
ZEROM( Long, double, long )
ZEROM( Int, double, int )
ZEROM( Short, short, long )
#endif
