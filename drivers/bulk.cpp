// Bulk copies between slices: what is copied, and when it is refused.
#include <array>
#include "probe.hpp"
#include "Array.hpp"
#include "memcpy.hpp"
using namespace LvArray;
#define RES( f ) extern "C" void vf_##f
extern "C" { void vf_copies( void const * dst, void const * src, long bytes ) noexcept; void vf_copied() noexcept; long vf_any() noexcept; }
#define EQ "the two ranges have the same extents and strides"
#define CONT "what is copied is contiguous"
template< int N, int U, typename I=long > using D = ArraySlice< long, N, U, I >;
template< int N, int U, typename I=long > using S = ArraySlice< long const, N, U, I >;
// p extra extents lie between the dimensions of a slice; the strides then are multiples of what they would be
#define GAP( p, q ) vf_assume( p >= 1 ); if( p >= 2 ) vf_assume( ( p - 2 ) * ( q ) >= 0 )
// x * c == y * c and c > 0 means x == y
#define DIV( x, y, c, e ) if( c == e ) vf_assume( y * c == y * e ); if( x > y ) vf_assume( ( x - y - 1 ) * ( c - 1 ) >= 0 ); if( y > x ) vf_assume( ( y - x - 1 ) * ( c - 1 ) >= 0 )
#define POS1( d ) vf_assume( d.size( 0 ) >= 1 )
#define POS2( d ) POS1( d ); vf_assume( d.size( 1 ) >= 1 ); vf_assume( d.size( 0 ) * d.size( 1 ) >= 1 )
#define POS3( d ) POS2( d ); vf_assume( d.size( 2 ) >= 1 ); vf_assume( d.size( 0 ) * d.size( 1 ) * d.size( 2 ) >= 1 ); vf_assume( d.size( 1 ) * d.size( 2 ) >= 1 ); vf_assume( d.size( 0 ) * d.size( 2 ) >= 1 )
#define FIRST1( d ) &d( 0 )
#define FIRST2( d ) &d( 0, 0 )
#define FIRST3( d ) &d( 0, 0, 0 )
#define TOTAL1( d ) ( d.size( 0 ) )
#define TOTAL2( d ) ( d.size( 0 ) * d.size( 1 ) )
#define TOTAL3( d ) ( d.size( 0 ) * d.size( 1 ) * d.size( 2 ) )
#define WAYS( name, N, U, pre, post ) \
RES( name )( D< N, U > const & d, S< N, U > const & s, long g, long h ) { POS##N( d ); POS##N( s ); pre; vf_copies( FIRST##N( d ), FIRST##N( s ), TOTAL##N( d ) * 8 ); LvArray::memcpy( d, s ); vf_copied(); post; } \
RES( name##Resource )( camp::resources::Resource & r, D< N, U > const & d, S< N, U > const & s, long g, long h ) { POS##N( d ); POS##N( s ); pre; vf_copies( FIRST##N( d ), FIRST##N( s ), TOTAL##N( d ) * 8 ); LvArray::memcpy( r, d, s ); vf_copied(); post; }
WAYS( line, 1, 0, , vf_prove( d.size( 0 ) == s.size( 0 ), EQ ); vf_prove( d.stride( 0 ) == s.stride( 0 ), EQ ) )
// in: the dimension of unit stride, out: the other one
#define LAID2( d, in, out, g ) vf_assume( d.stride( in ) == 1 ); vf_assume( d.stride( out ) == g * d.size( in ) ); GAP( g, d.size( in ) )
#define PLANE( name, in, out ) WAYS( name, 2, in, LAID2( d, in, out, g ); LAID2( s, in, out, h ), \
  vf_prove( g == 1, CONT ); vf_prove( d.stride( out ) == s.stride( out ), EQ ); vf_prove( d.size( in ) == s.size( in ), EQ ); DIV( d.size( out ), s.size( out ), d.size( in ), s.size( in ) ); vf_prove( d.size( out ) == s.size( out ), EQ ) )
PLANE( rows, 1, 0 )
PLANE( columns, 0, 1 )
#define LAID3( d, in, mid, out, g, h ) vf_assume( d.stride( in ) == 1 ); vf_assume( h >= 1 ); vf_assume( d.stride( mid ) == h * d.size( in ) ); vf_assume( d.stride( out ) == g * h * d.size( in ) * d.size( mid ) ); vf_assume( g >= 1 ); { long const p = g * h; GAP( p, d.size( in ) * d.size( mid ) ); } if( g >= 2 ) vf_assume( ( g - 2 ) * h >= 0 ); if( h >= 2 ) vf_assume( ( h - 2 ) * g >= 0 )
#define SPACE( name, in, mid, out ) WAYS( name, 3, in, long const g2 = vf_any(); long const h2 = vf_any(); LAID3( d, in, mid, out, g, h ); LAID3( s, in, mid, out, g2, h2 ), \
  vf_prove( g == 1, CONT ); vf_prove( h == 1, CONT ); vf_prove( d.stride( out ) == s.stride( out ), EQ ); vf_prove( d.stride( mid ) == s.stride( mid ), EQ ) )
SPACE( cube012, 2, 1, 0 )
SPACE( cube102, 2, 0, 1 )
SPACE( cube021, 1, 2, 0 )
SPACE( cube201, 1, 0, 2 )
SPACE( cube120, 0, 2, 1 )
SPACE( cube210, 0, 1, 2 )
// what has to be accepted: whole arrays of equal extents, empty ones among them
#define SAME1( d, s ) vf_assume( d.size( 0 ) >= 0 ); vf_assume( d.size( 0 ) == s.size( 0 ) ); vf_assume( d.stride( 0 ) == 1 ); vf_assume( s.stride( 0 ) == 1 )
#define SAME2( d, s ) vf_assume( d.size( 0 ) >= 0 ); vf_assume( d.size( 1 ) >= 0 ); vf_assume( d.size( 0 ) == s.size( 0 ) ); vf_assume( d.size( 1 ) == s.size( 1 ) ); vf_assume( d.stride( 0 ) == s.stride( 0 ) ); vf_assume( d.stride( 1 ) == s.stride( 1 ) ); vf_assume( TOTAL2( d ) == TOTAL2( s ) )
#define SAME3( d, s ) SAME2( d, s ); vf_assume( d.size( 2 ) >= 0 ); vf_assume( d.size( 2 ) == s.size( 2 ) ); vf_assume( d.stride( 2 ) == s.stride( 2 ) ); vf_assume( TOTAL3( d ) == TOTAL3( s ) ); vf_assume( d.size( 0 ) * d.size( 2 ) == s.size( 0 ) * s.size( 2 ) ); vf_assume( d.size( 1 ) * d.size( 2 ) == s.size( 1 ) * s.size( 2 ) )
RES( fits1 )( D< 1, 0 > const & d, S< 1, 0 > const & s ) { SAME1( d, s ); LvArray::memcpy( d, s ); }
#define FITS2( name, in, out ) RES( fits##name )( D< 2, in > const & d, S< 2, in > const & s ) { SAME2( d, s ); vf_assume( d.stride( in ) == 1 ); vf_assume( d.stride( out ) == d.size( in ) ); LvArray::memcpy( d, s ); }
FITS2( Rows, 1, 0 )
FITS2( Columns, 0, 1 )
// either nothing is zero, or something is: the extent 'in' (with 'mid' too), 'mid', 'out'
#define FITS3( name, in, mid, out ) RES( fits##name )( D< 3, in > const & d, S< 3, in > const & s ) { SAME3( d, s ); vf_assume( d.stride( in ) == 1 ); vf_assume( d.stride( mid ) == d.size( in ) ); vf_assume( d.stride( out ) == d.size( in ) * d.size( mid ) ); \
  long const a = d.size( in ), b = d.size( mid ), c = d.size( out ); \
  if( c >= 1 ) vf_assume( ( c - 1 ) * a >= 0 ); else vf_assume( c * a == 0 ); if( b >= 1 ) vf_assume( ( b - 1 ) * a >= 0 ); else vf_assume( b * a == 0 ); LvArray::memcpy( d, s ); }
FITS3( Cube012, 2, 1, 0 )
FITS3( Cube102, 2, 0, 1 )
FITS3( Cube021, 1, 2, 0 )
FITS3( Cube201, 1, 0, 2 )
FITS3( Cube120, 0, 2, 1 )
FITS3( Cube210, 0, 1, 2 )
// index types that differ
RES( mixed )( D< 1, 0, int > const & d, S< 1, 0, long > const & s ) { POS1( d ); POS1( s ); vf_copies( FIRST1( d ), FIRST1( s ), long( d.size( 0 ) ) * 8 ); LvArray::memcpy( d, s ); vf_copied(); vf_prove( d.size( 0 ) == s.size( 0 ), EQ ); }
// arrays
template< typename T, int N, int U > using V = ArrayView< T, N, U, long, ProbeBuffer >;
extern "C" { void vf_moves( void const * dst, void const * src ) noexcept; void vf_moved() noexcept; }
#define ARRAYS( name, ND, UD, NS, US, KD, KS, dst, src, total, ... ) \
RES( name )( V< long, ND, UD > const & d, V< long const, NS, US > const & s, long i, long j ) { vf_moves( &d.dataBuffer(), &s.dataBuffer() ); vf_copies( dst, src, ( total ) * 8 ); LvArray::memcpy< KD, KS >( d, __VA_ARGS__ ); vf_copied(); vf_moved(); } \
RES( name##Resource )( camp::resources::Resource & r, V< long, ND, UD > const & d, V< long const, NS, US > const & s, long i, long j ) { vf_moves( &d.dataBuffer(), &s.dataBuffer() ); vf_copies( dst, src, ( total ) * 8 ); LvArray::memcpy< KD, KS >( r, d, __VA_ARGS__ ); vf_copied(); vf_moved(); }
using IX = std::array< long, 1 >;
using IX0 = std::array< long, 0 >;
using IX2 = std::array< long, 2 >;
#define C ,
ARRAYS( whole, 1, 0, 1, 0, 0, 0, d.data(), s.data(), d.size( 0 ), IX0{}, s, IX0{} )
ARRAYS( intoRow, 2, 1, 1, 0, 1, 0, d.data() + i * d.strides()[ 0 ], s.data(), d.size( 1 ), IX{ i }, s, IX0{} )
ARRAYS( fromRow, 1, 0, 2, 1, 0, 1, d.data(), s.data() + j * s.strides()[ 0 ], d.size( 0 ), IX0{}, s, IX{ j } )
ARRAYS( betweenRows, 3, 2, 2, 1, 2, 1, d.data() + i * d.strides()[ 0 ] + j * d.strides()[ 1 ], s.data() + j * s.strides()[ 0 ], d.size( 2 ), IX2{ i C j }, s, IX{ j } )
using IX3 = std::array< long, 3 >;
ARRAYS( deepRow, 4, 3, 4, 3, 3, 3, d.data() + i * d.strides()[ 0 ] + j * d.strides()[ 1 ] + ( i + j ) * d.strides()[ 2 ], s.data() + j * s.strides()[ 0 ] + i * s.strides()[ 1 ] + ( i - j ) * s.strides()[ 2 ], d.size( 3 ), IX3{ i C j C i + j }, s, IX3{ j C i C i - j } )
ARRAYS( deepFrom, 1, 0, 4, 3, 0, 3, d.data(), s.data() + j * s.strides()[ 0 ] + i * s.strides()[ 1 ] + ( i - j ) * s.strides()[ 2 ], d.size( 0 ), IX0{}, s, IX3{ j C i C i - j } )
