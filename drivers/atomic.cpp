// Appending from many threads: any number of other appends may happen at any point.
#include "ArrayOfArrays.hpp"
#include "follow.hpp"
using namespace LvArray;
struct Pol {};
extern "C" {
void vf_shared( long const * sizes, long const * cell, void const * slots, long room, long bytes, char const * policy ) noexcept;
void vf_serial() noexcept;
}
template< typename T > using A = ArrayOfArrays< T, long, ProbeBuffer >;
template< typename T > using V = ArrayOfArraysView< T, long const, false, ProbeBuffer >;
// room: the appends of all threads together fit (documented)
#define AT0( T ) auto const w = a.toView(); long const n = w.size(); long const * const off = w.getOffsets(); long const * const sz = w.getSizes(); T const * const val = w.getValues(); \
  vf_layout( off, sz, n ); vf_assume( n >= 0 ); vf_assume( w.valueCapacity() >= vf_cell( off + n ) ); INDEX( i )
#define START( T ) vf_shared( sz, sz + i, val + offi, offi1 - offi, sizeof( T ), "Pol" )
#define APPEND( name, T, W, call ) RES( name )( W & a, long i, T const & x ) { AT0( T ); START( T ); a.template emplaceBackAtomic< Pol > call; vf_serial(); }
APPEND( view, Elem, V< Elem > const, ( i, x ) )
APPEND( viewDefault, Elem, V< Elem > const, ( i ) )
APPEND( array, Elem, A< Elem >, ( i, x ) )
APPEND( viewLong, long, V< long > const, ( i, x ) )
APPEND( arrayLong, long, A< long >, ( i, x ) )
