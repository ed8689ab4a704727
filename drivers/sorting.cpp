// Sorting in pairs and duplicate removal, over values that can only be moved: where each value goes is recorded by the moves themselves.
#include "sortedArrayManipulation.hpp"
#include "vf.hpp"
using namespace LvArray::sortedArrayManipulation;
#define P_OUT "one value is out of its place at a time, and goes back before the next"
#define P_HOLE "a value is put only where one was taken away"
#define P_PAIR "what is done to a value is done to its partner"

extern "C"
{
bool vf_is_temp( void const * ) noexcept;
long vf_index( void const *, int side ) noexcept;
bool vf_less( void const *, void const * ) noexcept;
// Each side: whether a value is out, and the place that is empty; what has been done to one side and not yet to the other.
long vfg_full0, vfg_full1, vfg_hole0, vfg_hole1, vfg_pending, vfg_kind, vfg_at;
}

template< int SIDE > struct Value
{
  char c;
  static long & full() { return SIDE ? vfg_full1 : vfg_full0; }
  static long & hole() { return SIDE ? vfg_hole1 : vfg_hole0; }
  long at() const { return vf_index( this, SIDE ); }
  static void op( long kind, long at )
  {
    if( vfg_pending != 0 ) { vf_prove( vfg_pending == 2 - SIDE && vfg_kind == kind && vfg_at == at, P_PAIR ); vfg_pending = 0; }
    else { vfg_pending = 1 + SIDE; vfg_kind = kind; vfg_at = at; }
  }
  Value() = delete;
  Value( Value const & ) = delete;
  Value & operator=( Value const & ) = delete;
  Value( Value && src ) noexcept
  {
    vf_prove( !vf_is_temp( &src ), P_OUT );
    vf_prove( full() == 0, P_OUT );
    full() = 1; hole() = src.at();
    op( 1, src.at() );
  }
  Value & operator=( Value && src ) noexcept
  {
    vf_prove( !vf_is_temp( this ), P_HOLE );
    vf_prove( full() == 1, P_HOLE );
    vf_prove( hole() == at(), P_HOLE );
    if( vf_is_temp( &src ) ) { full() = 0; op( 2, at() ); }
    else { hole() = src.at(); op( 3, src.at() ); }
    return *this;
  }
};
using A = Value< 0 >;
using B = Value< 1 >;
struct Less { bool operator()( A const & x, A const & y ) const { vf_prove( vfg_pending == 0, P_PAIR ); return vf_less( &x, &y ); } };

extern "C" void vf_pairs( A * a, long n, B * b )
{
  vf_assume( n >= 0 );
  dualSort( a, a + n, b, Less{} );
}
