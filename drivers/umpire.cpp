// The functions below all bulk copies and fills: one copy of what is given, by Umpire or without it.
#include "vf.hpp"
#include "umpireInterface.cpp"
extern "C" { void vf_copies( void const * dst, void const * src, long bytes ) noexcept; void vf_copied() noexcept; void vf_fills( void const * dst, long value, long bytes ) noexcept; }
#define RES( f ) extern "C" void vf_##f
using namespace LvArray;
RES( copy )( void * d, void * s, long n ) { vf_assume( n >= 0 ); vf_copies( d, s, n ); umpireInterface::copy( d, s, n ); vf_copied(); }
RES( copyResource )( void * d, void * s, long n, camp::resources::Resource & r ) { vf_assume( n >= 0 ); vf_copies( d, s, n ); umpireInterface::copy( d, s, r, n ); vf_copied(); }
RES( fill )( void * d, long n, int x ) { vf_assume( n >= 0 ); vf_assume( x >= 0 ); vf_fills( d, x, n ); umpireInterface::memset( d, x, n ); vf_copied(); }
