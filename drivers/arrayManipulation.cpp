#include "vf.hpp"
#include "arrayManipulation.hpp"
using namespace LvArray::arrayManipulation;
#define SETUP( cap ) vf_assume( size >= 0 ); vf_assume( (cap) >= size ); vf_live( p, size, "old" ); vf_raw( p + size, (cap) - size )

extern "C" void vf_destroy( Elem * p, long size )
{ SETUP( size ); destroy( p, size ); vf_expect_raw( p, 0, size ); }

extern "C" void vf_uninitializedCopy( Elem * p, long size, Elem const * q )
{ vf_assume( size >= 0 ); vf_raw( p, size ); vf_live( q, size, "src" ); uninitializedCopy( q, q + size, p );
  vf_expect_seq( p, 0, size, "src", 0 ); vf_expect_seq( q, 0, size, "src", 0 ); }

extern "C" void vf_uninitializedMove( Elem * p, long size, Elem * q )
{ vf_assume( size >= 0 ); vf_raw( p, size ); vf_live( q, size, "src" ); uninitializedMove( p, size, q );
  vf_expect_seq( p, 0, size, "src", 0 ); vf_expect_alive( q, 0, size ); }

extern "C" void vf_uninitializedShiftDown( Elem * p, long size, long amount )
{ vf_assume( size >= 0 ); vf_assume( amount >= 0 ); vf_raw( p - amount, amount ); vf_live( p, size, "old" );
  uninitializedShiftDown( p, size, amount );
  vf_expect_seq( p - amount, 0, size, "old", 0 ); vf_expect_raw( p, size - amount > 0 ? size - amount : 0, size );
  if( amount > size ) vf_expect_raw( p - amount, size, amount ); }

extern "C" void vf_uninitializedShiftUp( Elem * p, long size, long amount )
{ vf_assume( size >= 0 ); vf_assume( amount >= 0 ); SETUP( size + amount );
  uninitializedShiftUp( p, size, amount );
  vf_expect_seq( p + amount, 0, size, "old", 0 ); vf_expect_raw( p, 0, amount ); }

extern "C" void vf_resize_default( Elem * p, long size, long newSize )
{ vf_assume( newSize >= 0 ); SETUP( newSize > size ? newSize : size ); resize( p, size, newSize );
  long const m = newSize < size ? newSize : size;
  vf_expect_seq( p, 0, m, "old", 0 ); vf_expect_default( p, size, newSize ); vf_expect_raw( p, newSize, size ); }

extern "C" void vf_resize_value( Elem * p, long size, long newSize, Elem const & x )
{ vf_assume( newSize >= 0 ); vf_live( &x, 1, "arg" ); SETUP( newSize > size ? newSize : size ); resize( p, size, newSize, x );
  long const m = newSize < size ? newSize : size;
  vf_expect_seq( p, 0, m, "old", 0 ); vf_expect_all( p, size, newSize, "arg", 0 ); vf_expect_raw( p, newSize, size );
  vf_expect_seq( &x, 0, 1, "arg", 0 ); }

extern "C" void vf_shiftUp( Elem * p, long size, long index, long n )
{ vf_assume( n >= 0 ); vf_assume( 0 <= index ); vf_assume( index <= size ); SETUP( size + n ); shiftUp( p, size, index, n );
  vf_expect_seq( p, 0, index, "old", 0 ); vf_expect_raw( p, index, index + n ); vf_expect_seq( p, index + n, size + n, "old", -n ); }

extern "C" void vf_shiftDown( Elem * p, long size, long index, long n )
{ vf_assume( n >= 0 ); vf_assume( n <= index ); vf_assume( index <= size ); SETUP( size ); shiftDown( p, size, index, n );
  vf_expect_seq( p, 0, index - n, "old", 0 ); vf_expect_seq( p, index - n, size - n, "old", n ); vf_expect_alive( p, size - n, size ); }

extern "C" void vf_erase( Elem * p, long size, long index, long n )
{ vf_assume( n >= 0 ); vf_assume( 0 <= index ); vf_assume( index + n <= size ); SETUP( size ); erase( p, size, index, n );
  vf_expect_seq( p, 0, index, "old", 0 ); vf_expect_seq( p, index, size - n, "old", n ); vf_expect_raw( p, size - n, size ); }

extern "C" void vf_erase1( Elem * p, long size, long index )
{ vf_assume( 0 <= index ); vf_assume( index < size ); SETUP( size ); erase( p, size, index );
  vf_expect_seq( p, 0, index, "old", 0 ); vf_expect_seq( p, index, size - 1, "old", 1 ); vf_expect_raw( p, size - 1, size ); }

extern "C" void vf_emplaceBack( Elem * p, long size, Elem const & x )
{ vf_live( &x, 1, "arg" ); SETUP( size + 1 ); emplaceBack( p, size, x );
  vf_expect_seq( p, 0, size, "old", 0 ); vf_expect_all( p, size, size + 1, "arg", 0 ); }

extern "C" void vf_append( Elem * p, long size, Elem const * q, long n )
{ vf_assume( n >= 0 ); vf_live( q, n, "src" ); SETUP( size + n ); long const r = append( p, size, q, q + n ); vf_prove( r == n, "append returns the number of values appended" );
  vf_expect_seq( p, 0, size, "old", 0 ); vf_expect_seq( p, size, size + n, "src", -size ); vf_expect_seq( q, 0, n, "src", 0 ); }

extern "C" void vf_emplace( Elem * p, long size, long index, Elem const & x )
{ vf_assume( 0 <= index ); vf_assume( index <= size ); vf_live( &x, 1, "arg" ); SETUP( size + 1 ); emplace( p, size, index, x );
  vf_expect_seq( p, 0, index, "old", 0 ); vf_expect_all( p, index, index + 1, "arg", 0 ); vf_expect_seq( p, index + 1, size + 1, "old", -1 ); }

extern "C" void vf_insert( Elem * p, long size, long index, Elem const * q, long n )
{ vf_assume( n >= 0 ); vf_assume( 0 <= index ); vf_assume( index <= size ); vf_live( q, n, "src" ); SETUP( size + n ); insert( p, size, index, q, n );
  vf_expect_seq( p, 0, index, "old", 0 ); vf_expect_seq( p, index, index + n, "src", -index ); vf_expect_seq( p, index + n, size + n, "old", -n );
  vf_expect_seq( q, 0, n, "src", 0 ); }

extern "C" void vf_popBack( Elem * p, long size )
{ vf_assume( size > 0 ); SETUP( size ); popBack( p, size ); vf_expect_seq( p, 0, size - 1, "old", 0 ); vf_expect_raw( p, size - 1, size ); }
