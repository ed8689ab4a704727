// buffers of plain integers: the fast paths for trivial types, and the fixed capacity buffer
#include "vf.hpp"
#ifdef VF_STACK
#include "StackBuffer.hpp"
#define BT LvArray::StackBuffer< int, VF_STACK >
#elif defined( VF_CHAI )
#include "ChaiBuffer.hpp"
#define BT LvArray::ChaiBuffer< int >
#else
#include "MallocBuffer.hpp"
#define BT LvArray::MallocBuffer< int >
#endif
#include "bufferManipulation.hpp"
using namespace LvArray;
extern "C" { void vf_record( void const * rec, void const * p, long bytes ) noexcept; void vf_owned_record( void const * rec, void const * p ) noexcept; }
extern "C" { void vf_heap( void const * p, long bytes ) noexcept; void vf_owned( void const * p, long bytes ) noexcept; void vf_fits( bool ) noexcept; void vf_end() noexcept; }
#ifdef VF_STACK
#define RECORD( b ) vf_heap( &b, sizeof( b ) ); vf_prove( sizeof( b ) >= b.capacity() * 4, "the storage is part of the object" ); vf_prove( b.capacity() == VF_STACK, "the capacity is the length" ); vf_prove( (void *) b.data() == (void *) &b, "the storage is part of the object" )
#define OWN( b ) vf_owned( &b, sizeof( b ) )
#define ASKED( b, n ) vf_prove( ( n ) <= VF_STACK, "a fixed capacity buffer refuses to grow" ); vf_prove( b.capacity() == VF_STACK, "the capacity is the length" )
#define FITS( n ) vf_fits( ( n ) <= VF_STACK )
#else
#ifdef VF_CHAI
#define RECORD( b ) vf_record( &b.pointerRecord(), b.data(), b.capacity() * 4 )
#define OWN( b ) vf_owned_record( b.capacity() ? &b.pointerRecord() : nullptr, b.data() ); vf_owned( b.data(), b.capacity() * 4 )
#else
#define RECORD( b ) vf_heap( b.data(), b.capacity() * 4 )
#define OWN( b ) vf_owned( b.data(), b.capacity() * 4 )
#endif
#define ASKED( b, n ) vf_prove( b.capacity() >= ( n ), "the capacity is at least the one asked for" )
#define FITS( n )
#endif
#define K( n ) vf_assume( k >= 0 ); vf_assume( k < ( n ) ); int const old = b.data()[ k ]
#define BUF BT & b, long size
#define SET( b, size ) vf_assume( size >= 0 ); vf_assume( b.capacity() >= size ); RECORD( b )
#define END( b, n ) vf_end(); OWN( b ); vf_prove( b.capacity() >= ( n ), "the capacity is at least the size" )
#define KEPT( i, what ) vf_prove( b.data()[ i ] == old, what )
#define SURVIVE "the values below the size are kept"
#define RES( f ) extern "C" void vf_##f

RES( reallocate )( BUF, long n, long k ) { SET( b, size ); vf_assume( n >= size ); K( size ); FITS( n ); b.reallocate( size, MemorySpace::host, n ); ASKED( b, n ); END( b, size ); KEPT( k, SURVIVE ); }
RES( setCapacity )( BUF, long n, long k ) { SET( b, size ); vf_assume( n >= size ); K( size ); FITS( n ); bufferManipulation::setCapacity( b, size, MemorySpace::host, n ); ASKED( b, n ); END( b, size ); KEPT( k, SURVIVE ); }
RES( setCapacityLess )( BUF, long n, long k ) { SET( b, size ); vf_assume( n >= 0 ); vf_assume( n < size ); K( n ); FITS( n ); bufferManipulation::setCapacity( b, size, MemorySpace::host, n ); ASKED( b, n ); END( b, n ); KEPT( k, SURVIVE ); }
RES( reserve )( BUF, long n, long k ) { SET( b, size ); K( size ); FITS( n ); bufferManipulation::reserve( b, size, MemorySpace::host, n ); ASKED( b, n ); END( b, size ); KEPT( k, SURVIVE ); }
RES( dynamicReserve )( BUF, long n, long k ) { SET( b, size ); K( size ); FITS( n ); bufferManipulation::dynamicReserve( b, size, n ); ASKED( b, n ); END( b, size ); KEPT( k, SURVIVE ); }
RES( resize )( BUF, long n, long k ) { SET( b, size ); vf_assume( n >= 0 ); K( size ); FITS( n ); vf_assume( k < n ); bufferManipulation::resize( b, size, n ); ASKED( b, n ); END( b, n ); KEPT( k, SURVIVE ); }
RES( resizeNew )( BUF, long n, long k ) { SET( b, size ); vf_assume( n > size ); vf_assume( k >= size ); vf_assume( k < n ); FITS( n ); bufferManipulation::resize( b, size, n ); ASKED( b, n ); END( b, n ); vf_prove( b.data()[ k ] == 0, "new values are zero" ); }
RES( resizeValue )( BUF, long n, int x, long k ) { SET( b, size ); vf_assume( n > size ); vf_assume( k >= size ); vf_assume( k < n ); FITS( n ); bufferManipulation::resize( b, size, n, x ); ASKED( b, n ); END( b, n ); vf_prove( b.data()[ k ] == x, "new values are the value given" ); }
RES( resizeValueKept )( BUF, long n, int x, long k ) { SET( b, size ); vf_assume( n >= 0 ); K( size ); FITS( n ); vf_assume( k < n ); bufferManipulation::resize( b, size, n, x ); ASKED( b, n ); END( b, n ); KEPT( k, SURVIVE ); }
RES( emplaceBack )( BUF, int x, long k ) { SET( b, size ); K( size ); FITS( size + 1 ); bufferManipulation::emplaceBack( b, size, x ); ASKED( b, size + 1 ); END( b, size + 1 ); KEPT( k, SURVIVE ); vf_prove( b.data()[ size ] == x, "the value given is the last" ); }
RES( emplace )( BUF, long i, int x ) { SET( b, size ); vf_assume( i >= 0 ); vf_assume( i <= size ); FITS( size + 1 ); bufferManipulation::emplace( b, size, i, x ); ASKED( b, size + 1 ); END( b, size + 1 ); vf_prove( b.data()[ i ] == x, "the value given is at the position given" ); }
RES( emplaceKept )( BUF, long i, int x, long k ) { SET( b, size ); vf_assume( i >= 0 ); vf_assume( i <= size ); K( size ); FITS( size + 1 ); bufferManipulation::emplace( b, size, i, x ); END( b, size + 1 ); if( k < i ) { KEPT( k, SURVIVE ); } else { KEPT( k + 1, "values behind an insertion move up" ); } }
RES( insert )( BUF, long i, int const * q, long n, long k ) { SET( b, size ); vf_assume( i >= 0 ); vf_assume( i <= size ); vf_assume( n >= 0 ); vf_assume( k >= 0 ); vf_assume( k < n ); vf_heap( q, n * 4 ); FITS( size + n ); long const r = bufferManipulation::insert( b, size, i, q, q + n ); vf_owned( q, n * 4 ); vf_prove( r == n, "the number of values inserted is returned" ); ASKED( b, size + n ); END( b, size + n ); vf_prove( b.data()[ i + k ] == q[ k ], "the values given are at the position given" ); }
RES( insertKept )( BUF, long i, int const * q, long n, long k ) { SET( b, size ); vf_assume( i >= 0 ); vf_assume( i <= size ); vf_assume( n >= 0 ); vf_heap( q, n * 4 ); K( size ); FITS( size + n ); bufferManipulation::insert( b, size, i, q, q + n ); vf_owned( q, n * 4 ); END( b, size + n ); if( k < i ) { KEPT( k, SURVIVE ); } else { KEPT( k + n, "values behind an insertion move up" ); } }
RES( erase )( BUF, long i, long k ) { SET( b, size ); vf_assume( i >= 0 ); vf_assume( i < size ); K( size ); vf_assume( k != i ); FITS( 0 ); bufferManipulation::erase( b, size, i ); END( b, size - 1 ); if( k < i ) { KEPT( k, SURVIVE ); } else { KEPT( k - 1, "values behind a removal move down" ); } }
RES( popBack )( BUF, long k ) { SET( b, size ); vf_assume( size > 0 ); K( size - 1 ); FITS( 0 ); bufferManipulation::popBack( b, size ); END( b, size - 1 ); KEPT( k, SURVIVE ); }
RES( copyInto )( BUF, BT const & s, long n, long k ) { SET( b, size ); SET( s, n ); vf_assume( k >= 0 ); vf_assume( k < n ); FITS( n ); bufferManipulation::copyInto( b, size, s, n ); END( b, n ); OWN( s ); vf_prove( b.data()[ k ] == s.data()[ k ], "the copy has the values of the source" ); }
RES( free )( BUF ) { SET( b, size ); FITS( 0 ); bufferManipulation::free( b, size ); vf_end(); 
#ifdef VF_STACK
  OWN( b ); vf_prove( b.capacity() == VF_STACK, "the capacity is the length" );
#else
  vf_prove( b.capacity() == 0, "freeing leaves the buffer empty" ); vf_prove( b.data() == nullptr, "freeing leaves the buffer empty" );
#endif
}
#ifdef VF_STACK
#define DEEP( c, v ) vf_prove( c.data() != b.data(), "copies are deep" ); vf_prove( c.data()[ k ] == ( v ), "the copy has the values of the source" ); c.data()[ k ] = 7; vf_prove( b.data()[ k ] == ( v ), "writing to a copy leaves the source as it was" )
RES( copyHandle )( BUF, long k ) { SET( b, size ); K( size ); { BT c( b ); DEEP( c, old ); } OWN( b ); }
RES( copySizeHandle )( BUF, long k ) { SET( b, size ); K( size ); { BT c( b, size ); DEEP( c, old ); } OWN( b ); }
RES( assignHandle )( BUF, long k ) { SET( b, size ); K( size ); { BT c( true ); c = b; DEEP( c, old ); } OWN( b ); }
RES( moveHandle )( BUF, long k ) { SET( b, size ); K( size ); { BT c( std::move( b ) ); vf_prove( c.data() != b.data(), "copies are deep" ); vf_prove( c.data()[ k ] == old, "the copy has the values of the source" ); } OWN( b ); }
RES( kinds )() { vf_prove( !BT::hasShallowCopy, "copies are deep" ); }
#else
RES( kinds )() { vf_prove( BT::hasShallowCopy, "copies are shallow" ); }
#endif
// where data() and operator[] lead
RES( access )( BUF, long k ) { SET( b, size ); vf_assume( k >= 0 ); vf_assume( k < size ); vf_prove( &b[ k ] == b.data() + k, "operator[] names the value at that position" ); OWN( b ); }
