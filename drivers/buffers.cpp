// growable buffers of elements about which nothing is known
#include "vf.hpp"
#ifdef VF_CHAI
#include "ChaiBuffer.hpp"
#define BT LvArray::ChaiBuffer
#define RECORD( buf ) vf_record( &buf.pointerRecord(), buf.data(), buf.capacity() * 4 )
#define OWN( buf ) vf_owned_record( buf.capacity() ? &buf.pointerRecord() : nullptr, buf.data() )
#define SAMEREC( x, r ) vf_prove( &x.pointerRecord() == r, "the handle refers to the same record" )
#define REC( x ) chai::PointerRecord * const rec = &x.pointerRecord()
#else
#include "MallocBuffer.hpp"
#define BT LvArray::MallocBuffer
#define RECORD( buf ) vf_heap( buf.data(), buf.capacity() * 4 )
#define OWN( buf )
#define SAMEREC( x, r )
#define REC( x )
#endif
#include "bufferManipulation.hpp"
using namespace LvArray;
extern "C" { void vf_record( void const * rec, void const * p, long bytes ) noexcept; void vf_owned_record( void const * rec, void const * p ) noexcept; }
extern "C" { void vf_heap( void const * p, long bytes ) noexcept; void vf_owned( void const * p, long bytes ) noexcept; }
#define SET( buf, size, tag ) vf_assume( size >= 0 ); vf_assume( buf.capacity() >= size ); RECORD( buf ); \
  vf_live( buf.data(), size, tag ); vf_raw( buf.data() + size, buf.capacity() - size )
#define END( buf, size ) vf_owned( buf.data(), buf.capacity() * 4 ); OWN( buf ); vf_prove( buf.capacity() >= ( size ), "the capacity is at least the size" ); vf_expect_raw( buf.data(), size, buf.capacity() )
#define BUF BT< Elem > & b, long size
#define RES( f ) extern "C" void vf_##f

RES( free )( BUF ) { SET( b, size, "old" ); bufferManipulation::free( b, size ); vf_prove( b.capacity() == 0, "freeing leaves the buffer empty" ); vf_prove( b.data() == nullptr, "freeing leaves the buffer empty" ); }
RES( setCapacity )( BUF, long n ) { SET( b, size, "old" ); vf_assume( n >= 0 ); bufferManipulation::setCapacity( b, size, MemorySpace::host, n ); long const m = n < size ? n : size;
  vf_prove( b.capacity() == n, "the capacity is the one asked for" ); END( b, m ); vf_expect_seq( b.data(), 0, m, "old", 0 ); }
RES( reallocate )( BUF, long n ) { SET( b, size, "old" ); vf_assume( n >= 0 ); b.reallocate( size, MemorySpace::host, n ); long const m = n < size ? n : size;
  vf_prove( b.capacity() == n, "the capacity is the one asked for" ); END( b, m ); vf_expect_seq( b.data(), 0, m, "old", 0 ); }
RES( reserve )( BUF, long n ) { SET( b, size, "old" ); long const c = b.capacity(); bufferManipulation::reserve( b, size, MemorySpace::host, n );
  vf_prove( b.capacity() >= n, "the capacity is at least the one asked for" ); vf_prove( b.capacity() >= c, "reserving never shrinks" ); END( b, size ); vf_expect_seq( b.data(), 0, size, "old", 0 ); }
RES( dynamicReserve )( BUF, long n ) { SET( b, size, "old" ); long const c = b.capacity(); bufferManipulation::dynamicReserve( b, size, n );
  vf_prove( b.capacity() >= n, "the capacity is at least the one asked for" ); vf_prove( b.capacity() >= c, "reserving never shrinks" ); END( b, size ); vf_expect_seq( b.data(), 0, size, "old", 0 ); }
RES( resize )( BUF, long n ) { SET( b, size, "old" ); vf_assume( n >= 0 ); bufferManipulation::resize( b, size, n ); long const m = n < size ? n : size;
  END( b, n ); vf_expect_seq( b.data(), 0, m, "old", 0 ); vf_expect_default( b.data(), size, n ); }
RES( resizeValue )( BUF, long n, Elem const & x ) { SET( b, size, "old" ); vf_assume( n >= 0 ); vf_live( &x, 1, "arg" ); bufferManipulation::resize( b, size, n, x ); long const m = n < size ? n : size;
  END( b, n ); vf_expect_seq( b.data(), 0, m, "old", 0 ); vf_expect_all( b.data(), size, n, "arg", 0 ); vf_expect_seq( &x, 0, 1, "arg", 0 ); }
RES( emplaceBack )( BUF, Elem const & x ) { SET( b, size, "old" ); vf_live( &x, 1, "arg" ); bufferManipulation::emplaceBack( b, size, x );
  END( b, size + 1 ); vf_expect_seq( b.data(), 0, size, "old", 0 ); vf_expect_all( b.data(), size, size + 1, "arg", 0 ); vf_expect_seq( &x, 0, 1, "arg", 0 ); }
RES( emplaceBackMove )( BUF, Elem & x ) { SET( b, size, "old" ); vf_live( &x, 1, "arg" ); bufferManipulation::emplaceBack( b, size, std::move( x ) );
  END( b, size + 1 ); vf_expect_seq( b.data(), 0, size, "old", 0 ); vf_expect_all( b.data(), size, size + 1, "arg", 0 ); vf_expect_alive( &x, 0, 1 ); }
RES( emplace )( BUF, long i, Elem const & x ) { SET( b, size, "old" ); vf_assume( i >= 0 ); vf_assume( i <= size ); vf_live( &x, 1, "arg" ); bufferManipulation::emplace( b, size, i, x );
  END( b, size + 1 ); vf_expect_seq( b.data(), 0, i, "old", 0 ); vf_expect_all( b.data(), i, i + 1, "arg", 0 ); vf_expect_seq( b.data(), i + 1, size + 1, "old", -1 ); vf_expect_seq( &x, 0, 1, "arg", 0 ); }
RES( insert )( BUF, long i, Elem const * q, long n ) { SET( b, size, "old" ); vf_assume( i >= 0 ); vf_assume( i <= size ); vf_assume( n >= 0 ); vf_live( q, n, "src" ); long const r = bufferManipulation::insert( b, size, i, q, q + n );
  vf_prove( r == n, "the number of values inserted is returned" ); END( b, size + n ); vf_expect_seq( b.data(), 0, i, "old", 0 ); vf_expect_seq( b.data(), i, i + n, "src", -i ); vf_expect_seq( b.data(), i + n, size + n, "old", -n ); vf_expect_seq( q, 0, n, "src", 0 ); }
RES( popBack )( BUF ) { SET( b, size, "old" ); vf_assume( size > 0 ); bufferManipulation::popBack( b, size ); END( b, size - 1 ); vf_expect_seq( b.data(), 0, size - 1, "old", 0 ); }
RES( erase )( BUF, long i ) { SET( b, size, "old" ); vf_assume( i >= 0 ); vf_assume( i < size ); bufferManipulation::erase( b, size, i ); END( b, size - 1 ); vf_expect_seq( b.data(), 0, i, "old", 0 ); vf_expect_seq( b.data(), i, size - 1, "old", 1 ); }
RES( copyInto )( BUF, BT< Elem > const & s, long n ) { SET( b, size, "old" ); SET( s, n, "src" ); bufferManipulation::copyInto( b, size, s, n ); END( b, n ); END( s, n );
  vf_expect_seq( b.data(), 0, n, "src", 0 ); vf_expect_seq( s.data(), 0, n, "src", 0 ); }
// buffers that never held anything
#define EMPTY BT< Elem > b( true ); vf_prove( b.capacity() == 0, "a new buffer is empty" ); vf_prove( b.data() == nullptr, "a new buffer is empty" )
RES( newFree )() { EMPTY; bufferManipulation::free( b, 0 ); vf_owned( b.data(), b.capacity() * 4 ); }
RES( newReserve )( long n ) { EMPTY; vf_assume( n > 0 ); bufferManipulation::reserve( b, 0, MemorySpace::host, n ); vf_prove( b.capacity() >= n, "the capacity is at least the one asked for" ); END( b, 0 ); }
RES( newResize )( long n ) { EMPTY; vf_assume( n >= 0 ); bufferManipulation::resize( b, 0, n ); END( b, n ); vf_expect_default( b.data(), 0, n ); }
RES( newEmplaceBack )( Elem const & x ) { EMPTY; vf_live( &x, 1, "arg" ); bufferManipulation::emplaceBack( b, 0, x ); END( b, 1 ); vf_expect_all( b.data(), 0, 1, "arg", 0 ); }
RES( newInsert )( Elem const * q, long n ) { EMPTY; vf_assume( n >= 0 ); vf_live( q, n, "src" ); bufferManipulation::insert( b, 0, 0, q, q + n ); END( b, n ); vf_expect_seq( b.data(), 0, n, "src", 0 ); }
RES( newCopyInto )( BT< Elem > const & s, long n ) { SET( s, n, "src" ); EMPTY; bufferManipulation::copyInto( b, 0, s, n ); END( b, n ); END( s, n ); vf_expect_seq( b.data(), 0, n, "src", 0 ); }
// handles are shallow: copying shares, moving empties the source
#define SAME( x, p, c ) vf_prove( x.data() == p, "the handle refers to the same storage" ); vf_prove( x.capacity() == c, "the handle has the same capacity" )
#define GONE( x ) vf_prove( x.data() == nullptr, "a moved from handle is empty" ); vf_prove( x.capacity() == 0, "a moved from handle is empty" )
RES( copyHandle )( BUF ) { SET( b, size, "old" ); REC( b ); { BT< Elem > c( b ); SAME( c, b.data(), b.capacity() ); SAMEREC( c, rec ); } END( b, size ); vf_expect_seq( b.data(), 0, size, "old", 0 ); }
RES( copySizeHandle )( BUF ) { SET( b, size, "old" ); REC( b ); { BT< Elem > c( b, size ); SAME( c, b.data(), b.capacity() ); SAMEREC( c, rec ); } END( b, size ); vf_expect_seq( b.data(), 0, size, "old", 0 ); }
RES( assignHandle )( BUF ) { SET( b, size, "old" ); REC( b ); { BT< Elem > c( true ); c = b; SAME( c, b.data(), b.capacity() ); SAMEREC( c, rec ); } END( b, size ); vf_expect_seq( b.data(), 0, size, "old", 0 ); }
RES( moveHandle )( BUF ) { SET( b, size, "old" ); REC( b ); Elem * p = b.data(); long const n = b.capacity(); BT< Elem > c( std::move( b ) ); SAME( c, p, n ); SAMEREC( c, rec ); GONE( b ); END( c, size ); vf_expect_seq( c.data(), 0, size, "old", 0 ); }
RES( moveAssignHandle )( BUF ) { SET( b, size, "old" ); REC( b ); Elem * p = b.data(); long const n = b.capacity(); BT< Elem > c( true ); c = std::move( b ); SAME( c, p, n ); SAMEREC( c, rec ); GONE( b ); END( c, size ); vf_expect_seq( c.data(), 0, size, "old", 0 ); }
RES( constHandle )( BUF ) { SET( b, size, "old" ); REC( b ); BT< Elem const > c( b ); SAME( c, b.data(), b.capacity() ); SAMEREC( c, rec ); END( b, size ); }
// there is no other place than the host
RES( reallocateElsewhere )( BUF, long n, int space ) { SET( b, size, "old" ); vf_assume( n >= 0 ); vf_assume( space != int( MemorySpace::host ) );
#ifdef VF_CHAI
  vf_assume( space != int( MemorySpace::undefined ) );
#endif
  b.reallocate( size, MemorySpace( space ), n ); vf_prove( false, "storage in a memory space that is not there is refused" ); }
RES( moveElsewhere )( BUF, int space, bool touch ) { SET( b, size, "old" ); vf_assume( space != int( MemorySpace::host ) ); b.move( MemorySpace( space ), touch ); vf_prove( false, "a move to a memory space that is not there is refused" ); }
RES( moveNestedElsewhere )( BUF, int space, bool touch ) { SET( b, size, "old" ); vf_assume( space != int( MemorySpace::host ) ); b.moveNested( MemorySpace( space ), size, touch ); vf_prove( false, "a move to a memory space that is not there is refused" ); }
RES( moveHome )( BUF, bool touch ) { SET( b, size, "old" ); b.move( MemorySpace::host, touch ); b.moveNested( MemorySpace::host, size, touch ); END( b, size ); vf_expect_seq( b.data(), 0, size, "old", 0 ); }
