// owners of one allocation: what their special members and their operations do with the elements and the storage
#include "vf.hpp"
#ifdef VF_CHAI
#include "ChaiBuffer.hpp"
#define BT LvArray::ChaiBuffer
#define REC( buf ) &const_cast< std::remove_const_t< std::remove_reference_t< decltype( buf.dataBuffer() ) > > & >( buf.dataBuffer() ).pointerRecord()
#define RECORD( buf ) vf_record( REC( buf ), buf.data(), buf.capacity() * 4 )
#define OWN( buf ) vf_owned_record( buf.capacity() ? REC( buf ) : nullptr, buf.data() )
#else
#include "MallocBuffer.hpp"
#define BT LvArray::MallocBuffer
#define RECORD( buf ) vf_heap( buf.data(), buf.capacity() * 4 )
#define OWN( buf )
#endif
#include "Array.hpp"
#include "SortedArray.hpp"
using namespace LvArray;
extern "C" {
void vf_record( void const * rec, void const * p, long bytes ) noexcept; void vf_owned_record( void const * rec, void const * p ) noexcept;
void vf_heap( void const * p, long bytes ) noexcept; void vf_owned( void const * p, long bytes ) noexcept;
}
#define RES( f ) extern "C" void vf_##f
#ifdef VF_SORTED
struct A : SortedArray< Elem, long, BT >
{
  using SortedArray< Elem, long, BT >::SortedArray; A() = default; A( A const & ) = default; A( A && ) = default; A & operator=( A const & ) = default; A & operator=( A && ) = default;
  BT< Elem > const & dataBuffer() const { return buffer( *this, 0 ); }
  long capacity() const { return dataBuffer().capacity(); }
  template< typename S > static auto buffer( S const & s, int ) -> decltype( s.m_values ) const & { return s.m_values; }
  template< typename S > static BT< Elem > const & buffer( S const & s, long ) { return reinterpret_cast< BT< Elem > const & >( s ); }
};
#define N( a ) a.size()
#define SIZES( a ) vf_assume( a.size() >= 0 )
#elif defined( VF_2D )
using A = Array< Elem, 2, VF_2D, long, BT >;
#define N( a ) ( a.size( 0 ) * a.size( 1 ) )
#define SIZES( a ) vf_assume( a.size( 0 ) >= 0 ); vf_assume( a.size( 1 ) >= 0 ); vf_assume( N( a ) >= 0 ); vf_assume( a.getSingleParameterResizeIndex() == VF_DIM )
#else
using A = Array< Elem, 1, camp::idx_seq< 0 >, long, BT >;
#define N( a ) a.size( 0 )
#define SIZES( a ) vf_assume( a.size( 0 ) >= 0 ); vf_assume( a.getSingleParameterResizeIndex() == 0 )
#endif
#define HOLDS( a, tag ) SIZES( a ); vf_assume( a.capacity() >= N( a ) ); RECORD( a ); long const n_##a = N( a ); vf_live( a.data(), n_##a, tag ); vf_raw( a.data() + n_##a, a.capacity() - n_##a )
#define END( a ) vf_owned( a.data(), a.capacity() * 4 ); OWN( a ); vf_prove( a.capacity() >= N( a ), "the capacity is at least the size" ); vf_prove( N( a ) >= 0, "the size is not negative" ); vf_expect_raw( a.data(), N( a ), a.capacity() )
#ifdef VF_2D
#define SHAPE( a ) long const d0_##a = a.size( 0 ), d1_##a = a.size( 1 ), s0_##a = a.strides()[ 0 ], s1_##a = a.strides()[ 1 ]; int const r_##a = a.getSingleParameterResizeIndex()
#define SHAPED( b, a ) vf_prove( b.size( 0 ) == d0_##a, SZ ); vf_prove( b.size( 1 ) == d1_##a, SZ ); vf_prove( b.strides()[ 0 ] == s0_##a, SZ ); vf_prove( b.strides()[ 1 ] == s1_##a, SZ ); vf_prove( b.getSingleParameterResizeIndex() == r_##a, SZ )
#else
#define SHAPE( a )
#define SHAPED( b, a )
#endif
#define HAS( a, n, tag ) vf_prove( N( a ) == n, SZ ); vf_expect_seq( a.data(), 0, n, tag, 0 )
#define EMPTY( a ) vf_prove( N( a ) == 0, "a moved from container is empty" ); vf_prove( a.size() == 0, "a moved from container is empty" ); vf_prove( a.empty(), "a moved from container is empty" ); vf_prove( a.capacity() == 0, "a moved from container holds no storage" ); vf_prove( a.data() == nullptr, "a moved from container holds no storage" )
#define SZ "the size after the operation"
#define DEEP "a copy has storage of its own"
#define SAME "a move hands over the storage"
RES( destroy )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); a.~A(); }
RES( construct )() { A a; vf_prove( N( a ) == 0, SZ ); vf_owned( a.data(), a.capacity() * 4 ); }
RES( copy )( A const & a ) { HOLDS( a, "old" ); SHAPE( a ); { A b( a ); HAS( b, n_a, "old" ); SHAPED( b, a ); END( b ); vf_prove( b.data() != a.data() || a.capacity() == 0 || n_a == 0, DEEP ); } HAS( a, n_a, "old" ); SHAPED( a, a ); END( a ); }
RES( move )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); Elem const * const p = a.data(); long const c = a.capacity(); { A b( std::move( a ) ); vf_prove( b.data() == p, SAME ); vf_prove( b.capacity() == c, SAME ); HAS( b, n_a, "old" ); SHAPED( b, a ); END( b ); } EMPTY( a ); a.~A(); }
RES( assign )( A & b, A const & a ) { HOLDS( a, "old" ); SHAPE( a ); HOLDS( b, "other" ); SHAPE( b ); b = a; HAS( a, n_a, "old" ); SHAPED( a, a ); HAS( b, n_a, "old" ); SHAPED( b, a ); vf_prove( b.data() != a.data() || n_a == 0, DEEP ); END( a ); END( b ); }
RES( assignSelf )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); a = static_cast< A const & >( a ); HAS( a, n_a, "old" ); SHAPED( a, a ); END( a ); }
RES( moveAssign )( A & b, A & a ) { HOLDS( a, "old" ); SHAPE( a ); HOLDS( b, "other" ); SHAPE( b ); Elem const * const p = a.data(); long const c = a.capacity(); b = std::move( a ); vf_prove( b.data() == p, SAME ); vf_prove( b.capacity() == c, SAME ); HAS( b, n_a, "old" ); SHAPED( b, a ); END( b ); EMPTY( a ); a.~A(); }
RES( moveAssignSelf )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); A & b = a; a = std::move( b ); END( a ); }
RES( moveAssignNew )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); { A b; b = std::move( a ); HAS( b, n_a, "old" ); SHAPED( b, a ); END( b ); } EMPTY( a ); }
RES( copyMoved )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); { A b( std::move( a ) ); A c( a ); vf_prove( N( c ) == 0, SZ ); a = b; HAS( a, n_a, "old" ); SHAPED( a, a ); HAS( b, n_a, "old" ); SHAPED( b, a ); vf_prove( b.data() != a.data() || n_a == 0, DEEP ); END( b ); } END( a ); }
RES( swap )( A & a, A & b ) { HOLDS( a, "old" ); SHAPE( a ); HOLDS( b, "other" ); SHAPE( b ); std::swap( a, b ); HAS( a, n_b, "other" ); SHAPED( a, b ); HAS( b, n_a, "old" ); SHAPED( b, a ); END( a ); END( b ); }
RES( clear )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); a.clear(); vf_prove( N( a ) == 0, SZ ); END( a ); }
RES( reserve )( A & a, long m ) { HOLDS( a, "old" ); SHAPE( a ); long const c = a.capacity(); a.reserve( m ); HAS( a, n_a, "old" ); SHAPED( a, a ); END( a ); vf_prove( a.capacity() >= m, "the capacity is at least the one asked for" ); vf_prove( a.capacity() >= c, "reserving never shrinks" ); }
#ifdef VF_2D
// the outermost dimension changes: values stay in place
#define OUTER int const D = VF_DIM, E = 1 - VF_DIM; long const d = a.size( D ), e = a.size( E ); vf_assume( a.strides()[ E ] == 1 ); vf_assume( a.strides()[ D ] == e ); vf_assume( m >= 0 ); vf_assume( m * e >= 0 )
#define RESHAPED vf_prove( a.size( D ) == m, SZ ); vf_prove( a.size( E ) == e, SZ ); vf_prove( a.strides()[ E ] == 1, SZ ); vf_prove( a.strides()[ D ] == e, SZ ); END( a )
RES( growOuter )( A & a, long m ) { HOLDS( a, "old" ); OUTER; vf_assume( m >= d ); vf_assume( m * e >= n_a ); a.resize( m ); RESHAPED; vf_expect_seq( a.data(), 0, n_a, "old", 0 ); vf_expect_default( a.data(), n_a, m * e ); }
RES( shrinkOuter )( A & a, long m ) { HOLDS( a, "old" ); OUTER; vf_assume( m < d ); vf_assume( m * e <= n_a ); a.resize( m ); RESHAPED; vf_expect_seq( a.data(), 0, m * e, "old", 0 ); }
RES( growOuterValue )( A & a, long m, Elem const & x ) { HOLDS( a, "old" ); vf_live( &x, 1, "arg" ); OUTER; vf_assume( m >= d ); vf_assume( m * e >= n_a ); a.resizeDefault( m, x ); RESHAPED; vf_expect_seq( a.data(), 0, n_a, "old", 0 ); vf_expect_all( a.data(), n_a, m * e, "arg", 0 ); }
// any dimensions: the right number of elements, all alive (which is where is not promised)
RES( resizeBoth )( A & a, long p, long q ) { HOLDS( a, "old" ); vf_assume( p >= 0 ); vf_assume( q >= 0 ); vf_assume( p * q >= 0 ); a.resize( p, q ); vf_prove( a.size( 0 ) == p, SZ ); vf_prove( a.size( 1 ) == q, SZ ); END( a ); vf_expect_alive( a.data(), 0, p * q ); }
RES( resizeSome )( A & a, long p ) { HOLDS( a, "old" ); long const q = a.size( 0 ); vf_assume( p >= 0 ); vf_assume( p * q >= 0 ); a.resizeDimension< 1 >( p ); vf_prove( a.size( 0 ) == q, SZ ); vf_prove( a.size( 1 ) == p, SZ ); END( a ); vf_expect_alive( a.data(), 0, p * q ); }
#endif
#if !defined( VF_SORTED ) && !defined( VF_2D )
#define M( a, b ) ( ( a ) < ( b ) ? ( a ) : ( b ) )
RES( constructSize )( long m ) { vf_assume( m >= 0 ); A a( m ); vf_prove( N( a ) == m, SZ ); END( a ); vf_expect_default( a.data(), 0, m ); a.~A(); new ( &a ) A(); }
#define RESIZED vf_prove( N( a ) == m, SZ ); vf_prove( a.size() == m, SZ ); vf_expect_seq( a.data(), 0, M( n_a, m ), "old", 0 ); END( a )
RES( resize )( A & a, long m ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( m >= 0 ); a.resize( m ); RESIZED; vf_expect_default( a.data(), n_a, m ); }
RES( resizeDims )( A & a, long m ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( m >= 0 ); a.resize( 1, &m ); RESIZED; vf_expect_default( a.data(), n_a, m ); }
RES( resizeDimension )( A & a, long m ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( m >= 0 ); a.resizeDimension< 0 >( m ); RESIZED; vf_expect_default( a.data(), n_a, m ); }
RES( resizeDefault )( A & a, long m, Elem const & x ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( m >= 0 ); vf_live( &x, 1, "arg" ); a.resizeDefault( m, x ); RESIZED; vf_expect_all( a.data(), n_a, m, "arg", 0 ); vf_expect_seq( &x, 0, 1, "arg", 0 ); }
RES( emplaceBack )( A & a, Elem const & x ) { HOLDS( a, "old" ); SHAPE( a ); vf_live( &x, 1, "arg" ); a.emplace_back( x ); vf_prove( N( a ) == n_a + 1, SZ ); END( a ); vf_expect_seq( a.data(), 0, n_a, "old", 0 ); vf_expect_all( a.data(), n_a, n_a + 1, "arg", 0 ); vf_expect_seq( &x, 0, 1, "arg", 0 ); }
RES( emplaceBackMove )( A & a, Elem & x ) { HOLDS( a, "old" ); SHAPE( a ); vf_live( &x, 1, "arg" ); a.emplace_back( std::move( x ) ); vf_prove( N( a ) == n_a + 1, SZ ); END( a ); vf_expect_seq( a.data(), 0, n_a, "old", 0 ); vf_expect_all( a.data(), n_a, n_a + 1, "arg", 0 ); vf_expect_alive( &x, 0, 1 ); }
RES( emplaceBackNone )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); a.emplace_back(); vf_prove( N( a ) == n_a + 1, SZ ); END( a ); vf_expect_seq( a.data(), 0, n_a, "old", 0 ); vf_expect_default( a.data(), n_a, n_a + 1 ); }
RES( emplace )( A & a, long i, Elem const & x ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( i >= 0 ); vf_assume( i <= n_a ); vf_live( &x, 1, "arg" ); a.emplace( i, x ); vf_prove( N( a ) == n_a + 1, SZ ); END( a ); vf_expect_seq( a.data(), 0, i, "old", 0 ); vf_expect_all( a.data(), i, i + 1, "arg", 0 ); vf_expect_seq( a.data(), i + 1, n_a + 1, "old", -1 ); vf_expect_seq( &x, 0, 1, "arg", 0 ); }
RES( insert )( A & a, long i, Elem const * q, long m ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( i >= 0 ); vf_assume( i <= n_a ); vf_assume( m >= 0 ); vf_live( q, m, "src" ); a.insert( i, q, q + m ); vf_prove( N( a ) == n_a + m, SZ ); END( a ); vf_expect_seq( a.data(), 0, i, "old", 0 ); vf_expect_seq( a.data(), i, i + m, "src", -i ); vf_expect_seq( a.data(), i + m, n_a + m, "old", -m ); vf_expect_seq( q, 0, m, "src", 0 ); }
RES( popBack )( A & a ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( n_a > 0 ); a.pop_back(); vf_prove( N( a ) == n_a - 1, SZ ); END( a ); vf_expect_seq( a.data(), 0, n_a - 1, "old", 0 ); }
RES( erase )( A & a, long i ) { HOLDS( a, "old" ); SHAPE( a ); vf_assume( i >= 0 ); vf_assume( i < n_a ); a.erase( i ); vf_prove( N( a ) == n_a - 1, SZ ); END( a ); vf_expect_seq( a.data(), 0, i, "old", 0 ); vf_expect_seq( a.data(), i, n_a - 1, "old", 1 ); }
#endif
