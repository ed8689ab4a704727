// Batches of columns and entries
#include "vf.hpp"
#include <type_traits>
#include <limits>
namespace std
{
template<> struct is_integral< Elem > : true_type {};
template<> struct is_integral< Elem const > : true_type {};
template<> class numeric_limits< Elem > : public numeric_limits< long > {};
}
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "follow.hpp"
using namespace LvArray;
extern "C" {
void vf_sorted( Elem const * p, long n ) noexcept;
void vf_batch( char const * kind, Elem const * ptr, long size, Elem const * first, long m, long k, long q ) noexcept;
void vf_mirror( Elem const * c, Elem const * e, Elem const * f, Elem const * g ) noexcept;
void vf_mirror_end( Elem const * c, Elem const * e ) noexcept;
}
template< typename M > struct Open : M
{
  template< typename S > static auto room( S const & s, int ) -> decltype( s.m_entries.capacity() ) { return s.m_entries.capacity(); }
  template< typename S > static long room( S const & s, long ) { return s.nonZeroCapacity(); }
};
// room for entries
template< typename T > long room( T const & a ) { return Open< T >::room( static_cast< Open< T > const & >( a ), 0 ); }
using M = CRSMatrix< Elem, Elem, long, ProbeBuffer >;
using W = CRSMatrixView< Elem, Elem, long const, ProbeBuffer >;
#define ROW( a ) auto const v = a.toView(); long const n = a.numRows(); long const * const off = v.getOffsets(); long const * const sz = v.getSizes(); Elem const * const col = v.getColumns(); Elem const * const val = a.getEntries(); \
  vf_layout( off, sz, n ); vf_assume( n >= 0 ); vf_assume( a.nonZeroCapacity() >= vf_cell( off + n ) ); INDEX( i ); long const size = szi; Elem const * const c = col + offi; Elem const * const e = val + offi; vf_assume( m >= 0 ); vf_sorted( c, size ); vf_sorted( f, m )
#define ROOM vf_assume( offi1 - offi >= size + m )
#define SOME vf_assume( size > 0 )
#define NONE vf_assume( size == 0 )
#define BATCH vf_batch( "mirror", c, size, f, m, 0, 0 ); vf_mirror( c, e, f, g ); vf_begin()
#define SIZE "the number of columns is also that of the entries"
RES( viewInsert )( W const & a, long i, Elem const * f, Elem const * g, long m ) { ROW( a ); ROOM; SOME; BATCH; long const r = a.insertNonZeros( i, f, g, m ); vf_mirror_end( c, e ); vf_prove( a.numNonZeros( i ) == size + r, SIZE ); }
RES( viewFill )( W const & a, long i, Elem const * f, Elem const * g, long m ) { ROW( a ); ROOM; NONE; BATCH; long const r = a.insertNonZeros( i, f, g, m ); vf_mirror_end( c, e ); vf_prove( a.numNonZeros( i ) == size + r, SIZE ); }
RES( viewRemove )( W const & a, long i, Elem const * f, Elem const * g, long m ) { ROW( a ); BATCH; long const r = a.removeNonZeros( i, f, m ); vf_mirror_end( c, e ); vf_prove( a.numNonZeros( i ) == size - r, SIZE ); }
RES( rowInsert )( M & a, long i, Elem const * f, Elem const * g, long m ) { ROW( a ); ROOM; SOME; BATCH; long const r = a.insertNonZeros( i, f, g, m ); vf_mirror_end( c, e ); vf_prove( a.numNonZeros( i ) == size + r, SIZE ); }
RES( rowFill )( M & a, long i, Elem const * f, Elem const * g, long m ) { ROW( a ); ROOM; NONE; BATCH; long const r = a.insertNonZeros( i, f, g, m ); vf_mirror_end( c, e ); vf_prove( a.numNonZeros( i ) == size + r, SIZE ); }
RES( rowRemove )( M & a, long i, Elem const * f, Elem const * g, long m ) { ROW( a ); BATCH; long const r = a.removeNonZeros( i, f, m ); vf_mirror_end( c, e ); vf_prove( a.numNonZeros( i ) == size - r, SIZE ); }
// with new storage, or without
#define HERE auto const w = a.toView(); Elem const * const nc = w.getColumns() + w.getOffsets()[ i ]; Elem const * const ne = a.getEntries() + w.getOffsets()[ i ]; vf_prove( w.getSizes()[ i ] == m, SIZE ); vf_prove( w.getOffsets()[ i + 1 ] - w.getOffsets()[ i ] >= m, "the row has room for what is inserted" )
RES( rowGrowFill )( M & a, long i, Elem const * f, Elem const * g, long m, long q ) { ROW( a ); NONE; vf_assume( a.numColumns() >= size + m ); vf_assume( room( a ) >= a.nonZeroCapacity() ); vf_assume( q >= 0 ); vf_assume( q < m ); vf_begin(); long const r = a.insertNonZeros( i, f, g, m );
  vf_prove( r == m, SIZE ); HERE; vf_from( nc + q, f + q, "the columns are those given" ); vf_from( ne + q, g + q, "each entry is the one given for its column" ); }
