// Sparse matrices: the entries of a row go where their columns go.
#include "vf.hpp"
#include <type_traits>
#include <limits>
// columns are followed like any other element
namespace std
{
template<> struct is_integral< Elem > : true_type {};
template<> struct is_integral< Elem const > : true_type {};
template<> class numeric_limits< Elem > : public numeric_limits< long > {};
}
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "follow.hpp"
using namespace LvArray;
extern "C" { void vf_sorted( Elem const * p, long n ) noexcept; }
using M = CRSMatrix< Elem, Elem, long, ProbeBuffer >;
using W = CRSMatrixView< Elem, Elem, long const, ProbeBuffer >;
using P = SparsityPattern< Elem, long, ProbeBuffer >;
template< typename M > struct Open : M
{
  template< typename S > static auto room( S const & s, int ) -> decltype( s.m_entries.capacity() ) { return s.m_entries.capacity(); }
  template< typename S > static long room( S const & s, long ) { return s.nonZeroCapacity(); }
};
// room for entries
template< typename T > long room( T const & a ) { return Open< T >::room( static_cast< Open< T > const & >( a ), 0 ); }
#define PAIR "an entry stays with its column"
#define GIVEN "a new entry is the one given for its column"
#define DROP "an entry goes when its column goes"
#undef OPEN
#undef AFTER
#undef VALID
#define OPEN( a ) auto const v = a.toView(); long const n = a.numRows(); long const * const off = v.getOffsets(); long const * const sz = v.getSizes(); Elem const * const col = v.getColumns(); Elem const * const val = a.getEntries(); \
  vf_layout( off, sz, n ); vf_assume( n >= 0 ); vf_assume( a.nonZeroCapacity() >= vf_cell( off + n ) ); vf_assume( room( a ) >= a.nonZeroCapacity() )
#define AFTER( a, N ) auto const w = a.toView(); long const * const woff = w.getOffsets(); long const * const wsz = w.getSizes(); Elem const * const wcol = w.getColumns(); Elem const * const wval = a.getEntries(); vf_prove( a.numRows() == ( N ), "the number of rows" ); vf_prove( woff[ N ] <= a.nonZeroCapacity() && woff[ N ] <= room( a ), "there is room for the columns and for the entries" )
#define AFTERC( a, N ) auto const w = a.toView(); long const * const wsz = w.getSizes(); vf_prove( a.numRows() == ( N ), "the number of rows" )
#define VALID( b ) vf_assume( b.numRows() >= 0 ); vf_layout( b.toView().getOffsets(), b.toView().getSizes(), b.numRows() )
#define STAYS AT( j, p, PAIR ); vf_prove( wsz[ j ] == szj, SZ )
// one value: the column at k of the row is below, at or above the one given
#define ROW OPEN( a ); INDEX( i ); long const size = szi; Elem const * const c = col + offi; Elem const * const e = val + offi; vf_sorted( c, size )
#define K vf_assume( k >= 0 ); vf_assume( k < size )
#define HERE AFTER( a, n ); vf_prove( wsz[ i ] == size + d, SZ ); Elem const * const now = wval + woff[ i ]
#define VHERE vf_prove( a.numNonZeros( i ) == size + d, SZ ); Elem const * const now = val + offi
#define SINGLES( T, name, ROOM, NOW ) \
RES( name##InsertBelow )( T & a, long i, Elem const & x, Elem const & y, long k ) { ROW; K; ROOM; vf_assume( c[ k ] < x ); vf_track( e + k ); vf_begin(); long const d = a.insertNonZero( i, x, y ); NOW; vf_at( now + k, PAIR ); } \
RES( name##InsertSame )( T & a, long i, Elem const & x, Elem const & y, long k ) { ROW; K; ROOM; vf_assume( c[ k ] == x ); vf_track( e + k ); vf_begin(); long const d = a.insertNonZero( i, x, y ); NOW; vf_prove( d == 0, "a column that is there is not inserted again" ); vf_at( now + k, PAIR ); } \
RES( name##InsertAbove )( T & a, long i, Elem const & x, Elem const & y, long k ) { ROW; K; ROOM; vf_assume( c[ k ] > x ); vf_track( e + k ); vf_begin(); long const d = a.insertNonZero( i, x, y ); NOW; vf_at( now + k + d, PAIR ); } \
RES( name##InsertNew )( T & a, long i, Elem const & x, Elem const & y, long q ) { ROW; ROOM; vf_assume( q >= 0 ); vf_assume( q <= size ); if( q > 0 ) { vf_assume( c[ q - 1 ] < x ); } if( q < size ) { vf_assume( c[ q ] > x ); } vf_begin(); long const d = a.insertNonZero( i, x, y ); NOW; vf_from( now + q, &y, GIVEN ); } \
RES( name##RemoveBelow )( T & a, long i, Elem const & x, long k ) { ROW; K; vf_assume( c[ k ] < x ); vf_track( e + k ); vf_begin(); long const d = -long( a.removeNonZero( i, x ) ); NOW; vf_at( now + k, PAIR ); } \
RES( name##RemoveSame )( T & a, long i, Elem const & x, long k ) { ROW; K; vf_assume( c[ k ] == x ); vf_track( e + k ); vf_begin(); long const d = -long( a.removeNonZero( i, x ) ); NOW; vf_gone( DROP ); } \
RES( name##RemoveAbove )( T & a, long i, Elem const & x, long k ) { ROW; K; vf_assume( c[ k ] > x ); vf_track( e + k ); vf_begin(); long const d = -long( a.removeNonZero( i, x ) ); NOW; vf_at( now + k + d, PAIR ); }
// a column that is not there yet is one of numColumns()
SINGLES( M, row, vf_assume( size < a.numColumns() ), HERE )
SINGLES( W const, view, vf_assume( offi1 - offi > size ), VHERE )
// the other rows, and rows as a whole
RES( insertOther )( M & a, long i, Elem const & x, Elem const & y, JP ) { OPEN( a ); INDEX( i ); vf_assume( szi < a.numColumns() ); OTHER; ANY; a.insertNonZero( i, x, y ); AFTER( a, n ); STAYS; }
RES( removeOther )( M & a, long i, Elem const & x, JP ) { OPEN( a ); INDEX( i ); OTHER; ANY; a.removeNonZero( i, x ); AFTER( a, n ); STAYS; }
RES( setCapacityOther )( M & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); vf_assume( a.numColumns() >= 0 ); OTHER; ANY; a.setRowCapacity( i, c ); AFTER( a, n ); STAYS; }
RES( setCapacity )( M & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); vf_assume( a.numColumns() >= 0 ); vf_assume( j == i ); ANY; a.setRowCapacity( i, c ); AFTER( a, n ); if( p < wsz[ i ] ) { AT( j, p, PAIR ); } else TAIL( DROP ); }
RES( reserveRowOther )( M & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); vf_assume( a.numColumns() >= 0 ); OTHER; ANY; a.reserveNonZeros( i, c ); AFTER( a, n ); STAYS; }
RES( reserveRow )( M & a, long i, long c, JP ) { OPEN( a ); INDEX( i ); vf_assume( c >= 0 ); vf_assume( szi <= a.numColumns() ); vf_assume( j == i ); ANY; a.reserveNonZeros( i, c ); AFTER( a, n ); STAYS; }
RES( reserve )( M & a, long m, JP ) { OPEN( a ); ANY; a.reserveNonZeros( m ); AFTER( a, n ); STAYS; }
RES( resize )( M & a, long m, long cols, long c, JP ) { OPEN( a ); vf_assume( m >= 0 ); vf_assume( cols >= 0 ); vf_assume( c >= 0 ); ANY; a.resize( m, cols, c ); AFTER( a, m ); if( j < m ) { STAYS; } else { vf_gone( DROP ); } }
RES( compress )( M & a, JP ) { OPEN( a ); ANY; a.compress(); AFTERC( a, n ); vf_prove( wsz[ j ] == szj, SZ ); }
RES( compressColumns )( M & a, JP ) { OPEN( a ); vf_assume( j >= 0 ); vf_assume( j < n ); long const offj = vf_cell( off + j ), szj = vf_cell( sz + j ); vf_assume( p >= 0 ); vf_assume( p < szj ); vf_track( col + offj + p ); vf_begin(); a.compress(); AFTERC( a, n ); }
RES( destroy )( M & a, JP ) { OPEN( a ); ANY; a.~M(); vf_gone( DROP ); }
RES( moveAssignOver )( M & a, M & b, JP ) { OPEN( a ); ANY; a = std::move( b ); vf_gone( DROP ); }
RES( moveAssign )( M & b, M & a, JP ) { OPEN( a ); ANY; b = std::move( a ); AFTER( b, n ); STAYS; }
RES( moveConstruct )( M & a, JP ) { OPEN( a ); ANY; { M b( std::move( a ) ); AFTER( b, n ); STAYS; } vf_gone( DROP ); }
RES( copyOver )( M & a, M & b, JP ) { OPEN( a ); vf_assume( b.numRows() >= 0 ); ANY; a = static_cast< M const & >( b ); vf_gone( DROP ); }
RES( copySelf )( M & a, JP ) { OPEN( a ); ANY; a = static_cast< M const & >( a ); AFTER( a, n ); STAYS; }
RES( copyNew )( M & a, M & b, JP ) { OPEN( a ); VALID( b ); ANY; b = static_cast< M const & >( a ); AFTER( b, n ); vf_prove( wsz[ j ] == szj, SZ ); vf_prove( wval != val, "a copy has storage of its own" ); vf_from( wval + woff[ j ] + p, val + offj + p, GIVEN ); }
RES( fromCapacities )( M & a, long m, long cols, long const * cap, JP ) { OPEN( a ); vf_assume( m >= 0 ); ANY; a.template resizeFromRowCapacities< RAJA::loop_exec >( m, cols, cap ); vf_gone( DROP ); }
RES( assimilateOver )( M & a, P & b, JP ) { OPEN( a ); ANY; a.template assimilate< RAJA::loop_exec >( std::move( b ) ); vf_gone( DROP ); }
RES( assimilateNew )( M & b, P & a, JP ) { auto const v = a.toView(); long const n = a.numRows(); long const * const off = v.getOffsets(); long const * const sz = v.getSizes(); Elem const * const val = v.getColumns(); vf_layout( off, sz, n ); vf_assume( n >= 0 ); vf_assume( a.nonZeroCapacity() >= vf_cell( off + n ) );
  VALID( b ); ANY; b.template assimilate< RAJA::loop_exec >( std::move( a ) ); AFTER( b, n ); vf_prove( wsz[ j ] == szj, SZ ); vf_at( wcol + woff[ j ] + p, "the pattern is taken over" ); vf_fromnone( wval + woff[ j ] + p, "each column of the pattern gets an entry" ); }
#define ACC "accessors read the row they name"
#define READ( x ) vf_prove( &( x ).getEntries( i )[ k ] == val + offi + k, ACC ); vf_prove( &( x ).getColumns( i )[ k ] == col + offi + k, ACC ); vf_prove( ( x ).getEntries( i ).size() == szi, ACC ); vf_prove( ( x ).getColumns( i ).size() == szi, ACC ); \
  vf_prove( ( x ).numNonZeros( i ) == szi, ACC ); vf_prove( ( x ).nonZeroCapacity( i ) == offi1 - offi, ACC ); vf_prove( ( x ).numRows() == n, ACC ); vf_prove( ( x ).numColumns() == a.numColumns(), ACC ); vf_prove( ( x ).empty( i ) == ( szi == 0 ), ACC )
RES( access )( M & a, long i, long k ) { OPEN( a ); INDEX( i ); vf_assume( k >= 0 ); vf_assume( k < szi ); READ( a ); READ( v ); auto const vs = a.toViewConstSizes(); READ( vs ); auto const vc = a.toViewConst(); READ( vc ); }
