// Adding to entries that exist.
#include "vf.hpp"
#include <type_traits>
#include <limits>
namespace std
{
template<> struct is_integral< Elem > : true_type {};
template<> struct is_integral< Elem const > : true_type {};
template<> class numeric_limits< Elem > : public numeric_limits< long > {};
}
Elem & operator+=( Elem &, Elem const & ) noexcept;
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "follow.hpp"
using namespace LvArray;
struct Pol {};
extern "C" {
void vf_sorted( Elem const * p, long n ) noexcept;
void vf_batch( char const * kind, Elem const * ptr, long size, Elem const * first, long m, long k, long q ) noexcept;
void vf_add( Elem const * c, Elem const * e, long n, Elem const * f, Elem const * g, long m, char const * policy ) noexcept;
void vf_added() noexcept;
}
using M = CRSMatrix< Elem, Elem, long, ProbeBuffer >;
using V = CRSMatrixView< Elem, Elem const, long const, ProbeBuffer >;
#define ROW( a ) auto const v = a.toViewConst(); long const n = a.numRows(); long const * const off = v.getOffsets(); long const * const sz = v.getSizes(); Elem const * const col = v.getColumns(); Elem const * const val = a.getEntries(); \
  vf_layout( off, sz, n ); vf_assume( n >= 0 ); INDEX( i ); long const size = szi; Elem const * const c = col + offi; Elem const * const e = val + offi; vf_assume( m >= 0 ); vf_sorted( c, size )
#define SORTED vf_sorted( f, m )
#define ARGS long i, Elem const * f, Elem const * g, long m
#define START( policy ) vf_batch( "add", c, size, f, m, 0, 0 ); vf_add( c, e, size, f, g, m, policy ); vf_begin()
#define OP( T, name, method, policy, pre ) RES( name )( T & a, ARGS ) { ROW( a ); pre; START( #policy ); a.template method< policy >( i, f, g, m ); vf_added(); }
OP( V const, binary, addToRowBinarySearch, Pol, SORTED )
OP( V const, linear, addToRowLinearSearch, Pol, SORTED )
OP( V const, unsorted, addToRowBinarySearchUnsorted, Pol, )
OP( V const, either, addToRow, Pol, SORTED )
OP( M const, matrixBinary, addToRowBinarySearch, Pol, SORTED )
OP( M const, matrixLinear, addToRowLinearSearch, Pol, SORTED )
OP( M const, matrixUnsorted, addToRowBinarySearchUnsorted, Pol, )
OP( M const, matrixEither, addToRow, Pol, SORTED )
#undef START
#define START( policy ) vf_batch( "add", c, size, f, m, 0, 0 ); vf_add( c, e, size, f, g, m, "any" ); vf_begin()
OP( V const, serialBinary, addToRowBinarySearch, RAJA::seq_atomic, SORTED )
OP( V const, serialLinear, addToRowLinearSearch, RAJA::seq_atomic, SORTED )
OP( V const, serialUnsorted, addToRowBinarySearchUnsorted, RAJA::seq_atomic, )
