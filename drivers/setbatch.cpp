// Batches: values of a second strictly increasing range inserted into, or removed from, a strictly increasing range.
#include "follow.hpp"
#include "probe.hpp"
#include "SortedArray.hpp"
#include "ArrayOfSets.hpp"
#include "sortedArrayManipulation.hpp"
using namespace LvArray;
namespace S = LvArray::sortedArrayManipulation;
extern "C" {
void vf_sorted( Elem const * ptr, long n ) noexcept;
void vf_batch( char const * kind, Elem const * ptr, long size, Elem const * first, long m, long k, long q ) noexcept;
void vf_batch_end( long r ) noexcept;
void vf_batch_call( char const * kind, Elem const * ptr, long size, Elem const * first, Elem const * last, long r, char const * label ) noexcept;
}
#define RES( name ) extern "C" void vf_##name
using C = S::CallBacks< Elem >;
#define UNION "insertion leaves the union, in order"
#define COUNT "the count returned is the number of values added or removed"
#define SIZE "the size counts the values"
#define BATCH vf_assume( size >= 0 ); vf_assume( m >= 0 ); vf_sorted( ptr, size ); vf_sorted( f, m )
#define GHOST vf_assume( k >= 0 ); vf_assume( k < size ); vf_assume( q >= 0 ); vf_assume( q < m )
#define BP Elem * ptr, long size, Elem const * f, long m, long k, long q
// a value that is in both, at k and q
RES( batchRemove )( BP ) { BATCH; GHOST; vf_assume( ptr[ k ] == f[ q ] ); vf_batch( "remove", ptr, size, f, m, k, q ); vf_begin(); long const r = S::remove( ptr, size, f, f + m, C() ); vf_batch_end( r ); }
RES( batchInsert )( BP ) { BATCH; vf_assume( size > 0 ); vf_batch( "insert", ptr, size, f, m, 0, 0 ); vf_begin(); long const r = S::insert( ptr, size, f, f + m, C() ); vf_batch_end( r ); }
RES( batchInsertEmpty )( BP ) { BATCH; vf_assume( size == 0 ); vf_assume( q >= 0 ); vf_assume( q < m ); vf_begin(); long const r = S::insert( ptr, size, f, f + m, C() ); vf_prove( r == m, COUNT ); vf_from( ptr + q, f + q, UNION ); }
