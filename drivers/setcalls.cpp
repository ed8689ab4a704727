// Batches through the containers: the whole range and the whole batch are handed on, and the size counts what happened.
#include "follow.hpp"
#include "SortedArray.hpp"
#include "ArrayOfSets.hpp"
#include "sortedArrayManipulation.hpp"
using namespace LvArray;
extern "C" { void vf_batched( char const * kind, Elem const * ptr, long size, Elem const * first, Elem const * last, long r, char const * label ) noexcept; }
#define HAND "the whole range and the whole batch are handled"
#define SIZE "the size counts the values"
struct A : SortedArray< Elem, long, ProbeBuffer >
{
  long capacity() const { return buffer( *this, 0 ).capacity(); }
  template< typename S > static auto buffer( S const & s, int ) -> decltype( s.m_values ) const & { return s.m_values; }
  template< typename S > static ProbeBuffer< Elem > const & buffer( S const & s, long ) { return reinterpret_cast< ProbeBuffer< Elem > const & >( s ); }
};
#define ARR vf_assume( m >= 0 ); vf_assume( a.capacity() >= a.size() ); Elem const * const ptr = a.data(); long const size = a.size(); vf_assume( size >= 0 ); vf_begin()
RES( arrayInsertBatch )( A & a, Elem const * f, long m ) { ARR; long const r = a.insert( f, f + m ); vf_batched( "insert", ptr, size, f, f + m, r, HAND ); vf_prove( a.size() == size + r, SIZE ); }
RES( arrayRemoveBatch )( A & a, Elem const * f, long m ) { ARR; long const r = a.remove( f, f + m ); vf_batched( "remove", ptr, size, f, f + m, r, HAND ); vf_prove( a.size() == size - r, SIZE ); }
using B = ArrayOfSets< Elem, long, ProbeBuffer >;
using W = ArrayOfSetsView< Elem, long const, ProbeBuffer >;
#define IN vf_assume( m >= 0 ); OPEN( a ); INDEX( i ); Elem const * const ptr = val + offi; long const size = szi; vf_begin()
#define NOW AFTER( a, n ); vf_prove( wsz[ i ] == size + d, SIZE )
RES( setInsertBatch )( B & a, long i, Elem const * f, long m ) { IN; long const r = a.insertIntoSet( i, f, f + m ), d = r; vf_batched( "insert", ptr, size, f, f + m, r, HAND ); NOW; }
RES( setRemoveBatch )( B & a, long i, Elem const * f, long m ) { IN; long const r = a.removeFromSet( i, f, f + m ), d = -r; vf_batched( "remove", ptr, size, f, f + m, r, HAND ); NOW; }
RES( viewInsertBatch )( W & a, long i, Elem const * f, long m ) { IN; vf_assume( offi1 - offi >= size + m ); long const r = a.insertIntoSet( i, f, f + m ), d = r; vf_batched( "insert", ptr, size, f, f + m, r, HAND ); NOW; }
RES( viewRemoveBatch )( W & a, long i, Elem const * f, long m ) { IN; long const r = a.removeFromSet( i, f, f + m ), d = -r; vf_batched( "remove", ptr, size, f, f + m, r, HAND ); NOW; }
