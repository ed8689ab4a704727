#pragma once
// Where a container's buffers are asked to go and in which space a modification is recorded.
#include "vf.hpp"
#include <array>
#include "bufferManipulation.hpp"
#include "umpireInterface.hpp"
struct Obj { int v; Obj() noexcept; Obj( Obj const & ) noexcept; Obj( Obj && ) noexcept; ~Obj() noexcept; Obj & operator=( Obj const & ) noexcept; Obj & operator=( Obj && ) noexcept; bool operator<( Obj const & ) const noexcept; };
extern "C"
{
void * vf_t_realloc( void const * data, long size, int space, long newCapacity, long elemSize ) noexcept;
void vf_t_free( void const * data ) noexcept;
void * vf_t_move( void const * data, int space, long size, bool touch ) noexcept;
void vf_t_touch( void const * data, int space ) noexcept;
int vf_t_space( void const * data ) noexcept;
void vf_want_move( void const * data, int space, long size, bool touch ) noexcept;
void vf_want_touch( void const * data, int space ) noexcept;
void vf_want_here( void const * data, bool touch ) noexcept;
void vf_want_home( void const * data ) noexcept;
void vf_want_after( void const * data, bool ) noexcept;
void vf_with( void const *, void const * ) noexcept;
void vf_begin() noexcept;
void vf_end() noexcept;
}
using LvArray::MemorySpace;
// a buffer that reports what it is asked for; size is -1 when only the buffer itself is to be moved
template< typename T >
class Trace
{
public:
  using value_type = T;
  static constexpr bool hasShallowCopy = true;
  constexpr Trace( bool=true ) : m_data( nullptr ), m_capacity( 0 ) {}
  Trace( Trace const & ) = default;
  constexpr Trace( Trace const & src, std::ptrdiff_t ) : Trace( src ) {}
  constexpr Trace( Trace && src ) : m_data( src.m_data ), m_capacity( src.m_capacity ) { src.m_data = nullptr; src.m_capacity = 0; }
  template< typename U > constexpr Trace( Trace< U > const & src ) : m_data( reinterpret_cast< T * >( src.data() ) ), m_capacity( LvArray::typeManipulation::convertSize< T, U >( src.capacity() ) ) {}
  Trace & operator=( Trace const & src ) { m_capacity = src.m_capacity; m_data = src.m_data; return *this; }
  Trace & operator=( Trace && src ) { m_capacity = src.m_capacity; m_data = src.m_data; src.m_capacity = 0; src.m_data = nullptr; return *this; }
  void reallocate( std::ptrdiff_t const size, LvArray::MemorySpace const space, std::ptrdiff_t const newCapacity )
  { m_data = static_cast< T * >( vf_t_realloc( m_data, size, int( space ), newCapacity, sizeof( T ) ) ); m_capacity = newCapacity; }
  void free() { vf_t_free( m_data ); m_capacity = 0; m_data = nullptr; }
  std::ptrdiff_t capacity() const { return m_capacity; }
  constexpr T * data() const { return m_data; }
  template< typename INDEX_TYPE > constexpr T & operator[]( INDEX_TYPE const i ) const { return m_data[ i ]; }
  void move( MemorySpace const space, bool const touch ) const { at( vf_t_move( m_data, int( space ), -1, touch && !std::is_const< T >::value ) ); }
  void moveNested( MemorySpace const space, std::ptrdiff_t const size, bool const touch ) const { at( vf_t_move( m_data, int( space ), size, touch && !std::is_const< T >::value ) ); }
  void registerTouch( MemorySpace const space ) const { vf_t_touch( m_data, int( space ) ); }
  MemorySpace getPreviousSpace() const { return MemorySpace( vf_t_space( m_data ) ); }
  template< typename=Trace > void setName( std::string const & ) {}
private:
  void at( void * p ) const { const_cast< T * & >( m_data ) = static_cast< T * >( p ); }
  T * m_data = nullptr;
  std::ptrdiff_t m_capacity = 0;
};
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "memcpy.hpp"
using namespace LvArray;
using I = std::ptrdiff_t;
template< typename T > using A1 = Array< T, 1, camp::idx_seq< 0 >, I, Trace >;
template< typename T > using A2 = Array< T, 2, camp::idx_seq< 1, 0 >, I, Trace >;
template< typename T > using V1 = ArrayView< T, 1, 0, I, Trace >;
template< typename T > using V2 = ArrayView< T, 2, 0, I, Trace >;
using SA = SortedArray< int, I, Trace >;
using SAV = SortedArrayView< int const, I, Trace >;
using AA = ArrayOfArrays< int, I, Trace >;
using AAV = ArrayOfArraysView< int, I const, false, Trace >;
using AAVs = ArrayOfArraysView< int, I const, true, Trace >;
using AAVc = ArrayOfArraysView< int const, I const, true, Trace >;
using AS = ArrayOfSets< int, I, Trace >;
using ASV = ArrayOfSetsView< int, I const, Trace >;
using ASVc = ArrayOfSetsView< int const, I const, Trace >;
using SP = SparsityPattern< int, I, Trace >;
using SPV = SparsityPatternView< int, I const, Trace >;
using SPVc = SparsityPatternView< int const, I const, Trace >;
using CM = CRSMatrix< double, int, I, Trace >;
using CMV = CRSMatrixView< double, int, I const, Trace >;
using CMVs = CRSMatrixView< double, int const, I const, Trace >;
using CMVc = CRSMatrixView< double const, int const, I const, Trace >;
