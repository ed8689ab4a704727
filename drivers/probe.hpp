// A buffer type whose storage operations are opaque: what the containers ask of their buffers is what is analysed.
#pragma once
#include "vf.hpp"
#include "bufferManipulation.hpp"
extern "C"
{
void * vf_buf_realloc( void const * buf, void * data, long size, int space, long newCapacity, long elemSize ) noexcept;
void vf_buf_free( void const * buf, void * data ) noexcept;
void vf_buf_move( void const * buf, int space, bool touch ) noexcept;
void vf_buf_move_nested( void const * buf, int space, long size, bool touch ) noexcept;
void vf_buf_touch( void const * buf, int space ) noexcept;
int vf_buf_space( void const * buf ) noexcept;
void vf_buf_name( void const * buf ) noexcept;
}
template< typename T >
class ProbeBuffer
{
public:
  using value_type = T;
  static constexpr bool hasShallowCopy = true;
  constexpr ProbeBuffer( bool=true ) : m_data( nullptr ), m_capacity( 0 ) {}
  constexpr ProbeBuffer( T * data, long capacity ) : m_data( data ), m_capacity( capacity ) {}
  ProbeBuffer( ProbeBuffer const & ) = default;
  constexpr ProbeBuffer( ProbeBuffer const & src, std::ptrdiff_t ) : ProbeBuffer( src ) {}
  constexpr ProbeBuffer( ProbeBuffer && src ) : m_data( src.m_data ), m_capacity( src.m_capacity ) { src.m_data = nullptr; src.m_capacity = 0; }
  template< typename U > constexpr ProbeBuffer( ProbeBuffer< U > const & src ) : m_data( reinterpret_cast< T * >( src.data() ) ), m_capacity( LvArray::typeManipulation::convertSize< T, U >( src.capacity() ) ) {}
  ProbeBuffer & operator=( ProbeBuffer const & src ) { m_capacity = src.m_capacity; m_data = src.m_data; return *this; }
  ProbeBuffer & operator=( ProbeBuffer && src ) { m_capacity = src.m_capacity; m_data = src.m_data; src.m_capacity = 0; src.m_data = nullptr; return *this; }
  void reallocate( std::ptrdiff_t const size, LvArray::MemorySpace const space, std::ptrdiff_t const newCapacity )
  { m_data = static_cast< T * >( vf_buf_realloc( this, const_cast< std::remove_const_t< T > * >( m_data ), size, int( space ), newCapacity, sizeof( T ) ) ); m_capacity = newCapacity; }
  void free() { vf_buf_free( this, const_cast< std::remove_const_t< T > * >( m_data ) ); m_capacity = 0; m_data = nullptr; }
  std::ptrdiff_t capacity() const { return m_capacity; }
  constexpr T * data() const { return m_data; }
  template< typename INDEX_TYPE > constexpr T & operator[]( INDEX_TYPE const i ) const { return m_data[ i ]; }
  void move( LvArray::MemorySpace const space, bool const touch ) const { vf_buf_move( this, int( space ), touch ); }
  void moveNested( LvArray::MemorySpace const space, std::ptrdiff_t const size, bool const touch ) const { vf_buf_move_nested( this, int( space ), size, touch ); }
  void registerTouch( LvArray::MemorySpace const space ) const { vf_buf_touch( this, int( space ) ); }
  LvArray::MemorySpace getPreviousSpace() const { return LvArray::MemorySpace( vf_buf_space( this ) ); }
  template< typename=ProbeBuffer > void setName( std::string const & ) { vf_buf_name( this ); }
private:
  T * m_data = nullptr;
  std::ptrdiff_t m_capacity = 0;
};
