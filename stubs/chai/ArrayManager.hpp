// Minimal declarations of the parts of LLNL CHAI / Umpire that LvArray's ChaiBuffer names (see camp/camp.hpp).
#pragma once
#include <cstddef>
#include <functional>
#include "../umpire/umpire.hpp"
namespace chai
{
enum ExecutionSpace { NONE = 0, CPU = 1,
#if defined( LVARRAY_USE_CUDA )
  GPU = 2,
#endif
  NUM_EXECUTION_SPACES };
enum Action { ACTION_ALLOC, ACTION_FREE, ACTION_MOVE };
struct PointerRecord;
struct UserCallback
{
  void * vf_p;
  UserCallback() noexcept {}
  UserCallback( UserCallback const & o ) noexcept : vf_p( o.vf_p ) {}
  UserCallback & operator=( UserCallback const & o ) noexcept { vf_p = o.vf_p; return *this; }
  UserCallback & operator=( UserCallback & o ) noexcept { vf_p = o.vf_p; return *this; }
  template< typename F > UserCallback & operator=( F && ) noexcept;
};
struct PointerRecord
{
  std::size_t m_size;
  void * m_pointers[ NUM_EXECUTION_SPACES ];
  bool m_touched[ NUM_EXECUTION_SPACES ];
  bool m_owned[ NUM_EXECUTION_SPACES ];
  ExecutionSpace m_last_space;
  UserCallback m_user_callback;
  int m_allocators[ NUM_EXECUTION_SPACES ];
  PointerRecord() noexcept : m_size( 0 ), m_last_space( NONE ) {}
};
struct ArrayManager
{
  static ArrayManager * getInstance() noexcept;
  void allocate( PointerRecord * record, ExecutionSpace space ) noexcept;
  void free( PointerRecord * record, ExecutionSpace space = NONE ) noexcept;
  void * move( void * ptr, PointerRecord * record, ExecutionSpace space ) noexcept;
  ExecutionSpace getExecutionSpace() noexcept;
  int getAllocatorId( ExecutionSpace space ) noexcept;
  void registerTouch( PointerRecord * record, ExecutionSpace space ) noexcept;
};
}
