#pragma once
#include <cstddef>
#include "../camp/resource.hpp"
namespace umpire
{
struct Allocator { int vf_id; int getId() const noexcept; };
struct ResourceManager
{
  static ResourceManager & getInstance() noexcept;
  bool hasAllocator( void * ) noexcept;
  void copy( void *, void *, std::size_t ) noexcept;
  camp::resources::Event copy( void *, void *, camp::resources::Resource &, std::size_t ) noexcept;
  void memset( void *, int, std::size_t ) noexcept;
};
}
