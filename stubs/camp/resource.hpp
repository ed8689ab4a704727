#pragma once
#include "camp.hpp"
namespace camp { namespace resources
{
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
struct Host {};
struct Event { void * vf_p; Event() noexcept; Event( Event const & ) noexcept; ~Event() noexcept; void wait() const noexcept; };
struct Resource
{
  void * vf_p;
  Resource( Host ) noexcept;
  Resource( Resource const & ) noexcept;
  template< typename T > Resource( T && ) noexcept;
  Event get_event() noexcept;
  template< typename T > T * try_get() noexcept;
  Platform get_platform() noexcept;
  void wait() noexcept;
};
} }
