// Minimal host-only stand-in for camp resources.
#pragma once
#include <camp/camp.hpp>
#define CAMP_HAVE_HOST_ONLY 1
namespace camp { namespace resources {
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
struct Event { bool check() const { return true; } void wait() const {} };
struct HostEvent : Event {};
struct Host { Event get_event() { return {}; } Platform get_platform() { return Platform::host; } void memcpy( void * d, void const * s, std::size_t n ) { __builtin_memcpy( d, s, n ); } };
struct Resource
{
  Host host;
  Resource() = default;
  Resource( Host const & h ): host( h ) {}
  Event get_event() { return {}; }
  template< class T > T * try_get() { return &host; }
  void memcpy( void * d, void const * s, std::size_t n ) { __builtin_memcpy( d, s, n ); }
};
} }
