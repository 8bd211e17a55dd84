// Stand-in for the part of CHAI that ChaiBuffer uses: one record per allocation, a copy per execution space, data copied on a move when the space it
// was last used in has been touched.  "Device" memory is an ordinary second allocation, so that a mix-up of the two is visible.
#pragma once
#include <cstdlib>
#include <cstring>
#include <functional>
namespace umpire { struct Allocator { int id; int getId() const { return id; } }; }
namespace chai
{
enum ExecutionSpace { NONE = 0, CPU, GPU, NUM_EXECUTION_SPACES };
enum Action { ACTION_ALLOC, ACTION_FREE, ACTION_MOVE };
struct PointerRecord;
#ifdef LV_CHAI_CALLBACK
using UserCallback = std::function< void( PointerRecord const *, Action, ExecutionSpace ) >;
#else
struct UserCallback { template< class F > UserCallback & operator=( F const & ) { return *this; } UserCallback & operator=( UserCallback const & ) = default; UserCallback() = default; UserCallback( UserCallback const & ) = default; };
#endif
struct PointerRecord
{
  void * m_pointers[ NUM_EXECUTION_SPACES ]; bool m_touched[ NUM_EXECUTION_SPACES ]; bool m_owned[ NUM_EXECUTION_SPACES ]; std::size_t m_size; ExecutionSpace m_last_space;
  UserCallback m_user_callback; int m_allocators[ NUM_EXECUTION_SPACES ];
};
class ArrayManager
{
public:
  static ArrayManager * getInstance() { static ArrayManager m; return &m; }
  int getAllocatorId( ExecutionSpace s ) const { if( s <= NONE || s >= NUM_EXECUTION_SPACES ) std::abort(); return 100 + s; }
  ExecutionSpace getExecutionSpace() const { return m_space; }
  void setExecutionSpace( ExecutionSpace s ) { m_space = s; }
  void allocate( PointerRecord * r, ExecutionSpace s ) { r->m_pointers[ s ] = std::malloc( r->m_size ? r->m_size : 1 ); r->m_owned[ s ] = true; lastAllocator[ s ] = r->m_allocators[ s ]; ++allocations; }
  void free( PointerRecord * r ) { if( !r ) return; for( int s = CPU; s < NUM_EXECUTION_SPACES; ++s ) if( r->m_pointers[ s ] && r->m_owned[ s ] ) std::free( r->m_pointers[ s ] ); delete r; }
  void * move( void * p, PointerRecord * r, ExecutionSpace s )
  {
    if( s == NONE ) s = m_space;
    if( s == NONE ) return p;
    if( s != r->m_last_space )
    {
      if( !r->m_pointers[ s ] ) allocate( r, s );
      if( r->m_touched[ r->m_last_space ] ) { std::memcpy( r->m_pointers[ s ], r->m_pointers[ r->m_last_space ], r->m_size ); ++copies; for( int k = NONE; k < NUM_EXECUTION_SPACES; ++k ) r->m_touched[ k ] = false; said( r, s ); }
    }
    return r->m_pointers[ s ];
  }
  int lastAllocator[ NUM_EXECUTION_SPACES ] = {}; int allocations = 0, copies = 0;
private:
#ifdef LV_CHAI_CALLBACK
  static void said( PointerRecord * r, ExecutionSpace s ) { if( r->m_user_callback ) r->m_user_callback( r, ACTION_MOVE, s ); }
#else
  static void said( PointerRecord *, ExecutionSpace ) {}
#endif
  ExecutionSpace m_space = NONE;
};
}
