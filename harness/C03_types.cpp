// BOUNDS: histories of 2 (thorough: 3) operations on arrays of 0..2 elements of type double, float, bool, 8- to 64-bit integers, pointer, enumeration, padded structure, std::array, heap-owning and preset; values of every bit pattern (NaNs and negative zeros included) compared bit by bit
#include "types.hpp"
#ifdef LV_THOROUGH
constexpr int OPS = 3;
#else
constexpr int OPS = 2;
#endif
template< class T > using Stack16 = StackBuffer< T, 16 >;
template< class T, template< class > class B > void history()
{
  Array< T, 1, RAJA::PERM_I, int, B > a; List< T > m; int const n = shape( "n", 0, 2 ); for( int i = 0; i < n; ++i ) { m.push( Gen< T >::get( "a" ) ); a.emplace_back( m.d[ i ] ); }
  auto same = [&]() { CHECK( a.size() == m.n && a.capacity() >= m.n ); bool ok = true; for( int i = 0; i < m.n; ++i ) ok &= bits( a[ i ], m.d[ i ] ); CHECK( ok ); };
  for( int o = 0; o < OPS; ++o )
  {
    switch( shape( "op", 0, 8 ) )
    {
      case 0: { T const x = Gen< T >::get( "x" ); a.emplace_back( x ); m.push( x ); break; }
      case 1: { T const x = Gen< T >::get( "x" ); int const p = shape( "p", 0, m.n ); a.emplace( p, x ); m.insert( p, x ); break; }
      case 2: { T const f[ 2 ] = { Gen< T >::get( "f" ), Gen< T >::get( "f" ) }; int const p = shape( "p", 0, m.n ); a.insert( p, f, f + 2 ); m.insert( p, f[ 0 ] ); m.insert( p + 1, f[ 1 ] ); break; }
      case 3: { if( m.n == 0 ) return; int const p = shape( "p", 0, m.n - 1 ); a.erase( p ); m.erase( p ); break; }
      case 4: { if( m.n == 0 ) return; a.pop_back(); --m.n; break; }
      case 5: { int const s = shape( "s", 0, 4 ); a.resize( s ); m.resize( s, T() ); break; }
      case 6: { int const s = shape( "s", 0, 4 ); T const x = Gen< T >::get( "x" ); a.resizeDefault( s, x ); m.resize( s, x ); break; }
      case 7: { int const c = shape( "c", 0, 1 ) * 9; a.reserve( c ); break; }
      default: { Array< T, 1, RAJA::PERM_I, int, B > const b( a ); a.clear(); CHECK( a.size() == 0 ); a = b; break; }
    }
    same();
  }
  REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { history< T, MallocBuffer >(); }
LV_PLAIN( ONE )
ENTRY( types_stack_d ) { history< double, Stack16 >(); }
ENTRY( types_stack_padded ) { history< Padded, Stack16 >(); }
