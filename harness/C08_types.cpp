// BOUNDS: histories of 1 (thorough: 2) insertions, removals and copies on sorted arrays of 0..3 (thorough: 0..2) members of type bool, 8- to 64-bit integers, pointers, enumerations, a type ordered the other way round, a two-field key, float and double; sixteen values of each, symbolic, both signs, zeros and denormals included; sorted ranges of two and the searches in between
#include "types.hpp"
#ifdef LV_THOROUGH
constexpr int OPS = 2;
#else
constexpr int OPS = 1;
#endif
template< class T > void history()
{
  SortedArray< T, int, MallocBuffer > a; List< T > m; int const n = shape( "n", 0, 4 - OPS ); for( int i = 0; i < n; ++i ) { T const x = ordered< T >( "a" ); if( i > 0 ) ASSUME( m.d[ i - 1 ] < x ); a.insert( x ); m.push( x ); }
  auto same = [&]() { CHECK( a.size() == m.n ); bool ok = true; for( int i = 0; i < m.n; ++i ) ok &= bits( a[ i ], m.d[ i ] ); CHECK( ok ); };
  for( int o = 0; o < OPS; ++o )
  {
    switch( shape( "op", 0, 4 ) )
    {
      case 0: { T const x = ordered< T >( "x" ); bool const r = a.insert( x ), e = m.put( x ); CHECK( r == e ); break; }
      case 1: { T const x = ordered< T >( "x" ); bool const r = a.remove( x ), e = m.drop( x ); CHECK( r == e ); break; }
      case 2: { T const f[ 2 ] = { ordered< T >( "f" ), ordered< T >( "f" ) }; ASSUME( f[ 0 ] < f[ 1 ] ); int const r = a.insert( f, f + 2 ); int e = m.put( f[ 0 ] ); e += m.put( f[ 1 ] ); CHECK( r == e ); break; }
      case 3: { T const f[ 2 ] = { ordered< T >( "f" ), ordered< T >( "f" ) }; ASSUME( f[ 0 ] < f[ 1 ] ); int const r = a.remove( f, f + 2 ); int e = m.drop( f[ 0 ] ); e += m.drop( f[ 1 ] ); CHECK( r == e ); break; }
      default: { SortedArray< T, int, MallocBuffer > b( a ); a.clear(); if( shape( "move", 0, 1 ) ) a = std::move( b ); else a = b; break; }
    }
    same();
  }
  T const y = ordered< T >( "y" ); bool const h = a.contains( y ), e = m.find( y ) >= 0; CHECK( h == e ); CHECK( static_cast< bool >( a.count( y ) ) == e ); CHECK( a.toView().contains( y ) == e ); REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { history< T >(); }
LV_ORDERED( ONE )
ENTRY( types_b ) { history< bool >(); }
