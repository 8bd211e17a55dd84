// BOUNDS: histories of 2 (thorough: 3) operations on arrays of arrays with two rows of 0..2 elements of type double, float, 8- to 64-bit integers, pointer, enumeration, padded structure, std::array, heap-owning and preset; values of every bit pattern compared bit by bit
#include "types.hpp"
#ifdef LV_THOROUGH
constexpr int OPS = 3;
#else
constexpr int OPS = 2;
#endif
template< class T > void history()
{
  ArrayOfArrays< T, int, MallocBuffer > a; List< T, 8 > m[ 6 ]; int rows = 2; int const s = shape( "s", 0, 2 ), slack = shape( "slack", 0, 1 ); a.resize( 2, slack );
  for( int i = 0; i < 2; ++i ) for( int j = 0; j < ( i == 0 ? s : 2 - s / 2 ); ++j ) { m[ i ].push( Gen< T >::get( "a" ) ); a.emplaceBack( i, m[ i ].d[ j ] ); }
  auto same = [&]() { CHECK( a.size() == rows ); bool ok = true; for( int i = 0; i < rows; ++i ) { ok &= a.sizeOfArray( i ) == m[ i ].n && a.capacityOfArray( i ) >= m[ i ].n; CHECK( ok ); for( int j = 0; j < m[ i ].n; ++j ) ok &= bits( a( i, j ), m[ i ].d[ j ] ); } CHECK( ok ); };
  for( int o = 0; o < OPS; ++o )
  {
    int const i = shape( "i", 0, 1 ); if( i >= rows ) return; auto & k = m[ i ];
    switch( shape( "op", 0, 11 ) )
    {
      case 0: { T const x = Gen< T >::get( "x" ); a.emplaceBack( i, x ); k.push( x ); break; }
      case 1: { T const x = Gen< T >::get( "x" ); int const p = shape( "p", 0, k.n ); a.emplace( i, p, x ); k.insert( p, x ); break; }
      case 2: { T const f[ 2 ] = { Gen< T >::get( "f" ), Gen< T >::get( "f" ) }; int const p = shape( "p", 0, k.n ); a.insertIntoArray( i, p, f, f + 2 ); k.insert( p, f[ 0 ] ); k.insert( p + 1, f[ 1 ] ); break; }
      case 3: { if( k.n == 0 ) return; int const p = shape( "p", 0, k.n - 1 ); a.eraseFromArray( i, p ); k.erase( p ); break; }
      case 4: { int const z = shape( "z", 0, 3 ); a.resizeArray( i, z ); k.resize( z, T() ); break; }
      case 5: { int const z = shape( "z", 0, 3 ); T const x = Gen< T >::get( "x" ); a.resizeArray( i, z, x ); k.resize( z, x ); break; }
      case 6: { T const f[ 2 ] = { Gen< T >::get( "f" ), Gen< T >::get( "f" ) }; a.insertArray( i, f, f + 2 ); for( int r = rows; r > i; --r ) m[ r ] = m[ r - 1 ]; m[ i ].n = 0; m[ i ].push( f[ 0 ] ); m[ i ].push( f[ 1 ] ); ++rows; break; }
      case 7: { int const z = shape( "z", 0, 2 ); a.appendArray( z ); m[ rows ].n = 0; m[ rows ].resize( z, T() ); ++rows; break; }
      case 8: a.eraseArray( i ); for( int r = i; r + 1 < rows; ++r ) m[ r ] = m[ r + 1 ]; --rows; break;
      case 9: { int const z = shape( "z", 0, 3 ); a.setCapacityOfArray( i, z ); if( k.n > z ) k.n = z; break; }
      case 10: if( shape( "compress", 0, 1 ) ) a.compress(); else { a.reserve( 5 ); a.reserveValues( 9 ); } break;
      default: { ArrayOfArrays< T, int, MallocBuffer > b( a ); if( shape( "move", 0, 1 ) ) { a.resize( 1 ); a = std::move( b ); } else { a = b; } break; }
    }
    same();
  }
  REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { history< T >(); }
#define bool signed char // a bool in never-used spare capacity is moved as an object (known finding aoa-gap)
LV_PLAIN( ONE )
#undef bool
