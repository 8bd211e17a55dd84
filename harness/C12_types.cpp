// BOUNDS: arrays of sets with two rows of 8- to 64-bit integers, pointers, enumerations, a type ordered the other way round, a two-field key, float and double (sixteen values of each, symbolic, both signs, zeros and denormals included): histories of 1 (thorough: 2) insertions, removals and copies; rows of 0..3 values taken over with each description
#include "types.hpp"
#ifdef LV_THOROUGH
constexpr int OPS = 2;
#else
constexpr int OPS = 1;
#endif
template< class T, class A > void same( A const & a, List< T > const * m, int rows ) { CHECK( a.size() == rows ); bool ok = true; for( int i = 0; i < rows; ++i ) { CHECK( a.sizeOfSet( i ) == m[ i ].n ); for( int j = 0; j < m[ i ].n; ++j ) ok &= bits( a( i, j ), m[ i ].d[ j ] ); } CHECK( ok ); }
template< class T > void history()
{
  ArrayOfSets< T, int, MallocBuffer > a; List< T > m[ 3 ]; a.resize( 2, shape( "slack", 0, 1 ) ); int const n = shape( "n", 0, 3 - OPS ); for( int i = 0; i < n; ++i ) { T const x = ordered< T >( "a" ); a.insertIntoSet( 1, x ); m[ 1 ].put( x ); }
  for( int o = 0; o < OPS; ++o )
  {
    int const i = shape( "i", 0, 1 ); auto & k = m[ i ];
    switch( shape( "op", 0, 5 ) )
    {
      case 0: { T const x = ordered< T >( "x" ); bool const r = a.insertIntoSet( i, x ), e = k.put( x ); CHECK( r == e ); break; }
      case 1: { T const x = ordered< T >( "x" ); bool const r = a.removeFromSet( i, x ), e = k.drop( x ); CHECK( r == e ); break; }
      case 2: { T const f[ 2 ] = { ordered< T >( "f" ), ordered< T >( "f" ) }; ASSUME( f[ 0 ] < f[ 1 ] ); int const r = a.insertIntoSet( i, f, f + 2 ); int e = k.put( f[ 0 ] ); e += k.put( f[ 1 ] ); CHECK( r == e ); break; }
      case 3: { T const f[ 2 ] = { ordered< T >( "f" ), ordered< T >( "f" ) }; ASSUME( f[ 0 ] < f[ 1 ] ); int const r = a.removeFromSet( i, f, f + 2 ); int e = k.drop( f[ 0 ] ); e += k.drop( f[ 1 ] ); CHECK( r == e ); break; }
      case 4: a.compress(); break;
      default: { ArrayOfSets< T, int, MallocBuffer > b( a ); a.resize( 1 ); a = b; break; }
    }
    same( a, m, 2 );
  }
  T const y = ordered< T >( "y" ); CHECK( a.contains( 1, y ) == ( m[ 1 ].find( y ) >= 0 ) ); REACH( "done" );
}
template< class T > void take()
{
  ArrayOfArrays< T, int, MallocBuffer > s( 2, 2 ); ArrayOfSets< T, int, MallocBuffer > a; List< T > m[ 2 ]; int const desc = shape( "desc", 0, 3 ), n = shape( "n", 0, 3 ); T x[ 3 ] = {}; s.emplaceBack( 0, ordered< T >( "z" ) ); m[ 0 ].push( s( 0, 0 ) );
  for( int i = 0; i < n; ++i ) { x[ i ] = ordered< T >( "x" ); for( int j = 0; j < i; ++j ) { if( desc == 0 ) ASSUME( x[ j ] < x[ i ] ); if( desc == 1 ) ASSUME( x[ j ] < x[ i ] || x[ i ] < x[ j ] ); if( desc == 2 ) ASSUME( !( x[ i ] < x[ j ] ) ); } s.emplaceBack( 1, x[ i ] ); m[ 1 ].put( x[ i ] ); }
  using namespace sortedArrayManipulation; a.assimilate( std::move( s ), desc == 0 ? SORTED_UNIQUE : desc == 1 ? UNSORTED_NO_DUPLICATES : desc == 2 ? SORTED_WITH_DUPLICATES : UNSORTED_WITH_DUPLICATES );
  CHECK( a.size() == 2 && a.sizeOfSet( 0 ) == 1 ); CHECK( a.sizeOfSet( 1 ) == m[ 1 ].n ); bool ok = bits( a( 0, 0 ), m[ 0 ].d[ 0 ] ); for( int j = 0; j < m[ 1 ].n; ++j ) ok &= a( 1, j ) == m[ 1 ].d[ j ]; CHECK( ok ); REACH( "taken" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { history< T >(); }
LV_ORDERED( ONE )
#define TWO( T, NAME ) ENTRY( take_ ## NAME ) { take< T >(); }
LV_ORDERED( TWO )
