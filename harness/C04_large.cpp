// BOUNDS: arrays of 2 to 5 dimensions with extents up to 40 (every dimension the long one in turn; up to 240 elements): resize of each dimension by -9, -1, 1 or 20, with and without a default value, and resize of all dimensions; symbolic values
#include "large.hpp"
template< int N, class I, class F > void each( I const * d, F && f )
{
  I total = 1, i[ N ]; for( int k = 0; k < N; ++k ) { total *= d[ k ]; i[ k ] = 0; }
  for( I c = 0; c < total; ++c ) { f( i ); for( int k = N - 1; k >= 0; --k ) { if( ++i[ k ] < d[ k ] ) break; i[ k ] = 0; } }
}
template< class T, class PERM, class I > void large( int a, int b, int c )
{
  constexpr int N = PermOf< PERM >::N; int const base[ 5 ] = { a, b, c, 2, 1 }; I d[ N ], s[ N ]; int const turn = shape( "turn", 0, N - 1 ); for( int k = 0; k < N; ++k ) d[ ( k + turn ) % N ] = base[ k ];
  Array< T, N, PERM, I, MallocBuffer > x; Nd< N >::resize( x, d ); I total = 1, old[ N ]; for( int k = 0; k < N; ++k ) { total *= d[ k ]; old[ k ] = d[ k ]; } Big v( total ); I const n = total;
  auto at = [&]( I const * i ) { I r = 0; for( int k = 0; k < N; ++k ) r = r * old[ k ] + i[ k ]; return r; };
  each< N >( d, [&]( I const * i ) { int const y = sym< int >( "v" ); v[ at( i ) ] = y; Nd< N >::par( x, i ) = T( y ); } );
  auto shaped = [&]() { denseStrides< PERM >( d, s ); total = 1; bool ok = true; for( int k = 0; k < N; ++k ) { ok &= x.size( k ) == d[ k ] && x.dims()[ k ] == d[ k ] && x.strides()[ k ] == s[ k ]; total *= d[ k ]; } CHECK( ok ); CHECK( x.size() == total && x.capacity() >= total ); };
  shaped(); bool ok = true; each< N >( d, [&]( I const * i ) { ok &= valueOf( Nd< N >::par( x, i ) ) == v[ at( i ) ]; } ); CHECK( ok );
  int const q = shape( "q", 0, N ), z = shape( "by", 0, 3 ), by = z == 0 ? -9 : z == 1 ? -1 : z == 2 ? 1 : 20;
  if( q < N )
  {
    int const how = shape( "how", 0, 1 ), y = how ? sym< int >( "y" ) : dflt< T >(); d[ q ] = d[ q ] + by < 0 ? 0 : d[ q ] + by; x.setSingleParameterResizeIndex( q ); if( how ) x.resizeDefault( d[ q ], T( y ) ); else x.resize( d[ q ] );
    shaped(); each< N >( d, [&]( I const * i ) { ok &= valueOf( Nd< N >::par( x, i ) ) == ( i[ q ] < old[ q ] ? v[ at( i ) ] : y ); } ); CHECK( ok );
    if( std::is_same< T, int >::value && total > 0 ) { I i[ N ]; for( int k = 0; k < N; ++k ) i[ k ] = d[ k ] - 1; i[ q ] = range< I >( "probe", 0, d[ q ] - 1 ); int e = y; for( I k = 0; k < d[ q ]; ++k ) { I j[ N ]; for( int z = 0; z < N; ++z ) j[ z ] = z == q ? k : i[ z ]; if( k < old[ q ] ) e = i[ q ] == k ? v[ at( j ) ] : e; } int const g = valueOf( Nd< N >::par( x, i ) ); CHECK( g == e ); }
  }
  else { d[ 0 ] = d[ 0 ] + by < 0 ? 0 : d[ 0 ] + by; d[ N - 1 ] += 1; Nd< N >::resize( x, d ); shaped(); for( I k = n; k < total; ++k ) ok &= valueOf( x.data()[ k ] ) == dflt< T >(); CHECK( ok ); for( I k = 0; k < total; ++k ) x.data()[ k ] = T( 3 ); }
  REACH( "done" );
}
ENTRY( large2_ij ) { large< Owner, RAJA::PERM_IJ, int >( 40, 3, 1 ); }
ENTRY( large2_ji ) { large< int, RAJA::PERM_JI, std::ptrdiff_t >( 33, 5, 1 ); }
ENTRY( large3_jki ) { large< int, RAJA::PERM_JKI, int >( 19, 3, 2 ); }
ENTRY( large3_kij_owner ) { large< Owner, RAJA::PERM_KIJ, std::ptrdiff_t >( 17, 2, 3 ); }
ENTRY( large4_kilj ) { large< int, RAJA::PERM_KILJ, int >( 17, 2, 2 ); }
ENTRY( large5_ijklm ) { large< int, RAJA::PERM_IJKLM, int >( 5, 3, 2 ); }
ENTRY( large5_mlkji_owner ) { large< Owner, RAJA::PERM_MLKJI, int >( 4, 3, 2 ); }
ENTRY( large5_kmjil ) { large< int, camp::idx_seq< 2, 4, 1, 0, 3 >, std::ptrdiff_t >( 3, 2, 3 ); }
