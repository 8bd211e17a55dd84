// BOUNDS: units of one, two and eight bytes in groups of 2, 3 and 5, and short pairs viewed as int, extents 0..3 in groups and 0..6 in units; four- and five-dimensional arrays with extents 1..2
#include "nd.hpp"
#include <cstring>
using namespace LvArray;
template< class T, int R > struct G { T a[ R ]; };
template< class T, int R, class PERM, class I > void there( int lo, int hi )
{
  constexpr int N = PermOf< PERM >::N, U = PermOf< PERM >::last(); I d[ N ], e[ N ], s[ N ], i[ N ], j[ N ]; for( int k = 0; k < N; ++k ) e[ k ] = d[ k ] = shape< I >( "d", lo, hi ); e[ U ] *= R;
  denseStrides< PERM >( e, s ); Array< G< T, R >, N, PERM, I, MallocBuffer > a; Nd< N >::resize( a, d );
  for( int k = 0; k < a.size(); ++k ) for( int q = 0; q < R; ++q ) a.data()[ k ].a[ q ] = sym< T >( "v" );
  ArrayView< T, N, U, I, MallocBuffer > const v( a.toView() ); int64_t total = 1; for( int k = 0; k < N; ++k ) { CHECK( v.size( k ) == e[ k ] ); CHECK( v.strides()[ k ] == s[ k ] ); total *= e[ k ]; } CHECK( v.size() == total );
  ArrayView< G< T, R >, N, U, I, MallocBuffer > const back( v ); for( int k = 0; k < N; ++k ) { CHECK( back.size( k ) == d[ k ] ); CHECK( back.strides()[ k ] == a.strides()[ k ] ); }
  if( total == 0 ) return;
  for( int k = 0; k < N; ++k ) j[ k ] = i[ k ] = range< I >( "i", 0, d[ k ] - 1 ); int const q = range( "q", 0, R - 1 ); j[ U ] = i[ U ] * R + q;
  CHECK( &Nd< N >::par( v, j ) == &Nd< N >::par( a, i ).a[ q ] ); CHECK( &Nd< N >::par( back, i ) == &Nd< N >::par( a, i ) ); T const x = sym< T >( "x" ); Nd< N >::par( v, j ) = x; CHECK( std::memcmp( &Nd< N >::par( a, i ).a[ q ], &x, sizeof( T ) ) == 0 ); REACH( "converted" );
}
template< class T, int R, class PERM, class I > void back( int lo, int hi )
{
  constexpr int N = PermOf< PERM >::N, U = PermOf< PERM >::last(); I d[ N ], e[ N ], s[ N ]; for( int k = 0; k < N; ++k ) e[ k ] = d[ k ] = shape< I >( "d", lo, k == U ? hi : 2 ); e[ U ] /= R; denseStrides< PERM >( e, s );
  Array< T, N, PERM, I, MallocBuffer > a; Nd< N >::resize( a, d ); for( int k = 0; k < a.size(); ++k ) a.data()[ k ] = static_cast< T >( k );
  auto const from = a.toView(); using V = ArrayView< G< T, R >, N, U, I, MallocBuffer >; ABORTS_IFF( d[ U ] % R != 0, V const x( from ) ); V const v( from );
  for( int k = 0; k < N; ++k ) { CHECK( v.size( k ) == e[ k ] ); CHECK( v.strides()[ k ] == s[ k ] ); } for( int k = 0; k < v.size(); ++k ) for( int q = 0; q < R; ++q ) CHECK( v.data()[ k ].a[ q ] == a.data()[ R * k + q ] ); if( v.size() > 1 ) REACH( "converted" );
}
#define TYPES( NAME, T, R, PERM, I ) ENTRY( there_ ## NAME ) { there< T, R, RAJA::PERM, I >( 0, 3 ); } ENTRY( back_ ## NAME ) { back< T, R, RAJA::PERM, I >( 0, 2 * R ); }
TYPES( char2, char, 2, PERM_I, int )
TYPES( char3, signed char, 3, PERM_IJ, std::ptrdiff_t )
TYPES( char5, unsigned char, 5, PERM_JI, int )
TYPES( short2, short, 2, PERM_JI, int )
TYPES( short5, unsigned short, 5, PERM_I, std::ptrdiff_t )
TYPES( long2, long long, 2, PERM_I, int )
TYPES( long3, long long, 3, PERM_IJ, int )
TYPES( double3, double, 3, PERM_JI, std::ptrdiff_t )
ENTRY( shorts_as_int )
{
  int const d = shape( "d", 0, 7 ); Array< short, 1, RAJA::PERM_I, int, MallocBuffer > a( d ); auto const from = a.toView(); using V = ArrayView< int, 1, 0, int, MallocBuffer >; ABORTS_IFF( d % 2 != 0, V const x( from ) ); V const v( from ); CHECK( v.size() == d / 2 );
  for( int k = 0; k < d / 2; ++k ) { int const x = sym< int >( "x" ); std::memcpy( v.data() + k, &x, sizeof( int ) ); CHECK( std::memcmp( a.data() + 2 * k, &x, sizeof( int ) ) == 0 ); } ArrayView< short, 1, 0, int, MallocBuffer > const b( v ); CHECK( b.size() == d ); CHECK( b.data() == a.data() ); REACH( "viewed" );
}
ENTRY( there_4d ) { there< short, 3, RAJA::PERM_KILJ, int >( 1, 2 ); }
ENTRY( there_4r ) { there< int, 2, RAJA::PERM_LKJI, std::ptrdiff_t >( 1, 2 ); }
ENTRY( there_5d ) { there< char, 2, RAJA::PERM_IJKLM, int >( 1, 2 ); }
ENTRY( there_5r ) { there< int, 2, RAJA::PERM_MLKJI, int >( 1, 2 ); }
