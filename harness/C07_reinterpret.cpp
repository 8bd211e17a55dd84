// BOUNDS: every permutation of 1 to 3 dimensions, extents 0..3 in units of the larger type and 0..7 (1-D, 2-D) or 0..4 in units of the smaller one, ratios 1, 2, 3 and 4, both directions, symbolic values and indices; arrays with and without spare capacity; chains of two conversions; the strides are also decided for symbolic extents up to 2^20 (1-D and 2-D)
#include "nd.hpp"
using namespace LvArray;
struct P2 { int a[ 2 ]; }; struct P3 { int a[ 3 ]; }; struct P4 { int a[ 4 ]; };
template< class G > int & part( G & g, int k ) { return g.a[ k ]; }
template< class G > int const & part( G const & g, int k ) { return g.a[ k ]; }
// groups -> units
template< class G, int R, class PERM, class I, bool CONST > void split( int lo, int hi )
{
  constexpr int N = PermOf< PERM >::N, U = PermOf< PERM >::last(); I d[ N ], e[ N ], s[ N ], i[ N ], j[ N ]; for( int k = 0; k < N; ++k ) e[ k ] = d[ k ] = shape< I >( "d", lo, hi ); e[ U ] *= R;
  denseStrides< PERM >( e, s );
  Array< G, N, PERM, I, MallocBuffer > a; if( shape( "spare", 0, 1 ) ) a.reserve( 41 ); Nd< N >::resize( a, d ); if( N > 1 ) a.setSingleParameterResizeIndex( 1 );
  for( int k = 0; k < a.size(); ++k ) for( int q = 0; q < R; ++q ) a.data()[ k ].a[ q ] = sym< int >( "v" );
  using Src = std::conditional_t< CONST, G const, G >; using Unit = std::conditional_t< CONST, int const, int >;
  ArrayView< Src, N, U, I, MallocBuffer > const from( a ); ArrayView< Unit, N, U, I, MallocBuffer > const v( from );
  int64_t total = 1; for( int k = 0; k < N; ++k ) { CHECK( v.size( k ) == e[ k ] ); CHECK( v.strides()[ k ] == s[ k ] ); total *= e[ k ]; }
  CHECK( v.size() == total ); CHECK( static_cast< void const * >( v.data() ) == static_cast< void const * >( a.data() ) ); CHECK( v.getSingleParameterResizeIndex() == a.getSingleParameterResizeIndex() ); CHECK( v.capacity() >= v.size() );
  if( total == 0 ) { REACH( "empty" ); return; }
  for( int k = 0; k < N; ++k ) j[ k ] = i[ k ] = range< I >( "i", 0, d[ k ] - 1 ); int q = range( "q", 0, R - 1 ); j[ U ] = i[ U ] * R + q;
  CHECK( &Nd< N >::par( v, j ) == &part( Nd< N >::par( a, i ), q ) ); CHECK( Nd< N >::par( v, j ) == part( Nd< N >::par( a, i ), q ) ); CHECK( &Nd< N >::brk( v, j ) == &part( Nd< N >::par( a, i ), q ) );
  ArrayView< Src, N, U, I, MallocBuffer > const back( v ); for( int k = 0; k < N; ++k ) { CHECK( back.size( k ) == d[ k ] ); CHECK( back.strides()[ k ] == a.strides()[ k ] ); } CHECK( &Nd< N >::par( back, i ) == &Nd< N >::par( a, i ) );
  REACH( "converted" );
}
// units -> groups
template< class G, int R, class PERM, class I > void join( int lo, int hi )
{
  constexpr int N = PermOf< PERM >::N, U = PermOf< PERM >::last(); I d[ N ], e[ N ], s[ N ], i[ N ], j[ N ]; for( int k = 0; k < N; ++k ) e[ k ] = d[ k ] = shape< I >( "d", lo, k == U ? hi : hi > 3 ? 3 : hi ); e[ U ] /= R;
  denseStrides< PERM >( e, s );
  Array< int, N, PERM, I, MallocBuffer > a; if( shape( "spare", 0, 1 ) ) a.reserve( 101 ); Nd< N >::resize( a, d );
  for( int k = 0; k < a.size(); ++k ) a.data()[ k ] = 5 * k;
  auto const from = a.toView(); using V = ArrayView< G, N, U, I, MallocBuffer >; bool const bad = d[ U ] % R != 0; ABORTS_IFF( bad, V const x( from ) ); V const v( from );
  int64_t total = 1; for( int k = 0; k < N; ++k ) { CHECK( v.size( k ) == e[ k ] ); CHECK( v.strides()[ k ] == s[ k ] ); total *= e[ k ]; } CHECK( v.size() == total );
  CHECK( static_cast< void const * >( v.data() ) == static_cast< void const * >( a.data() ) ); CHECK( v.capacity() * R <= a.capacity() && v.capacity() >= v.size() );
  if( total == 0 ) { REACH( "empty" ); return; }
  for( int k = 0; k < N; ++k ) j[ k ] = i[ k ] = range< I >( "i", 0, e[ k ] - 1 ); int q = range( "q", 0, R - 1 ); j[ U ] = i[ U ] * R + q;
  CHECK( &part( Nd< N >::par( v, i ), q ) == &Nd< N >::par( a, j ) ); int x = sym< int >( "x" ); part( Nd< N >::par( v, i ), q ) = x; CHECK( Nd< N >::par( a, j ) == x ); REACH( "converted" );
}
#define BOTH( NAME, PERM, I, HI, HJ ) ENTRY( split_ ## NAME ) { split< P2, 2, RAJA::PERM, I, false >( 0, HI ); } ENTRY( split_c_ ## NAME ) { split< P3, 3, RAJA::PERM, I, true >( 0, HI ); } \
  ENTRY( join_ ## NAME ) { join< P2, 2, RAJA::PERM, I >( 0, HJ ); } ENTRY( join3_ ## NAME ) { join< P3, 3, RAJA::PERM, I >( 0, HJ ); }
BOTH( i, PERM_I, int, 3, 7 )
BOTH( ij, PERM_IJ, std::ptrdiff_t, 3, 7 )
BOTH( ji, PERM_JI, int, 3, 7 )
BOTH( ijk, PERM_IJK, int, 2, 4 )
BOTH( ikj, PERM_IKJ, std::ptrdiff_t, 2, 4 )
BOTH( jik, PERM_JIK, int, 2, 4 )
BOTH( jki, PERM_JKI, int, 2, 4 )
BOTH( kij, PERM_KIJ, int, 2, 4 )
BOTH( kji, PERM_KJI, std::ptrdiff_t, 2, 4 )
ENTRY( split4 ) { split< P4, 4, RAJA::PERM_JI, int, false >( 0, 2 ); }
ENTRY( join4 ) { join< P4, 4, RAJA::PERM_JI, int >( 0, 8 ); }
// the same size: only the type changes
ENTRY( equal ) { Array< int, 2, RAJA::PERM_JI, int, MallocBuffer > a( shape( "d", 0, 3 ), shape( "d", 0, 3 ) ); auto const w = a.toView(); ArrayView< unsigned, 2, 0, int, MallocBuffer > const v( w ); for( int k = 0; k < 2; ++k ) { CHECK( v.size( k ) == a.size( k ) ); CHECK( v.strides()[ k ] == a.strides()[ k ] ); } CHECK( static_cast< void * >( v.data() ) == a.data() ); REACH( "done" ); }
// large extents: no element is touched, only the description is converted
template< class I > void large()
{
  typeManipulation::CArray< I, 2 > d, s; d[ 0 ] = range< I >( "d", 0, 1 << 10 ); d[ 1 ] = range< I >( "d", 0, 1 << 20 ); s[ 1 ] = 1; s[ 0 ] = d[ 1 ];
  MallocBuffer< int > b( true ); ArrayView< int, 2, 1, I, MallocBuffer > const v( d, s, 0, b ); using V = ArrayView< P3, 2, 1, I, MallocBuffer >; ABORTS_IFF( d[ 1 ] % 3 != 0, V const x( v ) );
  V const x( v ); CHECK( x.size( 1 ) == d[ 1 ] / 3 ); CHECK( x.size( 0 ) == d[ 0 ] ); CHECK( x.strides()[ 0 ] == d[ 1 ] / 3 ); CHECK( x.strides()[ 1 ] == 1 );
  ArrayView< int, 2, 1, I, MallocBuffer > const y( x ); CHECK( y.size( 1 ) == d[ 1 ] ); CHECK( y.strides()[ 0 ] == d[ 1 ] ); REACH( "done" );
}
ENTRY( large_i32 ) { large< int >(); }
ENTRY( large_i64 ) { large< std::ptrdiff_t >(); }
// a stride that is not a multiple of the ratio cannot be expressed in the larger unit
ENTRY( strides )
{
  typeManipulation::CArray< int, 2 > d, s; d[ 0 ] = 2; d[ 1 ] = shape( "d", 0, 4 ); s[ 1 ] = 1; s[ 0 ] = shape( "s", 0, 9 ); ASSUME( s[ 0 ] >= d[ 1 ] );
  MallocBuffer< int > b( true ); ArrayView< int, 2, 1, int, MallocBuffer > const v( d, s, 0, b ); using V = ArrayView< P2, 2, 1, int, MallocBuffer >; ABORTS_IFF( d[ 1 ] % 2 != 0 || s[ 0 ] % 2 != 0, V const x( v ) ); REACH( "done" );
}
