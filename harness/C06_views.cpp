// BOUNDS: every permutation of 1 to 3 dimensions and three of 4, extents 0..3 (0..2 for 3-D, 1..2 for 4-D; thorough 0..3 and 1..3); every slicing depth, symbolic slice and element indices, symbolic values; heap and stack buffers; nested arrays of depth 2
// BOUNDS: contiguity is checked in one direction for arbitrary slices (reported implies consecutive) and must be reported for whole arrays and for slices that fix the slowest dimensions
#include "nd.hpp"
#ifdef LV_THOROUGH
constexpr int HI3 = 3, HI4 = 3;
#else
constexpr int HI3 = 2, HI4 = 2;
#endif
using namespace LvArray;
// highest position reached minus first, for a non-empty slice
template< class S, int N > static int64_t span( S const & s ) { int64_t r = 0; for( int k = 0; k < N; ++k ) r += static_cast< int64_t >( s.size( k ) - 1 ) * s.stride( k ); return r; }
template< class S, int N, class I > void describe( S const & s, I const * d, I const * st )
{
  int64_t total = 1; for( int k = 0; k < N; ++k ) { CHECK( s.size( k ) == d[ k ] ); CHECK( s.stride( k ) == st[ k ] ); total *= d[ k ]; } CHECK( s.size() == total );
  if( total > 0 && s.isContiguous() ) { CHECK( span< S, N >( s ) == total - 1 ); }
}
template< bool B > struct IfContig { template< class S, class T > static void go( S const & s, T * p ) { ABORTS_IFF( !s.isContiguous(), CHECK( s.dataIfContiguous() == p ); CHECK( s.begin() == p ); CHECK( s.end() == p + s.size() ) ); } };
template<> struct IfContig< false > { template< class S, class T > static void go( S const & s, T * ) { CHECK( !s.isContiguous() ); } };
// slowest-first prefix of the permutation: dimensions 0..depth-1 are the `depth` slowest ones
template< class PERM > bool fixesSlowest( int depth ) { bool r = true; for( int k = 0; k < depth; ++k ) r &= PermOf< PERM >::at( k ) < depth; return r; }
template< class PERM, int N, int DEPTH > struct Slicing
{
  template< class S, class A, class I > static void go( S const & s, A const & a, I const * d, I const * st, I * i )
  {
    constexpr int M = N - DEPTH; describe< S, M >( s, d + DEPTH, st + DEPTH );
    if( fixesSlowest< PERM >( DEPTH ) ) { CHECK( s.isContiguous() ); }
    for( int k = DEPTH; k < N; ++k ) i[ k ] = 0;
    I lin = 0; for( int k = 0; k < DEPTH; ++k ) lin += i[ k ] * st[ k ];
    IfContig< ( PermOf< PERM >::last() >= DEPTH ) >::go( s, a.data() + lin );
    auto const c = s.toSliceConst(); CHECK( c.size() == s.size() ); CHECK( c.isContiguous() == s.isContiguous() ); CHECK( c.stride( 0 ) == s.stride( 0 ) );
    bool empty = false; for( int k = DEPTH; k < N; ++k ) empty |= d[ k ] == 0;
    if( empty ) { REACH( "empty" ); return; }
    for( int k = DEPTH; k < N; ++k ) i[ k ] = range< I >( "i", 0, d[ k ] - 1 );
    CHECK( &Nd< M >::par( s, i + DEPTH ) == &Nd< N >::par( a, i ) ); CHECK( &Nd< M >::par( c, i + DEPTH ) == &Nd< N >::par( a, i ) ); CHECK( &Nd< M >::brk( s, i + DEPTH ) == &Nd< N >::brk( a, i ) );
    int x = sym< int >( "x" ); Nd< M >::par( s, i + DEPTH ) = x; CHECK( Nd< N >::par( a, i ) == x ); REACH( "aliased" );
    Slicing< PERM, N, DEPTH + 1 >::go( s[ i[ DEPTH ] ], a, d, st, i );
  }
};
template< class PERM, int N > struct Slicing< PERM, N, N > { template< class S, class A, class I > static void go( S & s, A const & a, I const *, I const *, I * i ) { CHECK( &s == &Nd< N >::par( a, i ) ); } };
template< class V, class A, class I, int N > void viewOf( V const & v, A const & a, I const * d, I const * st )
{
  CHECK( v.data() == a.data() ); int64_t total = 1; for( int k = 0; k < N; ++k ) { CHECK( v.size( k ) == d[ k ] ); CHECK( v.dims()[ k ] == d[ k ] ); CHECK( v.strides()[ k ] == st[ k ] ); total *= d[ k ]; }
  CHECK( v.size() == total ); CHECK( v.empty() == ( total == 0 ) ); CHECK( v.begin() == v.data() ); CHECK( v.end() == v.data() + total ); CHECK( v.getSingleParameterResizeIndex() == a.getSingleParameterResizeIndex() );
  CHECK( v.capacity() == a.capacity() ); if( total > 0 ) { CHECK( &v.front() == a.data() ); CHECK( &v.back() == a.data() + ( total - 1 ) ); }
}
template< class T, class PERM, class I > void views( int lo, int hi )
{
  constexpr int N = PermOf< PERM >::N; I d[ N ], st[ N ], i[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = shape< I >( "d", lo, hi ); denseStrides< PERM >( d, st );
  Array< T, N, PERM, I, MallocBuffer > a; Nd< N >::resize( a, d ); if( N > 1 ) a.setSingleParameterResizeIndex( N - 1 );
  constexpr int U = PermOf< PERM >::last(); using V = ArrayView< T, N, U, I, MallocBuffer >; using VC = ArrayView< T const, N, U, I, MallocBuffer >;
  auto const allocs = lv_heap_live();
  V const v = a.toView(); VC const c = a.toViewConst(); V const vv = v.toView(); V const cp( v ); VC const cc = v; V as; as = v; V mv; mv = V( v ); VC const ac = a; V const nest = a.toNestedView(); VC const nc = v.toNestedViewConst();
  viewOf< V, decltype( a ), I, N >( a, a, d, st ); viewOf< V, decltype( a ), I, N >( v, a, d, st ); viewOf< VC, decltype( a ), I, N >( c, a, d, st ); viewOf< V, decltype( a ), I, N >( vv, a, d, st ); viewOf< V, decltype( a ), I, N >( cp, a, d, st );
  viewOf< VC, decltype( a ), I, N >( cc, a, d, st ); viewOf< V, decltype( a ), I, N >( as, a, d, st ); viewOf< V, decltype( a ), I, N >( mv, a, d, st ); viewOf< VC, decltype( a ), I, N >( ac, a, d, st ); viewOf< V, decltype( a ), I, N >( nest, a, d, st ); viewOf< VC, decltype( a ), I, N >( nc, a, d, st );
  CHECK( lv_heap_live() == allocs );
  int from = N < 3 ? shape( "from", 0, 2 ) : 2 - N % 2;
  if( from == 0 ) Slicing< PERM, N, 0 >::go( a.toSlice(), a, d, st, i ); else if( from == 1 ) { ArraySlice< T, N, U, I > s = v; Slicing< PERM, N, 0 >::go( s, a, d, st, i ); } else Slicing< PERM, N, 0 >::go( as.toSlice(), a, d, st, i );
}
ENTRY( d1 ) { views< int, RAJA::PERM_I, int >( 0, 4 ); }
ENTRY( d1_i64 ) { views< int, RAJA::PERM_I, std::ptrdiff_t >( 0, 3 ); }
ENTRY( d2_ij ) { views< int, RAJA::PERM_IJ, int >( 0, 3 ); }
ENTRY( d2_ji ) { views< int, RAJA::PERM_JI, std::ptrdiff_t >( 0, 3 ); }
ENTRY( d3_ijk ) { views< int, RAJA::PERM_IJK, int >( 0, HI3 ); }
ENTRY( d3_ikj ) { views< int, RAJA::PERM_IKJ, int >( 0, HI3 ); }
ENTRY( d3_jik ) { views< int, RAJA::PERM_JIK, int >( 0, HI3 ); }
ENTRY( d3_jki ) { views< int, RAJA::PERM_JKI, int >( 0, HI3 ); }
ENTRY( d3_kij ) { views< int, RAJA::PERM_KIJ, std::ptrdiff_t >( 0, HI3 ); }
ENTRY( d3_kji ) { views< int, RAJA::PERM_KJI, int >( 0, HI3 ); }
ENTRY( d4_ijkl_T ) { views< int, RAJA::PERM_IJKL, int >( 1, HI4 ); }
ENTRY( d4_jilk ) { views< int, camp::idx_seq< 1, 0, 3, 2 >, int >( 1, HI4 ); }
ENTRY( d4_jikl ) { views< int, camp::idx_seq< 1, 0, 2, 3 >, int >( 1, HI4 ); }
ENTRY( d4_kjil ) { views< int, camp::idx_seq< 2, 1, 0, 3 >, int >( 1, HI4 ); }
ENTRY( d4_lkij_T ) { views< int, camp::idx_seq< 3, 2, 0, 1 >, int >( 0, 3 ); }
ENTRY( d5_T ) { views< int, camp::idx_seq< 1, 0, 2, 3, 4 >, int >( 1, 2 ); }
// iteration over a one-dimensional slice visits the elements once, in order; also through slices of permuted arrays whose stride is one
template< class PERM > void iterate()
{
  int d[ 2 ] = { shape( "d", 1, 3 ), shape( "d", 0, 3 ) }; Array< int, 2, PERM, int, MallocBuffer > a( d[ 0 ], d[ 1 ] ); int v[ 3 ]; int r = range( "r", 0, d[ 0 ] - 1 );
  for( int j = 0; j < d[ 1 ]; ++j ) { v[ j ] = sym< int >( "v" ); a( r, j ) = v[ j ]; }
  int n = 0; for( int & x : a[ r ] ) { CHECK( x == v[ n ] ); ++n; } CHECK( n == d[ 1 ] );
  n = 0; auto const c = a.toViewConst(); for( int const & x : c[ r ] ) { CHECK( x == v[ n ] ); ++n; } CHECK( n == d[ 1 ] ); REACH( "iterated" );
}
ENTRY( iterate_ij ) { iterate< RAJA::PERM_IJ >(); }
// a slice built from raw memory, dims and strides, as the tensor helpers do
ENTRY( raw )
{
  int buf[ 24 ]; for( int k = 0; k < 24; ++k ) buf[ k ] = k; int d[ 2 ] = { shape( "d", 0, 3 ), shape( "d", 0, 3 ) }, st[ 2 ] = { shape( "s", 0, 8 ), 1 };
  if( d[ 0 ] > 1 ) ASSUME( st[ 0 ] >= d[ 1 ] );
  ArraySlice< int, 2, 1, int > s( buf, d, st ); describe< decltype( s ), 2 >( s, d, st ); if( d[ 0 ] && d[ 1 ] ) { int i[ 2 ] = { range( "i", 0, d[ 0 ] - 1 ), range( "i", 0, d[ 1 ] - 1 ) }; CHECK( s( i[ 0 ], i[ 1 ] ) == i[ 0 ] * st[ 0 ] + i[ 1 ] ); CHECK( s[ i[ 0 ] ][ i[ 1 ] ] == i[ 0 ] * st[ 0 ] + i[ 1 ] ); }
  REACH( "done" );
}
// a view keeps describing and sharing the parent's elements while the parent stays in place; stack storage is copied instead
template< class T > using Stack6 = StackBuffer< T, 6 >;
ENTRY( stack_copy )
{
  Array< int, 2, RAJA::PERM_JI, int, Stack6 > a( 2, 3 ); for( int k = 0; k < 6; ++k ) a.data()[ k ] = sym< int >( "v" );
  auto const s = a.toSlice(); int i = range( "i", 0, 1 ), j = range( "j", 0, 2 ), x = sym< int >( "x" ); s( i, j ) = x; CHECK( a( i, j ) == x );
  auto const v = a.toView(); CHECK( v( i, j ) == x ); int y = a( 0, 0 ); auto const c = a.toViewConst(); CHECK( c( 0, 0 ) == y ); CHECK( v.size( 0 ) == 2 && v.size( 1 ) == 3 && c.strides()[ 1 ] == 2 ); REACH( "done" );
}
// arrays of arrays of elements: the nested view reaches the inner elements
ENTRY( nested )
{
  using In = Array< int, 1, RAJA::PERM_I, int, MallocBuffer >; Array< In, 1, RAJA::PERM_I, int, MallocBuffer > a( 2 ); int n[ 2 ] = { shape( "n", 0, 2 ), shape( "n", 1, 2 ) };
  for( int r = 0; r < 2; ++r ) { a[ r ].resize( n[ r ] ); for( int k = 0; k < n[ r ]; ++k ) a[ r ][ k ] = sym< int >( "v" ); }
  auto const v = a.toNestedView(); auto const c = a.toNestedViewConst(); CHECK( v.size() == 2 && c.size() == 2 );
  for( int r = 0; r < 2; ++r ) { CHECK( v[ r ].size() == n[ r ] ); CHECK( c[ r ].size() == n[ r ] ); for( int k = 0; k < n[ r ]; ++k ) { CHECK( &v[ r ][ k ] == &a[ r ][ k ] ); CHECK( &c[ r ][ k ] == &a[ r ][ k ] ); } }
  int x = sym< int >( "x" ); v[ 1 ][ 0 ] = x; CHECK( a[ 1 ][ 0 ] == x ); REACH( "done" );
}
