// BOUNDS: all permutations of 2-D and 3-D, two of 4-D, extents 0..3 or 0..4 (2-D), 0..3 (3-D), 1..2 (4-D); every resize dimension, old and new extent; element values symbolic; int, heap-owning, copy-only and byte-copyable elements with a default other than zero; two consecutive resizes of the resize dimension
// BOUNDS: extents given as int16/int32/int64/uint64 full-width symbolic values against int32 and int64 index types (1-D to 3-D) for the rejection of invalid extents
// ASSUMES: the product of the extents is representable in the index type; a default value does not alias an element of the array
#include "nd.hpp"
template< class T > using Stack27 = StackBuffer< T, 27 >;
template< class T, class I, int N > struct Snapshot { int v[ 32 ]; I d[ N ]; };
template< int N, class I, class F > void each( I const * d, F && f )
{
  I total = 1, i[ N ]; for( int k = 0; k < N; ++k ) { total *= d[ k ]; i[ k ] = 0; }
  for( I c = 0; c < total; ++c ) { f( i, c ); for( int k = N - 1; k >= 0; --k ) { if( ++i[ k ] < d[ k ] ) break; i[ k ] = 0; } }
}
template< class PERM, class A, class I > void shapeIs( A const & a, I const * d )
{
  constexpr int N = PermOf< PERM >::N; I s[ N ], total = 1; denseStrides< PERM >( d, s );
  for( int k = 0; k < N; ++k ) { CHECK( a.size( k ) == d[ k ] ); CHECK( a.dims()[ k ] == d[ k ] ); CHECK( a.strides()[ k ] == s[ k ] ); total *= d[ k ]; }
  CHECK( a.size() == total ); CHECK( a.capacity() >= total ); CHECK( a.empty() == ( total == 0 ) );
}
template< class T, class PERM, class I, template< class > class B = MallocBuffer > void defaultDimension( int lo, int hi, int rounds = 1 )
{
  constexpr int N = PermOf< PERM >::N; using A = Array< T, N, PERM, I, B >;
  I d[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = shape< I >( "d", lo, hi );
  A a; Nd< N >::resize( a, d ); int val[ 128 ]; int c = 0; // value at the multi-index encoded in base 5
  auto code = []( I const * i ) { int r = 0; for( int k = 0; k < N; ++k ) r = r * ( N < 4 ? 5 : 3 ) + static_cast< int >( i[ k ] ); return r; };
  each< N >( d, [&]( I const * i, I ) { int x = sym< int >( "v" ); val[ code( i ) ] = x; Nd< N >::par( a, i ) = T( x ); ++c; } );
  for( int r = 0; r < rounds; ++r )
  {
    int q = N == 1 ? 0 : shape( "dim", 0, N - 1 ), nd = shape( "new", 0, hi ), how = shape( "how", 0, 1 ); int x = how ? sym< int >( "x" ) : dflt< T >();
    if( q != 0 || N > 1 ) a.setSingleParameterResizeIndex( q );
    if( how ) a.resizeDefault( static_cast< I >( nd ), T( x ) ); else a.resize( static_cast< I >( nd ) );
    I old = d[ q ]; d[ q ] = static_cast< I >( nd ); shapeIs< PERM >( a, d );
    bool kept = true, fresh = true;
    each< N >( d, [&]( I const * i, I ) { if( i[ q ] < old ) kept &= valueOf( Nd< N >::par( a, i ) ) == val[ code( i ) ]; else { fresh &= valueOf( Nd< N >::par( a, i ) ) == x; val[ code( i ) ] = x; } } );
    CHECK_MSG( kept, "every element that exists before and after keeps its value" ); CHECK_MSG( fresh, "new elements have the default value" );
    each< N >( d, [&]( I const * i, I ) { Nd< N >::par( a, i ) = T( val[ code( i ) ] ); } );
  }
  REACH( "resized" );
}
ENTRY( def1 ) { defaultDimension< Deep, RAJA::PERM_I, int >( 0, 4, 2 ); }
ENTRY( def2_ij ) { defaultDimension< int, RAJA::PERM_IJ, std::ptrdiff_t >( 0, 3, 2 ); }
ENTRY( def2_ji ) { defaultDimension< int, RAJA::PERM_JI, int >( 0, 4, 2 ); }
ENTRY( def2_ij_owner ) { defaultDimension< Owner, RAJA::PERM_IJ, int >( 0, 2, 2 ); }
ENTRY( def2_preset ) { defaultDimension< Preset, RAJA::PERM_IJ, int >( 0, 3 ); }
ENTRY( def2_ji_deep ) { defaultDimension< Deep, RAJA::PERM_JI, int >( 0, 3 ); }
ENTRY( def2_unsigned ) { defaultDimension< int, RAJA::PERM_IJ, unsigned >( 0, 3 ); }
ENTRY( def3_ijk ) { defaultDimension< int, RAJA::PERM_IJK, int >( 0, 3 ); }
ENTRY( def3_ikj ) { defaultDimension< int, RAJA::PERM_IKJ, int >( 0, 3 ); }
ENTRY( def3_jik ) { defaultDimension< Deep, RAJA::PERM_JIK, int >( 0, 2, 2 ); }
ENTRY( def3_jki ) { defaultDimension< int, RAJA::PERM_JKI, int >( 0, 3 ); }
ENTRY( def3_kij ) { defaultDimension< Owner, RAJA::PERM_KIJ, int >( 1, 2 ); }
ENTRY( def3_kji ) { defaultDimension< int, RAJA::PERM_KJI, int >( 0, 3 ); }
ENTRY( def3_stack ) { defaultDimension< int, RAJA::PERM_IJK, int, Stack27 >( 1, 3 ); }
ENTRY( def4_jlik ) { defaultDimension< int, RAJA::PERM_JLIK, int >( 1, 2 ); }
ENTRY( def4_kilj_deep ) { defaultDimension< Deep, RAJA::PERM_KILJ, int >( 1, 2 ); }
ENTRY( def3_ikj_T ) { defaultDimension< Deep, RAJA::PERM_IKJ, std::ptrdiff_t >( 0, 3, 2 ); }
ENTRY( def3_kji_T ) { defaultDimension< Owner, RAJA::PERM_KJI, std::ptrdiff_t >( 0, 3, 2 ); }

// the other forms: extents, strides and total as requested, every element a live object, the linear prefix of the storage kept, the rest value-initialised
template< class T, class PERM, class I > void allDims( int hi )
{
  constexpr int N = PermOf< PERM >::N; using A = Array< T, N, PERM, I, MallocBuffer >;
  I d[ N ], e[ N ]; for( int k = 0; k < N; ++k ) { d[ k ] = shape< I >( "d", 0, hi ); }
  A a; Nd< N >::resize( a, d ); shapeIs< PERM >( a, d ); bool zero = true; I const n = a.size();
  for( I k = 0; k < n; ++k ) { zero &= valueOf( a.data()[ k ] ) == dflt< T >(); a.data()[ k ] = T( 5 ); }
  CHECK( zero );
  for( int k = 0; k < N; ++k ) e[ k ] = shape< I >( "e", 0, hi );
  long long e64[ N ]; for( int k = 0; k < N; ++k ) e64[ k ] = e[ k ];
  int how = shape( "how", 0, 1 );
  if( how == 0 ) Nd< N >::resize( a, e ); else a.resize( N, e64 );
  shapeIs< PERM >( a, e ); zero = true; for( I k = 0; k < a.size(); ++k ) zero &= k < n ? valueOf( a.data()[ k ] ) == 5 || N > 1 : valueOf( a.data()[ k ] ) == dflt< T >();
  CHECK( zero );
  if( shape( "clear", 0, 1 ) ) { int const q = N > 1 ? shape( "dim", 0, N - 1 ) : 0; if( N > 1 ) a.setSingleParameterResizeIndex( q ); a.clear(); I z[ N ]; for( int k = 0; k < N; ++k ) z[ k ] = k == q ? 0 : e[ k ]; shapeIs< PERM >( a, z ); CHECK( a.getSingleParameterResizeIndex() == q ); Nd< N >::resize( a, e ); shapeIs< PERM >( a, e ); zero = true; for( I k = 0; k < a.size(); ++k ) zero &= valueOf( a.data()[ k ] ) == dflt< T >(); CHECK( zero ); }
  REACH( "resized" );
}
ENTRY( all1 ) { allDims< Owner, RAJA::PERM_I, int >( 3 ); }
ENTRY( all1_preset ) { allDims< Preset, RAJA::PERM_I, int >( 3 ); }
ENTRY( all2_ji ) { allDims< int, RAJA::PERM_JI, std::ptrdiff_t >( 2 ); }
ENTRY( all2_ij_deep ) { allDims< Deep, RAJA::PERM_IJ, int >( 2 ); }
ENTRY( all3_kij ) { allDims< int, RAJA::PERM_KIJ, int >( 2 ); }
ENTRY( some_dims )
{
  Array< int, 3, RAJA::PERM_JKI, int, MallocBuffer > a( 2, 1, 2 ); int d[ 3 ] = { 2, 1, 2 }; int how = shape( "how", 0, 4 ); int x = shape( "x", 0, 3 ), y = shape( "y", 0, 3 );
  switch( how )
  {
    case 0: a.resizeDimension< 0 >( x ); d[ 0 ] = x; break;
    case 1: a.resizeDimension< 1 >( x ); d[ 1 ] = x; break;
    case 2: a.resizeDimension< 2, 0 >( x, y ); d[ 2 ] = x; d[ 0 ] = y; break;
    case 3: a.resizeDimension< 1, 2 >( x, y ); d[ 1 ] = x; d[ 2 ] = y; break;
    default: a.resizeDimension< 0, 1, 2 >( x, y, 1 ); d[ 0 ] = x; d[ 1 ] = y; d[ 2 ] = 1; break;
  }
  shapeIs< RAJA::PERM_JKI >( a, d ); int s = 0; for( int k = 0; k < a.size(); ++k ) s += a.data()[ k ]; CHECK( s == 0 ); REACH( "resized" );
}
ENTRY( no_init )
{
  Array< int, 1, RAJA::PERM_I, int, MallocBuffer > a; int n = shape( "n", 0, 4 ), m = shape( "m", 0, 6 ), v[ 4 ]; a.resizeWithoutInitializationOrDestruction( n ); CHECK( a.size() == n );
  for( int k = 0; k < n; ++k ) a[ k ] = v[ k ] = sym< int >( "v" );
  if( shape( "space", 0, 1 ) ) a.resizeWithoutInitializationOrDestruction( LvArray::MemorySpace::host, m ); else a.resizeWithoutInitializationOrDestruction( m );
  CHECK( a.size() == m ); CHECK( a.capacity() >= m ); bool ok = true; for( int k = 0; k < n && k < m; ++k ) ok &= a[ k ] == v[ k ]; CHECK( ok );
  for( int k = n; k < m; ++k ) a[ k ] = 1;
  a.resizeWithoutInitializationOrDestruction( n ); ok = true; for( int k = 0; k < n && k < m; ++k ) ok &= a[ k ] == v[ k ]; CHECK( ok ); REACH( "resized" );
}
ENTRY( no_init2 )
{
  Array< int, 2, RAJA::PERM_JI, int, MallocBuffer > a; int d[ 2 ] = { shape( "d", 0, 3 ), shape( "d", 0, 3 ) }; a.resizeWithoutInitializationOrDestruction( d[ 0 ], d[ 1 ] ); shapeIs< RAJA::PERM_JI >( a, d ); for( int k = 0; k < a.size(); ++k ) a.data()[ k ] = k; REACH( "resized" );
}
// extents of any width
template< class I, class D > void invalid()
{
  using A1 = Array< int, 1, RAJA::PERM_I, I, PhantomBuffer >; using A2 = Array< int, 2, RAJA::PERM_JI, I, PhantomBuffer >; using A3 = Array< int, 3, RAJA::PERM_IJK, I, PhantomBuffer >;
  D x = sym< D >( "x" ); int how = shape( "how", 0, 4 );
  bool const bad = static_cast< __int128 >( x ) < 0 || static_cast< __int128 >( x ) > static_cast< __int128 >( std::numeric_limits< I >::max() );
  I got = 0; D two[ 2 ] = { x, 1 };
  switch( how )
  {
    case 0: { A1 a; ABORTS_IFF( bad, a.resizeWithoutInitializationOrDestruction( x ) ); got = a.size(); CHECK( a.size( 0 ) == got ); break; }
    case 1: { A2 a; ABORTS_IFF( bad, a.resizeWithoutInitializationOrDestruction( 1, x ) ); got = a.size( 1 ); CHECK( a.size() == got ); break; }
    case 2: { A2 a; ABORTS_IFF( bad, a.resizeWithoutInitializationOrDestruction( x, 1 ) ); got = a.size( 0 ); break; }
    case 3: { A3 a; ABORTS_IFF( bad, a.resizeWithoutInitializationOrDestruction( 1, x, 1 ) ); got = a.size( 1 ); break; }
    default: { A3 a; a.resizeWithoutInitializationOrDestruction( 0, 1, 1 ); ABORTS_IFF( bad, ( a.template resizeWithoutInitializationOrDestruction( x, 0, 1 ) ) ); got = a.size( 0 ); CHECK( a.size() == 0 ); }
  }
  CHECK( static_cast< __int128 >( got ) == static_cast< __int128 >( x ) ); REACH( "accepted" );
}
ENTRY( inv_i32_i32 ) { invalid< int, int >(); }
ENTRY( inv_i32_i64 ) { invalid< int, std::ptrdiff_t >(); }
ENTRY( inv_i32_u64 ) { invalid< int, std::size_t >(); }
ENTRY( inv_i64_i16 ) { invalid< std::ptrdiff_t, short >(); }
ENTRY( inv_i64_u64 ) { invalid< std::ptrdiff_t, std::size_t >(); }
// the initialising forms reject too; accepted extents are kept small
template< class I, class D > void invalidInit()
{
  D x = sym< D >( "x" ); ASSUME( x <= 2 || static_cast< __int128 >( x ) > static_cast< __int128 >( std::numeric_limits< I >::max() ) ); int how = shape( "how", 0, 5 ); bool const bad = static_cast< __int128 >( x ) < 0 || x > 2;
  Array< int, 1, RAJA::PERM_I, I, MallocBuffer > a( 1 ); Array< int, 2, RAJA::PERM_IJ, I, MallocBuffer > b( 1, 2 ); D two[ 2 ] = { 1, x }; I got = 0;
  ABORTS_IFF( bad, switch( how ) {
    case 0: a.resize( 1, &x ); got = a.size(); break; case 1: b.resize( 2, two ); got = b.size( 1 ); break; case 2: b.resize( x, 1 ); got = b.size( 0 ); break;
    case 3: b.template resizeDimension< 1 >( x ); got = b.size( 1 ); break; case 4: b.template resizeDimension< 1, 0 >( 1, x ); got = b.size( 0 ); break; default: b.resize( 1, x ); got = b.size( 1 ); } );
  CHECK( got == static_cast< I >( x ) ); REACH( "accepted" );
}
ENTRY( invi_i32_i32 ) { invalidInit< int, int >(); }
ENTRY( invi_i32_i64 ) { invalidInit< int, std::ptrdiff_t >(); }
ENTRY( invi_i64_u64 ) { invalidInit< std::ptrdiff_t, std::size_t >(); }
ENTRY( inv_misc )
{
  Array< int, 2, RAJA::PERM_IJ, int, MallocBuffer > b( 1, 2 ); int x = sym< int >( "x" ); ASSUME( x <= 3 ); int how = shape( "how", 0, 3 ), d[ 3 ] = { 1, 1, 1 };
  if( how == 0 ) { ABORTS_IFF( x < 0, b.resize( x ) ); CHECK( b.size( 0 ) == x ); }
  else if( how == 1 ) { ABORTS_IFF( x < 0, b.resizeDefault( x, 1 ) ); CHECK( b.size( 0 ) == x ); }
  else if( how == 2 ) { ABORTS_IFF( x < 0 || x > 1, b.setSingleParameterResizeIndex( x ) ); CHECK( b.getSingleParameterResizeIndex() == x ); }
  else { ASSUME( x >= 0 ); ABORTS_IFF( x != 2, b.resize( x, d ) ); CHECK( b.size() == 1 ); }
  REACH( "accepted" );
}
