// BOUNDS: arrays of 1 to 5 dimensions, all 2-D and 3-D permutations and four 4-D / two 5-D ones; extents 0..4 (1-D..2-D), 0..3 (3-D), 1..2 (4-D, 5-D); every pair of in-range multi-indices symbolic
// BOUNDS: symbolic extents (1..31 in 2-D, 1..15 in 3-D): strides and linear index against the defining formula, in-range indices stay below size(); index types int32, int64, uint32
// BOUNDS: extents up to 2^31 (2-D), 2^12 (3-D), 2^10 (4-D, thorough) with 64-bit indices: strides, linear index and element addresses against the defining formula; index arguments of 8 to 64 bits, signed and unsigned, mixed in one call
#include "nd.hpp"
template< class PERM, class I = std::ptrdiff_t, template< class > class B = MallocBuffer > void layout( int lo, int hi )
{
  constexpr int N = PermOf< PERM >::N;
  using A = Array< int, N, PERM, I, B >;
  I d[ N ], s[ N ], total = 1;
  for( int k = 0; k < N; ++k ) { d[ k ] = shape< I >( "d", lo, hi ); total *= d[ k ]; }
  A a; Nd< N >::resize( a, d );
  denseStrides< PERM >( d, s );
  CHECK( a.size() == total ); CHECK( a.empty() == ( total == 0 ) );
  for( int k = 0; k < N; ++k ) { CHECK( a.size( k ) == d[ k ] ); CHECK( a.dims()[ k ] == d[ k ] ); CHECK( a.strides()[ k ] == s[ k ] ); }
  REACH( "shaped" );
  if( total == 0 ) return;
  for( I k = 0; k < total; ++k ) a.data()[ k ] = 100 + static_cast< int >( k );
  I i[ N ], j[ N ]; I expect = 0, pos = 0; bool equal = true;
  for( int k = 0; k < N; ++k )
  {
    i[ k ] = range< I >( "i", 0, d[ k ] - 1 ); j[ k ] = range< I >( "j", 0, d[ k ] - 1 );
    expect += i[ k ] * s[ k ]; equal &= i[ k ] == j[ k ];
  }
  pos = Nd< N >::lin( a, i );
  CHECK( pos == expect ); CHECK( pos >= 0 && pos < total );
  CHECK( ( pos == Nd< N >::lin( a, j ) ) == equal );
  CHECK( &Nd< N >::par( a, i ) == a.data() + pos ); CHECK( &Nd< N >::brk( a, i ) == a.data() + pos );
  auto const v = a.toView(); auto const c = a.toViewConst(); auto const sl = a.toSlice(); auto const sc = a.toSliceConst();
  if( B< int >::hasShallowCopy ) { CHECK( &Nd< N >::par( v, i ) == a.data() + pos ); CHECK( &Nd< N >::brk( c, i ) == a.data() + pos ); }
  else { CHECK( &Nd< N >::par( v, i ) == v.data() + pos ); CHECK( &Nd< N >::brk( c, i ) == c.data() + pos ); }
  CHECK( &Nd< N >::brk( sl, i ) == a.data() + pos ); CHECK( &Nd< N >::par( sc, i ) == a.data() + pos ); CHECK( Nd< N >::lin( sl, i ) == pos ); CHECK( Nd< N >::lin( v, i ) == pos );
  CHECK( Nd< N >::par( a, i ) == 100 + pos ); CHECK( Nd< N >::brk( sc, i ) == 100 + pos );
  Nd< N >::brk( a, i ) = 7; CHECK( Nd< N >::par( a, i ) == 7 ); CHECK( equal || Nd< N >::par( a, j ) == 100 + Nd< N >::lin( a, j ) );
  REACH( "indexed" );
}
ENTRY( d1 ) { layout< RAJA::PERM_I >( 0, 5 ); }
ENTRY( d2_ij ) { layout< RAJA::PERM_IJ >( 0, 4 ); }
ENTRY( d2_ji ) { layout< RAJA::PERM_JI >( 0, 4 ); }
ENTRY( d2_ji_int ) { layout< RAJA::PERM_JI, int >( 0, 4 ); }
ENTRY( d2_ji_uint ) { layout< RAJA::PERM_JI, unsigned >( 0, 3 ); }
ENTRY( d3_ijk ) { layout< RAJA::PERM_IJK, int >( 0, 3 ); }
ENTRY( d3_ikj ) { layout< RAJA::PERM_IKJ, int >( 0, 3 ); }
ENTRY( d3_jik ) { layout< RAJA::PERM_JIK, int >( 0, 3 ); }
ENTRY( d3_jki ) { layout< RAJA::PERM_JKI, int >( 0, 3 ); }
ENTRY( d3_kij ) { layout< RAJA::PERM_KIJ >( 0, 2 ); }
ENTRY( d3_kji ) { layout< RAJA::PERM_KJI, int >( 0, 3 ); }
ENTRY( d4_ijkl ) { layout< RAJA::PERM_IJKL >( 1, 2 ); }
ENTRY( d4_lkji ) { layout< RAJA::PERM_LKJI >( 1, 2 ); }
ENTRY( d4_kilj ) { layout< RAJA::PERM_KILJ, int >( 1, 2 ); }
ENTRY( d4_jlik ) { layout< RAJA::PERM_JLIK, int >( 1, 2 ); }
ENTRY( d4_jlik_T ) { layout< RAJA::PERM_JLIK >( 0, 3 ); }
ENTRY( d3_kij_T ) { layout< RAJA::PERM_KIJ >( 0, 4 ); }
ENTRY( d5_ijklm ) { layout< RAJA::PERM_IJKLM, int >( 1, 2 ); }
ENTRY( d5_mlkji ) { layout< RAJA::PERM_MLKJI, int >( 1, 2 ); }
template< class T > using Stack27 = StackBuffer< T, 27 >;
ENTRY( d3_kij_stack ) { layout< RAJA::PERM_KIJ, int, Stack27 >( 0, 3 ); }
ENTRY( d2_ij_stack ) { layout< RAJA::PERM_IJ, std::ptrdiff_t, Stack27 >( 0, 4 ); }

template< class PERM, class I > void symbolicShape( int hi )
{
  constexpr int N = PermOf< PERM >::N;
  I d[ N ], s[ N ], i[ N ], expect = 0, total = 1;
  for( int k = 0; k < N; ++k ) { d[ k ] = range< I >( "d", 1, hi ); total *= d[ k ]; }
  Array< int, N, PERM, I, PhantomBuffer > a; Nd< N >::resizeNoInit( a, d );
  denseStrides< PERM >( d, s );
  for( int k = 0; k < N; ++k ) { CHECK( a.strides()[ k ] == s[ k ] ); CHECK( a.size( k ) == d[ k ] ); i[ k ] = range< I >( "i", 0, hi - 1 ); ASSUME( i[ k ] < d[ k ] ); expect += i[ k ] * s[ k ]; }
  CHECK( a.size() == total ); CHECK( a.capacity() >= total );
  I pos = Nd< N >::lin( a, i ); CHECK( pos == expect ); CHECK( pos < total );
  CHECK( &Nd< N >::brk( a, i ) == &Nd< N >::par( a, i ) );
  REACH( "symbolic shape" );
}
// extents whose products leave the range of int, with indices of every width
template< class PERM, class I, class... ARGS > void bigShape( std::initializer_list< int64_t > his )
{
  constexpr int N = PermOf< PERM >::N;
  I d[ N ], s[ N ], i[ N ], expect = 0; int64_t const * hi = his.begin();
  for( int k = 0; k < N; ++k ) d[ k ] = range< I >( "d", 1, hi[ k ] );
  Array< int, N, PERM, I, PhantomBuffer > a; Nd< N >::resizeNoInit( a, d );
  denseStrides< PERM >( d, s );
  for( int k = 0; k < N; ++k ) { CHECK( a.strides()[ k ] == s[ k ] ); CHECK( a.size( k ) == d[ k ] ); i[ k ] = range< I >( "i", 0, hi[ k ] - 1 ); ASSUME( i[ k ] < d[ k ] ); expect += i[ k ] * s[ k ]; }
  CHECK( Nd< N >::lin( a, i ) == expect ); CHECK( Nd< N >::lin( a.toView(), i ) == expect ); CHECK( Nd< N >::lin( a.toSlice(), i ) == expect );
  CHECK( &Nd< N >::brk( a, i ) == a.data() + expect ); CHECK( &Nd< N >::par( a, i ) == a.data() + expect );
  REACH( "big shape" );
}
ENTRY( big_ij ) { bigShape< RAJA::PERM_IJ, std::ptrdiff_t >( { 1L << 31, 1L << 31 } ); }
ENTRY( big_ji ) { bigShape< RAJA::PERM_JI, std::ptrdiff_t >( { 1L << 31, 1L << 31 } ); }
ENTRY( big_ijk ) { bigShape< RAJA::PERM_IJK, std::ptrdiff_t >( { 1L << 12, 1L << 12, 1L << 12 } ); }
ENTRY( big_kij ) { bigShape< RAJA::PERM_KIJ, std::ptrdiff_t >( { 1L << 12, 1L << 12, 1L << 12 } ); }
ENTRY( big_lkji_T ) { bigShape< RAJA::PERM_LKJI, std::ptrdiff_t >( { 1L << 10, 1L << 10, 1L << 10, 1L << 10 } ); }
template< class PERM, class I, class A, class B > void narrow2( int hi )
{
  I d[ 2 ], s[ 2 ]; for( int k = 0; k < 2; ++k ) d[ k ] = range< I >( "d", 1, hi );
  Array< int, 2, PERM, I, PhantomBuffer > a; Nd< 2 >::resizeNoInit( a, d ); denseStrides< PERM >( d, s );
  A const i = sym< A >( "i" ); B const j = sym< B >( "j" ); ASSUME( i >= 0 && j >= 0 && static_cast< I >( i ) < d[ 0 ] && static_cast< I >( j ) < d[ 1 ] );
  I const e = static_cast< I >( i ) * s[ 0 ] + static_cast< I >( j ) * s[ 1 ];
  auto const v = a.toViewConst(); auto const sl = a.toSlice();
  CHECK( a.linearIndex( i, j ) == e ); CHECK( v.linearIndex( i, j ) == e ); CHECK( sl.linearIndex( i, j ) == e ); CHECK( &a( i, j ) == a.data() + e ); CHECK( &sl( i, j ) == a.data() + e ); CHECK( &v[ i ][ j ] == a.data() + e ); CHECK( &sl[ i ]( j ) == a.data() + e );
  REACH( "narrow" );
}
ENTRY( narrow_i8_i8 ) { narrow2< RAJA::PERM_IJ, std::ptrdiff_t, std::int8_t, std::int8_t >( 1000 ); }
ENTRY( narrow_i16_u8 ) { narrow2< RAJA::PERM_JI, std::ptrdiff_t, std::int16_t, std::uint8_t >( 1000 ); }
ENTRY( narrow_u16_i64 ) { narrow2< RAJA::PERM_IJ, std::ptrdiff_t, std::uint16_t, std::int64_t >( 30000 ); }
ENTRY( narrow_i32_i16 ) { narrow2< RAJA::PERM_IJ, std::ptrdiff_t, int, std::int16_t >( 1 << 30 ); }
ENTRY( narrow_char_u32 ) { narrow2< RAJA::PERM_JI, std::ptrdiff_t, char, unsigned >( 1 << 30 ); }
template< class PERM, class I, class A, class B, class C > void narrow3( int hi )
{
  I d[ 3 ], s[ 3 ]; for( int k = 0; k < 3; ++k ) d[ k ] = range< I >( "d", 1, hi );
  Array< int, 3, PERM, I, PhantomBuffer > a; Nd< 3 >::resizeNoInit( a, d ); denseStrides< PERM >( d, s );
  A const i = sym< A >( "i" ); B const j = sym< B >( "j" ); C const k = sym< C >( "k" ); ASSUME( i >= 0 && j >= 0 && k >= 0 && static_cast< I >( i ) < d[ 0 ] && static_cast< I >( j ) < d[ 1 ] && static_cast< I >( k ) < d[ 2 ] );
  I const e = static_cast< I >( i ) * s[ 0 ] + static_cast< I >( j ) * s[ 1 ] + static_cast< I >( k ) * s[ 2 ];
  CHECK( a.linearIndex( i, j, k ) == e ); CHECK( a.toSlice().linearIndex( i, j, k ) == e ); CHECK( &a( i, j, k ) == a.data() + e ); CHECK( &a[ i ][ j ][ k ] == a.data() + e ); CHECK( &a[ i ]( j, k ) == a.data() + e );
  REACH( "narrow" );
}
ENTRY( narrow_i8_i16_i8 ) { narrow3< RAJA::PERM_KIJ, std::ptrdiff_t, std::int8_t, std::int16_t, std::int8_t >( 1000 ); }
ENTRY( narrow_i64_u8_i32 ) { narrow3< RAJA::PERM_JKI, std::ptrdiff_t, std::int64_t, std::uint8_t, int >( 1000 ); }

ENTRY( sym_ij ) { symbolicShape< RAJA::PERM_IJ, std::ptrdiff_t >( 31 ); }
ENTRY( sym_ji ) { symbolicShape< RAJA::PERM_JI, int >( 31 ); }
ENTRY( sym_ijk ) { symbolicShape< RAJA::PERM_IJK, std::ptrdiff_t >( 15 ); }
ENTRY( sym_jki ) { symbolicShape< RAJA::PERM_JKI, int >( 15 ); }
ENTRY( sym_kji ) { symbolicShape< RAJA::PERM_KJI, std::ptrdiff_t >( 15 ); }
