// BOUNDS: fill, zero, assign from a view and the visitors on every permutation of 1..3 dimensions and three of 4, extents 0..3 (3-D: 0..2, 4-D: 1..2), at every slicing depth, symbolic values, spare capacity behind the elements; first-index sums of 1..3 dimensions, also with another permutation of the result; memcpy of whole arrays and of slices taken with 0..2 symbolic indices, between different permutations and dimensions, extents 0..3
// BOUNDS: fill, zero, assign, visitors and sums also with extents up to 300 (1-D), 40 (2-D), 19 (3-D), 17 (4-D) and 5 (5-D), every dimension the long one in turn
// BOUNDS: number of bytes zeroed: arrays of symbolic extents up to 2^31-1 (1-D), 4095 (2-D), 127 (3-D) and matrices of symbolic capacity up to 2^31-1, element sizes 4 and 8
// ASSUMES: memcpy and setValues from a view require equal extents and equal strides (the documented contract); RAJA loops run serially here (any order is equivalent as iterations write distinct elements, which is checked)
#include "nd.hpp"
#ifdef LV_THOROUGH
constexpr int HI3 = 3, HI4 = 3;
#else
constexpr int HI3 = 2, HI4 = 2;
#endif
#include "CRSMatrix.hpp"
#include "memcpy.hpp"
#include "sliceHelpers.hpp"
#ifdef LV_BYTES
namespace LvArray { namespace umpireInterface {
static void * g_at; static int g_val; static std::size_t g_bytes; static int g_calls;
void memset( void * const p, int const v, std::size_t const n ) { g_at = p; g_val = v; g_bytes = n; ++g_calls; }
void copy( void * const d, void * const, std::size_t const n ) { g_at = d; g_bytes = n; ++g_calls; }
camp::resources::Event copy( void * const d, void * const, camp::resources::Resource & r, std::size_t const n ) { g_at = d; g_bytes = n; ++g_calls; return r.get_event(); }
} }
#else
#include <umpireInterface.cpp>
#endif
using namespace LvArray;
// LV: variant=run
// LV: variant=bytes -DLV_BYTES=1
template< int N, class I > bool nextIndex( I * i, I const * d ) { for( int k = N - 1; k >= 0; --k ) { if( ++i[ k ] < d[ k ] ) return true; i[ k ] = 0; } return false; }
template< int N, class I > int64_t product( I const * d ) { int64_t r = 1; for( int k = 0; k < N; ++k ) r *= d[ k ]; return r; }
template< int N, class I > int lexical( I const * i, I const * d ) { int r = 0; for( int k = 0; k < N; ++k ) r = r * static_cast< int >( d[ k ] ) + static_cast< int >( i[ k ] ); return r; }
#ifndef LV_BYTES
constexpr int CAP = 320; constexpr int MARK = 0x5a5a;
template< class T, int N, class A, class I > void fillSymbolic( A const & a, I const * d, T * v, char const * name )
{
  if( product< N >( d ) == 0 ) return; I i[ N ] = {};
  do { T const x = sym< T >( name ); v[ lexical< N >( i, d ) ] = x; Nd< N >::par( a, i ) = x; } while( nextIndex< N >( i, d ) );
}
template< class T, int N, class A, class I > bool sameValues( A const & a, I const * d, T const * v )
{
  if( product< N >( d ) == 0 ) return true; I i[ N ] = {}; bool ok = true;
  do { ok &= Nd< N >::par( a, i ) == v[ lexical< N >( i, d ) ]; } while( nextIndex< N >( i, d ) );
  return ok;
}
// two elements of spare capacity behind the values that no whole-array operation may touch
template< class A > void mark( A & a ) { auto const n = a.size(); for( int k = 0; k < 2; ++k ) a.data()[ n + k ] = MARK; }
template< class A > bool marked( A const & a ) { auto const n = a.size(); return a.data()[ n ] == MARK && a.data()[ n + 1 ] == MARK; }
template< class A, int N, class I > void build( A & a, I const * d ) { a.reserve( static_cast< I >( product< N >( d ) + 2 ) ); Nd< N >::resizeNoInit( a, d ); mark( a ); }
template< int N, int LEFT > struct Visit
{
  template< class S, class I, class T > static void go( S const & s, I const * d, T const * v )
  {
    int const total = static_cast< int >( product< LEFT >( d ) ); int n = 0; bool ok = true; std::uint64_t sum = 0, expect = 0;
    forValuesInSlice( s, [&] ( T & x ) { if( n < total ) { ok &= x == v[ n ]; } sum += static_cast< std::uint64_t >( x ); ++n; } ); for( int k = 0; k < total; ++k ) expect += static_cast< std::uint64_t >( v[ k ] );
    CHECK( n == total ); CHECK( ok ); CHECK( sum == expect ); n = 0;
    forValuesInSliceWithIndices( s, [&] ( T & x, auto const ... is ) { I const i[] = { is ... }; static_assert( sizeof...( is ) == LEFT, "" ); if( n < total ) { ok &= lexical< LEFT >( i, d ) == n; for( int k = 0; k < LEFT; ++k ) ok &= i[ k ] >= 0 && i[ k ] < d[ k ]; ok &= &x == &Nd< LEFT >::par( s, i ); } ++n; } );
    CHECK( n == total ); CHECK( ok );
    if( d[ 0 ] > 0 ) { I const i = shape< I >( "s", 0, d[ 0 ] - 1 ); Visit< N, LEFT - 1 >::go( s[ i ], d + 1, v + i * product< LEFT - 1 >( d + 1 ) ); }
  }
};
template< int N > struct Visit< N, 0 > { template< class S, class I, class T > static void go( S & s, I const *, T const * v ) { int n = 0; forValuesInSlice( s, [&] ( S & x ) { CHECK( &x == &s ); ++n; } ); forValuesInSliceWithIndices( s, [&] ( S & x, auto ... is ) { CHECK( sizeof...( is ) == 0 ); CHECK( x == *v ); ++n; } ); CHECK( n == 2 ); } };
template< class T, class PERM, class I > void valuesOf( I const * d )
{
  constexpr int N = PermOf< PERM >::N; constexpr int U = PermOf< PERM >::last();
  Array< T, N, PERM, I, MallocBuffer > a; build< decltype( a ), N >( a, d ); T v[ CAP ], w[ CAP ]; int const total = static_cast< int >( product< N >( d ) ); fillSymbolic< T, N >( a.toView(), d, v, "v" );
  int const o = shape( "op", 0, 4 );
  if( o == 0 ) { T const x = sym< T >( "x" ); a.template setValues< RAJA::seq_exec >( x ); for( int k = 0; k < total; ++k ) v[ k ] = x; }
  else if( o == 1 ) { a.zero(); for( int k = 0; k < total; ++k ) v[ k ] = 0; }
  else if( o == 2 )
  {
    Array< T, N, PERM, I, MallocBuffer > b; build< decltype( b ), N >( b, d ); fillSymbolic< T, N >( b.toView(), d, w, "w" ); ArrayView< T const, N, U, I, MallocBuffer > const bc = b; a.toView().template setValues< RAJA::seq_exec >( bc );
    CHECK( sameValues< T, N >( b, d, w ) ); CHECK( sameValues< T, N >( a, d, w ) ); CHECK( marked( b ) ); for( int k = 0; k < total; ++k ) v[ k ] = w[ k ];
  }
  else if( o == 3 ) { forValuesInSlice( a.toSlice(), [] ( T & x ) { x ^= 0x33; } ); for( int k = 0; k < total; ++k ) v[ k ] ^= 0x33; }
  else Visit< N, N >::go( a.toSlice(), d, v );
  CHECK( sameValues< T, N >( a, d, v ) ); CHECK( marked( a ) ); for( int k = 0; k < N; ++k ) CHECK( a.size( k ) == d[ k ] ); CHECK( a.size() == total ); if( total > 0 ) REACH( "values" ); else REACH( "empty" );
}
template< class T, class PERM, class I > void values( int lo, int hi ) { constexpr int N = PermOf< PERM >::N; I d[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = shape< I >( "d", lo, hi ); valuesOf< T, PERM, I >( d ); }
// every dimension in turn the long one
template< class T, class PERM, class I > void large( int a, int b, int c ) { constexpr int N = PermOf< PERM >::N; I const base[ 5 ] = { I( a ), I( b ), I( c ), 2, 1 }; I d[ N ]; int const turn = shape( "turn", 0, N - 1 ); for( int k = 0; k < N; ++k ) d[ ( k + turn ) % N ] = base[ k ]; valuesOf< T, PERM, I >( d ); }
ENTRY( large1 ) { large< int, RAJA::PERM_I, int >( 300, 1, 1 ); }
ENTRY( large2_ij ) { large< std::int64_t, RAJA::PERM_IJ, int >( 40, 3, 1 ); }
ENTRY( large2_ji ) { large< int, RAJA::PERM_JI, std::ptrdiff_t >( 33, 5, 1 ); }
ENTRY( large3_kij ) { large< int, RAJA::PERM_KIJ, int >( 19, 3, 2 ); }
ENTRY( large3_jik ) { large< int, RAJA::PERM_JIK, int >( 17, 2, 3 ); }
ENTRY( large4_kilj ) { large< int, RAJA::PERM_KILJ, int >( 17, 2, 2 ); }
ENTRY( large5_ijklm ) { large< int, RAJA::PERM_IJKLM, int >( 5, 3, 2 ); }
ENTRY( large5_mlkji ) { large< std::int64_t, RAJA::PERM_MLKJI, int >( 4, 3, 2 ); }
ENTRY( d1 ) { values< int, RAJA::PERM_I, int >( 0, 3 ); }
ENTRY( d1_i64 ) { values< std::int64_t, RAJA::PERM_I, std::ptrdiff_t >( 0, 3 ); }
ENTRY( d1_u8 ) { values< unsigned short, RAJA::PERM_I, unsigned >( 0, 3 ); }
ENTRY( d2_ij ) { values< int, RAJA::PERM_IJ, int >( 0, 3 ); }
ENTRY( d2_ji ) { values< std::int64_t, RAJA::PERM_JI, std::ptrdiff_t >( 0, 3 ); }
ENTRY( d3_ijk ) { values< int, RAJA::PERM_IJK, int >( 0, HI3 ); }
ENTRY( d3_ikj ) { values< int, RAJA::PERM_IKJ, int >( 0, HI3 ); }
ENTRY( d3_jik ) { values< int, RAJA::PERM_JIK, int >( 0, HI3 ); }
ENTRY( d3_jki ) { values< int, RAJA::PERM_JKI, std::ptrdiff_t >( 0, HI3 ); }
ENTRY( d3_kij ) { values< int, RAJA::PERM_KIJ, int >( 0, HI3 ); }
ENTRY( d3_kji ) { values< std::int64_t, RAJA::PERM_KJI, int >( 0, HI3 ); }
ENTRY( d4_ijkl ) { values< int, RAJA::PERM_IJKL, int >( 1, HI4 ); }
ENTRY( d4_lkji ) { values< int, RAJA::PERM_LKJI, int >( 1, HI4 ); }
ENTRY( d4_kilj ) { values< int, RAJA::PERM_KILJ, int >( 1, HI4 ); }
// assigning from a view of other extents or another layout is rejected and nothing else is
template< class P1, class P2, int N, class I > void assignMismatch( int hi )
{
  I d[ N ], e[ N ], s[ N ], t[ N ]; for( int k = 0; k < N; ++k ) { d[ k ] = shape< I >( "d", 0, hi ); e[ k ] = shape< I >( "e", 0, hi ); } denseStrides< P1 >( d, s ); denseStrides< P2 >( e, t ); bool bad = false; for( int k = 0; k < N; ++k ) bad |= d[ k ] != e[ k ] || s[ k ] != t[ k ];
  Array< int, N, P1, I, MallocBuffer > a; Array< int, N, P2, I, MallocBuffer > b; build< decltype( a ), N >( a, d ); build< decltype( b ), N >( b, e ); int w[ CAP ], v[ CAP ]; fillSymbolic< int, N >( b.toView(), e, w, "w" ); fillSymbolic< int, N >( a.toView(), d, v, "v" );
  ArrayView< int const, N, PermOf< P2 >::last(), I, MallocBuffer > const bc = b;
  ABORTS_IFF( bad, a.toView().template setValues< RAJA::seq_exec >( bc ) );
  CHECK( sameValues< int, N >( a, d, w ) ); CHECK( marked( a ) ); CHECK( marked( b ) ); REACH( "accepted" );
}
ENTRY( assign_d1 ) { assignMismatch< RAJA::PERM_I, RAJA::PERM_I, 1, int >( 3 ); }
ENTRY( assign_d2 ) { assignMismatch< RAJA::PERM_JI, RAJA::PERM_JI, 2, int >( 3 ); }
ENTRY( assign_d3 ) { assignMismatch< RAJA::PERM_IJK, RAJA::PERM_JIK, 3, int >( 2 ); }
// sums over the first index, the result in any layout; a result of other extents is rejected
template< class P1, class P2, int N, class I > void sumsOf( I const * d, I const * e )
{
  bool bad = false; for( int k = 0; k + 1 < N; ++k ) bad |= e[ k ] != d[ k + 1 ];
  Array< unsigned, N, P1, I, MallocBuffer > a; Array< unsigned, N - 1, P2, I, MallocBuffer > r; build< decltype( a ), N >( a, d ); build< decltype( r ), N - 1 >( r, e ); unsigned v[ CAP ], w[ CAP ]; fillSymbolic< unsigned, N >( a.toView(), d, v, "v" ); fillSymbolic< unsigned, N - 1 >( r.toView(), e, w, "w" );
  ABORTS_IFF( bad, sumOverFirstDimension( a.toSliceConst(), r.toSlice() ) );
  int const m = static_cast< int >( product< N - 1 >( e ) ); for( int k = 0; k < m; ++k ) for( int q = 0; q < d[ 0 ]; ++q ) w[ k ] += v[ q * m + k ];
  CHECK( sameValues< unsigned, N - 1 >( r, e, w ) ); CHECK( sameValues< unsigned, N >( a, d, v ) ); CHECK( marked( r ) ); REACH( "summed" );
}
template< class P1, class P2, int N, class I > void sums( int hi ) { I d[ N ], e[ N - 1 ]; for( int k = 0; k < N; ++k ) d[ k ] = shape< I >( "d", 0, hi ); for( int k = 0; k + 1 < N; ++k ) e[ k ] = shape< I >( "e", 0, hi ); sumsOf< P1, P2, N, I >( d, e ); }
template< class P1, class P2, int N, class I > void largeSums( int a, int b, int c ) { I const base[ 3 ] = { a, b, c }; I d[ N ]; int const turn = shape( "turn", 0, N - 1 ); for( int k = 0; k < N; ++k ) d[ ( k + turn ) % N ] = base[ k ]; sumsOf< P1, P2, N, I >( d, d + 1 ); }
ENTRY( sum_large2_ij ) { largeSums< RAJA::PERM_IJ, RAJA::PERM_I, 2, int >( 40, 3, 1 ); }
ENTRY( sum_large2_ji ) { largeSums< RAJA::PERM_JI, RAJA::PERM_I, 2, int >( 33, 2, 1 ); }
ENTRY( sum_large3_kij_ij ) { largeSums< RAJA::PERM_KIJ, RAJA::PERM_IJ, 3, int >( 18, 2, 3 ); }
ENTRY( sum_large3_ijk_ji ) { largeSums< RAJA::PERM_IJK, RAJA::PERM_JI, 3, int >( 18, 3, 2 ); }
ENTRY( sum_d1 )
{
  int const n = shape( "n", 0, 4 ); Array< unsigned, 2, RAJA::PERM_JI, int, MallocBuffer > a( 2, n ); unsigned r = sym< unsigned >( "r" ), e = r; for( int j = 0; j < n; ++j ) { a( 1, j ) = sym< unsigned >( "v" ); e += a( 1, j ); a( 0, j ) = 77; }
  sumOverFirstDimension( a.toSliceConst()[ 1 ], r ); CHECK( r == e ); REACH( "sum1" );
}
ENTRY( sum_d2_ij ) { sums< RAJA::PERM_IJ, RAJA::PERM_I, 2, int >( 3 ); }
ENTRY( sum_d2_ji ) { sums< RAJA::PERM_JI, RAJA::PERM_I, 2, int >( 3 ); }
ENTRY( sum_d3_ijk_ji ) { sums< RAJA::PERM_IJK, RAJA::PERM_JI, 3, int >( 2 ); }
ENTRY( sum_d3_kij_ij ) { sums< RAJA::PERM_KIJ, RAJA::PERM_IJ, 3, int >( 2 ); }
// memcpy: exactly the addressed elements are overwritten, in order; operands of other extents, strides or that are not contiguous are rejected
template< class P1, class P2, std::size_t N1, std::size_t N2 > void copies( int hi )
{
  constexpr int A = PermOf< P1 >::N, B = PermOf< P2 >::N, L = A - static_cast< int >( N1 ); static_assert( B - static_cast< int >( N2 ) == L, "" );
  int d[ A ], e[ B ], s[ A ], t[ B ]; for( int k = 0; k < A; ++k ) d[ k ] = shape( "d", 0, hi ); for( int k = 0; k < B; ++k ) e[ k ] = shape( "e", 0, hi ); denseStrides< P1 >( d, s ); denseStrides< P2 >( e, t );
  std::array< int, N1 > i1; std::array< int, N2 > i2; int f[ A ] = {}, g[ B ] = {};
  for( int k = 0; k < static_cast< int >( N1 ); ++k ) { if( d[ k ] == 0 ) return; f[ k ] = range( "i", 0, d[ k ] - 1 ); i1.data()[ k ] = f[ k ]; } for( int k = 0; k < static_cast< int >( N2 ); ++k ) { if( e[ k ] == 0 ) return; g[ k ] = range( "j", 0, e[ k ] - 1 ); i2.data()[ k ] = g[ k ]; }
  Array< int, A, P1, int, MallocBuffer > a; Array< int, B, P2, int, MallocBuffer > b; build< decltype( a ), A >( a, d ); build< decltype( b ), B >( b, e ); int v[ CAP ], w[ CAP ]; fillSymbolic< int, A >( a.toView(), d, v, "v" ); fillSymbolic< int, B >( b.toView(), e, w, "w" );
  // contiguous: the positions of the remaining indices are consecutive
  bool bad = false; int64_t total = 1, span1 = 0, span2 = 0; bool has1[ A ] = {};
  for( int k = 0; k < L; ++k ) { int const x = k + N1, y = k + N2; bad |= d[ x ] != e[ y ] || s[ x ] != t[ y ]; total *= d[ x ]; span1 += ( d[ x ] - 1 ) * s[ x ]; span2 += ( e[ y ] - 1 ) * t[ y ]; } (void) has1;
  bool const whole = N1 == 0 && N2 == 0; if( !bad && total == 0 && !whole ) return; // an empty slice may or may not count as contiguous
  bad |= total > 0 && ( span1 != total - 1 || span2 != total - 1 );
  ArrayView< int const, B, PermOf< P2 >::last(), int, MallocBuffer > const bc = b; camp::resources::Host host; camp::resources::Resource res( host );
  if( shape( "res", 0, 1 ) ) { ABORTS_IFF( bad, LvArray::memcpy< N1, N2 >( res, a.toView(), i1, bc, i2 ) ); } else { ABORTS_IFF( bad, LvArray::memcpy< N1, N2 >( a.toView(), i1, bc, i2 ) ); }
  CHECK( sameValues< int, B >( b, e, w ) ); CHECK( marked( a ) ); CHECK( marked( b ) ); bool ok = true; int q[ A ] = {}, p[ B ];
  if( product< A >( d ) > 0 ) do
  {
    bool in = true; for( int k = 0; k < static_cast< int >( N1 ); ++k ) in &= q[ k ] == f[ k ];
    int from = 0; for( int k = 0; k < static_cast< int >( N2 ); ++k ) p[ k ] = g[ k ]; for( int k = 0; k < L; ++k ) p[ k + N2 ] = q[ k + N1 ];
    int x = v[ lexical< A >( q, d ) ]; int y = 0; from = lexical< B >( p, e ); int const m = static_cast< int >( product< B >( e ) ); for( int z = 0; z < m; ++z ) y += w[ z ] * ( z == from );
    ok &= Nd< A >::par( a, q ) == ( in ? y : x );
  } while( nextIndex< A >( q, d ) );
  CHECK( ok ); REACH( "copied" );
}
ENTRY( memcpy_1_1 ) { copies< RAJA::PERM_I, RAJA::PERM_I, 0, 0 >( 3 ); }
ENTRY( memcpy_2_2 ) { copies< RAJA::PERM_IJ, RAJA::PERM_IJ, 0, 0 >( 3 ); }
ENTRY( memcpy_2ji_2ji ) { copies< RAJA::PERM_JI, RAJA::PERM_JI, 0, 0 >( 2 ); }
ENTRY( memcpy_3_3 ) { copies< RAJA::PERM_IJK, RAJA::PERM_JIK, 0, 0 >( 2 ); }
ENTRY( memcpy_2s_1 ) { copies< RAJA::PERM_IJ, RAJA::PERM_I, 1, 0 >( 3 ); }
ENTRY( memcpy_1_2s ) { copies< RAJA::PERM_I, RAJA::PERM_IJ, 0, 1 >( 3 ); }
ENTRY( memcpy_2s_2s ) { copies< RAJA::PERM_IJ, RAJA::PERM_IJ, 1, 1 >( 2 ); }
ENTRY( memcpy_3s_2 ) { copies< RAJA::PERM_IJK, RAJA::PERM_IJ, 1, 0 >( 2 ); }
ENTRY( memcpy_3j_2 ) { copies< RAJA::PERM_JIK, RAJA::PERM_IJ, 1, 0 >( 2 ); }
ENTRY( memcpy_3s_1 ) { copies< RAJA::PERM_IJK, RAJA::PERM_I, 2, 0 >( 2 ); }
#else
// the number of bytes zeroed, for extents far beyond what can be held in memory
template< class T, class PERM, class I > void zeroBytes( int64_t hi )
{
  constexpr int N = PermOf< PERM >::N; I d[ N ]; int64_t total = 1; for( int k = 0; k < N; ++k ) { d[ k ] = range< I >( "d", 0, hi ); total *= d[ k ]; }
  Array< T, N, PERM, I, PhantomBuffer > a; Nd< N >::resizeNoInit( a, d ); umpireInterface::g_calls = 0; a.zero();
  CHECK( umpireInterface::g_calls == ( total != 0 ) ); if( total != 0 ) { CHECK( umpireInterface::g_bytes == static_cast< std::size_t >( total ) * sizeof( T ) ); CHECK( umpireInterface::g_val == 0 ); CHECK( umpireInterface::g_at == a.data() ); REACH( "zeroed" ); }
}
ENTRY( bytes_d1 ) { zeroBytes< double, RAJA::PERM_I, int >( std::numeric_limits< int >::max() ); }
ENTRY( bytes_d2 ) { zeroBytes< double, RAJA::PERM_IJ, int >( 4095 ); }
ENTRY( bytes_d3 ) { zeroBytes< float, RAJA::PERM_KJI, int >( 127 ); }
template< class T, class I > void zeroMatrix()
{
  PhantomBuffer< I > o, z; PhantomBuffer< int > c; PhantomBuffer< T > e; e.cap = range< std::ptrdiff_t >( "cap", 0, std::numeric_limits< int >::max() );
  CRSMatrixView< T, int, I, PhantomBuffer > const m( I( 0 ), I( 0 ), o, z, c, e ); umpireInterface::g_calls = 0; m.zero();
  CHECK( umpireInterface::g_calls == ( e.cap != 0 ) ); if( e.cap != 0 ) { CHECK( umpireInterface::g_bytes == static_cast< std::size_t >( e.cap ) * sizeof( T ) ); CHECK( umpireInterface::g_val == 0 ); CHECK( umpireInterface::g_at == e.p ); REACH( "zeroed" ); }
}
ENTRY( matrix_int ) { zeroMatrix< double, int >(); }
ENTRY( matrix_i64 ) { zeroMatrix< double, std::ptrdiff_t >(); }
// the number of bytes copied
template< class T, class I > void copyBytes()
{
  I const n = range< I >( "n", 0, std::numeric_limits< int >::max() ); I const d[ 1 ] = { n }; Array< T, 1, RAJA::PERM_I, I, PhantomBuffer > a, b; Nd< 1 >::resizeNoInit( a, d ); Nd< 1 >::resizeNoInit( b, d ); ArrayView< T const, 1, 0, I, PhantomBuffer > const bc = b; std::array< I, 0 > none; camp::resources::Host host; camp::resources::Resource res( host );
  umpireInterface::g_calls = 0; if( shape( "res", 0, 1 ) ) LvArray::memcpy< 0, 0 >( res, a.toView(), none, bc, none ); else LvArray::memcpy< 0, 0 >( a.toView(), none, bc, none );
  CHECK( umpireInterface::g_bytes == static_cast< std::size_t >( n ) * sizeof( T ) ); CHECK( umpireInterface::g_at == a.data() ); REACH( "copied" );
}
ENTRY( copy_bytes ) { copyBytes< double, int >(); }
ENTRY( copy_bytes_u ) { copyBytes< double, unsigned >(); }
#endif
