// LV: contract=eigenvaluesOfShiftedMatrix contract_eigenvalues
// BOUNDS: all real eigenvalues, equal ones included (thorough: also a fully symbolic rotation in one plane in two orders), in 21 orientations of the eigenbasis: axis-aligned in all six orders, rotated by rational rotations in one plane and in two planes; C arrays and contiguous and strided slices
// ASSUMES: double arithmetic is read as arithmetic over the real numbers, square roots as exact; the eigenvalues of the shifted and scaled matrix are the ones C30 decides (contract); eigenvalues that differ do so by more than a thousandth of their spread
#include "tens.hpp"
constexpr int voigt( int i, int j ) { return i == j ? i : 6 - i - j; }
static double g_q[ 3 ][ 3 ]; static int g_col[ 3 ];
// what C30 decides: the eigenvalues in increasing order; those of a matrix with known eigenvectors are its Rayleigh quotients
extern "C" __attribute__(( used )) void contract_eigenvalues( double * e, double const * m )
{
  FORI( 3 )
  {
    int const c = g_col[ i ]; double w = 0, n = 0; for( int a = 0; a < 3; ++a ) { n += g_q[ a ][ c ] * g_q[ a ][ c ]; for( int b = 0; b < 3; ++b ) w += g_q[ a ][ c ] * g_q[ b ][ c ] * m[ voigt( a, b ) ]; } e[ i ] = w / n;
    for( int a = 0; a < 3; ++a ) { double v = 0; for( int b = 0; b < 3; ++b ) v += m[ voigt( a, b ) ] * g_q[ b ][ c ]; lv_near64( v, e[ i ] * g_q[ a ][ c ], "the shifted matrix has the eigenvectors of the matrix" ); }
  }
  CHECK( e[ 0 ] <= e[ 1 ] ); CHECK( e[ 1 ] <= e[ 2 ] ); REACH( "shifted" );
}
template< int V, int S > void vectors( double const ( &q )[ 3 ][ 3 ], double n, int p0, int p1, int p2 )
{
  int const p[ 3 ] = { p0, p1, p2 }; FORI( 3 ) { g_col[ p[ i ] ] = i; FORJ( 3 ) g_q[ i ][ j ] = q[ i ][ j ]; }
  double l[ 3 ]; FORI( 3 ) l[ i ] = sym< double >( "l" ); ASSUME( l[ 0 ] <= l[ 1 ] ); ASSUME( l[ 1 ] <= l[ 2 ] ); Vec< S, 6 > m( "m" ); Vec< 0, 3 > e( "e" ); Mat< V, 3, 3 > v( "v" );
  // no two eigenvalues closer than a thousandth of the spread, unless equal
  ASSUME( l[ 0 ] == l[ 1 ] || 1000 * ( l[ 1 ] - l[ 0 ] ) > l[ 2 ] - l[ 0 ] ); ASSUME( l[ 1 ] == l[ 2 ] || 1000 * ( l[ 2 ] - l[ 1 ] ) > l[ 2 ] - l[ 0 ] );
  double A[ 3 ][ 3 ]; FORI( 3 ) FORJ( 3 ) { double w = 0; FORK( 3 ) w += q[ i ][ k ] * q[ j ][ k ] * l[ p[ k ] ]; A[ i ][ j ] = w; if( i <= j ) m.get()[ voigt( i, j ) ] = m.old[ voigt( i, j ) ] = w; }
  to::symEigenvectors< 3 >( e.get(), v.get(), m.cget() ); CHECK( e.guards() && m.same() && v.guards() ); FORI( 3 ) NEAR( e.at( i ), l[ i ] * n );
  FORI( 3 ) for( int j = i; j < 3; ++j ) { double w = 0; FORK( 3 ) w += v.at( i, k ) * v.at( j, k ); NEAR( w, i == j ); }
  FORI( 3 ) FORJ( 3 ) { double w = 0; FORK( 3 ) w += A[ j ][ k ] * v.at( i, k ); NEAR( w, e.at( i ) * v.at( i, j ) ); }
  REACH( "done" );
}
template< int V, int S > void three( int a, int b, int c, int d, int p0, int p1, int p2 )
{ double const q[ 3 ][ 3 ] = { { 13. * a, -13. * b, 0 }, { 1. * b * c, 1. * a * c, -5. * d }, { 1. * b * d, 1. * a * d, 5. * c } }; vectors< V, S >( q, 4225, p0, p1, p2 ); }
template< int V, int S > void plane( int p0, int p1, int p2 )
{ double const a = sym< double >( "a" ), b = sym< double >( "b" ); ASSUME( a * a + b * b == 1 ); double const q[ 3 ][ 3 ] = { { a, -b, 0 }, { b, a, 0 }, { 0, 0, 1 } }; vectors< V, S >( q, 1, p0, p1, p2 ); }
ENTRY( diag_R ) { three< 0, 0 >( 5, 0, 13, 0, 0, 1, 2 ); }
ENTRY( diag_rev_R ) { three< 1, 0 >( 5, 0, 13, 0, 2, 1, 0 ); }
ENTRY( diag_mid_R ) { three< 0, 2 >( 5, 0, 13, 0, 1, 2, 0 ); }
ENTRY( diag_102_R ) { three< 0, 2 >( 5, 0, 13, 0, 1, 0, 2 ); }
ENTRY( diag_021_R ) { three< 0, 2 >( 5, 0, 13, 0, 0, 2, 1 ); }
ENTRY( diag_201_R ) { three< 0, 2 >( 5, 0, 13, 0, 2, 0, 1 ); }
ENTRY( plane01_R ) { three< 0, 0 >( 3, 4, 13, 0, 0, 1, 2 ); }
ENTRY( plane01_201_R ) { three< 1, 0 >( -4, 3, 13, 0, 2, 0, 1 ); }
ENTRY( plane12_R ) { three< 0, 1 >( 5, 0, 5, 12, 1, 0, 2 ); }
ENTRY( plane12_120_R ) { three< 0, 0 >( 5, 0, 12, -5, 1, 2, 0 ); }
ENTRY( plane02_R ) { three< 0, 0 >( 0, 5, 5, 12, 0, 1, 2 ); }
ENTRY( plane02_021_R ) { three< 0, 2 >( 0, 5, -12, 5, 0, 2, 1 ); }
ENTRY( full_a_R ) { three< 0, 0 >( 3, 4, 5, 12, 0, 1, 2 ); }
ENTRY( full_b_R ) { three< 2, 0 >( 4, -3, 12, 5, 2, 0, 1 ); }
ENTRY( full_c_R ) { three< 0, 0 >( -4, 3, 5, -12, 1, 2, 0 ); }
ENTRY( full_d_R ) { three< 0, 1 >( 3, -4, 12, -5, 0, 2, 1 ); }
ENTRY( full_e_R ) { three< 1, 2 >( 4, 3, -5, 12, 1, 0, 2 ); }
ENTRY( full_f_R ) { three< 0, 0 >( -3, -4, 12, 5, 2, 1, 0 ); }
ENTRY( full_g_R ) { three< 0, 0 >( 4, 3, 12, 5, 0, 1, 2 ); }
ENTRY( full_h_R ) { three< 0, 0 >( 4, 3, 12, 5, 1, 2, 0 ); }
ENTRY( full_i_R ) { three< 0, 0 >( 4, 3, 12, 5, 2, 1, 0 ); }
ENTRY( anyplane_a_R_T ) { plane< 0, 0 >( 0, 1, 2 ); }
ENTRY( anyplane_c_R_T ) { plane< 0, 0 >( 1, 2, 0 ); }
