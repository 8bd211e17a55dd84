// BOUNDS: all symmetric 2x2 matrices, entries symbolic real numbers, in C arrays and contiguous and strided slices; every repeated-eigenvalue and diagonal case is included
// BOUNDS: all real eigenvalues of 3x3 matrices in eight orientations of the eigenbasis (axis-aligned in three orders, rotated in one plane, rotated in two planes) by rational rotations
// ASSUMES: double arithmetic is read as arithmetic over the real numbers, square roots and the literal 1.7320508... as exact; acos, sin and cos are given by sin^2 + cos^2 = 1 and the triple-angle law
#include "tens.hpp"
constexpr int voigt( int n, int i, int j ) { return i == j ? i : n == 2 ? 2 : 6 - i - j; }
template< class A > double leibniz( A const & m, std::integral_constant< int, 3 > )
{ double r = 0; FORI( 3 ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; r += m[ 0 ][ i ] * m[ 1 ][ j ] * m[ 2 ][ k ] - m[ 0 ][ i ] * m[ 1 ][ k ] * m[ 2 ][ j ]; } return r; }
template< int N > struct SymOf { double d[ N ][ N ]; template< class V > explicit SymOf( V const & v ) { FORI( N ) FORJ( N ) d[ i ][ j ] = v.old[ voigt( N, i, j ) ]; } };
template< int D, int S > void values()
{
  Vec< S, 3 > m( "m" ); Vec< D, 2 > e( "e" ); to::symEigenvalues< 2 >( e.get(), m.cget() ); CHECK( e.guards() && m.same() );
  double const l0 = e.at( 0 ), l1 = e.at( 1 ); CHECK( l0 <= l1 ); NEAR( l0 + l1, m.old[ 0 ] + m.old[ 1 ] ); NEAR( l0 * l1, m.old[ 0 ] * m.old[ 1 ] - m.old[ 2 ] * m.old[ 2 ] ); REACH( "done" );
}
template< int D, int S > void vectors()
{
  Vec< S, 3 > m( "m" ); Vec< D, 2 > e( "e" ); Mat< D, 2, 2 > v( "v" ); to::symEigenvectors< 2 >( e.get(), v.get(), m.cget() ); CHECK( e.guards() && m.same() && v.guards() );
  double const l[ 2 ] = { e.at( 0 ), e.at( 1 ) }; CHECK( l[ 0 ] <= l[ 1 ] );
  NEAR( v.at( 0, 0 ) * v.at( 0, 0 ) + v.at( 0, 1 ) * v.at( 0, 1 ), 1 ); NEAR( v.at( 1, 0 ) * v.at( 1, 0 ) + v.at( 1, 1 ) * v.at( 1, 1 ), 1 ); NEAR( v.at( 0, 0 ) * v.at( 1, 0 ) + v.at( 0, 1 ) * v.at( 1, 1 ), 0 );
  FORI( 2 ) { NEAR( m.old[ 0 ] * v.at( i, 0 ) + m.old[ 2 ] * v.at( i, 1 ), l[ i ] * v.at( i, 0 ) ); NEAR( m.old[ 2 ] * v.at( i, 0 ) + m.old[ 1 ] * v.at( i, 1 ), l[ i ] * v.at( i, 1 ) ); }
  REACH( "done" );
}
ENTRY( values_00_R ) { values< 0, 0 >(); }
ENTRY( values_12_R ) { values< 1, 2 >(); }
ENTRY( vectors_00_R ) { vectors< 0, 0 >(); }
ENTRY( vectors_21_R ) { vectors< 2, 1 >(); }

// A = Q diag( l ) Q^T for a fixed rational rotation Q and all real l in the order given by the permutation; the eigenbasis need not be aligned with the axes
template< int D, int S > void three( int a, int b, int c, int d, int p0, int p1, int p2 )
{
  // rotation by (a,b)/5 in the plane 0,1 and by (c,d)/13 in the plane 1,2
  double const q[ 3 ][ 3 ] = { { 13. * a, -13. * b, 0 }, { 1. * b * c, 1. * a * c, -5. * d }, { 1. * b * d, 1. * a * d, 5. * c } }; int const p[ 3 ] = { p0, p1, p2 };
  double l[ 3 ]; FORI( 3 ) l[ i ] = sym< double >( "l" ); ASSUME( l[ 0 ] <= l[ 1 ] ); ASSUME( l[ 1 ] <= l[ 2 ] ); Vec< S, 6 > m( "m" ); Vec< D, 3 > e( "e" );
  FORI( 3 ) for( int j = i; j < 3; ++j ) { double w = 0; FORK( 3 ) w += q[ i ][ k ] * q[ j ][ k ] * l[ p[ k ] ]; m.get()[ voigt( 3, i, j ) ] = m.old[ voigt( 3, i, j ) ] = w; }
  to::symEigenvalues< 3 >( e.get(), m.cget() ); CHECK( e.guards() && m.same() ); FORI( 3 ) NEAR( e.at( i ), l[ i ] * 4225 ); REACH( "done" );
}
ENTRY( three_diag_R ) { three< 0, 0 >( 5, 0, 13, 0, 0, 1, 2 ); }
ENTRY( three_diag_rev_R ) { three< 1, 0 >( 5, 0, 13, 0, 2, 1, 0 ); }
ENTRY( three_diag_mid_R ) { three< 0, 2 >( 5, 0, 13, 0, 1, 2, 0 ); }
ENTRY( three_plane01_R ) { three< 0, 0 >( 3, 4, 13, 0, 0, 1, 2 ); }
ENTRY( three_plane12_R ) { three< 0, 1 >( 5, 0, 5, 12, 1, 0, 2 ); }
ENTRY( three_full_R ) { three< 0, 0 >( 3, 4, 5, 12, 0, 1, 2 ); }
ENTRY( three_full2_R ) { three< 2, 0 >( 4, -3, 12, 5, 2, 0, 1 ); }
ENTRY( three_full3_R ) { three< 0, 0 >( -4, 3, 5, -12, 1, 2, 0 ); }
