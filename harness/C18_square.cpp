// BOUNDS: 2x2 and 3x3 matrices and their symmetric (Voigt) forms, in C arrays, contiguous and strided array slices and mixtures; all entries symbolic real numbers; inverses where the determinant is not zero
// ASSUMES: double arithmetic is read as arithmetic over the real numbers; source and destination do not overlap
#include "tens.hpp"
constexpr int voigt( int n, int i, int j ) { return i == j ? i : n == 2 ? 2 : 6 - i - j; }
template< class A > double leibniz( A const & m, std::integral_constant< int, 2 > ) { return m[ 0 ][ 0 ] * m[ 1 ][ 1 ] - m[ 0 ][ 1 ] * m[ 1 ][ 0 ]; }
template< class A > double leibniz( A const & m, std::integral_constant< int, 3 > )
{ double r = 0; FORI( 3 ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; r += m[ 0 ][ i ] * m[ 1 ][ j ] * m[ 2 ][ k ] - m[ 0 ][ i ] * m[ 1 ][ k ] * m[ 2 ][ j ]; } return r; }
template< int N > struct SymOf { double d[ N ][ N ]; template< class V > explicit SymOf( V const & v ) { FORI( N ) FORJ( N ) d[ i ][ j ] = v.old[ voigt( N, i, j ) ]; } };
template< int D, int S, int N > void dets()
{
  { Mat< S, N, N > m( "m" ); NEAR( to::determinant< N >( m.cget() ), leibniz( m.old, std::integral_constant< int, N >() ) ); CHECK( m.same() ); }
  constexpr int Y = N * ( N + 1 ) / 2;
  { Vec< S, Y > s( "s" ); SymOf< N > d( s ); NEAR( to::symDeterminant< N >( s.cget() ), leibniz( d.d, std::integral_constant< int, N >() ) ); CHECK( s.same() ); }
  { Vec< S, Y > s( "s" ); Mat< D, N, N > d( "d" ); to::symmetricToDense< N >( d.get(), s.cget() ); FORI( N ) FORJ( N ) CHECK( d.at( i, j ) == s.old[ voigt( N, i, j ) ] ); CHECK( d.guards() && s.same() ); }
  { Mat< S, N, N > m( "m" ); Vec< D, Y > d( "d" ); FORI( N ) FORJ( N ) ASSUME( m.old[ i ][ j ] == m.old[ j ][ i ] ); to::denseToSymmetric< N >( d.get(), m.cget() ); FORI( N ) FORJ( N ) NEAR( d.at( voigt( N, i, j ) ), m.old[ i ][ j ] ); CHECK( d.guards() && m.same() ); }
  REACH( "done" );
}
template< int D, int S, int N > void inv()
{
  Mat< S, N, N > m( "m" ); Mat< D, N, N > d( "d" ); double const w = leibniz( m.old, std::integral_constant< int, N >() ); ASSUME( w != 0 );
  NEAR( to::invert< N >( d.get(), m.cget() ), w ); CHECK( d.guards() && m.same() );
  FORI( N ) FORJ( N ) { double p = 0; FORK( N ) p += m.old[ i ][ k ] * d.at( k, j ); NEAR( p, i == j ? 1 : 0 ); }
  REACH( "done" );
}
template< int D, int S, int N > void invInPlace()
{
  Mat< D, N, N > m( "m" ); double const w = leibniz( m.old, std::integral_constant< int, N >() ); ASSUME( w != 0 );
  NEAR( to::invert< N >( m.get() ), w ); CHECK( m.guards() );
  FORI( N ) FORJ( N ) { double p = 0; FORK( N ) p += m.old[ i ][ k ] * m.at( k, j ); NEAR( p, i == j ? 1 : 0 ); }
  REACH( "done" );
}
template< int D, int S, int N > void symInv()
{
  constexpr int Y = N * ( N + 1 ) / 2; Vec< S, Y > s( "s" ); SymOf< N > m( s ); Vec< D, Y > d( "d" ); double const w = leibniz( m.d, std::integral_constant< int, N >() ); ASSUME( w != 0 );
  NEAR( to::symInvert< N >( d.get(), s.cget() ), w ); CHECK( d.guards() && s.same() );
  FORI( N ) FORJ( N ) { double p = 0; FORK( N ) p += m.d[ i ][ k ] * d.at( voigt( N, k, j ) ); NEAR( p, i == j ? 1 : 0 ); }
  REACH( "done" );
}
template< int D, int S, int N > void symInvInPlace()
{
  constexpr int Y = N * ( N + 1 ) / 2; Vec< D, Y > s( "s" ); SymOf< N > m( s ); double const w = leibniz( m.d, std::integral_constant< int, N >() ); ASSUME( w != 0 );
  NEAR( to::symInvert< N >( s.get() ), w ); CHECK( s.guards() );
  FORI( N ) FORJ( N ) { double p = 0; FORK( N ) p += m.d[ i ][ k ] * s.at( voigt( N, k, j ) ); NEAR( p, i == j ? 1 : 0 ); }
  REACH( "done" );
}
template< int D, int S, int N > void syms()
{
  constexpr int Y = N * ( N + 1 ) / 2;
  { Vec< D, N > d( "d" ); Vec< S, Y > a( "a" ); SymOf< N > m( a ); Vec< D, N > b( "b" ); to::Ri_eq_symAijBj< N >( d.get(), a.cget(), b.cget() ); FORI( N ) { double w = 0; FORJ( N ) w += m.d[ i ][ j ] * b.old[ j ]; NEAR( d.at( i ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  { Vec< D, N > d( "d" ); Vec< S, Y > a( "a" ); SymOf< N > m( a ); Vec< D, N > b( "b" ); to::Ri_add_symAijBj< N >( d.get(), a.cget(), b.cget() ); FORI( N ) { double w = d.old[ i ]; FORJ( N ) w += m.d[ i ][ j ] * b.old[ j ]; NEAR( d.at( i ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  { Mat< D, N, N > d( "d" ); Vec< S, Y > a( "a" ); SymOf< N > m( a ); Mat< D, N, N > b( "b" ); to::Rij_eq_symAikBjk< N >( d.get(), a.cget(), b.cget() ); FORI( N ) FORJ( N ) { double w = 0; FORK( N ) w += m.d[ i ][ k ] * b.old[ j ][ k ]; NEAR( d.at( i, j ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  { Vec< D, Y > d( "d" ); Mat< S, N, N > a( "a" ); Vec< D, Y > s( "s" ); SymOf< N > m( s ); to::Rij_eq_AikSymBklAjl< N >( d.get(), a.cget(), s.cget() );
    FORI( N ) FORJ( N ) { double w = 0; FORK( N ) for( int l = 0; l < N; ++l ) w += a.old[ i ][ k ] * m.d[ k ][ l ] * a.old[ j ][ l ]; NEAR( d.at( voigt( N, i, j ) ), w ); } CHECK( d.guards() && a.same() && s.same() ); }
  { Vec< D, Y > d( "d" ); Vec< S, N > a( "a" ); to::symRij_eq_AiAj< N >( d.get(), a.cget() ); FORI( N ) FORJ( N ) NEAR( d.at( voigt( N, i, j ) ), a.old[ i ] * a.old[ j ] ); CHECK( d.guards() && a.same() ); }
  { Vec< D, Y > d( "d" ); Vec< S, N > a( "a" ); Vec< D, N > b( "b" ); to::symRij_eq_AiBj_plus_AjBi< N >( d.get(), a.cget(), b.cget() ); FORI( N ) FORJ( N ) NEAR( d.at( voigt( N, i, j ) ), a.old[ i ] * b.old[ j ] + a.old[ j ] * b.old[ i ] ); CHECK( d.guards() && a.same() && b.same() ); }
  REACH( "done" );
}
#define KINDS( NAME, FN, ... ) ENTRY( NAME ## _00_R ) { FN< 0, 0, __VA_ARGS__ >(); } ENTRY( NAME ## _12_R ) { FN< 1, 2, __VA_ARGS__ >(); } ENTRY( NAME ## _20_R ) { FN< 2, 0, __VA_ARGS__ >(); } ENTRY( NAME ## _01_R ) { FN< 0, 1, __VA_ARGS__ >(); }
KINDS( det2, dets, 2 ) KINDS( det3, dets, 3 ) KINDS( inv2, inv, 2 ) KINDS( inv3, inv, 3 ) KINDS( inplace2, invInPlace, 2 ) KINDS( inplace3, invInPlace, 3 )
KINDS( syminv2, symInv, 2 ) KINDS( syminv3, symInv, 3 ) KINDS( syminplace2, symInvInPlace, 2 ) KINDS( syminplace3, symInvInPlace, 3 ) KINDS( sym2, syms, 2 ) KINDS( sym3, syms, 3 )
// integer matrices: determinants
ENTRY( det_int )
{
  int m[ 3 ][ 3 ]; FORI( 3 ) FORJ( 3 ) m[ i ][ j ] = ( i + j ) % 3 == 0 ? range( "m", -8, 7 ) : ( 2 * i - j );
  int w = 0; FORI( 3 ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; w += m[ 0 ][ i ] * m[ 1 ][ j ] * m[ 2 ][ k ] - m[ 0 ][ i ] * m[ 1 ][ k ] * m[ 2 ][ j ]; } CHECK( to::determinant< 3 >( m ) == w );
  int s[ 2 ][ 2 ]; FORI( 2 ) FORJ( 2 ) s[ i ][ j ] = range( "s", -8, 7 ); CHECK( to::determinant< 2 >( s ) == s[ 0 ][ 0 ] * s[ 1 ][ 1 ] - s[ 0 ][ 1 ] * s[ 1 ][ 0 ] );
  double d[ 2 ][ 2 ]; s[ 0 ][ 0 ] = 3; s[ 0 ][ 1 ] = 1; s[ 1 ][ 0 ] = 1; s[ 1 ][ 1 ] = 1; CHECK( to::invert< 2 >( d, s ) == 2 ); CHECK( d[ 0 ][ 0 ] == 0.5 && d[ 0 ][ 1 ] == -0.5 && d[ 1 ][ 0 ] == -0.5 && d[ 1 ][ 1 ] == 1.5 );
  REACH( "done" );
}
