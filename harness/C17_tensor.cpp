// BOUNDS: vectors of 1..6, 8 and 9 and matrices of 1..4 x 1..4, 6x6, 3x8 and 8x3 entries (inner dimension 1..4, 6 and 8), held in C arrays, in contiguous and in strided array slices and in mixtures of these; all entries and scale factors symbolic real numbers
// ASSUMES: double arithmetic is read as arithmetic over the real numbers (rounding is not modelled); source and destination do not overlap, as the interface demands; the vector to normalise is not zero
#include "tens.hpp"
template< int D, int S, int N > void vectors()
{
  double const c = sym< double >( "c" );
  { Vec< D, N > d( "d" ); Vec< S, N > s( "s" ); to::copy< N >( d.get(), s.cget() ); FORI( N ) CHECK( d.at( i ) == s.old[ i ] ); CHECK( d.guards() && s.same() ); }
  { Vec< D, N > d( "d" ); to::fill< N >( d.get(), c ); FORI( N ) CHECK( d.at( i ) == c ); CHECK( d.guards() ); }
  { Vec< D, N > d( "d" ); to::scale< N >( d.get(), c ); FORI( N ) NEAR( d.at( i ), d.old[ i ] * c ); CHECK( d.guards() ); }
  { Vec< D, N > d( "d" ); Vec< S, N > s( "s" ); to::scaledCopy< N >( d.get(), s.cget(), c ); FORI( N ) NEAR( d.at( i ), s.old[ i ] * c ); CHECK( d.guards() && s.same() ); }
  { Vec< D, N > d( "d" ); to::addScalar< N >( d.get(), c ); FORI( N ) NEAR( d.at( i ), d.old[ i ] + c ); CHECK( d.guards() ); }
  { Vec< D, N > d( "d" ); Vec< S, N > s( "s" ); to::add< N >( d.get(), s.cget() ); FORI( N ) NEAR( d.at( i ), d.old[ i ] + s.old[ i ] ); CHECK( d.guards() && s.same() ); }
  { Vec< D, N > d( "d" ); Vec< S, N > s( "s" ); to::subtract< N >( d.get(), s.cget() ); FORI( N ) NEAR( d.at( i ), d.old[ i ] - s.old[ i ] ); CHECK( d.guards() && s.same() ); }
  { Vec< D, N > d( "d" ); Vec< S, N > s( "s" ); to::scaledAdd< N >( d.get(), s.cget(), c ); FORI( N ) NEAR( d.at( i ), d.old[ i ] + s.old[ i ] * c ); CHECK( d.guards() && s.same() ); }
  { Vec< D, N > d( "d" ); Vec< S, N > a( "a" ); Vec< D, N > b( "b" ); to::hadamardProduct< N >( d.get(), a.cget(), b.cget() ); FORI( N ) NEAR( d.at( i ), a.old[ i ] * b.old[ i ] ); CHECK( d.guards() && a.same() && b.same() ); }
  { Vec< D, N > a( "a" ); Vec< S, N > b( "b" ); double w = 0; FORI( N ) w += a.old[ i ] * b.old[ i ]; NEAR( to::AiBi< N >( a.cget(), b.cget() ), w ); CHECK( a.same() && b.same() ); }
  { Vec< S, N > a( "a" ); double w = 0; FORI( N ) w += a.old[ i ] * a.old[ i ]; NEAR( to::l2NormSquared< N >( a.cget() ), w ); CHECK( a.same() ); }
  REACH( "done" );
}
template< int S, int N > void norms()
{
  { Vec< S, N > a( "a" ); double w = 0; FORI( N ) w += a.old[ i ] * a.old[ i ]; double n = to::l2Norm< N >( a.cget() ); CHECK( n >= 0 ); NEAR( n * n, w ); CHECK( a.same() ); }
  REACH( "done" );
}
template< int S, int N > void normal()
{
  Vec< S, N > a( "a" ); double w = 0; FORI( N ) w += a.old[ i ] * a.old[ i ]; ASSUME( w > 0 ); double n = to::normalize< N >( a.get() ); CHECK( n > 0 ); NEAR( n * n, w ); FORI( N ) NEAR( a.at( i ) * n, a.old[ i ] ); CHECK( a.guards() ); REACH( "done" );
}
template< int S, int N > void maxAbs()
{
  Vec< S, N > a( "a" ); double m = to::maxAbsoluteEntry< N >( a.get() ); double p = 1; FORI( N ) { CHECK( m >= a.old[ i ] && m >= -a.old[ i ] ); p *= m * m - a.old[ i ] * a.old[ i ]; } NEAR( p, 0 ); CHECK( a.same() ); REACH( "done" );
}
template< int D, int S, int M, int N > void matrices()
{
  double const c = sym< double >( "c" );
  { Mat< D, M, N > d( "d" ); Mat< S, M, N > s( "s" ); to::copy< M, N >( d.get(), s.cget() ); FORI( M ) FORJ( N ) CHECK( d.at( i, j ) == s.old[ i ][ j ] ); CHECK( d.guards() && s.same() ); }
  { Mat< D, M, N > d( "d" ); to::fill< M, N >( d.get(), c ); FORI( M ) FORJ( N ) CHECK( d.at( i, j ) == c ); CHECK( d.guards() ); }
  { Mat< D, M, N > d( "d" ); to::scale< M, N >( d.get(), c ); FORI( M ) FORJ( N ) NEAR( d.at( i, j ), d.old[ i ][ j ] * c ); CHECK( d.guards() ); }
  { Mat< D, M, N > d( "d" ); Mat< S, M, N > s( "s" ); to::scaledCopy< M, N >( d.get(), s.cget(), c ); FORI( M ) FORJ( N ) NEAR( d.at( i, j ), s.old[ i ][ j ] * c ); CHECK( d.guards() && s.same() ); }
  { Mat< D, M, N > d( "d" ); Mat< S, M, N > s( "s" ); to::add< M, N >( d.get(), s.cget() ); FORI( M ) FORJ( N ) NEAR( d.at( i, j ), d.old[ i ][ j ] + s.old[ i ][ j ] ); CHECK( d.guards() && s.same() ); }
  { Mat< D, M, N > d( "d" ); Mat< S, M, N > s( "s" ); to::scaledAdd< M, N >( d.get(), s.cget(), c ); FORI( M ) FORJ( N ) NEAR( d.at( i, j ), d.old[ i ][ j ] + s.old[ i ][ j ] * c ); CHECK( d.guards() && s.same() ); }
  { Mat< D, M, N > d( "d" ); Vec< S, M > a( "a" ); Vec< D, N > b( "b" ); to::Rij_eq_AiBj< M, N >( d.get(), a.cget(), b.cget() ); FORI( M ) FORJ( N ) NEAR( d.at( i, j ), a.old[ i ] * b.old[ j ] ); CHECK( d.guards() && a.same() && b.same() ); }
  { Mat< D, M, N > d( "d" ); Vec< S, M > a( "a" ); Vec< D, N > b( "b" ); to::Rij_add_AiBj< M, N >( d.get(), a.cget(), b.cget() ); FORI( M ) FORJ( N ) NEAR( d.at( i, j ), d.old[ i ][ j ] + a.old[ i ] * b.old[ j ] ); CHECK( d.guards() && a.same() && b.same() ); }
  { Vec< D, M > d( "d" ); Mat< S, M, N > a( "a" ); Vec< S, N > b( "b" ); to::Ri_eq_AijBj< M, N >( d.get(), a.cget(), b.cget() ); FORI( M ) { double w = 0; FORJ( N ) w += a.old[ i ][ j ] * b.old[ j ]; NEAR( d.at( i ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  { Vec< D, M > d( "d" ); Mat< S, M, N > a( "a" ); Vec< S, N > b( "b" ); to::Ri_add_AijBj< M, N >( d.get(), a.cget(), b.cget() ); FORI( M ) { double w = d.old[ i ]; FORJ( N ) w += a.old[ i ][ j ] * b.old[ j ]; NEAR( d.at( i ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  { Vec< D, M > d( "d" ); Mat< S, N, M > a( "a" ); Vec< S, N > b( "b" ); to::Ri_eq_AjiBj< M, N >( d.get(), a.cget(), b.cget() ); FORI( M ) { double w = 0; FORJ( N ) w += a.old[ j ][ i ] * b.old[ j ]; NEAR( d.at( i ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  { Vec< D, M > d( "d" ); Mat< S, N, M > a( "a" ); Vec< S, N > b( "b" ); to::Ri_add_AjiBj< M, N >( d.get(), a.cget(), b.cget() ); FORI( M ) { double w = d.old[ i ]; FORJ( N ) w += a.old[ j ][ i ] * b.old[ j ]; NEAR( d.at( i ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  { Mat< D, M, N > d( "d" ); Mat< S, N, M > s( "s" ); to::transpose< M, N >( d.get(), s.cget() ); FORI( M ) FORJ( N ) CHECK( d.at( i, j ) == s.old[ j ][ i ] ); CHECK( d.guards() && s.same() ); }
  { Mat< D, M, M > d( "d" ); Mat< S, M, N > a( "a" ); to::Rij_add_AikAjk< M, N >( d.get(), a.cget() ); FORI( M ) FORJ( M ) { double w = d.old[ i ][ j ]; FORK( N ) w += a.old[ i ][ k ] * a.old[ j ][ k ]; NEAR( d.at( i, j ), w ); } CHECK( d.guards() && a.same() ); }
  { Mat< D, M, M > d( "d" ); Mat< S, N, M > a( "a" ); to::Rij_eq_AkiAkj< M, N >( d.get(), a.cget() ); FORI( M ) FORJ( M ) { double w = 0; FORK( N ) w += a.old[ k ][ i ] * a.old[ k ][ j ]; NEAR( d.at( i, j ), w ); } CHECK( d.guards() && a.same() ); }
  REACH( "done" );
}
template< int D, int S, int M > void square()
{
  double const c = sym< double >( "c" );
  { Mat< D, M, M > d( "d" ); to::transpose< M >( d.get() ); FORI( M ) FORJ( M ) CHECK( d.at( i, j ) == d.old[ j ][ i ] ); CHECK( d.guards() ); }
  { Mat< D, M, M > d( "d" ); to::addIdentity< M >( d.get(), c ); FORI( M ) FORJ( M ) NEAR( d.at( i, j ), d.old[ i ][ j ] + ( i == j ? c : 0 ) ); CHECK( d.guards() ); }
  { Mat< S, M, M > d( "d" ); double w = 0; FORI( M ) w += d.old[ i ][ i ]; NEAR( to::trace< M >( d.cget() ), w ); CHECK( d.same() ); }
  constexpr int Y = M * ( M + 1 ) / 2;
  { Vec< D, Y > d( "d" ); to::symAddIdentity< M >( d.get(), c ); FORI( Y ) NEAR( d.at( i ), d.old[ i ] + ( i < M ? c : 0 ) ); CHECK( d.guards() ); }
  { Vec< S, Y > d( "d" ); double w = 0; FORI( M ) w += d.old[ i ]; NEAR( to::symTrace< M >( d.cget() ), w ); CHECK( d.same() ); }
  REACH( "done" );
}
template< int D, int S, int M, int N, int K > void products()
{
#define PRODUCT( OP, ADD, AR, AC, BR, BC, AE, BE ) \
  { Mat< D, M, N > d( "d" ); Mat< S, AR, AC > a( "a" ); Mat< D, BR, BC > b( "b" ); to::OP< M, N, K >( d.get(), a.cget(), b.cget() ); \
    FORI( M ) FORJ( N ) { double w = ADD ? d.old[ i ][ j ] : 0.0; FORK( K ) w += a.old AE * b.old BE; NEAR( d.at( i, j ), w ); } CHECK( d.guards() && a.same() && b.same() ); }
  PRODUCT( Rij_eq_AikBkj, false, M, K, K, N, [ i ][ k ], [ k ][ j ] )
  PRODUCT( Rij_add_AikBkj, true, M, K, K, N, [ i ][ k ], [ k ][ j ] )
  PRODUCT( Rij_eq_AikBjk, false, M, K, N, K, [ i ][ k ], [ j ][ k ] )
  PRODUCT( Rij_add_AikBjk, true, M, K, N, K, [ i ][ k ], [ j ][ k ] )
  PRODUCT( Rij_eq_AkiBkj, false, K, M, K, N, [ k ][ i ], [ k ][ j ] )
  PRODUCT( Rij_add_AkiBkj, true, K, M, K, N, [ k ][ i ], [ k ][ j ] )
  REACH( "done" );
}
template< int D, int S > void cross()
{
  Vec< D, 3 > d( "d" ); Vec< S, 3 > a( "a" ); Vec< D, 3 > b( "b" ); to::crossProduct( d.get(), a.cget(), b.cget() );
  FORI( 3 ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; NEAR( d.at( i ), a.old[ j ] * b.old[ k ] - a.old[ k ] * b.old[ j ] ); } CHECK( d.guards() && a.same() && b.same() ); REACH( "done" );
}
#define KINDS( NAME, FN, ... ) ENTRY( NAME ## _00_R ) { FN< 0, 0, __VA_ARGS__ >(); } ENTRY( NAME ## _12_R ) { FN< 1, 2, __VA_ARGS__ >(); } ENTRY( NAME ## _20_R ) { FN< 2, 0, __VA_ARGS__ >(); } ENTRY( NAME ## _01_R ) { FN< 0, 1, __VA_ARGS__ >(); }
KINDS( vec1, vectors, 1 ) KINDS( vec2, vectors, 2 ) KINDS( vec3, vectors, 3 ) KINDS( vec4, vectors, 4 )
KINDS( mat11, matrices, 1, 1 ) KINDS( mat12, matrices, 1, 2 ) KINDS( mat22, matrices, 2, 2 ) KINDS( mat23, matrices, 2, 3 ) KINDS( mat32, matrices, 3, 2 ) KINDS( mat33, matrices, 3, 3 ) KINDS( mat31, matrices, 3, 1 ) KINDS( mat42, matrices, 4, 2 )
KINDS( sq1, square, 1 ) KINDS( sq2, square, 2 ) KINDS( sq3, square, 3 ) KINDS( sq4, square, 4 )
KINDS( prod111, products, 1, 1, 1 ) KINDS( prod222, products, 2, 2, 2 ) KINDS( prod232, products, 2, 3, 2 ) KINDS( prod123, products, 1, 2, 3 ) KINDS( prod321, products, 3, 2, 1 ) KINDS( prod213, products, 2, 1, 3 ) KINDS( prod333, products, 3, 3, 3 )
// larger sizes
KINDS( vec5, vectors, 5 ) KINDS( vec6, vectors, 6 ) KINDS( vec8, vectors, 8 ) KINDS( vec9, vectors, 9 ) KINDS( mat66, matrices, 6, 6 ) KINDS( mat38, matrices, 3, 8 ) KINDS( mat83, matrices, 8, 3 ) KINDS( sq5, square, 5 ) KINDS( sq6, square, 6 ) KINDS( prod636, products, 6, 3, 6 ) KINDS( prod338, products, 3, 3, 8 ) KINDS( prod283, products, 2, 8, 3 )
ENTRY( cross_00_R ) { cross< 0, 0 >(); } ENTRY( cross_12_R ) { cross< 1, 2 >(); } ENTRY( cross_20_R ) { cross< 2, 0 >(); }
ENTRY( norms_R ) { norms< 0, 1 >(); norms< 1, 2 >(); norms< 2, 3 >(); norms< 0, 4 >(); }
ENTRY( normalize1_R ) { normal< 0, 1 >(); } ENTRY( normalize2_R ) { normal< 2, 2 >(); } ENTRY( normalize3_R ) { normal< 1, 3 >(); } ENTRY( normalize4_R ) { normal< 0, 4 >(); }
ENTRY( maxabs1_R ) { maxAbs< 0, 1 >(); } ENTRY( maxabs2_R ) { maxAbs< 2, 2 >(); } ENTRY( maxabs3_R ) { maxAbs< 1, 3 >(); } ENTRY( maxabs4_R ) { maxAbs< 0, 4 >(); }
// integers
template< int N > void integers()
{
  int const c = range( "c", -8, 7 );
  auto v = []() { return range( "v", -1000, 1000 ); };
  int d[ N ], s[ N ], o[ N ]; FORI( N ) { o[ i ] = d[ i ] = v(); s[ i ] = v(); }
  switch( shape( "op", 0, 7 ) )
  {
    case 0: to::copy< N >( d, s ); FORI( N ) CHECK( d[ i ] == s[ i ] ); break;
    case 1: to::fill< N >( d, c ); FORI( N ) CHECK( d[ i ] == c ); break;
    case 2: to::add< N >( d, s ); FORI( N ) CHECK( d[ i ] == o[ i ] + s[ i ] ); break;
    case 3: to::subtract< N >( d, s ); FORI( N ) CHECK( d[ i ] == o[ i ] - s[ i ] ); break;
    case 4: to::addScalar< N >( d, c ); FORI( N ) CHECK( d[ i ] == o[ i ] + c ); break;
    case 5: { int m = to::maxAbsoluteEntry< N >( s ); bool any = false; FORI( N ) { CHECK( m >= s[ i ] && m >= -s[ i ] ); any |= m == s[ i ] || m == -s[ i ]; } CHECK( any ); break; }
    case 6: { int a[ N ][ N ], t = 0; FORI( N ) FORJ( N ) a[ i ][ j ] = i == j ? o[ i ] : 7; FORI( N ) t += o[ i ]; CHECK( to::trace< N >( a ) == t ); to::addIdentity< N >( a, c ); FORI( N ) FORJ( N ) CHECK( a[ i ][ j ] == ( i == j ? o[ i ] + c : 7 ) ); break; }
    default: to::scale< N >( d, 3 ); FORI( N ) CHECK( d[ i ] == o[ i ] * 3 ); break;
  }
  REACH( "done" );
}
ENTRY( integers1 ) { integers< 1 >(); } ENTRY( integers3 ) { integers< 3 >(); }
