// LV: config=bounds
// BOUNDS: every vector and matrix operation of tensorOps on slices of any extents (full-width 32-bit), both matrix layouts
#include "nd.hpp"
#include "tensorOps.hpp"
using namespace LvArray; using namespace LvArray::tensorOps;
static bool g_wrong;
inline int dim( int e ) { int const d = sym< int >( "extent" ); g_wrong |= d != e; return d; }
template< class T > struct VStore { T b[ 8 ]; int d[ 1 ], s[ 1 ]; };
template< class T > struct V : VStore< T >, ArraySlice< T, 1, 0, int >
{
  explicit V( int e ): VStore< T >(), ArraySlice< T, 1, 0, int >( this->b, this->d, this->s ) { this->d[ 0 ] = dim( e ); this->s[ 0 ] = 1; for( int i = 0; i < 8; ++i ) this->b[ i ] = T( i + 2 ); }
};
template< class T > struct MStore { T b[ 64 ]; int d[ 2 ], s[ 2 ]; };
template< class T, class P > struct Mat : MStore< T >, ArraySlice< T, 2, typeManipulation::getStrideOneDimension( P {} ), int >
{
  Mat( int e, int f ): MStore< T >(), ArraySlice< T, 2, typeManipulation::getStrideOneDimension( P {} ), int >( this->b, this->d, this->s )
  { this->d[ 0 ] = dim( e ); this->d[ 1 ] = dim( f ); int const k = typeManipulation::getStrideOneDimension( P {} ); this->s[ k ] = 1; this->s[ 1 - k ] = 8; for( int i = 0; i < 64; ++i ) this->b[ i ] = T( i % 9 == 0 ? 2 : 1 ); }
};
#define OP( N, DECL, ... ) case N: { DECL; ABORTS_IFF( g_wrong, __VA_ARGS__ ); REACH( "called" ); break; }
template< class P, class Q, int I, int J, int K > void general( int first, int last )
{
  using T = long; using W = V< T >; using A = Mat< T, P >; using B = Mat< T, Q >;
  int const o = shape( "o", first, last ); g_wrong = false;
  switch( o )
  {
    OP( 0, W a( J ), maxAbsoluteEntry< J >( a ) )
    OP( 1, W a( J ); W b( J ), copy< J >( a, b ) )
    OP( 2, A a( I, J ); B b( I, J ), ( copy< I, J >( a, b ) ) )
    OP( 3, W a( J ); W b( J ), add< J >( a, b ) )
    OP( 4, A a( I, J ); B b( I, J ), ( add< I, J >( a, b ) ) )
    OP( 5, W a( J ); W b( J ), subtract< J >( a, b ) )
    OP( 6, W a( J ); W b( J ); W c( J ), hadamardProduct< J >( a, b, c ) )
    OP( 7, W a( J ), l2NormSquared< J >( a ) )
    OP( 8, W a( J ); W b( J ), AiBi< J >( a, b ) )
    OP( 9, W a( 3 ); W b( 3 ); W c( 3 ), crossProduct( a, b, c ) )
    OP( 10, A a( I, J ); W b( I ); W c( J ), ( Rij_eq_AiBj< I, J >( a, b, c ) ) )
    OP( 11, A a( I, J ); W b( I ); W c( J ), ( Rij_add_AiBj< I, J >( a, b, c ) ) )
    OP( 12, W a( I ); A b( I, J ); W c( J ), ( Ri_eq_AijBj< I, J >( a, b, c ) ) )
    OP( 13, W a( I ); A b( I, J ); W c( J ), ( Ri_add_AijBj< I, J >( a, b, c ) ) )
    OP( 14, W a( I ); A b( J, I ); W c( J ), ( Ri_eq_AjiBj< I, J >( a, b, c ) ) )
    OP( 15, W a( I ); A b( J, I ); W c( J ), ( Ri_add_AjiBj< I, J >( a, b, c ) ) )
    OP( 16, A a( I, J ); B b( J, I ), ( LvArray::tensorOps::transpose< I, J >( a, b ) ) )
    OP( 17, A a( I, J ); B b( I, K ); A c( K, J ), ( Rij_eq_AikBkj< I, J, K >( a, b, c ) ) )
    OP( 18, A a( I, J ); B b( I, K ); A c( K, J ), ( Rij_add_AikBkj< I, J, K >( a, b, c ) ) )
    OP( 19, A a( I, J ); B b( I, K ); A c( J, K ), ( Rij_eq_AikBjk< I, J, K >( a, b, c ) ) )
    OP( 20, A a( I, J ); B b( I, K ); A c( J, K ), ( Rij_add_AikBjk< I, J, K >( a, b, c ) ) )
    OP( 21, A a( I, I ); B b( I, J ), ( Rij_add_AikAjk< I, J >( a, b ) ) )
    OP( 22, A a( I, J ); B b( K, I ); A c( K, J ), ( Rij_eq_AkiBkj< I, J, K >( a, b, c ) ) )
    OP( 23, A a( I, J ); B b( K, I ); A c( K, J ), ( Rij_add_AkiBkj< I, J, K >( a, b, c ) ) )
    OP( 24, A a( I, I ); B b( J, I ), ( Rij_eq_AkiAkj< I, J >( a, b ) ) )
    OP( 25, A a( J, J ), LvArray::tensorOps::transpose< J >( a ) )
    OP( 26, A a( J, J ), trace< J >( a ) )
    OP( 27, W a( J ), scale< J >( a, 2 ) )
    OP( 28, A a( I, J ), ( scale< I, J >( a, 2 ) ) )
    OP( 29, W a( J ); W b( J ), scaledCopy< J >( a, b, 2 ) )
    OP( 30, A a( I, J ); B b( I, J ), ( scaledCopy< I, J >( a, b, 2 ) ) )
    OP( 31, W a( J ); W b( J ), scaledAdd< J >( a, b, 2 ) )
    OP( 32, A a( I, J ); B b( I, J ), ( scaledAdd< I, J >( a, b, 2 ) ) )
    OP( 33, W a( J ), fill< J >( a, 2 ) )
    OP( 34, A a( I, J ), ( fill< I, J >( a, 2 ) ) )
    OP( 35, W a( J ), addScalar< J >( a, 2 ) )
    OP( 36, A a( J, J ), addIdentity< J >( a, 2 ) )
    OP( 37, W a( 6 ), symAddIdentity< 3 >( a, 2 ) )
    default: OP( 38, W a( 6 ), symTrace< 3 >( a ) )
  }
}
ENTRY( general_ij ) { general< RAJA::PERM_IJ, RAJA::PERM_JI, 2, 3, 4 >( 0, 38 ); }
ENTRY( general_ji ) { general< RAJA::PERM_JI, RAJA::PERM_IJ, 2, 3, 4 >( 0, 38 ); }
ENTRY( general_tall ) { general< RAJA::PERM_IJ, RAJA::PERM_IJ, 4, 2, 3 >( 0, 38 ); }
ENTRY( general_deep ) { general< RAJA::PERM_JI, RAJA::PERM_IJ, 3, 4, 2 >( 0, 38 ); }
template< int M, class P > void square()
{
  constexpr int S = M * ( M + 1 ) / 2; using T = double; using W = V< T >; using A = Mat< T, P >;
  int const o = shape( "o", 0, 16 ); g_wrong = false;
  switch( o )
  {
    OP( 0, A a( M, M ), determinant< M >( a ) )
    OP( 1, A a( M, M ); A b( M, M ), invert< M >( a, b ) )
    OP( 2, A a( M, M ), invert< M >( a ) )
    OP( 3, W a( S ), symDeterminant< M >( a ) )
    OP( 4, W a( S ); W b( S ), symInvert< M >( a, b ) )
    OP( 5, W a( S ), symInvert< M >( a ) )
    OP( 6, W a( M ); W b( S ); W c( M ), Ri_eq_symAijBj< M >( a, b, c ) )
    OP( 7, W a( M ); W b( S ); W c( M ), Ri_add_symAijBj< M >( a, b, c ) )
    OP( 8, A a( M, M ); W b( S ); A c( M, M ), Rij_eq_symAikBjk< M >( a, b, c ) )
    OP( 9, W a( S ); A b( M, M ); W c( S ), Rij_eq_AikSymBklAjl< M >( a, b, c ) )
    OP( 10, W a( S ); W b( M ), symRij_eq_AiAj< M >( a, b ) )
    OP( 11, W a( S ); W b( M ); W c( M ), symRij_eq_AiBj_plus_AjBi< M >( a, b, c ) )
    OP( 12, W a( S ); A b( M, M ), denseToSymmetric< M >( a, b ) )
    OP( 13, A a( M, M ); W b( S ), symmetricToDense< M >( a, b ) )
    OP( 14, W a( M ); W b( S ), symEigenvalues< M >( a, b ) )
    OP( 15, W a( M ); A b( M, M ); W c( S ), symEigenvectors< M >( a, b, c ) )
    default: OP( 16, W a( M ); W b( 3 ), normalize< M >( a ); l2Norm< 3 >( b ) )
  }
}
ENTRY( square2_FP ) { square< 2, RAJA::PERM_IJ >(); }
ENTRY( square3_FP ) { square< 3, RAJA::PERM_JI >(); }
