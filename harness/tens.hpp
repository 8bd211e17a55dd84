// Vectors and matrices of the kinds the tensor operations accept: C arrays, contiguous and strided slices of arrays, inside guarded storage.
#pragma once
#include "lv.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "tensorOps.hpp"
using namespace LvArray;
namespace to = LvArray::tensorOps;
template< class T, int ND, class P > using Arr = Array< T, ND, P, std::ptrdiff_t, MallocBuffer >;
template< class T > struct Fresh { static T get( char const * n ) { return sym< T >( n ); } };
// ---- vectors: KIND 0 C array, 1 row of a row-major array, 2 row of a column-major array (strided)
template< int KIND, int N, class T = double > struct Vec;
template< int N, class T > struct Vec< 0, N, T >
{
  struct { T pre; T d[ N ]; T post; } s; T g[ 2 ], old[ N ];
  explicit Vec( char const * n ) { g[ 0 ] = s.pre = sym< T >( "guard" ); g[ 1 ] = s.post = sym< T >( "guard" ); for( int i = 0; i < N; ++i ) old[ i ] = s.d[ i ] = sym< T >( n ); }
  T ( & get() )[ N ] { return s.d; } T const ( & cget() )[ N ] { return s.d; }
  T at( int i ) { return s.d[ i ]; }
  bool guards() { return s.pre == g[ 0 ] && s.post == g[ 1 ]; }
  bool same() { bool r = guards(); for( int i = 0; i < N; ++i ) r &= s.d[ i ] == old[ i ]; return r; }
};
template< int N, class T, class PERM > struct VecArr
{
  Arr< T, 2, PERM > a; decltype( a.toViewConst() ) v; T old[ N ], g[ 2 * N ];
  explicit VecArr( char const * n ): a( 3, N ), v( a.toViewConst() ) { for( int i = 0; i < N; ++i ) { old[ i ] = a( 1, i ) = sym< T >( n ); g[ i ] = a( 0, i ) = sym< T >( "guard" ); g[ N + i ] = a( 2, i ) = sym< T >( "guard" ); } }
  auto get() { return a[ 1 ]; } auto cget() { return v[ 1 ]; }
  T at( int i ) { return a( 1, i ); }
  bool guards() { bool r = true; for( int i = 0; i < N; ++i ) r &= a( 0, i ) == g[ i ] && a( 2, i ) == g[ N + i ]; return r; }
  bool same() { bool r = guards(); for( int i = 0; i < N; ++i ) r &= a( 1, i ) == old[ i ]; return r; }
};
template< int N, class T > struct Vec< 1, N, T >: VecArr< N, T, RAJA::PERM_IJ > { using VecArr< N, T, RAJA::PERM_IJ >::VecArr; };
template< int N, class T > struct Vec< 2, N, T >: VecArr< N, T, RAJA::PERM_JI > { using VecArr< N, T, RAJA::PERM_JI >::VecArr; };
// ---- matrices: KIND 0 C array, 1 row-major slice, 2 slice of an array in which the last index varies slowest
template< int KIND, int M, int N, class T = double > struct Mat;
template< int M, int N, class T > struct Mat< 0, M, N, T >
{
  struct { T pre; T d[ M ][ N ]; T post; } s; T g[ 2 ], old[ M ][ N ];
  explicit Mat( char const * n ) { g[ 0 ] = s.pre = sym< T >( "guard" ); g[ 1 ] = s.post = sym< T >( "guard" ); for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) old[ i ][ j ] = s.d[ i ][ j ] = sym< T >( n ); }
  T ( & get() )[ M ][ N ] { return s.d; } T const ( & cget() )[ M ][ N ] { return s.d; }
  T at( int i, int j ) { return s.d[ i ][ j ]; }
  bool guards() { return s.pre == g[ 0 ] && s.post == g[ 1 ]; }
  bool same() { bool r = guards(); for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) r &= s.d[ i ][ j ] == old[ i ][ j ]; return r; }
};
template< int M, int N, class T, class PERM > struct MatArr
{
  Arr< T, 3, PERM > a; decltype( a.toViewConst() ) v; T old[ M ][ N ], g[ M ][ N ];
  explicit MatArr( char const * n ): a( 2, M, N ), v( a.toViewConst() ) { for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) { old[ i ][ j ] = a( 1, i, j ) = sym< T >( n ); g[ i ][ j ] = a( 0, i, j ) = sym< T >( "guard" ); } }
  auto get() { return a[ 1 ]; } auto cget() { return v[ 1 ]; }
  T at( int i, int j ) { return a( 1, i, j ); }
  bool guards() { bool r = true; for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) r &= a( 0, i, j ) == g[ i ][ j ]; return r; }
  bool same() { bool r = guards(); for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) r &= a( 1, i, j ) == old[ i ][ j ]; return r; }
};
template< int M, int N, class T > struct Mat< 1, M, N, T >: MatArr< M, N, T, RAJA::PERM_IJK > { using MatArr< M, N, T, RAJA::PERM_IJK >::MatArr; };
template< int M, int N, class T > struct Mat< 2, M, N, T >: MatArr< M, N, T, RAJA::PERM_KJI > { using MatArr< M, N, T, RAJA::PERM_KJI >::MatArr; };
template< class A, class B > void near( A a, B b, char const * m ) { lv_near64( static_cast< double >( a ), static_cast< double >( b ), m ); }
#define NEAR( A, B ) near( A, B, #A " == " #B " [line " LV_STR( __LINE__ ) "]" )
#define FORI( N ) for( int i = 0; i < N; ++i )
#define FORJ( N ) for( int j = 0; j < N; ++j )
#define FORK( N ) for( int k = 0; k < N; ++k )
