// BOUNDS: two-dimensional arrays of both permutations and 0..2 by 0..2 elements of type double, float, bool, 8- to 64-bit integers, pointer, enumeration, padded structure, std::array, heap-owning and preset resized along either dimension to 0..3, with and without a default; symbolic values of every bit pattern compared bit by bit
#include "types.hpp"
template< class T, class PERM > void resizing()
{
  Array< T, 2, PERM, int, MallocBuffer > a; int d[ 2 ] = { shape( "r", 0, 2 ), shape( "c", 0, 2 ) }; a.resize( d[ 0 ], d[ 1 ] ); T v[ 4 ][ 4 ] = {};
  for( int i = 0; i < d[ 0 ]; ++i ) for( int j = 0; j < d[ 1 ]; ++j ) { CHECK( bits( a( i, j ), T() ) ); v[ i ][ j ] = Gen< T >::get( "a" ); a( i, j ) = v[ i ][ j ]; }
  int const dim = shape( "dim", 0, 1 ), s = shape( "s", 0, 3 ); bool const dflt = shape( "default", 0, 1 ); T const x = dflt ? Gen< T >::get( "x" ) : T(); int const old = d[ dim ];
  a.setSingleParameterResizeIndex( dim ); if( dflt ) a.resizeDefault( s, x ); else a.resize( s ); d[ dim ] = s;
  CHECK( a.size( 0 ) == d[ 0 ] && a.size( 1 ) == d[ 1 ] && a.size() == d[ 0 ] * d[ 1 ] ); bool ok = true;
  for( int i = 0; i < d[ 0 ]; ++i ) for( int j = 0; j < d[ 1 ]; ++j ) ok &= bits( a( i, j ), ( dim == 0 ? i : j ) < old ? v[ i ][ j ] : x ); CHECK( ok ); REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { if( shape( "perm", 0, 1 ) ) resizing< T, RAJA::PERM_IJ >(); else resizing< T, RAJA::PERM_JI >(); }
LV_PLAIN( ONE )
