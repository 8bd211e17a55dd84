// BOUNDS: fill, zero, assignment and copies of arrays of 0..7 values (1-D) or 0..3 by 2 (both orders) and of the rows and columns of the latter, of type double, float, 8- to 64-bit integers, bool, pointer, enumeration, padded structure and std::array, to values of every bit pattern (negative zero and NaNs included) compared bit by bit; what lies outside unchanged
#include "types.hpp"
#include "memcpy.hpp"
#include "sliceHelpers.hpp"
#include <umpireInterface.cpp>
template< class T, class PERM > void grid( bool arith )
{
  Array< T, 2, PERM, int, MallocBuffer > a, b; int const n = shape( "n", 0, 3 ); a.resize( n, 2 ); b.resize( n, 2 ); T m[ 3 ][ 2 ], w[ 3 ][ 2 ];
  for( int i = 0; i < n; ++i ) for( int j = 0; j < 2; ++j ) { a( i, j ) = m[ i ][ j ] = Gen< T >::get( "a" ); b( i, j ) = w[ i ][ j ] = Gen< T >::get( "b" ); }
  auto const v = a.toView(); ArrayView< T const, 2, typeManipulation::getStrideOneDimension( PERM() ), int, MallocBuffer > const c = b; T const x = Gen< T >::get( "x" );
  int const op = shape( "op", 0, 5 );
  switch( op )
  {
    case 0: v.template setValues< RAJA::seq_exec >( x ); for( auto & r: m ) for( T & e: r ) e = x; break;
    case 1: v.template setValues< RAJA::seq_exec >( c ); for( int i = 0; i < n; ++i ) for( int j = 0; j < 2; ++j ) m[ i ][ j ] = w[ i ][ j ]; break;
    case 2: { if( n == 0 ) return; int const i = shape( "i", 0, n - 1 ); forValuesInSlice( v[ i ], [&] ( T & e ) { e = x; } ); m[ i ][ 0 ] = m[ i ][ 1 ] = x; break; }
    case 3: if( n == 0 ) return; { int const i = shape( "i", 0, n - 1 ); auto const s = c[ i ]; for( int j = 0; j < 2; ++j ) { v[ i ][ j ] = s[ j ]; m[ i ][ j ] = w[ i ][ j ]; } } break;
    case 4: if( !arith ) return; std::memset( static_cast< void * >( m ), 0, sizeof( m ) ); a.zero(); break;
    default: LvArray::memcpy< 0, 0 >( v, std::array< int, 0 >{}, c, std::array< int, 0 >{} ); for( int i = 0; i < n; ++i ) for( int j = 0; j < 2; ++j ) m[ i ][ j ] = w[ i ][ j ]; break;
  }
  bool ok = true; for( int i = 0; i < n; ++i ) for( int j = 0; j < 2; ++j ) { ok &= bits( static_cast< T const & >( a( i, j ) ), m[ i ][ j ] ); ok &= bits( static_cast< T const & >( b( i, j ) ), w[ i ][ j ] ); } CHECK( ok ); REACH( "done" );
}
template< class T > void line( bool arith )
{
  Array< T, 1, RAJA::PERM_I, int, MallocBuffer > a; int const n = shape( "n", 0, 7 ); a.reserve( 9 ); a.resize( n ); T m[ 9 ]; for( int i = 0; i < 9; ++i ) { T const x = Gen< T >::get( "a" ); m[ i ] = x; std::memcpy( static_cast< void * >( a.data() + i ), &m[ i ], sizeof( T ) ); }
  T const x = Gen< T >::get( "x" ); int const op = shape( "op", 0, 2 ), from = op == 2 ? n : 0;
  if( op == 0 ) { a.toView().template setValues< RAJA::seq_exec >( x ); for( int i = 0; i < n; ++i ) m[ i ] = x; }
  else if( op == 1 ) { if( !arith ) return; a.zero(); std::memset( static_cast< void * >( m ), 0, sizeof( T ) * static_cast< std::size_t >( n ) ); }
  else { int const z = shape( "z", 0, 9 ); a.resizeDefault( z, x ); for( int i = n; i < z; ++i ) m[ i ] = x; CHECK( a.size() == z ); }
  bool ok = true; for( int i = 0; i < 9; ++i ) { bool const gone = from != 0 && i >= a.size(); ok &= gone | bits( static_cast< T const & >( a.data()[ i ] ), m[ i ] ); } CHECK( ok ); REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { constexpr bool zeroes = std::is_arithmetic< T >::value || std::is_pointer< T >::value; switch( shape( "kind", 0, 2 ) ) { case 0: grid< T, RAJA::PERM_IJ >( zeroes ); break; case 1: grid< T, RAJA::PERM_JI >( zeroes ); break; default: line< T >( zeroes ); break; } }
ONE( double, d ) ONE( float, f ) ONE( bool, b ) ONE( std::uint8_t, u8 ) ONE( std::int16_t, i16 ) ONE( std::uint64_t, u64 ) ONE( int *, ptr ) ONE( Colour, colour ) ONE( Padded, padded ) ONE( Group, group )
