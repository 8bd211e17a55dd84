// BOUNDS: all values of every integer type (squares: values whose square fits) and of float and double (NaN excluded for max/min); the libm functions are uninterpreted functions, one per function and precision; square roots also over the real numbers
// ASSUMES: abs of the most negative value and squares that overflow are outside the contract
#include "lv.hpp"
#include "math.hpp"
using namespace LvArray;
template< class T > uint64_t bits( T x ) { uint64_t r = 0; std::memcpy( &r, &x, sizeof( T ) ); return r; }
#define SAME( T, A, B ) do { auto lv_a = A; static_assert( std::is_same< decltype( lv_a ), T >::value, "result type" ); T lv_b = B; CHECK( bits< T >( lv_a ) == bits< T >( lv_b ) ); } while( false )
template< class T > void ordered()
{
  T x = sym< T >( "x" ), y = sym< T >( "y" ); T const M = math::max( x, y ), m = math::min( x, y );
  CHECK( M >= x && M >= y && ( M == x || M == y ) ); CHECK( m <= x && m <= y && ( m == x || m == y ) ); CHECK( math::max( x, x ) == x && math::min( x, x ) == x );
  REACH( "done" );
}
template< class T > void signedAbs()
{
  T x = sym< T >( "x" ); ASSUME( x > std::numeric_limits< T >::min() ); T const a = math::abs( x );
  CHECK( a >= 0 && ( a == x || a == -x ) ); REACH( "done" );
}
ENTRY( minmax_i8 ) { ordered< int8_t >(); } ENTRY( minmax_u8 ) { ordered< uint8_t >(); } ENTRY( minmax_i16 ) { ordered< int16_t >(); } ENTRY( minmax_u16 ) { ordered< uint16_t >(); }
ENTRY( minmax_i32 ) { ordered< int32_t >(); } ENTRY( minmax_u32 ) { ordered< uint32_t >(); } ENTRY( minmax_i64 ) { ordered< int64_t >(); } ENTRY( minmax_u64 ) { ordered< uint64_t >(); }
ENTRY( minmax_ll ) { ordered< long long >(); } ENTRY( minmax_char ) { ordered< char >(); } ENTRY( minmax_bool ) { ordered< bool >(); }
ENTRY( abs_int ) { signedAbs< int8_t >(); signedAbs< int16_t >(); signedAbs< int32_t >(); signedAbs< int64_t >(); signedAbs< long long >(); }
template< class T > void orderedF()
{
  T x = sym< T >( "x" ), y = sym< T >( "y" ); ASSUME( x == x ); ASSUME( y == y ); T const M = math::max( x, y ), m = math::min( x, y );
  CHECK( M >= x && M >= y && ( M == x || M == y ) ); CHECK( m <= x && m <= y && ( m == x || m == y ) ); REACH( "done" );
}
ENTRY( minmax_double_FP ) { orderedF< double >(); } ENTRY( minmax_float_FP ) { orderedF< float >(); }
template< class T > void absF() { T x = sym< T >( "x" ); ASSUME( x == x ); T const a = math::abs( x ); CHECK( a >= 0 && ( a == x || a == -x ) ); CHECK( !std::signbit( a ) ); REACH( "done" ); }
ENTRY( abs_double_FP ) { absF< double >(); } ENTRY( abs_float_FP ) { absF< float >(); }
ENTRY( square_int )
{
  int x = range( "x", -46340, 46340 ); CHECK( math::square( x ) == x * x );
  unsigned u = sym< unsigned >( "u" ); CHECK( math::square( u ) == u * u ); int8_t s = range< int8_t >( "s", -11, 11 ); CHECK( math::square( s ) == s * s ); REACH( "done" );
}
ENTRY( square_R ) { double x = sym< double >( "x" ); lv_near64( math::square( x ), x * x, "square" ); float f = sym< float >( "f" ); lv_near64( math::square( f ), double( f ) * f, "square" ); REACH( "done" ); }
ENTRY( square_double_FP ) { double x = sym< double >( "x" ); SAME( double, math::square( x ), x * x ); float f = sym< float >( "f" ); SAME( float, math::square( f ), f * f ); REACH( "done" ); }
// square roots over the reals
ENTRY( sqrt_R )
{
  double x = sym< double >( "x" ); ASSUME( x >= 0 ); double r = math::sqrt( x ); CHECK( r >= 0 ); lv_near64( r * r, x, "sqrt( x )^2 == x" );
  float f = sym< float >( "f" ); ASSUME( f >= 0 ); float g = math::sqrt( f ); CHECK( g >= 0 ); lv_near64( double( g ) * g, f, "sqrt( x )^2 == x" ); REACH( "done" );
}
ENTRY( invSqrt_R )
{
  double x = sym< double >( "x" ); ASSUME( x > 0 ); double r = math::invSqrt( x ); CHECK( r > 0 ); lv_near64( r * r * x, 1, "x / sqrt( x )^2 == 1" );
  float f = sym< float >( "f" ); ASSUME( f > 0 ); float g = math::invSqrt( f ); CHECK( g > 0 ); lv_near64( double( g ) * g * f, 1, "x / sqrt( x )^2 == 1" ); REACH( "done" );
}
// the integer overloads go through double, the float ones stay float
template< class T > void viaDouble()
{
  T x = sym< T >( "x" ), y = sym< T >( "y" ); double const d = static_cast< double >( x ), e = static_cast< double >( y );
  SAME( double, math::sqrt( x ), std::sqrt( d ) ); SAME( double, math::sin( x ), std::sin( d ) ); SAME( double, math::cos( x ), std::cos( d ) ); SAME( double, math::tan( x ), std::tan( d ) );
  SAME( double, math::invSqrt( x ), 1 / std::sqrt( d ) ); SAME( double, math::asin( x ), std::asin( d ) ); SAME( double, math::acos( x ), std::acos( d ) ); SAME( double, math::atan2( x, y ), std::atan2( d, e ) ); SAME( double, math::exp( x ), std::exp( d ) ); SAME( double, math::log( x ), std::log( d ) );
  double s = 0, c = 0; math::sincos( x, s, c ); CHECK( bits( s ) == bits( std::sin( d ) ) ); CHECK( bits( c ) == bits( std::cos( d ) ) );
  REACH( "done" );
}
ENTRY( libm_double_FP ) { viaDouble< double >(); }
ENTRY( libm_int_FP ) { viaDouble< int >(); }
ENTRY( libm_i64_FP ) { viaDouble< int64_t >(); }
ENTRY( libm_unsigned_FP ) { viaDouble< unsigned >(); }
ENTRY( libm_i8_FP ) { viaDouble< int8_t >(); }
ENTRY( libm_u64_FP ) { viaDouble< uint64_t >(); }
ENTRY( libm_i16_FP ) { viaDouble< int16_t >(); }
ENTRY( libm_float_FP )
{
  float x = sym< float >( "x" ), y = sym< float >( "y" );
  SAME( float, math::sqrt( x ), std::sqrt( x ) ); SAME( float, math::sin( x ), std::sin( x ) ); SAME( float, math::cos( x ), std::cos( x ) ); SAME( float, math::tan( x ), std::tan( x ) );
  SAME( float, math::invSqrt( x ), 1 / std::sqrt( x ) ); SAME( float, math::asin( x ), std::asin( x ) ); SAME( float, math::acos( x ), std::acos( x ) ); SAME( float, math::atan2( x, y ), std::atan2( x, y ) ); SAME( float, math::exp( x ), std::exp( x ) ); SAME( float, math::log( x ), std::log( x ) );
  float s = 0, c = 0; math::sincos( x, s, c ); CHECK( bits( s ) == bits( std::sin( x ) ) ); CHECK( bits( c ) == bits( std::cos( x ) ) );
  REACH( "done" );
}
ENTRY( invSqrt_int_R )
{
  int x = shape( "x", 1, 40 ); double r = math::invSqrt( x ); CHECK( r > 0 ); lv_near64( r * r * x, 1, "x / sqrt( x )^2 == 1" ); unsigned u = shape< unsigned >( "u", 1, 3 ); r = math::invSqrt( u ); lv_near64( r * r * u, 1, "x / sqrt( x )^2 == 1" ); REACH( "done" );
}
ENTRY( sincos_alias_FP )
{ // the parts end up in the right places in whatever order the references are given
  double th = sym< double >( "t" ), o[ 3 ] = { 1, 2, 3 }; math::sincos( th, o[ 2 ], o[ 0 ] ); CHECK( bits( o[ 2 ] ) == bits( std::sin( th ) ) && bits( o[ 0 ] ) == bits( std::cos( th ) ) && o[ 1 ] == 2 ); REACH( "done" );
}
// conversions of scalars
template< class T, class U > void conv() { U x = sym< U >( "x" ); static_assert( std::is_same< decltype( math::convert< T >( x ) ), T >::value, "type" ); CHECK( math::convert< T >( x ) == static_cast< T >( x ) ); }
ENTRY( convert_int ) { conv< int64_t, int >(); conv< int64_t, int8_t >(); conv< uint64_t, unsigned >(); conv< int, int16_t >(); conv< int8_t, int >(); conv< unsigned, int >(); conv< int, int >(); conv< int64_t, int64_t >(); REACH( "done" ); }
template< class T, class U > void convF() { U x = sym< U >( "x" ); CHECK( bits( math::convert< T >( x ) ) == bits( static_cast< T >( x ) ) ); }
ENTRY( convert_FP ) { convF< double, int >(); convF< double, float >(); convF< float, double >(); convF< double, double >(); convF< float, float >(); convF< float, int >(); convF< double, int64_t >(); convF< double, unsigned >(); REACH( "done" ); }
ENTRY( numValues ) { CHECK( math::numValues< int >() == 1 && math::numValues< double >() == 1 && math::numValues< float >() == 1 && math::numValues< long >() == 1 ); static_assert( std::is_same< math::SingleType< double >, double >::value, "" ); REACH( "done" ); }
