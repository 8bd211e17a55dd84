// BOUNDS: all values of the 8 fixed-width integer types (plus bool, char, long, long long, size_t aliases), all 64 ordered pairs of them; no loops
#include "lv.hpp"
#include "limits.hpp"
using namespace LvArray;

template< class OUT, class IN > bool fits( IN x )
{
  // mathematical value of x compared with the range of OUT in 128 bits
  __int128 v = x;
  return v >= static_cast< __int128 >( std::numeric_limits< OUT >::min() ) && v <= static_cast< __int128 >( std::numeric_limits< OUT >::max() );
}
template< class OUT, class IN > void pair()
{
  IN x = sym< IN >( "x" );
  OUT r = 0;
  bool const ok = fits< OUT >( x );
  ABORTS_IFF( !ok, r = integerConversion< OUT >( x ) );
  CHECK( static_cast< __int128 >( r ) == static_cast< __int128 >( x ) );
  observe( static_cast< int64_t >( r ) );
  REACH( "converted" );
}
#define ALL( NAME, IN ) \
  ENTRY( NAME ## _i8 ) { pair< int8_t, IN >(); } ENTRY( NAME ## _i16 ) { pair< int16_t, IN >(); } ENTRY( NAME ## _i32 ) { pair< int32_t, IN >(); } ENTRY( NAME ## _i64 ) { pair< int64_t, IN >(); } \
  ENTRY( NAME ## _u8 ) { pair< uint8_t, IN >(); } ENTRY( NAME ## _u16 ) { pair< uint16_t, IN >(); } ENTRY( NAME ## _u32 ) { pair< uint32_t, IN >(); } ENTRY( NAME ## _u64 ) { pair< uint64_t, IN >(); }
ALL( i8, int8_t ) ALL( i16, int16_t ) ALL( i32, int32_t ) ALL( i64, int64_t )
ALL( u8, uint8_t ) ALL( u16, uint16_t ) ALL( u32, uint32_t ) ALL( u64, uint64_t )
ENTRY( ll_ull ) { pair< unsigned long long, long long >(); pair< long long, unsigned long long >(); }
ENTRY( size_int ) { pair< int, std::size_t >(); pair< std::size_t, int >(); pair< std::ptrdiff_t, std::size_t >(); pair< std::size_t, std::ptrdiff_t >(); }
ENTRY( char_ ) { pair< int, char >(); pair< char, int >(); pair< char, unsigned char >(); pair< signed char, char >(); }

template< class T > void limits()
{
  T x = sym< T >( "x" );
  CHECK( NumericLimits< T >::max >= x ); CHECK( NumericLimits< T >::min <= x ); CHECK( NumericLimits< T >::lowest <= x );
  NumericLimitsNC< T > nc;
  CHECK( nc.max >= x ); CHECK( nc.min <= x ); CHECK( nc.lowest <= x );
  CHECK( nc.max == std::numeric_limits< T >::max() ); CHECK( nc.min == std::numeric_limits< T >::min() );
  REACH( "limits" );
}
ENTRY( numericLimits ) { limits< int8_t >(); limits< int16_t >(); limits< int32_t >(); limits< int64_t >(); limits< uint8_t >(); limits< uint16_t >(); limits< uint32_t >(); limits< uint64_t >(); }
ENTRY( numericLimitsFloat )
{
  NumericLimitsNC< double > d; NumericLimitsNC< float > f;
  CHECK( d.max == std::numeric_limits< double >::max() ); CHECK( d.lowest == -d.max ); CHECK( d.min == std::numeric_limits< double >::min() ); CHECK( d.epsilon == std::numeric_limits< double >::epsilon() );
  CHECK( f.max == std::numeric_limits< float >::max() ); CHECK( f.lowest == -f.max ); CHECK( f.min == std::numeric_limits< float >::min() ); CHECK( f.epsilon == std::numeric_limits< float >::epsilon() );
  CHECK( d.denorm_min == std::numeric_limits< double >::denorm_min() ); CHECK( f.denorm_min == std::numeric_limits< float >::denorm_min() );
  CHECK( NumericLimits< double >::infinity == std::numeric_limits< double >::infinity() ); CHECK( NumericLimits< double >::quiet_NaN != NumericLimits< double >::quiet_NaN );
  CHECK( NumericLimits< double >::round_error == 0.5 );
  REACH( "limits" );
}
