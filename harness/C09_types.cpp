// BOUNDS: sorting (also descending, also with a companion array of another type), removing repetitions and testing for order on 0..4 (thorough: 0..5) values of type 8- to 64-bit integers, pointer, enumeration, a type ordered the other way round, a two-field key, float and double, sixteen values of each (both signs, zeros and denormals included)
#include "types.hpp"
#include "sortedArrayManipulation.hpp"
namespace sam = LvArray::sortedArrayManipulation;
#ifdef LV_THOROUGH
constexpr int NMAX = 5;
#else
constexpr int NMAX = 4;
#endif
template< class T > bool same( T const & a, T const & b ) { return !( a < b ) & !( b < a ); }
template< class T > int count( T const * v, int n, T const & x ) { int c = 0; for( int i = 0; i < n; ++i ) c += same( v[ i ], x ); return c; }
template< class T, class C > bool inOrder( T const * v, int n, bool strict, C less ) { bool ok = true; for( int i = 1; i < n; ++i ) ok &= strict ? bool( less( v[ i - 1 ], v[ i ] ) ) : !less( v[ i ], v[ i - 1 ] ); return ok; }
// companions tell where they come from; all other bits are symbolic
template< class P > struct Companion { static P get( int i ) { return P( i ); } static std::int64_t index( P const & p ) { return valueOf( p ); } };
template<> struct Companion< double > { static double get( int i ) { std::uint64_t const b = sym< std::uint64_t >( "d" ) << 3 | static_cast< std::uint64_t >( i ); double d; std::memcpy( &d, &b, 8 ); return d; } static std::int64_t index( double const & d ) { std::uint64_t b; std::memcpy( &b, &d, 8 ); return static_cast< std::int64_t >( b & 7 ); } };
template<> struct Companion< std::uint64_t > { static std::uint64_t get( int i ) { return sym< std::uint64_t >( "d" ) << 3 | static_cast< std::uint64_t >( i ); } static std::int64_t index( std::uint64_t d ) { return static_cast< std::int64_t >( d & 7 ); } };
template<> struct Companion< std::int16_t > { static std::int16_t get( int i ) { return static_cast< std::int16_t >( sym< std::uint16_t >( "d" ) << 3 | i ); } static std::int64_t index( std::int16_t d ) { return d & 7; } };
template< class T, class P > void sorting()
{
  int const n = shape( "n", 0, NMAX ); T v[ NMAX + 1 ], o[ NMAX + 1 ]; for( int i = 0; i <= n; ++i ) v[ i ] = o[ i ] = ordered< T >( "v" ); T * const end = v + n;
  auto keeps = [&]( auto less ) { bool ok = true; for( int i = 0; i < n; ++i ) ok &= count( v, n, o[ i ] ) == count( o, n, o[ i ] ); CHECK( ok ); CHECK( inOrder( v, n, false, less ) ); CHECK( bits( v[ n ], o[ n ] ) ); };
  switch( shape( "op", 0, 5 ) )
  {
    case 0: sam::makeSorted( v, end ); keeps( sam::less< T >() ); break;
    case 1: sam::makeSorted( v, end, sam::greater< T >() ); keeps( sam::greater< T >() ); break;
    case 2: { auto const k = sam::makeSortedUnique( v, end ); int d = 0; for( int i = 0; i < n; ++i ) d += count( o, i, o[ i ] ) == 0; CHECK( k == d ); CHECK( inOrder( v, d, true, sam::less< T >() ) ); bool ok = true; for( int i = 0; i < n; ++i ) ok &= count( v, d, o[ i ] ) == 1; CHECK( ok ); CHECK( bits( v[ n ], o[ n ] ) ); break; }
    case 3: CHECK( sam::isSorted( v, end ) == inOrder( v, n, false, sam::less< T >() ) ); CHECK( sam::isSortedUnique( v, end ) == inOrder( v, n, true, sam::less< T >() ) ); break;
    default:
    {
      P d[ NMAX + 1 ], w[ NMAX + 1 ]; for( int i = 0; i <= n; ++i ) w[ i ] = d[ i ] = Companion< P >::get( i ); bool const down = shape( "down", 0, 1 ); if( down ) sam::dualSort( v, end, d, sam::greater< T >() ); else sam::dualSort( v, end, d );
      if( down ) { keeps( sam::greater< T >() ); } else { keeps( sam::less< T >() ); } bool seen[ NMAX + 1 ] = {}, ok = true; for( int i = 0; i < n; ++i ) { int const k = static_cast< int >( lv_concrete( Companion< P >::index( d[ i ] ) ) ); CHECK( k >= 0 && k < n && !seen[ k ] ); seen[ k ] = true; ok &= same( v[ i ], o[ k ] ); ok &= bits( d[ i ], w[ k ] ); } CHECK( ok ); CHECK( bits( d[ n ], w[ n ] ) );
    }
  }
  REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { sorting< T, std::conditional_t< sizeof( T ) == 1, double, std::conditional_t< sizeof( T ) == 2, Owner, std::conditional_t< sizeof( T ) == 8, std::int16_t, std::uint64_t > > > >(); }
LV_ORDERED( ONE )
