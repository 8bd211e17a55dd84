// element types beyond int and the heap-owning ones, with symbolic values of every bit pattern, compared bit by bit
#pragma once
#include "rows.hpp"
enum class Colour: std::int16_t { red = -300, green = 0, blue = 7 };
struct Padded { std::int8_t c; double d; std::int16_t s; };               // trivially copyable, with padding and a double inside
struct Back { int v; bool operator<( Back const & o ) const { return v > o.v; } bool operator==( Back const & o ) const { return v == o.v; } bool operator!=( Back const & o ) const { return v != o.v; } bool operator>( Back const & o ) const { return v < o.v; } }; // ordered the other way round
struct Key { std::int16_t major, minor; bool operator<( Key const & o ) const { return ( major < o.major ) | ( ( major == o.major ) & ( minor < o.minor ) ); } bool operator==( Key const & o ) const { return ( major == o.major ) & ( minor == o.minor ); } bool operator!=( Key const & o ) const { return !( *this == o ); } bool operator>( Key const & o ) const { return o < *this; } };
using Group = std::array< float, 3 >;
inline int * pool() { static int p[ 8 ]; return p; }
template< class T > struct Gen { static T get( char const * n ) { return sym< T >( n ); } };
template<> struct Gen< Colour > { static Colour get( char const * n ) { return static_cast< Colour >( sym< std::int16_t >( n ) ); } };
template<> struct Gen< Padded > { static Padded get( char const * n ) { Padded p; p.c = sym< std::int8_t >( n ); p.d = sym< double >( n ); p.s = sym< std::int16_t >( n ); return p; } };
template<> struct Gen< Back > { static Back get( char const * n ) { return Back{ sym< int >( n ) }; } };
template<> struct Gen< Key > { static Key get( char const * n ) { Key k; k.major = sym< std::int16_t >( n ); k.minor = sym< std::int16_t >( n ); return k; } };
template<> struct Gen< Group > { static Group get( char const * n ) { Group g; for( float & x: g ) x = sym< float >( n ); return g; } };
template<> struct Gen< int * > { static int * get( char const * n ) { return pool() + range( n, 0, 7 ); } };
template<> struct Gen< Owner > { static Owner get( char const * n ) { return Owner( sym< int >( n ) ); } };
template<> struct Gen< Preset > { static Preset get( char const * n ) { return Preset( sym< int >( n ) ); } };
// identical, also for floating-point zeros of either sign and for NaNs
template< class T > bool bits( T const & a, T const & b ) { return a == b; }
template<> inline bool bits( double const & a, double const & b ) { std::uint64_t x, y; std::memcpy( &x, &a, 8 ); std::memcpy( &y, &b, 8 ); return x == y; }
template<> inline bool bits( float const & a, float const & b ) { std::uint32_t x, y; std::memcpy( &x, &a, 4 ); std::memcpy( &y, &b, 4 ); return x == y; }
template<> inline bool bits( Padded const & a, Padded const & b ) { return ( a.c == b.c ) & bits( a.d, b.d ) & ( a.s == b.s ); }
template<> inline bool bits( Group const & a, Group const & b ) { return bits( a[ 0 ], b[ 0 ] ) & bits( a[ 1 ], b[ 1 ] ) & bits( a[ 2 ], b[ 2 ] ); }
template<> inline bool bits( Preset const & a, Preset const & b ) { return valueOf( a ) == valueOf( b ); }
#define LV_PLAIN( M ) M( double, d ) M( float, f ) M( bool, b ) M( std::uint8_t, u8 ) M( std::int16_t, i16 ) M( std::uint64_t, u64 ) M( int *, ptr ) M( Colour, colour ) M( Padded, padded ) M( Group, group ) M( Owner, owner ) M( Preset, preset )
#define LV_ORDERED( M ) M( std::uint8_t, u8 ) M( std::int8_t, i8 ) M( std::int64_t, i64 ) M( std::uint64_t, u64 ) M( int *, ptr ) M( Colour, colour ) M( Back, back ) M( Key, key ) M( float, f ) M( double, d )
// a value to put into a set: 16 of them, spread over the range of the type so that the sign decides as well; of the floating-point ones both zeros, denormals, small and huge ones
inline std::uint64_t nibble( char const * n ) { return static_cast< std::uint64_t >( range< unsigned >( n, 0, 15 ) ); }
template< class T > struct Member { static T get( char const * n ) { return static_cast< T >( nibble( n ) << ( 8 * sizeof( T ) - 4 ) ); } };
template<> struct Member< bool > { static bool get( char const * n ) { return sym< bool >( n ); } };
template<> struct Member< int * > { static int * get( char const * n ) { return Gen< int * >::get( n ); } };
template<> struct Member< Colour > { static Colour get( char const * n ) { return static_cast< Colour >( Member< std::int16_t >::get( n ) ); } };
template<> struct Member< Back > { static Back get( char const * n ) { return Back{ Member< int >::get( n ) }; } };
template<> struct Member< Key > { static Key get( char const * n ) { std::uint64_t const x = nibble( n ); Key k; k.major = static_cast< std::int16_t >( x >> 2 << 14 ); k.minor = static_cast< std::int16_t >( x << 14 ); return k; } };
template<> struct Member< double > { static double get( char const * n ) { std::uint64_t const x = nibble( n ), b = ( x >> 3 << 63 ) | ( ( x >> 1 & 3 ) << 61 ) | ( x & 1 ); double d; std::memcpy( &d, &b, 8 ); return d; } };
template<> struct Member< float > { static float get( char const * n ) { std::uint32_t const x = static_cast< std::uint32_t >( nibble( n ) ), b = ( x >> 3 << 31 ) | ( ( x >> 1 & 3 ) << 29 ) | ( x & 1 ); float d; std::memcpy( &d, &b, 4 ); return d; } };
template< class T > T ordered( char const * n ) { return Member< T >::get( n ); }
// the oracle: a plain array of T
template< class T, int CAP = 12 > struct List
{
  T d[ CAP ]; int n = 0; List(): d{} {}
  void insert( int p, T const & v ) { if( n >= CAP ) lv_abort( "oracle capacity" ); for( int i = n; i > p; --i ) d[ i ] = d[ i - 1 ]; d[ p ] = v; ++n; }
  void push( T const & v ) { insert( n, v ); }
  void erase( int p ) { for( int i = p; i + 1 < n; ++i ) d[ i ] = d[ i + 1 ]; --n; }
  void resize( int s, T const & v ) { while( n < s ) push( v ); n = s; }
  // as a set: members equal to one already there do not replace it
  int find( T const & v ) const { for( int i = 0; i < n; ++i ) if( !( d[ i ] < v ) && !( v < d[ i ] ) ) return i; return -1; }
  bool put( T const & v ) { int p = 0; for(; p < n && d[ p ] < v; ++p ); if( p < n && !( v < d[ p ] ) ) return false; insert( p, v ); return true; }
  bool drop( T const & v ) { int const p = find( v ); if( p < 0 ) return false; erase( p ); return true; }
};
