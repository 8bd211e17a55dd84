// BOUNDS: arrays of 17, 40 and 300 values (int and heap-owning elements; malloc and stack buffers): append, insert one value or a range of 1, 9, 40 or half as many as there are, erase, pop, resize by -20, -1, 1, 20 or 100, reserve, clear, copy, at every position of windows of five at the front, in the middle and at the end
#include "large.hpp"
template< class T > using Stack500 = StackBuffer< T, 500 >;
template< class T, class I, template< class > class B > void large( int n )
{
  Array< T, 1, RAJA::PERM_I, I, B > a; Big m; for( int i = 0; i < n; ++i ) { int const x = sym< int >( "a" ); a.emplace_back( x ); m.push_back( x ); }
  auto const cap = a.capacity(); auto const old = a.data();
  auto same = [&]() { int const c = static_cast< int >( m.size() ); CHECK( a.size() == static_cast< I >( c ) ); CHECK( a.capacity() >= static_cast< I >( c ) ); CHECK( a.dims()[ 0 ] == static_cast< I >( c ) ); bool ok = true; for( int i = 0; i < c; ++i ) ok &= valueOf( a[ i ] ) == m[ i ]; CHECK( ok ); };
  same();
  switch( shape( "op", 0, 6 ) )
  {
    case 0: { int const p = window( "p", n, 5 ), x = sym< int >( "x" ); a.emplace( static_cast< I >( p ), T( x ) ); m.insert( m.begin() + p, x ); break; }
    case 1: { int const p = window( "p", n - 1, 4 ); a.erase( static_cast< I >( p ) ); m.erase( m.begin() + p ); break; }
    case 2: { int const p = window( "p", n, 4 ), w = shape( "k", 0, 3 ), k = w == 0 ? 1 : w == 1 ? 9 : w == 2 ? 40 : n / 2 + 1; int f[ 160 ]; for( int q = 0; q < k; ++q ) { f[ q ] = sym< int >( "f" ); m.insert( m.begin() + p + q, f[ q ] ); } a.insert( static_cast< I >( p ), f, f + k ); break; }
    case 3: { int const w = shape( "k", 0, 4 ), s = n + ( w == 0 ? ( n > 20 ? -20 : -n ) : w == 1 ? -1 : w == 2 ? 1 : w == 3 ? 20 : 100 ); if( shape( "def", 0, 1 ) ) { int const x = sym< int >( "x" ); a.resizeDefault( static_cast< I >( s ), T( x ) ); m.resize( s, x ); } else { a.resize( static_cast< I >( s ) ); m.resize( s, dflt< T >() ); } break; }
    case 4: { int const k = n + shape( "k", 0, 3 ) * 30; a.reserve( static_cast< I >( k ) ); CHECK( a.capacity() >= static_cast< I >( k ) ); a.emplace_back( 5 ); m.push_back( 5 ); break; }
    case 5: { int const k = shape( "k", 1, 3 ); for( int q = 0; q < k; ++q ) { a.pop_back(); m.pop_back(); } a.emplace_back( 6 ); m.push_back( 6 ); break; }
    default: { auto b( a ); a.clear(); CHECK( a.size() == 0 ); a.emplace_back( 7 ); CHECK( a.size() == 1 && valueOf( a[ 0 ] ) == 7 ); a = b; b.clear(); break; }
  }
  CHECK( a.capacity() >= cap || !std::is_same< B< T >, MallocBuffer< T > >::value ); CHECK( static_cast< I >( m.size() ) > cap || a.capacity() > cap || a.data() == old );
  same(); REACH( "done" );
}
ENTRY( large17 ) { large< Owner, int, MallocBuffer >( 17 ); }
ENTRY( large40 ) { large< int, std::ptrdiff_t, MallocBuffer >( 40 ); }
ENTRY( large40_stack ) { large< int, int, Stack500 >( 40 ); }
ENTRY( large300 ) { large< Owner, int, MallocBuffer >( 300 ); }
