// BOUNDS: every history of 3 operations (thorough 4) out of append, insert one, insert range (0..2 values from pointer or list iterators), erase, pop, resize (0..4), resize with default, reserve, clear and copy, from every start length 0..2; positions symbolic in range, values symbolic 32-bit; int, heap-owning, copy-only and byte-copyable elements with a default other than zero, heap and stack buffers, int32/int64/uint32 index types
// ASSUMES: pop_back is called on non-empty arrays only; arguments do not alias the array's own elements
#include "nd.hpp"
#ifdef LV_THOROUGH
constexpr int OPS = 4;
#else
constexpr int OPS = 3;
#endif
template< class T > using Stack12 = StackBuffer< T, 12 >;
template< class A > void same( A const & a, Seq< int > const & m, bool shallow )
{
  CHECK( a.size() == m.n ); CHECK( a.size( 0 ) == m.n ); CHECK( a.empty() == ( m.n == 0 ) ); CHECK( a.capacity() >= m.n ); CHECK( a.dims()[ 0 ] == m.n ); CHECK( a.strides()[ 0 ] == 1 );
  bool ok = true; auto const v = a.toView(); auto const c = a.toViewConst(); CHECK( v.size() == m.n && c.size() == m.n ); CHECK( !shallow || c.data() == a.data() );
  for( int i = 0; i < m.n; ++i ) ok &= valueOf( a[ i ] ) == m.d[ i ] && valueOf( a( i ) ) == m.d[ i ] && valueOf( c[ i ] ) == m.d[ i ];
  CHECK( ok );
  if( m.n > 0 ) { CHECK( valueOf( a.front() ) == m.d[ 0 ] ); CHECK( valueOf( a.back() ) == m.d[ m.n - 1 ] ); }
  int i = 0; for( auto const & x : a ) { CHECK( valueOf( x ) == m.d[ i ] ); ++i; } CHECK( i == m.n );
}
template< class T, class I, template< class > class B > void history( int ops, int first, int last )
{
  Array< T, 1, RAJA::PERM_I, I, B > a; Seq< int > m;
  int n = shape( "n", 0, 2 ); if( shape( "spare", 0, 1 ) ) a.reserve( n + 1 );
  for( int i = 0; i < n; ++i ) { int x = sym< int >( "a" ); a.emplace_back( x ); m.push( x ); }
  for( int o = 0; o < ops; ++o )
  {
    auto const cap = a.capacity(); auto const old = a.data();
    switch( shape( "op", first, last ) )
    {
      case 0: { int x = sym< int >( "x" ); a.emplace_back( x ); m.push( x ); break; }
      case 1: { int x = sym< int >( "x" ); int p = range( "p", 0, m.n ); a.emplace( static_cast< I >( p ), T( x ) ); m.insert( p, x ); break; }
      case 2: { if( m.n == 0 ) break; int p = range( "p", 0, m.n - 1 ); a.erase( static_cast< I >( p ) ); m.erase( p ); break; }
      case 3: { int p = range( "p", 0, m.n ), k = shape( "k", 0, 2 ); int f[ 2 ]; for( int i = 0; i < k; ++i ) f[ i ] = sym< int >( "f" ); a.insert( static_cast< I >( p ), f, f + k ); for( int i = 0; i < k; ++i ) m.insert( p + i, f[ i ] ); break; }
      case 4: { if( m.n == 0 ) break; a.pop_back(); --m.n; break; }
      case 5: { int s = shape( "s", 0, 4 ); if( shape( "def", 0, 1 ) ) { int x = sym< int >( "x" ); a.resizeDefault( static_cast< I >( s ), T( x ) ); while( m.n < s ) m.push( x ); } else { a.resize( static_cast< I >( s ) ); while( m.n < s ) m.push( dflt< T >() ); } m.n = s; break; }
      case 6: { int s = shape( "s", 0, 5 ); a.reserve( static_cast< I >( s ) ); CHECK( a.capacity() >= s ); break; }
      case 7: a.clear(); m.n = 0; break;
      default: { decltype( a ) b( a ); a.emplace_back( 3 ); m.push( 3 ); b.clear(); CHECK( a.size() == m.n ); break; }
    }
    CHECK( a.capacity() >= cap ); CHECK( m.n > cap || a.capacity() > cap || a.data() == old );
  }
  same( a, m, B< T >::hasShallowCopy ); REACH( "done" );
}
ENTRY( int_a ) { history< int, std::ptrdiff_t, MallocBuffer >( OPS, 0, 3 ); }
ENTRY( int_b ) { history< int, int, MallocBuffer >( OPS, 4, 8 ); }
ENTRY( owner_a ) { history< Owner, int, MallocBuffer >( 2, 0, 8 ); }
ENTRY( owner_a_T ) { history< Owner, int, MallocBuffer >( 3, 0, 3 ); }
ENTRY( owner_b ) { history< Owner, int, MallocBuffer >( OPS, 4, 8 ); }
ENTRY( preset ) { history< Preset, int, MallocBuffer >( 2, 0, 8 ); }
ENTRY( deep_mixed ) { history< Deep, int, MallocBuffer >( 2, 0, 8 ); }
ENTRY( mixed ) { history< int, int, MallocBuffer >( OPS - 1, 0, 8 ); }
ENTRY( unsigned_mixed ) { history< int, unsigned, MallocBuffer >( 2, 0, 8 ); }
ENTRY( stack_mixed ) { history< int, int, Stack12 >( 2, 0, 8 ); }
ENTRY( deep_T ) { history< Deep, int, MallocBuffer >( 3, 0, 8 ); }
ENTRY( lists )
{
  Array< Owner, 1, RAJA::PERM_I, int, MallocBuffer > a; Seq< int > m; int n = shape( "n", 0, 3 ); for( int i = 0; i < n; ++i ) { int x = sym< int >( "a" ); a.emplace_back( x ); m.push( x ); }
  int l[ 3 ]; int k = shape( "k", 0, 3 ), p = range( "p", 0, n ); for( int i = 0; i < k; ++i ) { l[ i ] = sym< int >( "f" ); m.insert( p + i, l[ i ] ); }
  a.insert( p, Fwd< int >{ l }, Fwd< int >{ l + k } );
  same( a, m, true ); REACH( "done" );
}
// long ranges relative to the tail: every split of the shifted part
ENTRY( long_ranges )
{
  Array< Deep, 1, RAJA::PERM_I, int, MallocBuffer > a; Seq< int > m; int n = shape( "n", 0, 5 ), k = shape( "k", 1, 5 ), p = range( "p", 0, n ); if( shape( "spare", 0, 1 ) ) a.reserve( 10 );
  for( int i = 0; i < n; ++i ) { a.emplace_back( 10 + i ); m.push( 10 + i ); }
  int f[ 5 ]; for( int i = 0; i < k; ++i ) { f[ i ] = sym< int >( "f" ); m.insert( p + i, f[ i ] ); }
  a.insert( p, f, f + k ); same( a, m, true );
  int e = range( "e", 0, m.n - 1 ); a.erase( e ); m.erase( e ); same( a, m, true ); REACH( "done" );
}
