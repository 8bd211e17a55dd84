// BOUNDS: buffers of 17, 40 and 300 values: one operation on values at every position of windows of five; capacities and sizes 20 and 100 apart; ranges of 1, 9, 40 or half as many as there are; symbolic values, int, heap-owning and copy-only elements
#include "large.hpp"
template< class T > void large( int n )
{
  auto const before = lv_heap_live(); {
  MallocBuffer< T > b( true ); Big m; namespace bm = bufferManipulation; for( int i = 0; i < n; ++i ) { int const x = sym< int >( "a" ); bm::emplaceBack( b, i, T( x ) ); m.push_back( x ); }
  auto same = [&]( MallocBuffer< T > const & c ) { bool ok = c.capacity() >= static_cast< std::ptrdiff_t >( m.size() ); for( int i = 0; i < static_cast< int >( m.size() ); ++i ) ok &= valueOf( c[ i ] ) == m[ i ]; CHECK( ok ); }; same( b );
  switch( shape( "op", 0, 7 ) )
  {
    case 0: { int const w = shape( "c", 0, 3 ), c = w == 0 ? 3 : w == 1 ? n : w == 2 ? n + 1 : n + 100; bm::setCapacity( b, n, MemorySpace::host, c ); CHECK( b.capacity() == c ); if( c < n ) m.resize( c ); break; }
    case 1: { auto const cap = b.capacity(); int const c = shape( "c", 0, 1 ) * 300; bm::reserve( b, n, MemorySpace::host, c ); CHECK( b.capacity() == ( c > cap ? c : cap ) ); break; }
    case 2: { int const w = shape( "c", 0, 3 ), c = w == 0 ? 0 : w == 1 ? n - 1 : w == 2 ? n + 1 : n + 100; if( shape( "value", 0, 1 ) ) { int const x = sym< int >( "x" ); T const v( x ); bm::resize( b, n, c, v ); m.resize( c, x ); } else { bm::resize( b, n, c ); m.resize( c, 0 ); } break; }
    case 3: { int const p = window( "p", n, 4 ), x = sym< int >( "x" ); bm::emplace( b, n, p, T( x ) ); m.insert( m.begin() + p, x ); break; }
    case 4: { int const p = window( "p", n, 4 ), w = shape( "k", 0, 3 ), k = w == 0 ? 1 : w == 1 ? 9 : w == 2 ? 40 : n / 2 + 1; T f[ 160 ]; for( int q = 0; q < k; ++q ) { int const x = sym< int >( "f" ); f[ q ] = T( x ); m.insert( m.begin() + p + q, x ); } auto const r = bm::insert( b, n, p, f, f + k ); CHECK( r == k ); break; }
    case 5: { int const p = window( "p", n - 1, 4 ); bm::erase( b, n, p ); m.erase( m.begin() + p ); break; }
    case 6: { MallocBuffer< T > d( true ); int const w = shape( "k", 0, 2 ), k = w == 0 ? 0 : w == 1 ? 5 : n + 20; for( int q = 0; q < k; ++q ) bm::emplaceBack( d, q, T( 9 ) ); bm::copyInto( d, k, b, n ); same( d ); d[ 0 ] = T( 77 ); CHECK( valueOf( b[ 0 ] ) == m[ 0 ] ); bm::free( d, n ); break; }
    default: bm::popBack( b, n ); m.pop_back(); bm::dynamicReserve( b, n - 1, n + 60 ); CHECK( b.capacity() >= n + 60 ); break;
  }
  same( b ); bm::free( b, static_cast< std::ptrdiff_t >( m.size() ) ); CHECK( b.data() == nullptr ); }
  CHECK( lv_heap_live() == before ); REACH( "done" );
}
ENTRY( large17_owner ) { large< Owner >( 17 ); }
ENTRY( large40_deep ) { large< Deep >( 40 ); }
ENTRY( large300 ) { large< int >( 300 ); }
ENTRY( large300_owner ) { large< Owner >( 300 ); }
