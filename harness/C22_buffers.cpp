// LV: variant=plain
// LV: variant=bounds -DLV_BOUNDS_CHECK -UNDEBUG
// BOUNDS: histories of 2 (thorough: 3) operations out of set capacity, reserve, grow, resize (with and without value), append, insert one or 0..2, remove, remove last, copy into another buffer, shallow copy, move, convert to const, move to a memory space, from 0..2 elements and 0..1 spare; heap buffers of int, 64-bit, heap-owning and copy-only elements, stack buffers of 4 elements; symbolic values and memory spaces (every enumerator and value -1..40)
// BOUNDS: reinterpreting buffers: element sizes 1, 2, 4, 8, 12 in both directions, capacities 0..12
// ASSUMES: built without CHAI, so MallocBuffer and StackBuffer only (ChaiBuffer is property C32)
#include "lv.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
using namespace LvArray;
template< class T > using Stack4 = StackBuffer< T, 4 >;
template< class B > struct Limit { static constexpr std::ptrdiff_t CAP = 1 << 20; static constexpr bool FIXED = false; };
template< class T, int L > struct Limit< StackBuffer< T, L > > { static constexpr std::ptrdiff_t CAP = L; static constexpr bool FIXED = true; };
using Model = Seq< int64_t, 24 >;
template< class B > void same( B const & b, Model const & m )
{
  bool ok = true; for( int k = 0; k < m.n; ++k ) { ok &= valueOf( b[ k ] ) == m.d[ k ]; ok &= &b[ k ] == b.data() + k; } CHECK( ok ); CHECK( b.capacity() >= m.n ); if( Limit< B >::FIXED ) CHECK( b.capacity() == Limit< B >::CAP );
}
#define GROWS( N, ... ) ABORTS_IFF( ( N ) > Limit< B >::CAP, __VA_ARGS__ )
template< class B > void spaces( B & b, std::ptrdiff_t n )
{
  auto const s = static_cast< MemorySpace >( range( "space", -1, 40 ) ); bool const bad = s != MemorySpace::host; bool const touch = range( "touch", 0, 1 ); auto * const p = b.data(); auto const c = b.capacity();
  switch( shape( "how", 0, 2 ) ) { case 0: ABORTS_IFF( bad, b.move( s, touch ) ); break; case 1: ABORTS_IFF( bad, b.moveNested( s, n, touch ) ); break; default: ABORTS_IFF( bad, b.registerTouch( s ) ); break; }
  CHECK( b.getPreviousSpace() == MemorySpace::host ); CHECK( b.data() == p ); CHECK( b.capacity() == c ); REACH( "space" );
}
template< class B > void op( B & b, Model & m, int o )
{
  using T = typename B::value_type; auto const cap = b.capacity();
  switch( o )
  {
    case 0: { int const c = shape( "c", 0, 5 ); GROWS( c, bufferManipulation::setCapacity( b, m.n, MemorySpace::host, c ) ); if( !Limit< B >::FIXED ) { CHECK( b.capacity() == c ); if( m.n > c ) m.n = c; } break; }
    case 1: { int const c = shape( "c", 0, 5 ); GROWS( c, bufferManipulation::reserve( b, m.n, MemorySpace::host, c ) ); CHECK( b.capacity() == ( c > cap ? c : cap ) ); break; }
    case 2: { int const c = shape( "c", 0, 5 ); GROWS( c, bufferManipulation::dynamicReserve( b, m.n, c ) ); CHECK( b.capacity() >= c ); CHECK( b.capacity() >= cap ); if( c <= cap ) CHECK( b.capacity() == cap ); break; }
    case 3: { int const n = shape( "n", 0, 5 ); if( shape( "value", 0, 1 ) ) { int const x = sym< int >( "x" ); T const v( x ); GROWS( n, bufferManipulation::resize( b, m.n, n, v ) ); while( m.n < n ) m.push( x ); } else { GROWS( n, bufferManipulation::resize( b, m.n, n ) ); while( m.n < n ) m.push( 0 ); } m.n = n; break; }
    case 4: { int const x = sym< int >( "x" ); GROWS( m.n + 1, bufferManipulation::emplaceBack( b, m.n, T( x ) ) ); m.push( x ); break; }
    case 5: { int const p = shape( "p", 0, m.n ), x = sym< int >( "x" ); GROWS( m.n + 1, bufferManipulation::emplace( b, m.n, p, T( x ) ) ); m.insert( p, x ); break; }
    case 6: { int const p = shape( "p", 0, m.n ), k = shape( "k", 0, 2 ); int x[ 2 ]; T v[ 2 ]; for( int q = 0; q < k; ++q ) { x[ q ] = sym< int >( "x" ); v[ q ] = T( x[ q ] ); } std::ptrdiff_t r = -1; GROWS( m.n + k, r = bufferManipulation::insert( b, m.n, p, v, v + k ) ); CHECK( r == k ); for( int q = 0; q < k; ++q ) m.insert( p + q, x[ q ] ); break; }
    case 7: { if( m.n == 0 ) break; bufferManipulation::popBack( b, m.n ); --m.n; break; }
    case 8: { int const p = shape( "p", 0, m.n ); ABORTS_IFF( p >= m.n, bufferManipulation::erase( b, m.n, p ) ); m.erase( p ); break; }
    case 9:
    {
      B d( true ); int const k = shape( "k", 0, 2 ); for( int q = 0; q < k; ++q ) bufferManipulation::emplaceBack( d, q, T( 9 ) ); bufferManipulation::copyInto( d, k, b, m.n ); same( d, m ); same( b, m ); CHECK( d.capacity() >= m.n );
      if( m.n ) { CHECK( d.data() != b.data() ); d[ 0 ] = T( 77 ); CHECK( valueOf( b[ 0 ] ) == m.d[ 0 ] ); } bufferManipulation::free( d, m.n ); break;
    }
    case 10: spaces( b, m.n ); break;
    default: { if( m.n == 0 ) break; int const x = sym< int >( "x" ); b[ m.n - 1 ] = T( x ); m.d[ m.n - 1 ] = x; CHECK( valueOf( b.data()[ m.n - 1 ] ) == x ); break; }
  }
  if( o != 0 && o != 1 && o != 2 && !Limit< B >::FIXED && m.n <= cap ) CHECK( b.capacity() == cap );
  REACH( "op" );
}
template< class T > void ownership( MallocBuffer< T > & b, Model const & m )
{
  T * const p = b.data(); auto const c = b.capacity(); MallocBuffer< T > s( b ); CHECK( s.data() == p ); CHECK( s.capacity() == c ); MallocBuffer< T > z( b, 3 ); CHECK( z.data() == p ); CHECK( z.capacity() == c ); MallocBuffer< T const > k( b ); CHECK( k.data() == p ); CHECK( k.capacity() == c ); same( k, m );
  MallocBuffer< T > a( true ); CHECK( a.data() == nullptr ); CHECK( a.capacity() == 0 ); a = b; CHECK( a.data() == p ); CHECK( a.capacity() == c ); same( a, m );
  if( m.n ) { a[ 0 ] = b[ m.n - 1 ]; CHECK( valueOf( b[ 0 ] ) == m.d[ m.n - 1 ] ); b[ 0 ] = T( static_cast< int >( m.d[ 0 ] ) ); }
  MallocBuffer< T > t( std::move( b ) ); CHECK( t.data() == p ); CHECK( t.capacity() == c ); CHECK( b.data() == nullptr ); CHECK( b.capacity() == 0 ); same( t, m );
  b = std::move( t ); CHECK( b.data() == p ); CHECK( b.capacity() == c ); CHECK( t.data() == nullptr ); CHECK( t.capacity() == 0 ); same( b, m ); static_assert( MallocBuffer< T >::hasShallowCopy, "" ); REACH( "ownership" );
}
template< class T, int L > void ownership( StackBuffer< T, L > & b, Model const & m )
{
  StackBuffer< T, L > s( b ), z( b, 3 ), a; a = b; StackBuffer< T const, L > const k( b ); same( s, m ); same( z, m ); same( a, m ); same( k, m ); CHECK( s.data() != b.data() ); CHECK( a.data() != b.data() );
  if( m.n ) { s[ 0 ] = T( 5 ); a[ 0 ] = T( 6 ); CHECK( valueOf( b[ 0 ] ) == m.d[ 0 ] ); } StackBuffer< T, L > t( std::move( b ) ); same( t, m ); b = std::move( t ); same( b, m ); static_assert( !StackBuffer< T, L >::hasShallowCopy, "" ); REACH( "ownership" );
}
#ifdef LV_THOROUGH
constexpr int OPS = 3; // thorough
#else
constexpr int OPS = 2;
#endif
template< class B > void history( int first, int last )
{
  using T = typename B::value_type; auto const before = lv_heap_live(); B b( true ); Model m; CHECK( b.capacity() == ( Limit< B >::FIXED ? Limit< B >::CAP : 0 ) );
  int const n = shape( "n", 0, 2 ); if( !Limit< B >::FIXED ) { int const c = n + shape( "spare", 0, 1 ); if( c ) bufferManipulation::setCapacity( b, 0, MemorySpace::host, c ); } for( int k = 0; k < n; ++k ) { int const v = sym< int >( "v" ); bufferManipulation::emplaceBack( b, k, T( v ) ); m.push( v ); }
  for( int o = 0; o < OPS; ++o ) { op( b, m, o ? shape( "op", 0, 11 ) : shape( "op", first, last ) ); same( b, m ); }
  ownership( b, m ); bufferManipulation::free( b, m.n ); CHECK( lv_heap_live() == before ); if( !Limit< B >::FIXED ) { CHECK( b.capacity() == 0 ); CHECK( b.data() == nullptr ); } REACH( "freed" );
}
ENTRY( int_a ) { history< MallocBuffer< int > >( 0, 5 ); }
ENTRY( int_b ) { history< MallocBuffer< int > >( 6, 11 ); }
ENTRY( owner_a ) { history< MallocBuffer< Owner > >( 0, 5 ); }
ENTRY( owner_b ) { history< MallocBuffer< Owner > >( 6, 11 ); }
ENTRY( deep_a ) { history< MallocBuffer< Deep > >( 0, 5 ); }
ENTRY( deep_b ) { history< MallocBuffer< Deep > >( 6, 11 ); }
ENTRY( stack_a ) { history< Stack4< int > >( 0, 5 ); }
ENTRY( stack_b ) { history< Stack4< int > >( 6, 11 ); }
ENTRY( stack_i64 ) { history< Stack4< std::int64_t > >( 0, 11 ); }
// reallocation is only possible in host memory
ENTRY( space_malloc ) { MallocBuffer< Owner > b; Model m; for( int k = 0; k < 2; ++k ) { int const v = sym< int >( "v" ); bufferManipulation::emplaceBack( b, k, v ); m.push( v ); } auto const s = static_cast< MemorySpace >( range( "space", -1, 40 ) ); lv_no_leak_check(); ABORTS_IFF( s != MemorySpace::host, bufferManipulation::setCapacity( b, m.n, s, 4 ) ); CHECK( b.capacity() == 4 ); same( b, m ); bufferManipulation::free( b, m.n ); REACH( "reallocated" ); }
// reinterpreted capacity: all and only the whole elements that fit
template< class T, class U > void reinterpret()
{
  int const n = shape( "n", 0, 12 ); MallocBuffer< T > b; bufferManipulation::setCapacity( b, 0, MemorySpace::host, n ); MallocBuffer< U > const u( b ); std::size_t const bytes = static_cast< std::size_t >( n ) * sizeof( T ); CHECK( static_cast< void * >( u.data() ) == static_cast< void * >( b.data() ) );
  CHECK( u.capacity() >= 0 ); CHECK( static_cast< std::size_t >( u.capacity() ) * sizeof( U ) <= bytes ); CHECK( static_cast< std::size_t >( u.capacity() + 1 ) * sizeof( U ) > bytes ); bufferManipulation::free( b, 0 ); REACH( "reinterpreted" );
}
struct Three { float x[ 3 ]; };
ENTRY( reinterpret_48 ) { reinterpret< float, double >(); reinterpret< double, float >(); }
ENTRY( reinterpret_12 ) { reinterpret< char, short >(); reinterpret< short, char >(); reinterpret< char, double >(); }
ENTRY( reinterpret_3 ) { reinterpret< Three, float >(); reinterpret< float, Three >(); reinterpret< Three, double >(); }
