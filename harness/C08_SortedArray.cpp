// BOUNDS: SortedArray histories: 3 operations (thorough 4) out of insert, remove, clear, reserve, copy, and 2 (thorough 3) range insertions or removals, starting from every set of 0 to 2 members; values 0..7, ranges up to 2; int and heap-owning elements, heap and stack buffers
#include "lv.hpp"
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include <vector>
#include <list>
#include <set>
using namespace LvArray;
template< class T > using Stack12 = StackBuffer< T, 12 >;
#ifdef LV_THOROUGH
constexpr int OPS = 4;
#else
constexpr int OPS = 3;
#endif
template< class A > void same( A const & a, Seq< int > const & m, bool shallow = true )
{
  CHECK( a.size() == m.n ); CHECK( a.empty() == ( m.n == 0 ) );
  auto const v = a.toView(); auto const c = a.toViewConst(); auto const s = a.toSlice();
  CHECK( v.size() == m.n && c.size() == m.n && s.size() == m.n && c.empty() == ( m.n == 0 ) ); CHECK( a.end() - a.begin() == m.n ); CHECK( !shallow || ( v.data() == a.data() && c.begin() == a.data() ) );
  bool ok = true; int i = 0;
  for( i = 0; i < m.n; ++i ) ok &= valueOf( a[ i ] ) == m.d[ i ] && valueOf( a( i ) ) == m.d[ i ] && valueOf( a.data()[ i ] ) == m.d[ i ] && valueOf( v[ i ] ) == m.d[ i ] && valueOf( c( i ) ) == m.d[ i ] && valueOf( s[ i ] ) == m.d[ i ];
  CHECK( ok );
  i = 0; for( auto const & x : a ) { CHECK( valueOf( x ) == m.d[ i ] ); ++i; }
}
template< class T, template< class > class B > void history( int ops, int hi, bool ranges )
{
  using A = SortedArray< T, std::ptrdiff_t, B >;
  A a; Seq< int > m;
  int n = shape( "n", 0, 2 ); T f[ 3 ]; int fv[ 3 ];
  for( int i = 0; i < n; ++i ) { fv[ i ] = range( "a", 0, hi ); if( i ) ASSUME( fv[ i - 1 ] < fv[ i ] ); f[ i ] = T( fv[ i ] ); m.push( fv[ i ] ); }
  CHECK( a.insert( f, f + n ) == n );
  for( int o = 0; o < ops; ++o )
  {
    switch( shape( "op", ranges ? 3 : 0, ranges ? 3 : 4 ) )
    {
      case 0: { int x = range( "x", 0, hi ); bool r = a.insert( T( x ) ); CHECK( r == m.setInsert( x ) ); break; }
      case 1: { int x = range( "x", 0, hi ); bool r = a.remove( T( x ) ); CHECK( r == m.setRemove( x ) ); break; }
      case 2:
        if( !ranges ) { a.clear(); m.n = 0; break; }
      case 3:
      {
        if( !ranges ) { a.reserve( 7 ); break; }
        bool const ins = shape( "ins", 0, 1 ) == 1; int k = 2;
        for( int i = 0; i < k; ++i ) { fv[ i ] = range( "f", 0, hi ); if( i ) ASSUME( fv[ i - 1 ] < fv[ i ] ); f[ i ] = T( fv[ i ] ); }
        int e = 0; std::ptrdiff_t r;
        if( ins ) { r = a.insert( f, f + k ); for( int i = 0; i < k; ++i ) e += m.setInsert( fv[ i ] ); }
        else { r = a.remove( f, f + k ); for( int i = 0; i < k; ++i ) e += m.setRemove( fv[ i ] ); }
        CHECK( r == e ); break;
      }
      default: { A b( a ); a.insert( T( 3 ) ); m.setInsert( 3 ); b.clear(); break; }
    }
    CHECK( a.size() == m.n );
  }
  same( a, m, B< T >::hasShallowCopy );
  int x = range( "x", 0, hi ); CHECK( a.contains( T( x ) ) == m.has( x ) ); CHECK( a.count( T( x ) ) == m.has( x ) ); CHECK( a.toView().contains( T( x ) ) == m.has( x ) ); CHECK( a.toViewConst().count( T( x ) ) == m.has( x ) );
  REACH( "done" );
}
ENTRY( history_int ) { history< int, MallocBuffer >( OPS, 7, false ); }
ENTRY( history_owner ) { history< Owner, MallocBuffer >( OPS, 7, false ); }
ENTRY( history_stack ) { history< int, Stack12 >( OPS, 7, false ); }
ENTRY( ranges_int ) { history< int, MallocBuffer >( OPS - 1, 7, true ); }
ENTRY( ranges_owner ) { history< Owner, MallocBuffer >( OPS - 1, 7, true ); }
ENTRY( ranges_stack ) { history< int, Stack12 >( OPS - 1, 7, true ); }
// full-width values; the inserted value may be an element of the array itself
ENTRY( values_full )
{
  SortedArray< int64_t, int, MallocBuffer > a; Seq< int64_t > m;
  for( int i = 0; i < 3; ++i ) { int64_t x = sym< int64_t >( "x" ); bool r = a.insert( x ); CHECK( r == m.setInsert( x ) ); }
  int64_t y = sym< int64_t >( "y" ); CHECK( a.contains( y ) == m.has( y ) ); bool r = a.remove( y ); CHECK( r == m.setRemove( y ) );
  CHECK( a.size() == m.n ); bool ok = true; for( int i = 0; i < m.n; ++i ) ok &= a[ i ] == m.d[ i ]; CHECK( ok );
}
ENTRY( own_element )
{
  SortedArray< Owner, int, MallocBuffer > a; Seq< int > m;
  for( int i = 0; i < 3; ++i ) { int x = range( "x", 0, 7 ); a.insert( Owner( x ) ); m.setInsert( x ); }
  int i = shape( "i", 0, m.n - 1 );
  bool r = a.insert( a[ i ] ); CHECK( !r ); same( a, m );
  Owner const v( a[ i ] ); r = a.remove( v ); CHECK( r ); m.erase( i ); same( a, m );
}
// ranges given by other iterators and by another sorted array
template< class It > int feed( SortedArray< int, int, MallocBuffer > & a, It b, It e, bool ins ) { return ins ? a.insert( b, e ) : a.remove( b, e ); }
ENTRY( iterators )
{
  SortedArray< int, int, MallocBuffer > a, b; Seq< int > m;
  int x0 = range( "x", 0, 7 ), x1 = range( "x", 0, 7 ); a.insert( x0 ); m.setInsert( x0 ); a.insert( x1 ); m.setInsert( x1 );
  int f0 = range( "f", 0, 7 ), f1 = range( "f", 0, 7 ); ASSUME( f0 < f1 );
  bool ins = shape( "ins", 0, 1 ); int r; int f[ 2 ] = { f0, f1 };
  switch( shape( "kind", 0, 1 ) )
  {
    case 0: { b.insert( f, f + 2 ); r = feed( a, b.begin(), b.end(), ins ); break; }
    default: { struct Node { int v; } nodes[ 2 ] = { { f0 }, { f1 } };
      struct It { Node * p; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int *; using reference = int &; using iterator_category = std::bidirectional_iterator_tag;
        int & operator*() const { return p->v; } It & operator++() { ++p; return *this; } It & operator--() { --p; return *this; } bool operator!=( It const & o ) const { return p != o.p; } bool operator==( It const & o ) const { return p == o.p; } };
      r = feed( a, It{ nodes }, It{ nodes + 2 }, ins ); break; }
  }
  int e = 0; for( int i = 0; i < 2; ++i ) e += ins ? m.setInsert( f[ i ] ) : m.setRemove( f[ i ] );
  CHECK( r == e ); same( a, m );
}
