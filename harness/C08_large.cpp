// BOUNDS: sets of 18, 36 and 300 members in steps of three; one value, or a range of 20, 9 or 4 values two apart, in a window of six values at the front, in the middle or at the end, inserted or removed; int and heap-owning members
#define LV_ROWS 24
#define LV_COLS 330
#include "large.hpp"
template< class T > void large( int n, int len )
{
  SortedArray< T, std::ptrdiff_t, MallocBuffer > a; Seq< int, COLS > k; bool const insert = shape( "insert", 0, 1 );
  for( int i = 0; i < n; ++i ) { k.push( 3 * i ); a.insert( T( 3 * i ) ); }
  int const x = window( "x", 3 * n, 6 );
  if( shape( "range", 0, 1 ) )
  {
    T f[ 24 ]; int e = 0; for( int q = 0; q < len; ++q ) { f[ q ] = T( x + 2 * q ); e += insert ? k.setInsert( x + 2 * q ) : k.setRemove( x + 2 * q ); }
    auto const r = insert ? a.insert( f, f + len ) : a.remove( f, f + len ); CHECK( static_cast< int >( r ) == e );
  }
  else { bool const r = insert ? a.insert( T( x ) ) : a.remove( T( x ) ); CHECK( r == ( insert ? k.setInsert( x ) : k.setRemove( x ) ) ); }
  CHECK( a.size() == k.n ); bool ok = true; for( int i = 0; i < k.n; ++i ) ok &= valueOf( a[ i ] ) == k.d[ i ]; CHECK( ok );
  int const y = x + range( "y", -4, 4 ); bool const h = a.contains( T( y ) ); bool e = false; for( int i = 0; i < k.n; ++i ) e |= k.d[ i ] == y; CHECK( h == e ); REACH( "done" );
}
ENTRY( large18_owner ) { large< Owner >( 18, 20 ); }
ENTRY( large36 ) { large< int >( 36, 9 ); }
ENTRY( large300 ) { large< int >( 300, 4 ); }
// the first position that is not less, whether there are equal values or not
void finds( int n )
{
  Big v; int const dup = shape( "dup", 1, 3 ); for( int i = 0; i < n; ++i ) v.push_back( i / dup * 2 ); int const x = window( "x", v[ n - 1 ] + 2, 4 ) + range( "y", -1, 1 ); auto const p = sortedArrayManipulation::find( v.data(), n, x ); bool const h = sortedArrayManipulation::contains( v.data(), n, x );
  int const c = lv_concrete( x ); int e = 0; bool has = false; for( int i = 0; i < n; ++i ) { e += v[ i ] < c; has |= v[ i ] == c; } CHECK( p == e ); CHECK( h == has ); REACH( "done" );
}
ENTRY( find18 ) { finds( 18 ); }
ENTRY( find36 ) { finds( 36 ); }
ENTRY( find300 ) { finds( 300 ); }
