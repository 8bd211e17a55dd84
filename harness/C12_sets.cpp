// BOUNDS: every history of 2 operations (thorough: 3) out of insert / remove one value or a sorted range of 0..2 (also through views), append / insert / erase a set, clear, resize, compress, set and reserve a capacity, from every start of 1..2 sets of 0..2 members for single operations, of 1 set of 0..1 members (thorough: 1..2 of 0..2) for longer ones, with and without slack; values symbolic (0..15, one entry full 32-bit); taken-over arrays of arrays of 1..2 rows of 0..3 values under each of the four descriptions; int and heap-owning members
// ASSUMES: ranges passed to insertIntoSet and removeFromSet are sorted and free of repetitions; taken-over data matches its description
#include "rows.hpp"
template< class V, class T > void rowOf( V const & v, Model const & m, int i, bool & ok, T const * values )
{
  ok &= v.sizeOfSet( i ) == m.k[ i ].n && v.capacityOfSet( i ) >= m.k[ i ].n; int j = 0;
  for( auto const & x : v[ i ] ) { ok &= &x == values + j; ok &= &v( i, j ) == &x; ++j; }
  ok &= j == m.k[ i ].n;
}
template< class T, class I > void check( ArrayOfSets< T, I, MallocBuffer > const & s, Model const & m, int p )
{
  s.consistencyCheck(); auto const v = s.toView(); auto const c = s.toViewConst(); auto const a = s.toArrayOfArraysView(); c.consistencyCheck(); bool ok = s.size() == m.n && v.size() == m.n && c.size() == m.n && a.size() == m.n;
  CHECK( ok ); CHECK( s.capacity() >= m.n );
  for( int i = 0; i < m.n; ++i )
  {
    auto const * w = a.getValues() + a.getOffsets()[ i ]; rowOf( s, m, i, ok, w ); rowOf( v, m, i, ok, w ); rowOf( c, m, i, ok, w ); ok &= a.sizeOfArray( i ) == m.k[ i ].n && a[ i ].size() == m.k[ i ].n;
    for( int j = 0; j < m.k[ i ].n; ++j ) ok &= valueOf( s( i, j ) ) == m.k[ i ].d[ j ];
    if( p >= 0 ) { bool has = m.k[ i ].has( p ); T const t( p ); ok &= s.contains( i, t ) == has; ok &= v.contains( i, t ) == has; ok &= c.contains( i, t ) == has; }
  }
  CHECK( ok );
}
template< class T, class I > void op( ArrayOfSets< T, I, MallocBuffer > & s, Model & m, int o, int hi )
{
  int i = m.n > 0 ? shape( "i", 0, m.n - 1 ) : 0; if( m.n == 0 && o < 8 ) { s.resize( 1, 1 ); m.resize( 1 ); }
  auto & k = m.k[ i ]; int f[ 2 ]; T g[ 2 ];
  auto fresh = [&]() { int n = shape( "k", 0, 2 ); for( int q = 0; q < n; ++q ) { f[ q ] = range( "f", 0, hi ); g[ q ] = T( f[ q ] ); if( q ) ASSUME( f[ 0 ] < f[ 1 ] ); } return n; };
  switch( o )
  {
    case 0: { int x = range( "x", 0, hi ); bool r = s.insertIntoSet( i, T( x ) ); CHECK( r == k.setInsert( x ) ); break; }
    case 1: { int x = range( "x", 0, hi ); bool r = shape( "view", 0, 1 ) ? s.toView().removeFromSet( i, T( x ) ) : s.removeFromSet( i, T( x ) ); CHECK( r == k.setRemove( x ) ); break; }
    case 2: { int x = range( "x", 0, hi ); if( s.capacityOfSet( i ) <= s.sizeOfSet( i ) ) ASSUME( k.has( x ) ); bool r = s.toView().insertIntoSet( i, T( x ) ); CHECK( r == k.setInsert( x ) ); break; }
    case 3: { int n = fresh(), e = 0; auto r = s.insertIntoSet( i, g, g + n ); for( int q = 0; q < n; ++q ) e += k.setInsert( f[ q ] ); CHECK( r == e ); break; }
    case 4: { int n = fresh(), e = 0; auto r = shape( "view", 0, 1 ) ? s.toView().removeFromSet( i, g, g + n ) : s.removeFromSet( i, g, g + n ); for( int q = 0; q < n; ++q ) e += k.setRemove( f[ q ] ); CHECK( r == e ); break; }
    case 5: { int n = fresh(), e = 0; s.reserveCapacityOfSet( i, k.n + n ); auto r = s.toView().insertIntoSet( i, g, g + n ); for( int q = 0; q < n; ++q ) e += k.setInsert( f[ q ] ); CHECK( r == e ); break; }
    case 6: s.clearSet( i ); k.n = 0; break;
    case 7: s.eraseSet( i ); m.eraseRow( i ); break;
    case 8: s.appendSet( shape( "c", 0, 2 ) ); m.insertRow( m.n ); break;
    case 9: { int p = shape( "p", 0, m.n ); s.insertSet( p, shape( "c", 0, 2 ) ); m.insertRow( p ); break; }
    case 10: { int n = shape( "k", 0, 3 ); s.resize( n, shape( "c", 0, 1 ) * 2 ); m.resize( n ); break; }
    case 11: s.compress(); break;
    case 12: { if( m.n == 0 ) break; int c = shape( "c", 0, 3 ); if( shape( "set", 0, 1 ) ) { s.setCapacityOfSet( i, c ); CHECK( s.capacityOfSet( i ) == c ); if( k.n > c ) k.n = c; } else { s.reserveCapacityOfSet( i, c ); CHECK( s.capacityOfSet( i ) >= c ); } break; }
    default: s.reserve( shape( "c", 0, 4 ) ); s.reserveValues( shape( "v", 0, 1 ) * 9 );
  }
}
template< class T, class I > void start( ArrayOfSets< T, I, MallocBuffer > & s, Model & m, int rows, int size, int hi )
{
  int r = shape( "r", 1, rows ), cap = shape( "cap", 0, 1 ) * 2; s.resize( r, cap ); m.resize( r );
  for( int i = 0; i < r; ++i ) { int n = shape( "n", 0, size ), v[ 2 ]; for( int j = 0; j < n; ++j ) { v[ j ] = range( "a", 0, hi ); if( j ) ASSUME( v[ 0 ] < v[ 1 ] ); s.insertIntoSet( i, T( v[ j ] ) ); m.k[ i ].push( v[ j ] ); } }
}
template< class T, class I > void history( int first, int last, int ops, int rows, int size, int first2 = 0, int last2 = 13, int hi = 15 )
{
  ArrayOfSets< T, I, MallocBuffer > s; Model m; start( s, m, rows, size, hi ); check( s, m, -1 );
  op( s, m, shape( "op", first, last ), hi ); check( s, m, -1 );
  for( int o = 1; o < ops; ++o ) { op( s, m, shape( "op", first2, last2 ), hi ); check( s, m, -1 ); }
  if( ops == 1 ) check( s, m, range( "p", 0, hi ) );
  REACH( "done" );
}
#if LV_THOROUGH
#define HI 2
#else
#define HI 1
#endif
ENTRY( one_int ) { history< int, std::ptrdiff_t >( 0, 13, 1, 2, 2 ); }
ENTRY( one_owner ) { history< Owner, int >( 0, 13, 1, 2, 2 ); }
ENTRY( wide ) { ArrayOfSets< int, int, MallocBuffer > s( 2 ); Model m; m.resize( 2 ); for( int q = 0; q < 3; ++q ) { int x = sym< int >( "x" ), i = shape( "i", 0, 1 ); bool r = s.insertIntoSet( i, x ); CHECK( r == m.k[ i ].setInsert( x ) ); } int y = sym< int >( "y" ); bool r = s.removeFromSet( 1, y ); CHECK( r == m.k[ 1 ].setRemove( y ) ); check( s, m, -1 ); REACH( "done" ); }
ENTRY( two_single ) { history< int, int >( 0, 2, 2, HI, HI, 0, 6 ); }
ENTRY( two_range ) { history< int, int >( 3, 5, 2, 1, HI, 0, 5 ); }
ENTRY( two_rows ) { history< int, std::ptrdiff_t >( 6, 9, 2, HI, HI ); }
ENTRY( two_cap ) { history< int, int >( 10, 13, 2, HI, HI ); }
ENTRY( two_owner ) { history< Owner, int >( 0, 13, 2, 1, 1 ); }
ENTRY( three_T ) { history< int, int >( 0, 13, 3, 1, 1 ); }
// taking over an array of arrays; before: what the destination held
template< class T, class I > void takeOver( int desc, int rows, int size )
{
  ArrayOfArrays< T, I, MallocBuffer > a; ArrayOfSets< T, I, MallocBuffer > s; Model m; if( shape( "before", 0, 1 ) ) { s.resize( 1, 1 ); s.insertIntoSet( 0, T( 9 ) ); }
  int r = shape( "r", 0, rows ), cap = shape( "cap", 0, 2 ); a.resize( r, cap ); m.resize( r );
  for( int i = 0; i < r; ++i )
  {
    int n = shape( "n", 0, size ), v[ 4 ];
    for( int j = 0; j < n; ++j )
    {
      v[ j ] = range( "a", 0, 15 ); a.emplaceBack( i, T( v[ j ] ) );
      if( desc == 0 && j ) ASSUME( v[ j - 1 ] < v[ j ] );
      if( desc == 2 && j ) ASSUME( v[ j - 1 ] <= v[ j ] );
      if( desc == 1 ) for( int q = 0; q < j; ++q ) ASSUME( v[ q ] != v[ j ] );
      m.k[ i ].setInsert( v[ j ] );
    }
  }
  using namespace sortedArrayManipulation;
  s.assimilate( std::move( a ), desc == 0 ? SORTED_UNIQUE : desc == 1 ? UNSORTED_NO_DUPLICATES : desc == 2 ? SORTED_WITH_DUPLICATES : UNSORTED_WITH_DUPLICATES );
  CHECK( a.size() == 0 ); check( s, m, range( "p", 0, 15 ) );
  if( shape( "back", 0, 1 ) )
  {
    ArrayOfArrays< T, I, MallocBuffer > b; b.resize( 1 ); b.emplaceBack( 0, T( 3 ) ); b.assimilate( std::move( s ) ); CHECK( s.size() == 0 && b.size() == m.n ); bool ok = true;
    for( int i = 0; i < m.n; ++i ) { CHECK( b.sizeOfArray( i ) == m.k[ i ].n ); for( int j = 0; j < m.k[ i ].n; ++j ) ok &= valueOf( b( i, j ) ) == m.k[ i ].d[ j ]; }
    CHECK( ok );
  }
  else if( m.n ) { bool f = s.insertIntoSet( 0, T( 5 ) ); CHECK( f == m.k[ 0 ].setInsert( 5 ) ); check( s, m, -1 ); }
  REACH( "done" );
}
ENTRY( take_sorted_unique ) { takeOver< int, int >( 0, 2, 2 ); }
ENTRY( take_unsorted_unique ) { takeOver< int, std::ptrdiff_t >( 1, 1, 3 ); }
ENTRY( take_sorted ) { takeOver< Owner, int >( 2, 1, 3 ); }
ENTRY( take_unsorted ) { takeOver< Owner, int >( 3, 1, 3 ); }
ENTRY( take_rows ) { takeOver< Owner, std::ptrdiff_t >( 3, 2, 2 ); }
ENTRY( take_four_T ) { takeOver< int, int >( 3, 1, 4 ); }
// every subset of U values in a set, every subset of them inserted or removed as one range
template< class T, class I > void rangeMasks( int U )
{
  int const base = range( "base", 0, 50 ), have = shape( "have", 0, ( 1 << U ) - 1 ), what = shape( "what", 0, ( 1 << U ) - 1 ), how = shape( "how", 0, 3 ); Model m; m.resize( 2 ); ArrayOfSets< T, I, MallocBuffer > s( 2, how & 1 ? 8 : 0 );
  for( int j = 0; j < U; ++j ) if( have >> j & 1 ) { s.insertIntoSet( 0, T( base + 2 * j ) ); m.k[ 0 ].setInsert( base + 2 * j ); } s.insertIntoSet( 1, T( base ) ); m.k[ 1 ].setInsert( base );
  std::vector< T > f; int n = 0, e = 0, g[ 8 ]; for( int j = 0; j < U; ++j ) if( what >> j & 1 ) { g[ n++ ] = base + 2 * j; f.push_back( T( base + 2 * j ) ); }
  auto const v = s.toView(); T const * const b = f.data(); I r = how == 0 ? s.insertIntoSet( 0, b, b + n ) : how == 1 ? v.insertIntoSet( 0, b, b + n ) : how == 2 ? s.removeFromSet( 0, b, b + n ) : v.removeFromSet( 0, b, b + n );
  for( int q = 0; q < n; ++q ) e += how < 2 ? m.k[ 0 ].setInsert( g[ q ] ) : m.k[ 0 ].setRemove( g[ q ] );
  CHECK( r == e ); check( s, m, -1 ); REACH( "done" );
}
ENTRY( masks_int ) { rangeMasks< int, int >( 4 ); }
ENTRY( masks_owner ) { rangeMasks< Owner, std::ptrdiff_t >( 4 ); }
ENTRY( masks_int_T ) { rangeMasks< int, std::ptrdiff_t >( 6 ); }
