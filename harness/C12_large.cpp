// BOUNDS: 18 and 260 sets of 0..2 members, and three sets of which one or two hold 18 or 260, with and without slack: one operation at every position of windows at the front, in the middle and at the end; ranges of 1, 9, 40 or half as many members as the set holds; descriptions of taken-over rows of 18 and 260 values
#include "large.hpp"
template< class T, class I > void same( ArrayOfSets< T, I, MallocBuffer > const & s, BigRows const & m )
{
  int const r = static_cast< int >( m.size() ); CHECK( s.size() == r && s.capacity() >= r ); auto const a = s.toArrayOfArraysView(); auto const c = s.toViewConst(); auto const * off = a.getOffsets(); bool ok = off[ 0 ] == 0;
  for( int i = 0; i < r; ++i ) { int const n = static_cast< int >( m[ i ].size() ); ok &= s.sizeOfSet( i ) == n && c.sizeOfSet( i ) == n && s.capacityOfSet( i ) >= n && off[ i + 1 ] - off[ i ] >= n; CHECK( ok ); for( int j = 0; j < n; ++j ) ok &= valueOf( s( i, j ) ) == m[ i ][ j ]; }
  CHECK( ok );
}
template< class T, class I > void large( int kind, int n )
{
  ArrayOfSets< T, I, MallocBuffer > s; BigRows m; bigStart( m, kind, n ); int const rows = static_cast< int >( m.size() ), slack = shape( "slack", 0, 1 );
  for( int i = 0; i < rows; ++i ) { s.appendSet( m[ i ].size() + slack * ( i % 2 ) ); for( int j = 0; j < static_cast< int >( m[ i ].size() ); ++j ) { m[ i ][ j ] = 3 * j; s.insertIntoSet( i, T( 3 * j ) ); } }
  same( s, m ); int const i = kind == 0 ? window( "i", rows - 1, 2 ) : 1; Big & k = m[ i ]; int const c = static_cast< int >( k.size() ); T f[ 140 ]; int g[ 140 ];
  auto fresh = [&]() { int const w = shape( "k", 0, 3 ), q = w == 0 ? 1 : w == 1 ? 9 : w == 2 ? 40 : c / 2 + 1, step = shape( "step", 2, 3 ), x = window( "x", 3 * c, 4 ) + ( q == 40 ? -30 : 0 ); for( int p = 0; p < q; ++p ) { g[ p ] = x + step * p; f[ p ] = T( g[ p ] ); } return q; };
  switch( shape( "op", 0, 11 ) )
  {
    case 0: { int const x = window( "x", 3 * c, 5 ); bool const r = s.insertIntoSet( i, T( x ) ); CHECK( r == putBig( k, x ) ); break; }
    case 1: { int const x = window( "x", 3 * c, 5 ); bool const r = s.toView().removeFromSet( i, T( x ) ); CHECK( r == dropBig( k, x ) ); break; }
    case 2: { int const q = fresh(); int e = 0; bool const view = shape( "view", 0, 1 ); if( view ) s.reserveCapacityOfSet( i, c + q ); auto const r = view ? s.toView().insertIntoSet( i, f, f + q ) : s.insertIntoSet( i, f, f + q ); for( int p = 0; p < q; ++p ) e += putBig( k, g[ p ] ); CHECK( r == e ); break; }
    case 3: { int const q = fresh(); int e = 0; auto const r = shape( "view", 0, 1 ) ? s.toView().removeFromSet( i, f, f + q ) : s.removeFromSet( i, f, f + q ); for( int p = 0; p < q; ++p ) e += dropBig( k, g[ p ] ); CHECK( r == e ); break; }
    case 4: s.clearSet( i ); k.clear(); break;
    case 5: s.eraseSet( i ); m.erase( m.begin() + i ); break;
    case 6: { int const w = shape( "c", 0, 1 ) * 20; s.appendSet( w ); m.push_back( Big() ); CHECK( s.capacityOfSet( rows ) >= w ); break; }
    case 7: { int const p = window( "q", rows, 2 ); s.insertSet( p, shape( "c", 0, 1 ) * 20 ); m.insert( m.begin() + p, Big() ); break; }
    case 8: { int const w = shape( "c", 0, 3 ), r = w == 0 ? 1 : w == 1 ? rows - 1 : w == 2 ? rows + 1 : rows + 40, cap = shape( "cap", 0, 1 ) * 20; s.resize( r, cap ); m.resize( r ); for( int q = rows; q < r; ++q ) CHECK( s.capacityOfSet( q ) == cap ); break; }
    case 9: s.compress(); for( int q = 0; q < rows; ++q ) CHECK( s.capacityOfSet( q ) == static_cast< int >( m[ q ].size() ) ); break;
    case 10: { int const w = shape( "c", 0, 2 ) * 20; if( shape( "set", 0, 1 ) ) { s.setCapacityOfSet( i, w ); CHECK( s.capacityOfSet( i ) == w ); if( c > w ) k.resize( w ); } else { s.reserveCapacityOfSet( i, w ); CHECK( s.capacityOfSet( i ) >= w ); } break; }
    default: { auto b( s ); s.resize( 0 ); s = b; b.resize( 1 ); int const x = window( "x", 3 * c, 3 ), y = x + range( "y", -3, 3 ); bool e = false; for( int v: k ) e |= v == y; bool const h = s.contains( i, T( y ) ); CHECK( h == e ); break; }
  }
  same( s, m ); REACH( "done" );
}
ENTRY( rows18_owner ) { large< Owner, int >( 0, 18 ); }
ENTRY( rows260 ) { large< int, std::ptrdiff_t >( 0, 260 ); }
ENTRY( long18_owner ) { large< Owner, std::ptrdiff_t >( 1, 18 ); }
ENTRY( long260 ) { large< int, int >( 2, 260 ); }
// taking over three rows of which one has n values, one of them symbolic
template< class T > void take( int n )
{
  int const desc = shape( "desc", 0, 3 ), at = window( "at", n - 1, 2 ); ArrayOfArrays< T, int, MallocBuffer > a( 3, 2 ); ArrayOfSets< T, int, MallocBuffer > s( 1, 1 ); BigRows m( 3 ); a.emplaceBack( 0, T( 4 ) ); m[ 0 ].push_back( 4 ); a.emplaceBack( 2, T( 1 ) ); a.emplaceBack( 2, T( 7 ) ); m[ 2 ] = { 1, 7 };
  for( int j = 0; j < n; ++j )
  {
    int x = desc == 0 ? 3 * j : desc == 1 ? 3 * ( j * 7 % n ) : desc == 2 ? j / 3 * 3 : j * 11 % 29 * 3;
    if( j == at ) { int const y = range( "y", -2, 2 ); if( desc == 2 ) ASSUME( ( j == 0 || y >= ( j - 1 ) / 3 * 3 - x ) && y <= ( j + 1 ) / 3 * 3 - x ); x += lv_concrete( y ); }
    a.emplaceBack( 1, T( x ) ); putBig( m[ 1 ], x );
  }
  using namespace sortedArrayManipulation; s.assimilate( std::move( a ), desc == 0 ? SORTED_UNIQUE : desc == 1 ? UNSORTED_NO_DUPLICATES : desc == 2 ? SORTED_WITH_DUPLICATES : UNSORTED_WITH_DUPLICATES );
  CHECK( a.size() == 0 ); s.consistencyCheck(); same( s, m ); bool const f = s.insertIntoSet( 1, T( 5 ) ); CHECK( f == putBig( m[ 1 ], 5 ) ); same( s, m ); REACH( "done" );
}
ENTRY( take17_owner ) { take< Owner >( 17 ); }
ENTRY( take71 ) { take< int >( 71 ); }
