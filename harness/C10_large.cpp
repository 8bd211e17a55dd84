// BOUNDS: arrays of 18 and 260 arrays of 0..2 values, and of three arrays of which one or two hold 18 or 260 values, with and without slack: one operation (all of the container's) at every position of windows of three at the front, in the middle and at the end; ranges of 1, 9, 40 or half as many values as the row holds
#include "large.hpp"
template< class T, class I > void large( int kind, int n )
{
  ArrayOfArrays< T, I, MallocBuffer > a; BigRows m; bigStart( m, kind, n ); int const rows = static_cast< int >( m.size() ), slack = shape( "slack", 0, 1 ); a.reserve( rows );
  for( int i = 0; i < rows; ++i ) { a.appendArray( 0 ); a.setCapacityOfArray( i, m[ i ].size() + slack * ( i % 2 ) ); for( int & x: m[ i ] ) { x = sym< int >( "a" ); a.emplaceBack( i, x ); } }
  auto same = [&]()
  {
    int const r = static_cast< int >( m.size() ); CHECK( a.size() == r && a.capacity() >= r ); auto const c = a.toViewConst(); auto const * off = c.getOffsets(); bool ok = off[ 0 ] == 0 && off[ r ] <= a.valueCapacity();
    for( int i = 0; i < r; ++i ) { int const s = static_cast< int >( m[ i ].size() ); ok &= a.sizeOfArray( i ) == s && a.capacityOfArray( i ) >= s && off[ i + 1 ] - off[ i ] == a.capacityOfArray( i ); CHECK( ok ); for( int j = 0; j < s; ++j ) ok &= valueOf( a( i, j ) ) == m[ i ][ j ]; }
    CHECK( ok );
  };
  same();
  int const i = kind == 0 ? window( "i", rows - 1, 2 ) : 1; Big & k = m[ i ]; int const s = static_cast< int >( k.size() ); int f[ 140 ];
  auto fresh = [&]() { int const w = shape( "k", 0, 3 ), c = w == 0 ? 1 : w == 1 ? 9 : w == 2 ? 40 : s / 2 + 1; for( int q = 0; q < c; ++q ) f[ q ] = sym< int >( "f" ); return c; };
  switch( shape( "op", 0, 13 ) )
  {
    case 0: { int const x = sym< int >( "x" ); a.emplaceBack( i, x ); k.push_back( x ); break; }
    case 1: { int const x = sym< int >( "x" ), j = window( "j", s, 2 ); a.emplace( i, j, T( x ) ); k.insert( k.begin() + j, x ); break; }
    case 2: { if( s == 0 ) break; int const c = s < 17 ? 1 : shape( "c", 0, 1 ) * 16 + 1, j = window( "j", s - c, 2 ); a.eraseFromArray( i, j, c ); k.erase( k.begin() + j, k.begin() + j + c ); break; }
    case 3: { int const c = fresh(), j = window( "j", s, 2 ); a.insertIntoArray( i, j, f, f + c ); k.insert( k.begin() + j, f, f + c ); break; }
    case 4: { int const c = fresh(); a.appendToArray( i, f, f + c ); k.insert( k.end(), f, f + c ); break; }
    case 5: { int const c = shape( "c", 0, 1 ) * 20; a.appendArray( c ); m.push_back( Big( c, dflt< T >() ) ); break; }
    case 6: { int const c = fresh(), p = window( "q", rows, 2 ); a.insertArray( p, f, f + c ); m.insert( m.begin() + p, Big( f, f + c ) ); break; }
    case 7: a.eraseArray( i ); m.erase( m.begin() + i ); break;
    case 8: { int const c = shape( "c", 0, 3 ) * 20; if( shape( "def", 0, 1 ) ) { int const x = sym< int >( "x" ); a.resizeArray( i, c, T( x ) ); k.resize( c, x ); } else { a.resizeArray( i, c ); k.resize( c, dflt< T >() ); } break; }
    case 9: a.clearArray( i ); k.clear(); break;
    case 10: { int const w = shape( "c", 0, 3 ), r = w == 0 ? 1 : w == 1 ? rows - 1 : w == 2 ? rows + 1 : rows + 40, cap = shape( "cap", 0, 1 ) * 20; a.resize( r, cap ); m.resize( r ); for( int q = rows; q < r; ++q ) CHECK( a.capacityOfArray( q ) == cap ); break; }
    case 11: { int const c = shape( "c", 0, 2 ) * 20; a.setCapacityOfArray( i, c ); if( s > c ) k.resize( c ); CHECK( a.capacityOfArray( i ) == c ); break; }
    case 12: a.compress(); for( int q = 0; q < rows; ++q ) CHECK( a.capacityOfArray( q ) == static_cast< int >( m[ q ].size() ) ); break;
    default: { int const c = shape( "c", 0, 1 ) * 200; a.reserve( c ); a.reserveValues( c ); CHECK( a.capacity() >= c && a.valueCapacity() >= c ); if( shape( "copy", 0, 1 ) ) { auto b( a ); a.resize( 0 ); a = b; b.resize( 1 ); } break; }
  }
  same(); REACH( "done" );
}
ENTRY( rows18_owner ) { large< Owner, int >( 0, 18 ); }
ENTRY( rows260 ) { large< int, std::ptrdiff_t >( 0, 260 ); }
ENTRY( long18_owner ) { large< Owner, std::ptrdiff_t >( 1, 18 ); }
ENTRY( long260 ) { large< int, int >( 2, 260 ); }
