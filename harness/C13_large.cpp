// BOUNDS: patterns of 18 and 260 rows of 0..2 columns, and of three rows of which one or two hold 18 or 260, with and without slack: one operation at every position of windows at the front, in the middle and at the end; ranges of 1, 9, 40 or half as many columns as the row holds
#include "large.hpp"
template< class P > void same( P const & p, BigRows const & m, int cols )
{
  int const r = static_cast< int >( m.size() ); CHECK( p.numRows() == r && p.numColumns() == cols ); auto const * off = p.getOffsets(); bool ok = off[ 0 ] == 0; int total = 0;
  for( int i = 0; i < r; ++i ) { int const n = static_cast< int >( m[ i ].size() ); total += n; ok &= p.numNonZeros( i ) == n && p.nonZeroCapacity( i ) >= n && off[ i + 1 ] - off[ i ] >= n && p.empty( i ) == ( n == 0 ); CHECK( ok ); auto const c = p.getColumns( i ); for( int j = 0; j < n; ++j ) ok &= c[ j ] == m[ i ][ j ]; }
  CHECK( ok ); CHECK( p.numNonZeros() == total );
}
template< class CT, class I > void large( int kind, int n )
{
  int const cols = 900; SparsityPattern< CT, I, MallocBuffer > p; BigRows m; bigStart( m, kind, n ); int const rows = static_cast< int >( m.size() ), slack = shape( "slack", 0, 1 ); p.resize( rows, cols, 0 );
  for( int i = 0; i < rows; ++i ) { p.setRowCapacity( i, m[ i ].size() + slack * ( i % 2 ) ); for( int j = 0; j < static_cast< int >( m[ i ].size() ); ++j ) { m[ i ][ j ] = 3 * j; p.insertNonZero( i, static_cast< CT >( 3 * j ) ); } }
  same( p, m, cols ); int const i = kind == 0 ? window( "i", rows - 1, 2 ) : 1; Big & k = m[ i ]; int const c = static_cast< int >( k.size() ); CT f[ 140 ];
  auto fresh = [&]() { int const z = shape( "k", 0, 3 ), q = z == 0 ? 1 : z == 1 ? 9 : z == 2 ? 40 : c / 2 + 1, step = shape( "step", 2, 3 ), x = window( "x", 3 * c, 4 ); for( int a = 0; a < q; ++a ) { f[ a ] = static_cast< CT >( x + step * a ); if( int( f[ a ] ) >= cols ) return a; } return q; };
  int nc = cols;
  switch( shape( "op", 0, 9 ) )
  {
    case 0: { int const x = window( "x", 3 * c, 5 ); bool const r = p.insertNonZero( i, static_cast< CT >( x ) ); CHECK( r == putBig( k, x ) ); break; }
    case 1: { int const x = window( "x", 3 * c, 5 ); bool const r = shape( "view", 0, 1 ) ? p.toView().removeNonZero( i, static_cast< CT >( x ) ) : p.removeNonZero( i, static_cast< CT >( x ) ); CHECK( r == dropBig( k, x ) ); break; }
    case 2: { int const q = fresh(); int z = 0; bool const view = shape( "view", 0, 1 ); if( view ) p.reserveNonZeros( i, c + q ); auto const r = view ? p.toView().insertNonZeros( i, f, f + q ) : p.insertNonZeros( i, f, f + q ); for( int a = 0; a < q; ++a ) z += putBig( k, f[ a ] ); CHECK( r == z ); break; }
    case 3: { int const q = fresh(); int z = 0; auto const r = shape( "view", 0, 1 ) ? p.toView().removeNonZeros( i, f, f + q ) : p.removeNonZeros( i, f, f + q ); for( int a = 0; a < q; ++a ) z += dropBig( k, f[ a ] ); CHECK( r == z ); break; }
    case 4: { int const z = shape( "c", 0, 1 ) * 20; p.appendRow( z ); m.push_back( Big() ); CHECK( p.nonZeroCapacity( rows ) == z ); break; }
    case 5: { int const z = shape( "c", 0, 3 ), r = z == 0 ? 1 : z == 1 ? rows - 1 : z == 2 ? rows + 1 : rows + 40, cap = shape( "cap", 0, 1 ) * 20; p.resize( r, nc = cols + 1, cap ); m.resize( r ); for( int q = rows; q < r; ++q ) CHECK( p.nonZeroCapacity( q ) == cap ); break; }
    case 6: p.compress(); for( int q = 0; q < rows; ++q ) CHECK( p.nonZeroCapacity( q ) == static_cast< int >( m[ q ].size() ) ); break;
    case 7: { int const z = shape( "c", 0, 2 ) * 20; if( shape( "set", 0, 1 ) ) { p.setRowCapacity( i, z ); CHECK( p.nonZeroCapacity( i ) == z ); if( c > z ) k.resize( z ); } else { p.reserveNonZeros( i, z ); CHECK( p.nonZeroCapacity( i ) >= z ); } break; }
    case 8: { auto b( p ); p.resize( 0, 1, 0 ); p = b; b.resize( 1, 1, 1 ); int const x = window( "x", 3 * c, 4 ), y = x + range( "y", 0, 3 ); bool e = false; for( int v: k ) e |= v == y; bool const h = p.empty( i, static_cast< CT >( y ) ); CHECK( h == !e ); break; }
    default: { std::vector< I > z; for( int q = 0; q < n; ++q ) z.push_back( q % 5 ); p.template resizeFromRowCapacities< RAJA::seq_exec >( n, nc = 7, z.data() ); m.assign( n, Big() ); for( int q = 0; q < n; ++q ) CHECK( p.nonZeroCapacity( q ) == q % 5 ); break; }
  }
  same( p, m, nc ); same( p.toViewConst(), m, nc ); REACH( "done" );
}
ENTRY( rows18 ) { large< int, int >( 0, 18 ); }
ENTRY( rows260 ) { large< std::int64_t, std::ptrdiff_t >( 0, 260 ); }
ENTRY( long18 ) { large< unsigned, std::ptrdiff_t >( 1, 18 ); }
ENTRY( long260 ) { large< std::int16_t, int >( 2, 260 ); }
