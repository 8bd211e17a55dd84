// BOUNDS: matrices of 18 and 260 rows of 0..2 entries, and of three rows of which one or two hold 18 or 260, with and without slack: one operation at every position of windows at the front, in the middle and at the end; ranges of 1, 9, 40 or half as many columns as the row holds; additions of 1, 9, 16, 17 or 40 columns
#include "large.hpp"
#include <umpireInterface.cpp>
template< class M > void same( M const & p, BigRows const & m, BigRows const & v, int cols )
{
  int const r = static_cast< int >( m.size() ); CHECK( p.numRows() == r && p.numColumns() == cols ); auto const * off = p.getOffsets(); bool ok = off[ 0 ] == 0; int total = 0;
  for( int i = 0; i < r; ++i ) { int const n = static_cast< int >( m[ i ].size() ); total += n; ok &= p.numNonZeros( i ) == n && p.nonZeroCapacity( i ) >= n && off[ i + 1 ] - off[ i ] >= n; CHECK( ok ); auto const c = p.getColumns( i ); auto const e = p.getEntries( i ); for( int j = 0; j < n; ++j ) ok &= c[ j ] == m[ i ][ j ] && valueOf( e[ j ] ) == v[ i ][ j ]; }
  CHECK( ok ); CHECK( p.numNonZeros() == total );
}
template< class T, class CT, class I > void large( int kind, int n )
{
  int const cols = 900; CRSMatrix< T, CT, I, MallocBuffer > p; BigRows m; bigStart( m, kind, n ); BigRows v = m; int const rows = static_cast< int >( m.size() ), slack = shape( "slack", 0, 1 ); p.resize( rows, cols, 0 );
  for( int i = 0; i < rows; ++i ) { p.setRowCapacity( i, m[ i ].size() + slack * ( i % 2 ) ); for( int j = 0; j < static_cast< int >( m[ i ].size() ); ++j ) { m[ i ][ j ] = 3 * j; v[ i ][ j ] = sym< int >( "v" ); p.insertNonZero( i, static_cast< CT >( 3 * j ), T( v[ i ][ j ] ) ); } }
  same( p, m, v, cols ); int const i = kind == 0 ? window( "i", rows - 1, 2 ) : 1; Big & k = m[ i ]; Big & w = v[ i ]; int const c = static_cast< int >( k.size() ); CT f[ 140 ]; int g[ 140 ]; std::vector< T > e;
  auto put = [&]( int x, int y ) { int const at = lowerBig( k, x ); if( !putBig( k, x ) ) return false; w.insert( w.begin() + at, y ); return true; };
  auto drop = [&]( int x ) { int const at = lowerBig( k, x ); if( !dropBig( k, x ) ) return false; w.erase( w.begin() + at ); return true; };
  auto fresh = [&]() { int const z = shape( "k", 0, 3 ), q = z == 0 ? 1 : z == 1 ? 9 : z == 2 ? 40 : c / 2 + 1, step = shape( "step", 2, 3 ), x = window( "x", 3 * c, 4 ); for( int a = 0; a < q; ++a ) { f[ a ] = static_cast< CT >( x + step * a ); if( int( f[ a ] ) >= cols ) return a; g[ a ] = sym< int >( "w" ); e.push_back( T( g[ a ] ) ); } return q; };
  int nc = cols;
  switch( shape( "op", 0, 9 ) )
  {
    case 0: { int const x = window( "x", 3 * c, 5 ), y = sym< int >( "y" ); bool const r = p.insertNonZero( i, static_cast< CT >( x ), T( y ) ); CHECK( r == put( x, y ) ); break; }
    case 1: { int const x = window( "x", 3 * c, 5 ); bool const r = shape( "view", 0, 1 ) ? p.toView().removeNonZero( i, static_cast< CT >( x ) ) : p.removeNonZero( i, static_cast< CT >( x ) ); CHECK( r == drop( x ) ); break; }
    case 2: { int const q = fresh(); int z = 0; bool const view = shape( "view", 0, 1 ); if( view ) p.reserveNonZeros( i, c + q ); auto const r = view ? p.toView().insertNonZeros( i, f, e.data(), q ) : p.insertNonZeros( i, f, e.data(), q ); for( int a = 0; a < q; ++a ) z += put( f[ a ], g[ a ] ); CHECK( r == z ); break; }
    case 3: { int const q = fresh(); int z = 0; auto const r = shape( "view", 0, 1 ) ? p.toView().removeNonZeros( i, f, q ) : p.removeNonZeros( i, f, q ); for( int a = 0; a < q; ++a ) z += drop( f[ a ] ); CHECK( r == z ); break; }
    case 4: { int const y = sym< int >( "y" ); p.template setValues< RAJA::seq_exec >( T( y ) ); for( Big & b: v ) for( int & x: b ) x = y; break; }
    case 5: { int const z = shape( "c", 0, 3 ), r = z == 0 ? 1 : z == 1 ? rows - 1 : z == 2 ? rows + 1 : rows + 40, cap = shape( "cap", 0, 1 ) * 20; p.resize( r, nc = cols + 1, cap ); m.resize( r ); v.resize( r ); for( int q = rows; q < r; ++q ) CHECK( p.nonZeroCapacity( q ) == cap ); break; }
    case 6: p.compress(); for( int q = 0; q < rows; ++q ) CHECK( p.nonZeroCapacity( q ) == static_cast< int >( m[ q ].size() ) ); break;
    case 7: { int const z = shape( "c", 0, 2 ) * 20; if( shape( "set", 0, 1 ) ) { p.setRowCapacity( i, z ); CHECK( p.nonZeroCapacity( i ) == z ); if( c > z ) { k.resize( z ); w.resize( z ); } } else { p.reserveNonZeros( i, z ); CHECK( p.nonZeroCapacity( i ) >= z ); } break; }
    case 8: { auto b( p ); p.resize( 0, 1, 0 ); p = b; b.resize( 1, 1, 1 ); break; }
    default: { std::vector< I > z; for( int q = 0; q < n; ++q ) z.push_back( q % 5 ); p.template resizeFromRowCapacities< RAJA::seq_exec >( n, nc = 7, z.data() ); m.assign( n, Big() ); v = m; for( int q = 0; q < n; ++q ) CHECK( p.nonZeroCapacity( q ) == q % 5 ); break; }
  }
  same( p, m, v, nc ); same( p.toViewConst(), m, v, nc ); REACH( "done" );
}
ENTRY( rows18_owner ) { large< Owner, int, int >( 0, 18 ); }
ENTRY( rows260 ) { large< int, std::int64_t, std::ptrdiff_t >( 0, 260 ); }
ENTRY( long18_owner ) { large< Owner, unsigned, std::ptrdiff_t >( 1, 18 ); }
ENTRY( long260 ) { large< int, std::int16_t, int >( 2, 260 ); }
// additions to a row of n entries: c columns apart by two, from a symbolic one on
void adds( int n )
{
  CRSMatrix< unsigned, int, int, MallocBuffer > p( 2, 3 * n, n ); Big k; std::vector< unsigned > e; for( int j = 0; j < n; ++j ) { k.push_back( 2 * j + j % 2 ); e.push_back( sym< unsigned >( "e" ) ); } p.insertNonZeros( 0, k.data(), e.data(), n ); p.insertNonZero( 1, 5, 77u );
  int const how = shape( "how", 0, 3 ), z = shape( "k", 0, 4 ), want = z == 0 ? 1 : z == 1 ? 9 : z == 2 ? n / 4 - 1 : z == 3 ? n / 4 : 40, gap = shape( "gap", 1, 2 ), at = window( "at", n - 1, 3 ); int c[ 64 ], q = 0; unsigned v[ 64 ];
  for( int j = at; j < n && q < want; j += gap ) { c[ q ] = k[ j ]; v[ q ] = sym< unsigned >( "v" ); e[ j ] += v[ q ]; ++q; }
  if( how == 3 && shape( "reverse", 0, 1 ) ) { std::reverse( c, c + q ); std::reverse( v, v + q ); }
  auto const w = p.toViewConstSizes(); if( how == 0 ) w.addToRow< RAJA::seq_atomic >( 0, c, v, q ); else if( how == 1 ) w.addToRowBinarySearch< RAJA::seq_atomic >( 0, c, v, q ); else if( how == 2 ) w.addToRowLinearSearch< RAJA::seq_atomic >( 0, c, v, q ); else w.addToRowBinarySearchUnsorted< RAJA::seq_atomic >( 0, c, v, q );
  bool ok = p.numNonZeros( 0 ) == n; for( int j = 0; j < n; ++j ) ok &= p.getColumns( 0 )[ j ] == k[ j ] && p.getEntries( 0 )[ j ] == e[ j ]; CHECK( ok ); CHECK( p.getEntries( 1 )[ 0 ] == 77u ); REACH( "done" );
}
ENTRY( adds18 ) { adds( 18 ); }
ENTRY( adds65 ) { adds( 65 ); }
ENTRY( adds160 ) { adds( 160 ); }
