// BOUNDS: every history of 2 operations (thorough: 3) out of insert / remove one column or a sorted range of 0..2 (also through views), append a row, resize, compress, set and reserve row capacities, reserve rows and entries, rebuild from row capacities, copy, from every start of 1..2 rows of 0..2 entries (longer histories 1 row of 0..1) with and without slack in 6 columns; columns symbolic 0..5; column types of 8, 16, 32 and 64 bits and index types of 32 and 64; construction and resizing with every symbolic number of rows and columns
// ASSUMES: inserted columns lie within the pattern; ranges are sorted and free of repetitions
#include "rows.hpp"
constexpr int NC = 6;
template< class P > void one( P const & p, Model const & m, int col )
{
  CHECK( p.numRows() == m.n ); CHECK( p.numColumns() == m.cols ); bool ok = true; int total = 0;
  for( int i = 0; i < m.n; ++i )
  {
    auto const cols = p.getColumns( i ); int n = m.k[ i ].n; ok &= p.numNonZeros( i ) == n && cols.size() == n && p.nonZeroCapacity( i ) >= n && p.empty( i ) == ( n == 0 ); total += n;
    for( int j = 0; j < n; ++j ) ok &= cols[ j ] == m.k[ i ].d[ j ];
    if( col >= 0 ) ok &= p.empty( i, col ) == !m.k[ i ].has( col );
    ok &= p.getOffsets()[ i + 1 ] - p.getOffsets()[ i ] == p.nonZeroCapacity( i );
  }
  CHECK( ok ); CHECK( p.numNonZeros() == total ); CHECK( p.empty() == ( total == 0 ) ); CHECK( p.nonZeroCapacity() >= p.getOffsets()[ m.n ] );
}
template< class CT, class I > void check( SparsityPattern< CT, I, MallocBuffer > const & p, Model const & m, int col = -1 )
{ one( p, m, col ); auto const v = p.toView(); one( v, m, col ); auto const c = p.toViewConst(); one( c, m, col ); CHECK( v.getColumns() == c.getColumns() ); CHECK( c.getSizes() == v.getSizes() ); }
template< class CT, class I > void op( SparsityPattern< CT, I, MallocBuffer > & p, Model & m, int o )
{
  if( m.n == 0 && o < 7 ) { p.resize( 1, NC, 1 ); m.resize( 1 ); m.cols = NC; }
  int i = m.n > 0 ? shape( "i", 0, m.n - 1 ) : 0; auto & k = m.k[ i ]; CT f[ 2 ]; auto const v = p.toView();
  auto fresh = [&]() { int n = shape( "k", 0, 2 ); for( int q = 0; q < n; ++q ) { f[ q ] = range< CT >( "f", 0, NC - 1 ); if( q ) ASSUME( f[ 0 ] < f[ 1 ] ); } return n; };
  switch( o )
  {
    case 0: { int x = range( "x", 0, NC - 1 ); bool r = p.insertNonZero( i, static_cast< CT >( x ) ); CHECK( r == k.setInsert( x ) ); break; }
    case 1: { int x = range( "x", 0, NC - 1 ); bool r = shape( "view", 0, 1 ) ? v.removeNonZero( i, static_cast< CT >( x ) ) : p.removeNonZero( i, static_cast< CT >( x ) ); CHECK( r == k.setRemove( x ) ); break; }
    case 2: { int x = range( "x", 0, NC - 1 ); p.reserveNonZeros( i, k.n + 1 ); bool r = p.toView().insertNonZero( i, static_cast< CT >( x ) ); CHECK( r == k.setInsert( x ) ); break; }
    case 3: { int n = fresh(), e = 0; auto r = p.insertNonZeros( i, f, f + n ); for( int q = 0; q < n; ++q ) e += k.setInsert( f[ q ] ); CHECK( r == e ); break; }
    case 4: { int n = fresh(), e = 0; auto r = shape( "view", 0, 1 ) ? v.removeNonZeros( i, f, f + n ) : p.removeNonZeros( i, f, f + n ); for( int q = 0; q < n; ++q ) e += k.setRemove( f[ q ] ); CHECK( r == e ); break; }
    case 5: { int n = fresh(), e = 0; p.reserveNonZeros( i, k.n + n ); auto r = p.toView().insertNonZeros( i, f, f + n ); for( int q = 0; q < n; ++q ) e += k.setInsert( f[ q ] ); CHECK( r == e ); break; }
    case 6: { int c = shape( "c", 0, 7 ); if( shape( "set", 0, 1 ) ) { p.setRowCapacity( i, c ); CHECK( p.nonZeroCapacity( i ) == ( c < NC ? c : NC ) ); if( k.n > c ) k.n = c; } else { p.reserveNonZeros( i, c ); CHECK( p.nonZeroCapacity( i ) >= ( c < NC ? c : NC ) ); } break; }
    case 7: { int c = shape( "c", 0, 2 ); p.appendRow( c ); m.insertRow( m.n ); CHECK( p.nonZeroCapacity( m.n - 1 ) == ( m.cols < c ? m.cols : c ) ); break; }
    case 8: { int n = shape( "k", 0, 3 ), c = shape( "c", 0, 1 ) * 2, old = m.n; p.resize( n, NC, c ); m.resize( n ); m.cols = NC; for( int q = old; q < n; ++q ) CHECK( p.nonZeroCapacity( q ) == c ); break; }
    case 9: p.compress(); for( int q = 0; q < m.n; ++q ) CHECK( p.nonZeroCapacity( q ) == m.k[ q ].n ); break;
    case 10: p.reserveRows( shape( "c", 0, 4 ) ); { int n = shape( "v", 0, 1 ) * 9; p.reserveNonZeros( n ); CHECK( p.nonZeroCapacity() >= n ); } break;
    case 11: { int n = shape( "k", 0, 3 ); I c[ 3 ]; for( int q = 0; q < n; ++q ) c[ q ] = shape< I >( "c", 0, 2 ); p.template resizeFromRowCapacities< RAJA::seq_exec >( n, NC, c ); m.n = 0; m.resize( n ); m.cols = NC; for( int q = 0; q < n; ++q ) CHECK( p.nonZeroCapacity( q ) == c[ q ] ); break; }
    default: { SparsityPattern< CT, I, MallocBuffer > b( p ); check( b, m ); if( m.n ) { Model o2 = m; bool r = b.insertNonZero( i, 2 ); CHECK( r == o2.k[ i ].setInsert( 2 ) ); check( b, o2 ); } p = b; p = std::move( b ); if( m.n ) k.setInsert( 2 ); break; }
  }
}
template< class CT, class I > void history( int first, int last, int ops, int rows, int size )
{
  SparsityPattern< CT, I, MallocBuffer > p; Model m; int r = shape( "r", 1, rows ), cap = shape( "cap", 0, 1 ) * 2; p.resize( r, NC, cap ); m.resize( r ); m.cols = NC;
  for( int i = 0; i < r; ++i ) { int n = shape( "n", 0, size ), v[ 2 ]; for( int j = 0; j < n; ++j ) { v[ j ] = range( "a", 0, NC - 1 ); if( j ) ASSUME( v[ 0 ] < v[ 1 ] ); p.insertNonZero( i, static_cast< CT >( v[ j ] ) ); m.k[ i ].push( v[ j ] ); } }
  check( p, m ); op( p, m, shape( "op", first, last ) ); check( p, m );
  for( int o = 1; o < ops; ++o ) { op( p, m, shape( "op", 0, 12 ) ); check( p, m ); }
  if( ops == 1 ) check( p, m, range( "p", 0, NC - 1 ) );
  REACH( "done" );
}
#if LV_THOROUGH
#define HI 2
#else
#define HI 1
#endif
ENTRY( one_a ) { history< int, int >( 0, 5, 1, 2, 2 ); }
ENTRY( one_b ) { history< std::int8_t, std::ptrdiff_t >( 6, 12, 1, 2, 2 ); }
ENTRY( one_u16 ) { history< std::uint16_t, int >( 0, 5, 1, 1, 2 ); }
ENTRY( one_i64 ) { history< std::int64_t, std::ptrdiff_t >( 0, 5, 1, 1, 2 ); }
ENTRY( two_a ) { history< int, int >( 0, 2, 2, HI, HI ); }
ENTRY( two_b ) { history< int, std::ptrdiff_t >( 3, 5, 2, HI, HI ); }
ENTRY( two_c ) { history< int, int >( 6, 12, 2, HI, HI ); }
ENTRY( three_T ) { history< int, int >( 0, 12, 3, 1, 1 ); }
// shapes that the column type cannot hold, negative ones, and the others
template< class CT, class I, class Big > void shapes()
{
  I r = sym< I >( "r" ), c = sym< I >( "c" ), cap = range< I >( "cap", 0, 1 ); int how = shape( "how", 0, 2 );
  Big const top = static_cast< Big >( std::numeric_limits< CT >::max() ); bool const fits = c <= 0 || static_cast< Big >( c ) - 1 <= top;
  bool const bad = r < 0 || c < 0 || !fits; if( !bad ) ASSUME( r <= 3 );
  if( how == 0 ) { SparsityPattern< CT, I, MallocBuffer > p( 1, 2, 1 ); p.insertNonZero( 0, 1 ); ABORTS_IFF( bad, p.resize( r, c, cap ) ); CHECK( p.numRows() == r ); CHECK( p.numColumns() == c ); if( r > 0 && c > 1 ) CHECK( p.numNonZeros( 0 ) == 1 && p.getColumns( 0 )[ 0 ] == 1 ); if( r > 1 ) CHECK( p.nonZeroCapacity( r - 1 ) == cap && p.numNonZeros( r - 1 ) == 0 ); }
  else if( how == 1 ) { lv_expect_begin( bad ); SparsityPattern< CT, I, MallocBuffer > p( r, c, cap ); lv_expect_end(); CHECK( p.numRows() == r ); CHECK( p.numColumns() == c ); CHECK( p.empty() ); if( r > 0 ) CHECK( p.nonZeroCapacity( r - 1 ) == cap && p.empty( r - 1 ) ); if( c > 0 && r > 0 && cap > 0 ) { CT last = static_cast< CT >( c - 1 ); CHECK( p.insertNonZero( 0, last ) ); CHECK( p.getColumns( 0 )[ 0 ] == c - 1 ); CHECK( !p.empty( 0, last ) ); } }
  else { SparsityPattern< CT, I, MallocBuffer > p; I caps[ 2 ] = { cap, 1 }; r = 2; ABORTS_IFF( c < 0 || !fits, p.template resizeFromRowCapacities< RAJA::seq_exec >( r, c, caps ) ); CHECK( p.numRows() == 2 && p.numColumns() == c && p.nonZeroCapacity( 0 ) == cap && p.nonZeroCapacity( 1 ) == 1 ); }
  REACH( "done" );
}
ENTRY( shapes_i8 ) { shapes< std::int8_t, int, std::int64_t >(); }
ENTRY( shapes_u8 ) { shapes< std::uint8_t, std::ptrdiff_t, std::int64_t >(); }
ENTRY( shapes_i16 ) { shapes< std::int16_t, int, std::int64_t >(); }
ENTRY( shapes_i32 ) { shapes< std::int32_t, std::ptrdiff_t, std::int64_t >(); }
ENTRY( shapes_i64 ) { shapes< std::int64_t, int, std::int64_t >(); }
ENTRY( shapes_u32 ) { shapes< std::uint32_t, std::ptrdiff_t, std::int64_t >(); }
// every subset of U columns in a row, every subset of them inserted or removed as one range
template< class CT, class I > void rangeMasks( int U )
{
  int const base = range( "base", 0, 50 ), have = shape( "have", 0, ( 1 << U ) - 1 ), what = shape( "what", 0, ( 1 << U ) - 1 ), how = shape( "how", 0, 3 ); Model m; m.resize( 2 ); m.cols = 100; SparsityPattern< CT, I, MallocBuffer > p( 2, 100, how & 1 ? 8 : 0 );
  for( int j = 0; j < U; ++j ) if( have >> j & 1 ) { p.insertNonZero( 0, static_cast< CT >( base + 2 * j ) ); m.k[ 0 ].setInsert( base + 2 * j ); } p.insertNonZero( 1, static_cast< CT >( base ) ); m.k[ 1 ].setInsert( base );
  CT f[ 8 ]; int n = 0, e = 0; for( int j = 0; j < U; ++j ) if( what >> j & 1 ) f[ n++ ] = static_cast< CT >( base + 2 * j );
  auto const v = p.toView(); I r = how == 0 ? p.insertNonZeros( 0, f, f + n ) : how == 1 ? v.insertNonZeros( 0, f, f + n ) : how == 2 ? p.removeNonZeros( 0, f, f + n ) : v.removeNonZeros( 0, f, f + n );
  for( int q = 0; q < n; ++q ) e += how < 2 ? m.k[ 0 ].setInsert( f[ q ] ) : m.k[ 0 ].setRemove( f[ q ] );
  CHECK( r == e ); check( p, m ); REACH( "done" );
}
ENTRY( masks_int ) { rangeMasks< int, int >( 4 ); }
ENTRY( masks_i16 ) { rangeMasks< std::int16_t, std::ptrdiff_t >( 4 ); }
ENTRY( masks_int_T ) { rangeMasks< int, std::ptrdiff_t >( 6 ); }
