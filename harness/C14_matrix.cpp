// BOUNDS: every history of 2 operations (thorough: 3) out of insert / remove one entry or a sorted range of 0..2 (also through views), set all values, zero, write an entry, resize, compress, set and reserve row capacities, rebuild from row capacities, copy, from every start of 1..2 rows of 0..2 entries (longer histories 1 row of 0..1) with and without slack in 6 columns; columns symbolic 0..5, values symbolic 32-bit, plain and heap-owning; additions of 0..2 symbolic columns to rows of 0..4 entries by every search (seq_atomic policy), and to rows of 62 and 67 (thorough: 72) entries, the second one among the last three in the quick tier, by the automatic choice; additions to every subset of 6 columns; ranges of every subset of 5 columns (4 for owning values; thorough 6) inserted into and removed from rows holding every subset; assimilation of patterns of 0..2 rows of 0..2 entries onto empty and filled matrices
// ASSUMES: columns lie within the matrix; ranges are sorted and free of repetitions; columns added to exist in the row
#include "rows.hpp"
#ifndef LV_NO_UMPIRE
#include <umpireInterface.cpp>
#endif
constexpr int NC = 6;
template< class M > void one( M const & p, Model const & m )
{
  CHECK( p.numRows() == m.n ); CHECK( p.numColumns() == m.cols ); bool ok = true; int total = 0;
  for( int i = 0; i < m.n; ++i )
  {
    auto const cols = p.getColumns( i ); auto const e = p.getEntries( i ); int n = m.k[ i ].n; ok &= p.numNonZeros( i ) == n && cols.size() == n && e.size() == n && p.nonZeroCapacity( i ) >= n && p.empty( i ) == ( n == 0 ); total += n;
    for( int j = 0; j < n; ++j ) ok &= cols[ j ] == m.k[ i ].d[ j ] && valueOf( e[ j ] ) == m.v[ i ].d[ j ];
  }
  CHECK( ok ); CHECK( p.numNonZeros() == total ); CHECK( p.empty() == ( total == 0 ) ); CHECK( p.nonZeroCapacity() >= p.getOffsets()[ m.n ] );
}
template< class T, class CT, class I > void check( CRSMatrix< T, CT, I, MallocBuffer > const & p, Model const & m )
{
  one( p, m ); auto const v = p.toView(); one( v, m ); auto const s = p.toViewConstSizes(); one( s, m ); auto const c = p.toViewConst(); one( c, m ); auto const sp = p.toSparsityPatternView();
  bool ok = sp.numRows() == m.n && sp.numColumns() == m.cols && sp.getColumns() == c.getColumns() && v.getEntries() == c.getEntries(); for( int i = 0; i < m.n; ++i ) ok &= sp.numNonZeros( i ) == m.k[ i ].n;
  CHECK( ok );
}
inline bool put( Model & m, int i, int col, int val ) { int p = m.k[ i ].lower( col ); if( !m.k[ i ].setInsert( col ) ) return false; m.v[ i ].insert( p, val ); return true; }
inline bool drop( Model & m, int i, int col ) { if( !m.k[ i ].has( col ) ) return false; int p = m.k[ i ].lower( col ); m.k[ i ].erase( p ); m.v[ i ].erase( p ); return true; }
template< class T, class CT, class I > void op( CRSMatrix< T, CT, I, MallocBuffer > & p, Model & m, int o )
{
  if( m.n == 0 && o < 9 ) { p.resize( 1, NC, 1 ); m.resize( 1 ); m.cols = NC; }
  int i = m.n > 0 ? shape( "i", 0, m.n - 1 ) : 0; auto & k = m.k[ i ]; CT f[ 2 ]; int w[ 2 ]; T e[ 2 ]; auto const v = p.toView();
  auto fresh = [&]() { int n = shape( "k", 0, 2 ); for( int q = 0; q < n; ++q ) { f[ q ] = range< CT >( "f", 0, NC - 1 ); w[ q ] = sym< int >( "w" ); e[ q ] = T( w[ q ] ); if( q ) ASSUME( f[ 0 ] < f[ 1 ] ); } return n; };
  switch( o )
  {
    case 0: { int x = range( "x", 0, NC - 1 ), y = sym< int >( "y" ); bool r = p.insertNonZero( i, static_cast< CT >( x ), T( y ) ); CHECK( r == put( m, i, x, y ) ); break; }
    case 1: { int x = range( "x", 0, NC - 1 ); bool r = shape( "view", 0, 1 ) ? v.removeNonZero( i, static_cast< CT >( x ) ) : p.removeNonZero( i, static_cast< CT >( x ) ); CHECK( r == drop( m, i, x ) ); break; }
    case 2: { int x = range( "x", 0, NC - 1 ), y = sym< int >( "y" ); p.reserveNonZeros( i, k.n + 1 ); bool r = p.toView().insertNonZero( i, static_cast< CT >( x ), T( y ) ); CHECK( r == put( m, i, x, y ) ); break; }
    case 3: { int n = fresh(), c = 0; auto r = p.insertNonZeros( i, f, e, n ); for( int q = 0; q < n; ++q ) c += put( m, i, f[ q ], w[ q ] ); CHECK( r == c ); break; }
    case 4: { int n = fresh(), c = 0; auto r = shape( "view", 0, 1 ) ? v.removeNonZeros( i, f, n ) : p.removeNonZeros( i, f, n ); for( int q = 0; q < n; ++q ) c += drop( m, i, f[ q ] ); CHECK( r == c ); break; }
    case 5: { int n = fresh(), c = 0; p.reserveNonZeros( i, k.n + n ); auto r = p.toView().insertNonZeros( i, f, e, n ); for( int q = 0; q < n; ++q ) c += put( m, i, f[ q ], w[ q ] ); CHECK( r == c ); break; }
    case 6: { int y = sym< int >( "y" ); if( shape( "view", 0, 1 ) ) v.template setValues< RAJA::seq_exec >( T( y ) ); else p.template setValues< RAJA::seq_exec >( T( y ) ); for( int r = 0; r < m.n; ++r ) for( int j = 0; j < m.v[ r ].n; ++j ) m.v[ r ].d[ j ] = y; break; }
    case 7: { if( k.n == 0 ) break; int j = range( "j", 0, k.n - 1 ), y = sym< int >( "y" ); p.toViewConstSizes().getEntries( i )[ j ] = T( y ); m.v[ i ].d[ j ] = y; break; }
    case 8: { int c = shape( "c", 0, 3 ) * 2 + 1; if( shape( "set", 0, 1 ) ) { p.setRowCapacity( i, c ); CHECK( p.nonZeroCapacity( i ) == ( c < NC ? c : NC ) ); if( k.n > c ) k.n = m.v[ i ].n = c; } else { p.reserveNonZeros( i, c ); CHECK( p.nonZeroCapacity( i ) >= ( c < NC ? c : NC ) ); } break; }
    case 9: { int n = shape( "k", 0, 3 ), c = shape( "c", 0, 1 ) * 2, old = m.n; p.resize( n, NC, c ); m.resize( n ); m.cols = NC; for( int q = old; q < n; ++q ) CHECK( p.nonZeroCapacity( q ) == c ); break; }
    case 10: p.compress(); for( int q = 0; q < m.n; ++q ) CHECK( p.nonZeroCapacity( q ) == m.k[ q ].n ); break;
    case 11: { int n = shape( "v", 0, 1 ) * 9; p.reserveNonZeros( n ); CHECK( p.nonZeroCapacity() >= n ); } break;
    case 12: { int n = shape( "k", 0, 3 ); I c[ 3 ]; for( int q = 0; q < n; ++q ) c[ q ] = shape< I >( "c", 0, 2 ); p.template resizeFromRowCapacities< RAJA::seq_exec >( n, NC, c ); m.n = 0; m.resize( n ); m.cols = NC; for( int q = 0; q < n; ++q ) CHECK( p.nonZeroCapacity( q ) == c[ q ] ); break; }
    default: { CRSMatrix< T, CT, I, MallocBuffer > b( p ); check( b, m ); if( m.n ) { Model o2 = m; bool r = b.insertNonZero( i, 2, T( 7 ) ); CHECK( r == put( o2, i, 2, 7 ) ); check( b, o2 ); } check( p, m ); p = b; p = std::move( b ); if( m.n ) put( m, i, 2, 7 ); break; }
  }
}
template< class T, class CT, class I > void start( CRSMatrix< T, CT, I, MallocBuffer > & p, Model & m, int rows, int size )
{
  int r = shape( "r", 1, rows ), cap = shape( "cap", 0, 1 ) * 2; p.resize( r, NC, cap ); m.resize( r ); m.cols = NC;
  for( int i = 0; i < r; ++i ) { int n = shape( "n", 0, size ), v[ 4 ]; for( int j = 0; j < n; ++j ) { v[ j ] = range( "a", 0, NC - 1 ); int y = sym< int >( "v" ); if( j ) ASSUME( v[ j - 1 ] < v[ j ] ); p.insertNonZero( i, static_cast< CT >( v[ j ] ), T( y ) ); m.k[ i ].push( v[ j ] ); m.v[ i ].push( y ); } }
}
template< class T, class CT, class I > void history( int first, int last, int ops, int rows, int size )
{
  CRSMatrix< T, CT, I, MallocBuffer > p; Model m; start( p, m, rows, size );
  check( p, m ); op( p, m, shape( "op", first, last ) ); check( p, m );
  for( int o = 1; o < ops; ++o ) { op( p, m, shape( "op", 0, 13 ) ); check( p, m ); }
  REACH( "done" );
}
#if LV_THOROUGH
#define HI 2
#define LV_DEEP 1
#else
#define HI 1
#define LV_DEEP 0
#endif
ENTRY( one_a ) { history< int, int, int >( 0, 5, 1, 2, 2 ); }
ENTRY( one_b ) { history< int, std::int64_t, std::ptrdiff_t >( 6, 13, 1, 2, 2 ); }
ENTRY( one_owner_a ) { history< Owner, unsigned, std::ptrdiff_t >( 0, 5, 1, 2, 2 ); }
ENTRY( one_owner_b ) { history< Owner, std::int16_t, int >( 6, 13, 1, 2, 2 ); }
ENTRY( two_a ) { history< int, int, int >( 0, 2, 2, HI, HI ); }
ENTRY( two_b ) { history< Owner, int, std::ptrdiff_t >( 3, 5, 2, HI, HI ); }
ENTRY( two_c ) { history< Owner, int, int >( 6, 13, 2, HI, HI ); }
ENTRY( three_T ) { history< Owner, int, int >( 0, 13, 3, 1, 1 ); }
ENTRY( zero )
{
  CRSMatrix< std::int64_t, int, int, MallocBuffer > p; Model m; start( p, m, 2, 2 ); if( shape( "view", 0, 1 ) ) p.toView().zero(); else p.zero();
  for( int r = 0; r < m.n; ++r ) for( int j = 0; j < m.v[ r ].n; ++j ) m.v[ r ].d[ j ] = 0;
  bool ok = true; for( int r = 0; r < m.n; ++r ) for( int j = 0; j < m.k[ r ].n; ++j ) ok &= p.getEntries( r )[ j ] == 0 && p.getColumns( r )[ j ] == m.k[ r ].d[ j ];
  CHECK( ok ); REACH( "done" );
}
// additions to existing entries
template< class M > void add( M const & a, int how, int i, int const * c, unsigned const * v, int n )
{
  if( how == 0 ) a.template addToRow< RAJA::seq_atomic >( i, c, v, n );
  else if( how == 1 ) a.template addToRowBinarySearch< RAJA::seq_atomic >( i, c, v, n );
  else if( how == 2 ) a.template addToRowLinearSearch< RAJA::seq_atomic >( i, c, v, n );
  else a.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( i, c, v, n );
}
ENTRY( add_to_row )
{
  CRSMatrix< unsigned, int, int, MallocBuffer > p( 2, 9, 4 ); int n = shape( "n", 0, 4 ), cols[ 4 ]; unsigned e[ 4 ]; unsigned const o = sym< unsigned >( "o" ); p.insertNonZero( 1, 0, o );
  for( int j = 0; j < n; ++j ) { cols[ j ] = range( "a", 0, 7 ); e[ j ] = sym< unsigned >( "e" ); if( j ) ASSUME( cols[ j - 1 ] < cols[ j ] ); p.insertNonZero( 0, cols[ j ], e[ j ] ); }
  int how = shape( "how", 0, 3 ), a = n ? shape( "k", 0, how == 3 || n > 1 ? 2 : 1 ) : 0, c[ 2 ]; unsigned v[ 2 ];
  for( int q = 0; q < a; ++q ) { int at = range( "at", 0, n - 1 ); c[ q ] = 99; for( int j = 0; j < n; ++j ) if( at == j ) c[ q ] = cols[ j ]; v[ q ] = sym< unsigned >( "v" ); if( q && how < 3 ) ASSUME( c[ 0 ] < c[ 1 ] ); for( int j = 0; j < n; ++j ) if( at == j ) e[ j ] += v[ q ]; }
  if( shape( "view", 0, 2 ) == 0 ) add( p, how, 0, c, v, a ); else if( shape( "sizes", 0, 1 ) ) add( p.toViewConstSizes(), how, 0, c, v, a ); else add( p.toView(), how, 0, c, v, a );
  bool ok = p.numNonZeros( 0 ) == n && p.numNonZeros( 1 ) == 1; for( int j = 0; j < n; ++j ) ok &= p.getColumns( 0 )[ j ] == cols[ j ] && p.getEntries( 0 )[ j ] == e[ j ];
  CHECK( ok ); CHECK( p.getEntries( 1 )[ 0 ] == o ); REACH( "done" );
}
// every subset of six columns in a row, every subset of them added to
template< class I > void addMasks()
{
  int const base = range( "base", 0, 50 ), N = 6, mask = shape( "mask", 1, 63 ), how = shape( "how", 0, 3 ); CRSMatrix< unsigned, int, I, MallocBuffer > p( 2, 100, N ); unsigned e[ N ], v[ N ]; int c[ N ], a = 0;
  for( int j = 0; j < N; ++j ) { e[ j ] = sym< unsigned >( "e" ); p.insertNonZero( 0, base + 3 * j, e[ j ] ); } p.insertNonZero( 1, base, 5u );
  for( int j = 0; j < N; ++j ) if( mask >> j & 1 ) { c[ a ] = base + 3 * j; v[ a ] = sym< unsigned >( "v" ); e[ j ] += v[ a ]; ++a; }
  if( how == 3 && shape( "reverse", 0, 1 ) ) { std::reverse( c, c + a ); std::reverse( v, v + a ); }
  auto const w = p.toViewConstSizes(); if( how == 0 ) w.template addToRow< RAJA::seq_atomic >( 0, c, v, a ); else if( how == 1 ) w.template addToRowBinarySearch< RAJA::seq_atomic >( 0, c, v, a ); else if( how == 2 ) w.template addToRowLinearSearch< RAJA::seq_atomic >( 0, c, v, a ); else w.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( 0, c, v, a );
  bool ok = p.numNonZeros( 0 ) == N; for( int j = 0; j < N; ++j ) ok &= p.getColumns( 0 )[ j ] == base + 3 * j && p.getEntries( 0 )[ j ] == e[ j ];
  CHECK( ok ); CHECK( p.getEntries( 1 )[ 0 ] == 5u ); REACH( "done" );
}
ENTRY( add_masks ) { addMasks< int >(); }
// every subset of U columns in a row, every subset of them inserted or removed as one range
template< class T, class CT, class I > void rangeMasks( int U )
{
  int const base = range( "base", 0, 50 ), have = shape( "have", 0, ( 1 << U ) - 1 ), what = shape( "what", 0, ( 1 << U ) - 1 ), how = shape( "how", 0, 3 ); Model m; m.resize( 2 ); m.cols = 100; CRSMatrix< T, CT, I, MallocBuffer > p( 2, 100, how & 1 ? 8 : 0 );
  for( int j = 0; j < U; ++j ) if( have >> j & 1 ) { int y = sym< int >( "v" ); p.insertNonZero( 0, static_cast< CT >( base + 2 * j ), T( y ) ); put( m, 0, base + 2 * j, y ); } p.insertNonZero( 1, static_cast< CT >( base ), T( 9 ) ); put( m, 1, base, 9 );
  CT f[ 8 ]; int w[ 8 ], n = 0, c = 0; std::vector< T > e; for( int j = 0; j < U; ++j ) if( what >> j & 1 ) { f[ n ] = static_cast< CT >( base + 2 * j ); w[ n ] = sym< int >( "w" ); e.push_back( T( w[ n ] ) ); ++n; }
  auto const v = p.toView(); I r = how == 0 ? p.insertNonZeros( 0, f, e.data(), n ) : how == 1 ? v.insertNonZeros( 0, f, e.data(), n ) : how == 2 ? p.removeNonZeros( 0, f, n ) : v.removeNonZeros( 0, f, n );
  for( int q = 0; q < n; ++q ) c += how < 2 ? put( m, 0, f[ q ], w[ q ] ) : drop( m, 0, f[ q ] );
  CHECK( r == c ); one( p, m ); REACH( "done" );
}
ENTRY( masks_int ) { rangeMasks< int, int, int >( 5 ); }
ENTRY( masks_owner ) { rangeMasks< Owner, std::int16_t, std::ptrdiff_t >( 4 ); }
ENTRY( masks_owner_T ) { rangeMasks< Owner, std::int16_t, std::ptrdiff_t >( 6 ); }
void longRow( int a, bool unsorted )
{
  int const n = shape( "n", 0, LV_DEEP ? 2 : 1 ) * 5 + 62; CRSMatrix< unsigned, int, std::ptrdiff_t, MallocBuffer > p( 1, 150, n ); std::vector< int > cols; std::vector< unsigned > e;
  for( int j = 0; j < n; ++j ) { cols.push_back( 2 * j + ( j & 1 ) ); e.push_back( 7u * j ); } p.insertNonZeros( 0, cols.data(), e.data(), n );
  std::vector< int > c; std::vector< unsigned > v; int at[ 2 ]; for( int q = 0; q < 2; ++q ) { at[ q ] = range( "at", q && !LV_DEEP ? n - 3 : 0, n - 1 ); } if( !unsorted ) ASSUME( at[ 0 ] < at[ 1 ] );
  for( int q = 0; q < a; ++q ) { int x = q < 2 ? at[ q ] : 0; c.push_back( 2 * x + ( x & 1 ) ); v.push_back( sym< unsigned >( "v" ) ); }
  add( p.toView(), unsorted ? 3 : 0, 0, c.data(), v.data(), a );
  CHECK( p.numNonZeros( 0 ) == n ); auto const r = p.getEntries( 0 ); auto const rc = p.getColumns( 0 ); bool ok = true;
  for( int pr = 0; pr < n; ++pr ) { unsigned want = 7u * static_cast< unsigned >( pr ); for( int q = 0; q < a; ++q ) want += v[ q ] * unsigned( at[ q ] == pr ); ok &= r[ pr ] == want && rc[ pr ] == 2 * pr + ( pr & 1 ); }
  CHECK( ok ); REACH( "done" );
}
ENTRY( long_auto ) { longRow( 2, false ); }
ENTRY( long_unsorted ) { longRow( 2, true ); }
// a matrix made from a sparsity pattern
template< class T > void assimilate()
{
  CRSMatrix< T, int, int, MallocBuffer > a; Model old; if( shape( "before", 0, 1 ) ) start( a, old, 1, 1 );
  SparsityPattern< int, int, MallocBuffer > s; Model m; int r = shape( "r", 0, 2 ), cap = shape( "cap", 0, 1 ) * 3; s.resize( r, NC, cap ); m.resize( r ); m.cols = NC;
  for( int i = 0; i < r; ++i ) { int n = shape( "n", 0, 2 ), v[ 2 ]; for( int j = 0; j < n; ++j ) { v[ j ] = range( "a", 0, NC - 1 ); if( j ) ASSUME( v[ 0 ] < v[ 1 ] ); s.insertNonZero( i, v[ j ] ); m.k[ i ].push( v[ j ] ); m.v[ i ].push( 0 ); } }
  if( shape( "compress", 0, 1 ) ) s.compress();
  a.template assimilate< RAJA::seq_exec >( std::move( s ) ); check( a, m ); CHECK( s.numRows() == 0 && s.numColumns() == 0 );
  if( r ) { int y = sym< int >( "y" ); bool f = a.insertNonZero( 0, 3, T( y ) ); CHECK( f == put( m, 0, 3, y ) ); f = a.removeNonZero( r - 1, 2 ); CHECK( f == drop( m, r - 1, 2 ) ); check( a, m ); }
  REACH( "done" );
}
ENTRY( assimilate_int ) { assimilate< int >(); }
ENTRY( assimilate_owner ) { assimilate< Owner >(); }
// shapes that the column type cannot hold, negative ones, and the others
template< class CT, class I > void shapes()
{
  using Big = std::int64_t; using M = CRSMatrix< int, CT, I, MallocBuffer >; I r = sym< I >( "r" ), c = sym< I >( "c" ), cap = range< I >( "cap", 0, 1 ); int how = shape( "how", 0, 2 );
  bool const fits = c <= 0 || static_cast< Big >( c ) - 1 <= static_cast< Big >( std::numeric_limits< CT >::max() ), bad = r < 0 || c < 0 || !fits; if( !bad ) ASSUME( r <= 3 ); I at = 0;
  if( how == 0 ) { M p( 1, 2, 1 ); p.insertNonZero( 0, 1, 7 ); ABORTS_IFF( bad, p.resize( r, c, cap ) ); CHECK( p.numRows() == r && p.numColumns() == c ); if( r > 0 && c > 1 ) CHECK( p.numNonZeros( 0 ) == 1 && p.getColumns( 0 )[ 0 ] == 1 && p.getEntries( 0 )[ 0 ] == 7 ); if( r > 1 ) CHECK( p.nonZeroCapacity( r - 1 ) == cap && p.numNonZeros( r - 1 ) == 0 ); at = 1; }
  M p; I caps[ 3 ] = { cap, 1, 1 };
  if( how == 1 ) { lv_expect_begin( bad ); M q( r, c, cap ); lv_expect_end(); p = std::move( q ); } else if( how == 2 ) { if( r < 0 || r > 3 ) r = 2; ABORTS_IFF( c < 0 || !fits, p.template resizeFromRowCapacities< RAJA::seq_exec >( r, c, caps ) ); }
  if( how ) { CHECK( p.numRows() == r && p.numColumns() == c && p.empty() ); for( I i = 0; i < r; ++i ) CHECK( p.nonZeroCapacity( i ) == ( how == 2 && i ? 1 : cap ) && p.empty( i ) ); if( c > 0 && r > 0 && cap > 0 ) { CT const last = static_cast< CT >( c - 1 ); int const v = sym< int >( "v" ); CHECK( p.insertNonZero( at, last, v ) ); CHECK( p.getColumns( at )[ 0 ] == c - 1 && p.getEntries( at )[ 0 ] == v && !p.empty( at, last ) ); } }
  REACH( "done" );
}
ENTRY( shapes_i8 ) { shapes< std::int8_t, int >(); }
ENTRY( shapes_u8 ) { shapes< std::uint8_t, std::ptrdiff_t >(); }
ENTRY( shapes_i32 ) { shapes< std::int32_t, std::ptrdiff_t >(); }
ENTRY( shapes_i64 ) { shapes< std::int64_t, int >(); }
