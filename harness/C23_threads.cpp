// LV: variant=plain
// LV: variant=bounds -DLV_BOUNDS_CHECK -UNDEBUG
// BOUNDS: every interleaving, at the atomic operations, of 2 threads with 2 appends each and of 3 threads with 1 (thorough: 2) append to rows of an array of 3 rows holding 0..1 values (int, heap-owning and copy-only elements, 32- and 64-bit indices), every choice of rows, values symbolic; of 2 threads with additions of 2 columns each and 3 threads with 1 column each (thorough: 2) to rows of 2..3 symbolic columns by each of the four search variants; between atomic operations threads may not touch the same memory in conflicting ways (checked for every pair of accesses), so a coarser schedule loses no behaviour
// BOUNDS: threads on different rows: one operation each out of append, insert, erase, pop, set insertion and removal, pattern and matrix insertion and removal, non-atomic addition, row values
// ASSUMES: sequentially consistent atomic operations provided by RAJA (stand-in: one indivisible step each); every row has capacity for what is appended; columns added to exist; columns of one addition are sorted and distinct
#include "rows.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include <umpireInterface.cpp>
using namespace LvArray;
using Atomic = RAJA::auto_atomic;
template< class T, class I > struct Append { ArrayOfArraysView< T, I const, false, MallocBuffer > v; int row[ 2 ], val[ 2 ], n; static void run( void * p ) { auto & a = *static_cast< Append * >( p ); for( int k = 0; k < a.n; ++k ) { a.v.template emplaceBackAtomic< Atomic >( a.row[ k ], a.val[ k ] ); } } };
template< class T, class I > void appends( int threads, int each, int rows )
{
  ArrayOfArrays< T, I, MallocBuffer > a; a.resize( 3, threads * each + 1 ); int first[ 3 ] = {}, old[ 3 ];
  for( int i = 0; i < rows; ++i ) { old[ i ] = i == 0 ? 1 : 0; if( old[ i ] ) { first[ i ] = sym< int >( "first" ); a.emplaceBack( i, first[ i ] ); } }
  Append< T, I > t[ 3 ]; for( int k = 0; k < threads; ++k ) { t[ k ].v = a.toView(); t[ k ].n = each; for( int j = 0; j < each; ++j ) { t[ k ].row[ j ] = shape( "row", 0, rows - 1 ); t[ k ].val[ j ] = sym< int >( "value" ); } }
  for( int k = 0; k < threads; ++k ) lv_spawn( &Append< T, I >::run, &t[ k ] ); lv_join();
  for( int i = 0; i < rows; ++i )
  {
    int n = 0; for( int k = 0; k < threads; ++k ) for( int j = 0; j < each; ++j ) n += t[ k ].row[ j ] == i; CHECK( a.sizeOfArray( i ) == old[ i ] + n ); if( old[ i ] ) CHECK( valueOf( a( i, 0 ) ) == first[ i ] );
    // the appended slots are a merge of the threads' own sequences
    int c[ 3 ] = {}; bool merge[ 8 ][ 3 ][ 3 ][ 3 ] = {}; merge[ 0 ][ 0 ][ 0 ][ 0 ] = true; int w[ 3 ][ 2 ], m[ 3 ] = {}; for( int k = 0; k < threads; ++k ) for( int j = 0; j < each; ++j ) if( t[ k ].row[ j ] == i ) w[ k ][ m[ k ]++ ] = t[ k ].val[ j ]; (void) c;
    for( int x = 0; x <= m[ 0 ]; ++x ) for( int y = 0; y <= m[ 1 ]; ++y ) for( int z = 0; z <= m[ 2 ]; ++z )
    {
      int const s = x + y + z; if( s == 0 ) continue; int const v = valueOf( a( i, old[ i ] + s - 1 ) );
      merge[ s ][ x ][ y ][ z ] = ( x && merge[ s - 1 ][ x - 1 ][ y ][ z ] & ( v == w[ 0 ][ x - 1 ] ) ) | ( y && merge[ s - 1 ][ x ][ y - 1 ][ z ] & ( v == w[ 1 ][ y - 1 ] ) ) | ( z && merge[ s - 1 ][ x ][ y ][ z - 1 ] & ( v == w[ 2 ][ z - 1 ] ) );
    }
    CHECK( merge[ n ][ m[ 0 ] ][ m[ 1 ] ][ m[ 2 ] ] );
  }
  REACH( "appended" );
}
#ifdef LV_THOROUGH
constexpr int MORE = 2;
#else
constexpr int MORE = 1;
#endif
ENTRY( append_2 ) { appends< int, int >( 2, 2, 2 ); }
ENTRY( append_2_i64 ) { appends< std::int64_t, std::ptrdiff_t >( 2, 2, 2 ); }
ENTRY( append_2_owner ) { appends< Owner, int >( 2, 2, 2 ); }
ENTRY( append_2_deep ) { appends< Deep, int >( 2, 2, 2 ); }
ENTRY( append_3 ) { appends< int, int >( 3, 1, 3 ); }
ENTRY( append_3_more_T ) { appends< int, int >( 3, 2, 2 ); }
template< class I > struct Add { CRSMatrixView< unsigned, int const, I const, MallocBuffer > v; int row, n, how; int col[ 2 ]; unsigned val[ 2 ];
  static void run( void * p ) { auto & a = *static_cast< Add * >( p ); if( a.how == 0 ) a.v.template addToRow< Atomic >( a.row, a.col, a.val, a.n ); else if( a.how == 1 ) a.v.template addToRowBinarySearch< Atomic >( a.row, a.col, a.val, a.n ); else if( a.how == 2 ) a.v.template addToRowLinearSearch< Atomic >( a.row, a.col, a.val, a.n ); else a.v.template addToRowBinarySearchUnsorted< Atomic >( a.row, a.col, a.val, a.n ); } };
template< class I > void adds( int threads, int each, int rows, bool same )
{
  CRSMatrix< unsigned, int, I, MallocBuffer > m( rows, 16, 3 ); int col[ 2 ][ 3 ], n[ 2 ]; unsigned val[ 2 ][ 3 ];
  for( int i = 0; i < rows; ++i ) { n[ i ] = 3 - i; for( int j = 0; j < n[ i ]; ++j ) { col[ i ][ j ] = range( "col", 0, 15 ); if( j ) ASSUME( col[ i ][ j - 1 ] < col[ i ][ j ] ); val[ i ][ j ] = sym< unsigned >( "val" ); m.insertNonZero( i, col[ i ][ j ], val[ i ][ j ] ); } }
  Add< I > t[ 3 ]; int const how = shape( "how", 0, 3 );
  for( int k = 0; k < threads; ++k )
  {
    t[ k ].v = m.toViewConstSizes(); t[ k ].row = same ? 0 : shape( "row", 0, rows - 1 ); t[ k ].n = each; t[ k ].how = k == 0 ? how : shape( "how", how, how + ( threads == 2 ) ) % 4; int p = -1;
    for( int j = 0; j < each; ++j ) { p = shape( "p", p + 1, n[ t[ k ].row ] - each + j ); t[ k ].col[ j ] = col[ t[ k ].row ][ p ]; t[ k ].val[ j ] = sym< unsigned >( "add" ); val[ t[ k ].row ][ p ] += t[ k ].val[ j ]; }
  }
  for( int k = 0; k < threads; ++k ) lv_spawn( &Add< I >::run, &t[ k ] ); lv_join();
  bool ok = true; for( int i = 0; i < rows; ++i ) { ok &= m.numNonZeros( i ) == n[ i ]; for( int j = 0; j < n[ i ]; ++j ) ok &= m.getColumns( i )[ j ] == col[ i ][ j ] && m.getEntries( i )[ j ] == val[ i ][ j ]; } CHECK( ok ); REACH( "added" );
}
ENTRY( add_2 ) { adds< int >( 2, 2, 2, false ); }
ENTRY( add_2_i64 ) { adds< std::ptrdiff_t >( 2, 2, 1, true ); }
ENTRY( add_3 ) { adds< int >( 3, MORE, 1, true ); }
// threads that work on different rows
struct RowOps { ArrayOfArraysView< int, int const, false, MallocBuffer > a; ArrayOfSetsView< int, int const, MallocBuffer > s; SparsityPatternView< int, int const, MallocBuffer > p; CRSMatrixView< int, int, int const, MallocBuffer > m; int row, op, x, y, z;
  static void run( void * q ) { auto & t = *static_cast< RowOps * >( q ); t.go(); }
  void go()
  {
    switch( op )
    {
      case 0: a.emplaceBack( row, x ); break; case 1: a.emplace( row, 0, x ); break; case 2: a.eraseFromArray( row, 0 ); break; case 3: a.appendToArray( row, &x, &x + 1 ); break; case 4: a.insertIntoArray( row, 1, &x, &x + 1 ); break;
      case 5: s.insertIntoSet( row, x ); break; case 6: s.removeFromSet( row, x ); break; case 7: p.insertNonZero( row, x ); break; case 8: p.removeNonZero( row, x ); break; case 9: m.insertNonZero( row, x, y ); break; case 10: m.removeNonZero( row, x ); break;
      case 11: m.toViewConstSizes().addToRow< RAJA::seq_atomic >( row, &z, &y, 1 ); break; default: a.emplaceBackAtomic< Atomic >( row, x ); m.toViewConstSizes().getEntries( row )[ 0 ] = y; break;
    }
  }
};
struct Rows { ArrayOfArrays< int, int, MallocBuffer > a; ArrayOfSets< int, int, MallocBuffer > s; SparsityPattern< int, int, MallocBuffer > p; CRSMatrix< int, int, int, MallocBuffer > m; };
ENTRY( rows )
{
  Rows r[ 2 ]; int const base = range( "base", 1, 6 );
  for( auto & q : r ) { q.a.resize( 2, 3 ); q.s.resize( 2, 3 ); q.p.resize( 2, 9, 3 ); q.m.resize( 2, 9, 3 ); for( int i = 0; i < 2; ++i ) { q.a.emplaceBack( i, base ); q.a.emplaceBack( i, base + 1 ); q.s.insertIntoSet( i, base ); q.p.insertNonZero( i, base ); q.m.insertNonZero( i, base, 5 ); } }
  RowOps t[ 2 ], u[ 2 ]; for( int k = 0; k < 2; ++k ) { t[ k ].a = r[ 0 ].a.toView(); t[ k ].s = r[ 0 ].s.toView(); t[ k ].p = r[ 0 ].p.toView(); t[ k ].m = r[ 0 ].m.toView(); t[ k ].row = k; t[ k ].op = shape( "op", 0, 12 ); t[ k ].x = range( "x", 0, 8 ); t[ k ].y = range( "y", 0, 99 ); t[ k ].z = base; u[ k ] = t[ k ]; u[ k ].a = r[ 1 ].a.toView(); u[ k ].s = r[ 1 ].s.toView(); u[ k ].p = r[ 1 ].p.toView(); u[ k ].m = r[ 1 ].m.toView(); }
  lv_spawn( &RowOps::run, &t[ 0 ] ); lv_spawn( &RowOps::run, &t[ 1 ] ); lv_join(); u[ 0 ].go(); u[ 1 ].go();
  bool ok = true; for( int i = 0; i < 2; ++i )
  {
    ok &= r[ 0 ].a.sizeOfArray( i ) == r[ 1 ].a.sizeOfArray( i ) && r[ 0 ].s.sizeOfSet( i ) == r[ 1 ].s.sizeOfSet( i ) && r[ 0 ].p.numNonZeros( i ) == r[ 1 ].p.numNonZeros( i ) && r[ 0 ].m.numNonZeros( i ) == r[ 1 ].m.numNonZeros( i ); if( !ok ) break;
    for( int j = 0; j < r[ 0 ].a.sizeOfArray( i ); ++j ) ok &= r[ 0 ].a( i, j ) == r[ 1 ].a( i, j ); for( int j = 0; j < r[ 0 ].s.sizeOfSet( i ); ++j ) ok &= r[ 0 ].s( i, j ) == r[ 1 ].s( i, j ); for( int j = 0; j < r[ 0 ].p.numNonZeros( i ); ++j ) ok &= r[ 0 ].p.getColumns( i )[ j ] == r[ 1 ].p.getColumns( i )[ j ];
    for( int j = 0; j < r[ 0 ].m.numNonZeros( i ); ++j ) ok &= r[ 0 ].m.getColumns( i )[ j ] == r[ 1 ].m.getColumns( i )[ j ] && r[ 0 ].m.getEntries( i )[ j ] == r[ 1 ].m.getEntries( i )[ j ];
  }
  CHECK( ok ); REACH( "separate" );
}
