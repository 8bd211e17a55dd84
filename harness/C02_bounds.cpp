// LV: config=bounds
// BOUNDS: containers of up to 3x3x2 or 2x2x2x2 elements / 3 rows of 0..3 values; every index is a full-width symbolic value of its type (int32, int64, uint32, uint64, int16)
// ASSUMES: extents passed to eraseFromArray as a count are not negative and below 2^31; column indices of matrices are the caller's promise except where the view checks them
#include "nd.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
using namespace LvArray;
template< class I > bool outside( I i, int64_t n ) { return static_cast< __int128 >( i ) < 0 || static_cast< __int128 >( i ) >= n; }
template< class I > bool beyond( I i, int64_t n ) { return static_cast< __int128 >( i ) < 0 || static_cast< __int128 >( i ) > n; }

template< class A > void fill( A & a ) { for( int k = 0; k < a.size(); ++k ) a.data()[ k ] = 50 + k; }
// every way of reaching an element with full-width indices
template< class PERM, class I, class IX, template< class > class B = MallocBuffer > void element()
{
  constexpr int N = PermOf< PERM >::N;
  I d[ N ], s[ N ]; IX i[ N ]; bool bad = false;
  for( int k = 0; k < N; ++k ) d[ k ] = shape< I >( "d", N < 3 ? 0 : 1, N < 3 ? 3 : 2 );
  Array< int, N, PERM, I, B > a; Nd< N >::resize( a, d ); fill( a ); denseStrides< PERM >( d, s );
  for( int k = 0; k < N; ++k ) { i[ k ] = sym< IX >( "i" ); bad = bad | outside( i[ k ], d[ k ] ); }
  auto const v = a.toView(); auto const c = a.toViewConst(); auto const sl = a.toSlice(); auto const sc = a.toSliceConst();
  int got = 0; int how = shape( "how", 0, 8 );
  ABORTS_IFF( bad,
    switch( how )
    {
      case 0: got = Nd< N >::par( a, i ); break;
      case 1: got = Nd< N >::brk( a, i ); break;
      case 2: got = Nd< N >::par( v, i ); break;
      case 3: got = Nd< N >::brk( c, i ); break;
      case 4: got = Nd< N >::par( sl, i ); break;
      case 5: got = Nd< N >::brk( sc, i ); break;
      case 6: got = 50 + static_cast< int >( Nd< N >::lin( a, i ) ); break;
      case 7: got = 50 + static_cast< int >( Nd< N >::lin( sl, i ) ); break;
      default: Nd< N >::par( sl, i ) = 7; got = a.data()[ Nd< N >::lin( a, i ) ] + 43; break;
    } );
  I expect = 0; for( int k = 0; k < N; ++k ) expect += static_cast< I >( i[ k ] ) * s[ k ];
  CHECK( how == 8 ? got == 50 : got == 50 + expect ); REACH( "served" );
}
ENTRY( arr1_i32 ) { element< RAJA::PERM_I, int, int >(); }
ENTRY( arr1_i64 ) { element< RAJA::PERM_I, std::ptrdiff_t, std::ptrdiff_t >(); }
ENTRY( arr1_u32 ) { element< RAJA::PERM_I, unsigned, unsigned >(); }
ENTRY( arr2_ij ) { element< RAJA::PERM_IJ, int, int >(); }
ENTRY( arr2_ji ) { element< RAJA::PERM_JI, std::ptrdiff_t, std::ptrdiff_t >(); }
ENTRY( arr3_ijk ) { element< RAJA::PERM_IJK, int, int >(); }
ENTRY( arr3_kij ) { element< RAJA::PERM_KIJ, int, int >(); }
ENTRY( arr3_kji ) { element< RAJA::PERM_KJI, int, int >(); }
ENTRY( arr3_jki ) { element< RAJA::PERM_JKI, std::ptrdiff_t, std::ptrdiff_t >(); }
ENTRY( arr3_jik_T ) { element< RAJA::PERM_JIK, int, int >(); }
ENTRY( arr3_ikj_T ) { element< RAJA::PERM_IKJ, int, int >(); }
ENTRY( arr4_ijkl ) { element< RAJA::PERM_IJKL, int, int >(); }
ENTRY( arr4_kilj ) { element< RAJA::PERM_KILJ, int, int >(); }
template< class T > using Stack18 = StackBuffer< T, 18 >;
ENTRY( stack2 ) { element< RAJA::PERM_JI, int, int, Stack18 >(); }
// index arguments of another type than the container's index type (only the forms that do not convert on the way in)
template< class I, class IX > void mixed()
{
  I d[ 2 ] = { 2, 3 }; IX i[ 2 ] = { sym< IX >( "i" ), sym< IX >( "j" ) };
  Array< int, 2, RAJA::PERM_IJ, I, MallocBuffer > a( d[ 0 ], d[ 1 ] ); fill( a ); auto const sl = a.toSliceConst();
  bool const bad = outside( i[ 0 ], 2 ) | outside( i[ 1 ], 3 ); int got = 0, how = shape( "how", 0, 2 );
  ABORTS_IFF( bad, if( how == 0 ) got = a( i[ 0 ], i[ 1 ] ); else if( how == 1 ) got = sl( i[ 0 ], i[ 1 ] ); else got = 50 + static_cast< int >( a.linearIndex( i[ 0 ], i[ 1 ] ) ) );
  CHECK( got == 50 + static_cast< int >( i[ 0 ] ) * 3 + static_cast< int >( i[ 1 ] ) ); REACH( "served" );
}
ENTRY( mixed_i32_i64 ) { mixed< int, std::ptrdiff_t >(); }
ENTRY( mixed_i32_u32 ) { mixed< int, unsigned >(); }
ENTRY( mixed_i64_u64 ) { mixed< std::ptrdiff_t, std::size_t >(); }
ENTRY( mixed_i64_i16 ) { mixed< std::ptrdiff_t, short >(); }
// slices of permuted arrays in which a middle index is bad, and sub-slices
ENTRY( subslice )
{
  Array< int, 3, RAJA::PERM_JKI, int, MallocBuffer > a( 2, 2, 3 ); fill( a );
  int i = range( "i", 0, 1 ), j = sym< int >( "j" ), k = sym< int >( "k" ), got = 0; auto const s = a[ i ];
  ABORTS_IFF( outside( j, 2 ), (void)s[ j ] );
  auto const t = s[ j ];
  ABORTS_IFF( outside( k, 3 ), got = t( k ) );
  CHECK( got == a( i, j, k ) ); REACH( "served" );
}
template< class I > void sequencePositions()
{
  int n = shape( "n", 0, 3 ); Array< int, 1, RAJA::PERM_I, I, MallocBuffer > a; for( int k = 0; k < n; ++k ) a.emplace_back( 10 + k );
  I p = sym< I >( "p" ); int how = shape( "how", 0, 2 ); int two[ 2 ] = { 1, 2 };
  bool bad = how == 2 ? outside( p, n ) : beyond( p, n );
  ABORTS_IFF( bad, if( how == 0 ) a.emplace( p, 5 ); else if( how == 1 ) a.insert( p, two, two + 2 ); else a.erase( p ) );
  CHECK( a.size() == n + ( how == 0 ? 1 : how == 1 ? 2 : -1 ) ); REACH( "done" );
}
ENTRY( seq_i32 ) { sequencePositions< int >(); }
ENTRY( seq_i64 ) { sequencePositions< std::ptrdiff_t >(); }
ENTRY( seq_u32 ) { sequencePositions< unsigned >(); }

template< class I > void sorted()
{
  SortedArray< int, I, MallocBuffer > s; int n = shape( "n", 0, 3 ); for( int k = 0; k < n; ++k ) s.insert( 10 * k );
  I i = sym< I >( "i" ); int got = 0, how = shape( "how", 0, 3 ); auto const v = s.toView();
  ABORTS_IFF( outside( i, n ), got = how == 0 ? s[ i ] : how == 1 ? s( i ) : how == 2 ? v[ i ] : v( i ) );
  CHECK( got == 10 * static_cast< int >( i ) ); REACH( "served" );
}
ENTRY( sorted_i32 ) { sorted< int >(); }
ENTRY( sorted_i64 ) { sorted< std::ptrdiff_t >(); }

using AoA = ArrayOfArrays< int, int, MallocBuffer >;
static const int NROW = 2;
static void rows( AoA & a, int * n ) { for( int r = 0; r < NROW; ++r ) { n[ r ] = shape( "n", 0, 2 ); a.appendArray( n[ r ] ); for( int k = 0; k < n[ r ]; ++k ) a( r, k ) = 10 * r + k; } }
ENTRY( aoa_read )
{
  AoA a; int n[ NROW ]; rows( a, n );
  int i = sym< int >( "i" ), j = sym< int >( "j" ), how = shape( "how", 0, 8 ), got = 0; auto const v = a.toView(); auto const c = a.toViewConst(); auto const k = a.toViewConstSizes();
  bool const badRow = outside( i, NROW ); int const len = badRow ? 0 : n[ i ]; bool const bad = how < 6 ? badRow | outside( j, len ) : badRow;
  ABORTS_IFF( bad, switch( how ) {
    case 0: got = a( i, j ); break; case 1: got = v( i, j ); break; case 2: got = c( i, j ); break;
    case 3: got = a[ i ][ j ]; break; case 4: got = c[ i ][ j ]; break; case 5: k( i, j ) += 1; got = a( i, j ) - 1; break;
    case 6: got = a.sizeOfArray( i ); break; case 7: got = v.sizeOfArray( i ); break; default: got = a.capacityOfArray( i ) >= len ? len : -1; } );
  CHECK( got == ( how < 6 ? 10 * i + j : len ) ); REACH( "served" );
}
ENTRY( aoa_change )
{
  AoA a; int n[ NROW ]; rows( a, n ); int how = shape( "how", 0, 8 );
  int i = sym< int >( "i" ), j = how == 7 ? range( "j", 0, 3 ) : sym< int >( "j" ), two[ 2 ] = { 1, 2 };
  bool const badRow = outside( i, NROW ); int const len = badRow ? 0 : n[ i ];
  bool bad = badRow; if( how == 0 || how == 1 ) bad |= beyond( j, len ); if( how == 2 ) bad |= outside( j, len ); if( how == 8 ) bad = beyond( i, NROW );
  ABORTS_IFF( bad, switch( how ) {
    case 0: a.emplace( i, j, 7 ); break; case 1: a.insertIntoArray( i, j, two, two + 2 ); break; case 2: a.eraseFromArray( i, j ); break; case 3: a.emplaceBack( i, 7 ); break;
    case 4: a.appendToArray( i, two, two + 2 ); break; case 5: a.eraseArray( i ); break; case 6: a.clearArray( i ); break; case 7: a.resizeArray( i, j ); break; default: a.insertArray( i, two, two + 2 ); } );
  REACH( "done" );
}
// views cannot grow a row: a change that does not fit the row's capacity is rejected before anything is written
ENTRY( aoa_view_change )
{
  AoA a; int n[ NROW ]; rows( a, n ); for( int r = 0; r < NROW; ++r ) a.setCapacityOfArray( r, shape( "c", 0, 3 ) ); auto const v = a.toView(); int cap[ NROW ]; for( int r = 0; r < NROW; ++r ) { cap[ r ] = a.capacityOfArray( r ); n[ r ] = a.sizeOfArray( r ); }
  int i = sym< int >( "i" ), j = sym< int >( "j" ), how = shape( "how", 0, 6 ), cnt = how == 1 || how == 4 || how == 6 ? range( "cnt", 0, 2 ) : 1, two[ 2 ] = { 1, 2 }; cnt = static_cast< int >( lv_concrete( cnt ) );
  bool const badRow = outside( i, NROW ); int const len = badRow ? 0 : n[ i ], c = badRow ? 0 : cap[ i ];
  bool bad = badRow; if( how == 0 || how == 1 ) bad |= beyond( j, len ); if( how == 2 || how == 6 ) bad |= outside( j, len ); if( how == 6 ) bad |= outside( j, len - cnt + ( cnt == 0 ? 0 : 1 ) ); else if( how != 2 ) bad |= len + cnt > c;
  ABORTS_IFF( bad, switch( how ) {
    case 0: v.emplace( i, j, 7 ); break; case 1: v.insertIntoArray( i, j, two, two + cnt ); break; case 2: v.eraseFromArray( i, j ); break; case 3: v.emplaceBack( i, 7 ); break;
    case 4: v.appendToArray( i, two, two + cnt ); break; case 5: v.emplaceBackAtomic< RAJA::seq_atomic >( i, 7 ); break; default: v.eraseFromArray( i, j, cnt ); } );
  CHECK( a.sizeOfArray( i ) == len + ( how == 2 || how == 6 ? -cnt : cnt ) ); REACH( "done" );
}
ENTRY( aos )
{
  ArrayOfSets< int, int, MallocBuffer > a( 2, 2 ); int n[ 2 ]; for( int r = 0; r < 2; ++r ) { n[ r ] = shape( "n", 0, 2 ); for( int k = 0; k < n[ r ]; ++k ) a.insertIntoSet( r, 10 * r + k ); }
  int i = sym< int >( "i" ), j = sym< int >( "j" ), how = shape( "how", 0, 11 ), got = 0, two[ 2 ] = { 1, 2 }; auto const v = a.toView(); auto const c = a.toViewConst();
  bool const badRow = outside( i, 2 ); int const len = badRow ? 0 : n[ i ]; bool bad = badRow; if( how < 3 ) bad |= outside( j, len ); if( how == 11 ) bad = beyond( i, 2 );
  ABORTS_IFF( bad, switch( how ) {
    case 0: got = a( i, j ); break; case 1: got = c( i, j ); break; case 2: got = v[ i ][ j ]; break; case 3: got = a.contains( i, j ); break; case 4: a.insertIntoSet( i, j ); break; case 5: a.removeFromSet( i, j ); break;
    case 6: a.clearSet( i ); break; case 7: a.eraseSet( i ); break; case 8: got = c.sizeOfSet( i ); break; case 9: a.insertIntoSet( i, two, two + 2 ); break; case 10: a.reserveCapacityOfSet( i, 3 ); break; default: a.insertSet( i, 1 ); } );
  if( how < 3 ) CHECK( got == 10 * i + j );
  REACH( "done" );
}
ENTRY( aos_view_full )
{
  ArrayOfSets< int, int, MallocBuffer > a( 2, 2 ); a.insertIntoSet( 0, 3 ); a.insertIntoSet( 0, 7 ); a.insertIntoSet( 1, 1 ); auto const v = a.toView();
  int x = sym< int >( "x" ), y = sym< int >( "y" ); ASSUME( x < y ); int two[ 2 ] = { x, y }; int how = shape( "how", 0, 2 );
  int const fresh0 = ( x != 3 && x != 7 ) + ( y != 3 && y != 7 ), fresh1 = ( x != 1 ) + ( y != 1 );
  if( how == 0 ) { ABORTS_IFF( x != 3 && x != 7, v.insertIntoSet( 0, x ) ); }
  else if( how == 1 ) { ABORTS_IFF( fresh0 > 0, v.insertIntoSet( 0, two, two + 2 ) ); }
  else { ABORTS_IFF( 1 + fresh1 > 2, v.insertIntoSet( 1, two, two + 2 ) ); }
  CHECK( a.sizeOfSet( 0 ) == 2 ); CHECK( a( 0, 0 ) == 3 ); CHECK( a( 0, 1 ) == 7 ); REACH( "done" );
}
ENTRY( pattern )
{
  SparsityPattern< int, int, MallocBuffer > p( 2, 4, 2 ); p.insertNonZero( 0, 1 ); p.insertNonZero( 1, 0 ); p.insertNonZero( 1, 3 );
  int i = sym< int >( "i" ), j = sym< int >( "j" ), how = shape( "how", 0, 13 ), two[ 2 ] = { 1, j }, got = 0; auto const v = p.toView(); auto const c = p.toViewConst();
  bool const badRow = outside( i, 2 ); int const len = badRow ? 0 : i + 1; bool bad = badRow; if( how == 0 ) bad |= outside( j, len ); bool const ranges = how == 7 || how == 10 || how > 11; if( ranges ) { two[ 0 ] = sym< int >( "first" ); ASSUME( two[ 0 ] < j ); } if( how == 1 || how == 5 || how == 6 || how == 11 || ranges ) bad |= outside( j, 4 ); if( ranges ) bad |= outside( two[ 0 ], 4 ); if( how == 6 && i == 1 ) bad |= j != 0 && j != 3; if( how == 13 ) bad |= i == 0 ? two[ 0 ] != 1 && j != 1 : !( two[ 0 ] == 0 && j == 3 );
  ABORTS_IFF( bad, switch( how ) {
    case 0: got = p.getColumns( i )[ j ]; break; case 1: p.insertNonZero( i, j ); break; case 2: got = c.numNonZeros( i ); break; case 3: got = p.empty( i, 1 ); break; case 4: got = v.empty( i ); break;
    case 5: v.removeNonZero( i, j ); break; case 6: v.insertNonZero( i, j ); break; case 7: p.insertNonZeros( i, two, two + 2 ); break; case 8: p.setRowCapacity( i, 3 ); break; case 10: p.removeNonZeros( i, two, two + 2 ); break; case 11: p.removeNonZero( i, j ); break; case 12: v.removeNonZeros( i, two, two + 2 ); break; case 13: v.insertNonZeros( i, two, two + 2 ); break; default: got = p.nonZeroCapacity( i ); } );
  if( how == 0 ) CHECK( got == ( i == 0 ? 1 : j == 0 ? 0 : 3 ) );
  REACH( "done" );
}
ENTRY( matrix )
{
  CRSMatrix< double, int, int, MallocBuffer > m( 2, 4, 2 ); m.insertNonZero( 0, 1, 1.5 ); m.insertNonZero( 1, 0, 2.5 ); m.insertNonZero( 1, 3, 3.5 );
  int i = sym< int >( "i" ), j = sym< int >( "j" ), how = shape( "how", 0, 13 ), two[ 2 ] = { 1, j }, got = 0; double val[ 2 ] = { 1, 2 }; auto const v = m.toView(); auto const c = m.toViewConst();
  bool const badRow = outside( i, 2 ); int const len = badRow ? 0 : i + 1; bool bad = badRow; if( how < 3 ) bad |= outside( j, len ); bool const ranges = how == 6 || how == 7 || how == 11 || how == 13; if( ranges ) { two[ 0 ] = sym< int >( "first" ); ASSUME( two[ 0 ] < j ); } if( how == 3 || how == 5 || how == 6 || how == 7 || how > 8 ) bad |= outside( j, 4 ); if( ranges ) bad |= outside( two[ 0 ], 4 ); if( how == 10 ) bad |= i == 1 && j != 0 && j != 3; if( how == 11 ) bad |= i == 0 ? two[ 0 ] != 1 && j != 1 : !( two[ 0 ] == 0 && j == 3 );
  ABORTS_IFF( bad, switch( how ) {
    case 0: got = m.getColumns( i )[ j ]; break; case 1: got = static_cast< int >( m.getEntries( i )[ j ] ); break; case 2: got = static_cast< int >( c.getEntries( i )[ j ] ); break; case 3: m.insertNonZero( i, j, 1.0 ); break;
    case 4: got = c.numNonZeros( i ); break; case 5: m.removeNonZero( i, j ); break; case 9: v.removeNonZero( i, j ); break; case 10: v.insertNonZero( i, j, 1.0 ); break; case 11: v.insertNonZeros( i, two, val, 2 ); break; case 12: m.removeNonZeros( i, &j, 1 ); break; case 13: m.removeNonZeros( i, two, 2 ); break; case 6: m.insertNonZeros( i, two, val, 2 ); break; case 7: v.removeNonZeros( i, two, 2 ); break; default: m.addToRow< RAJA::seq_atomic >( i, two, val, 0 ); } );
  if( how == 1 || how == 2 ) CHECK( got == ( i == 0 ? 1 : j == 0 ? 2 : 3 ) );
  REACH( "done" );
}
