// BOUNDS: histories of 2 (thorough: 3) operations on matrices of two rows of 0..2 entries of type double, float, 8- to 64-bit integers, pointer, enumeration, padded structure, std::array, heap-owning and preset; columns of 16 and 64 bits; values of every bit pattern (NaNs and negative zeros included) compared bit by bit
// BOUNDS: setting every entry to one value, and adding to entries, of type double, float, 8- and 64-bit integers with values of every bit pattern
#include "types.hpp"
#include <umpireInterface.cpp>
#ifdef LV_THOROUGH
constexpr int OPS = 3;
#else
constexpr int OPS = 2;
#endif
template< class T > struct Rows { List< int, 8 > c[ 3 ]; List< T, 8 > v[ 3 ]; };
template< class T > int at( Rows< T > & m, int i, int col ) { for( int j = 0; j < m.c[ i ].n; ++j ) if( m.c[ i ].d[ j ] == col ) return j; return -1; }
template< class T > bool put( Rows< T > & m, int i, int col, T const & x ) { if( at( m, i, col ) >= 0 ) return false; int p = 0; while( p < m.c[ i ].n && m.c[ i ].d[ p ] < col ) ++p; m.c[ i ].insert( p, col ); m.v[ i ].insert( p, x ); return true; }
template< class T > bool drop( Rows< T > & m, int i, int col ) { int const p = at( m, i, col ); if( p < 0 ) return false; m.c[ i ].erase( p ); m.v[ i ].erase( p ); return true; }
template< class T, class A > void same( A const & a, Rows< T > const & m, int rows )
{
  CHECK( a.numRows() == rows ); bool ok = true;
  for( int i = 0; i < rows; ++i ) { ok &= a.numNonZeros( i ) == m.c[ i ].n; CHECK( ok ); auto const c = a.getColumns( i ); auto const e = a.getEntries( i ); for( int j = 0; j < m.c[ i ].n; ++j ) { ok &= c[ j ] == m.c[ i ].d[ j ]; ok &= bits( static_cast< T const & >( e[ j ] ), m.v[ i ].d[ j ] ); } }
  CHECK( ok );
}
template< class T, class CT > void history()
{
  CRSMatrix< T, CT, int, MallocBuffer > a; Rows< T > m; int rows = 2; a.resize( 2, 6, shape( "slack", 0, 1 ) * 2 ); int const s = shape( "s", 0, 2 );
  for( int j = 0; j < s; ++j ) { T const x = Gen< T >::get( "a" ); a.insertNonZero( 0, static_cast< CT >( 1 + 2 * j ), x ); put( m, 0, 1 + 2 * j, x ); }
  { T const x = Gen< T >::get( "b" ); a.insertNonZero( 1, static_cast< CT >( 2 ), x ); put( m, 1, 2, x ); }
  same( a, m, rows );
  for( int o = 0; o < OPS; ++o )
  {
    int const i = shape( "i", 0, 1 ); if( i >= rows ) return;
    switch( shape( "op", 0, 7 ) )
    {
      case 0: { T const x = Gen< T >::get( "x" ); int const c = shape( "c", 0, 4 ); bool const r = a.insertNonZero( i, static_cast< CT >( c ), x ), e = put( m, i, c, x ); CHECK( r == e ); break; }
      case 1: { int const c = shape( "c", 0, 4 ); bool const r = a.removeNonZero( i, static_cast< CT >( c ) ), e = drop( m, i, c ); CHECK( r == e ); break; }
      case 2: { int const c = shape( "c", 0, 2 ); CT const f[ 2 ] = { static_cast< CT >( c ), static_cast< CT >( c + 2 ) }; T const x[ 2 ] = { Gen< T >::get( "x" ), Gen< T >::get( "x" ) }; int const r = a.insertNonZeros( i, f, x, 2 ); int e = put( m, i, c, x[ 0 ] ); e += put( m, i, c + 2, x[ 1 ] ); CHECK( r == e ); break; }
      case 3: { int const c = shape( "c", 0, 2 ); CT const f[ 2 ] = { static_cast< CT >( c ), static_cast< CT >( c + 2 ) }; int const r = a.removeNonZeros( i, f, 2 ); int e = drop( m, i, c ); e += drop( m, i, c + 2 ); CHECK( r == e ); break; }
      case 4: { T const x = Gen< T >::get( "x" ); a.template setValues< RAJA::seq_exec >( x ); for( int r = 0; r < rows; ++r ) for( int j = 0; j < m.v[ r ].n; ++j ) m.v[ r ].d[ j ] = x; break; }
      case 5: { int const r = shape( "rows", 1, 3 ); a.resize( r, 6, 1 ); for( int q = r; q < rows; ++q ) m.c[ q ].n = m.v[ q ].n = 0; rows = r; break; }
      case 6: if( shape( "compress", 0, 1 ) ) a.compress(); else a.reserveNonZeros( i, 5 ); break;
      default: { CRSMatrix< T, CT, int, MallocBuffer > b( a ); if( shape( "move", 0, 1 ) ) { a.resize( 1, 3, 0 ); a = std::move( b ); } else { a = b; } break; }
    }
    same( a, m, rows );
  }
  REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { history< T, std::conditional_t< sizeof( T ) == 8, std::int16_t, std::int64_t > >(); }
#define bool signed char // see C10_types
LV_PLAIN( ONE )
#undef bool
// adding to a row, by the three variants
template< class T > void adding()
{
  CRSMatrix< T, int, int, MallocBuffer > a; Rows< T > m; a.resize( 1, 40, 16 ); int const n = shape( "n", 1, 2 ) * 4 - 3, how = shape( "how", 0, 2 ), k = shape( "k", 0, 2 );
  for( int j = 0; j < n; ++j ) { T const x = Gen< T >::get( "a" ); a.insertNonZero( 0, 3 * j, x ); put( m, 0, 3 * j, x ); }
  int c[ 2 ]; T y[ 2 ]; int const first = shape( "c", 0, n - 1 ); for( int j = 0; j < k; ++j ) { if( first + j >= n ) return; c[ j ] = 3 * ( first + j ); y[ j ] = Gen< T >::get( "y" ); T & z = m.v[ 0 ].d[ first + j ]; z = static_cast< T >( z + y[ j ] ); }
  auto const v = a.toViewConstSizes();
  if( how == 0 ) { v.template addToRow< RAJA::seq_atomic >( 0, c, y, k ); } else if( how == 1 ) { v.template addToRowBinarySearch< RAJA::seq_atomic >( 0, c, y, k ); } else { v.template addToRowLinearSearch< RAJA::seq_atomic >( 0, c, y, k ); }
  same( a, m, 1 ); REACH( "added" );
}
ENTRY( adding_d ) { adding< double >(); }
ENTRY( adding_f ) { adding< float >(); }
ENTRY( adding_u8 ) { adding< std::uint8_t >(); }
ENTRY( adding_i64 ) { adding< std::uint64_t >(); }
