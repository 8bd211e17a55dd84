// BOUNDS: find/contains/remove/insert on every strictly increasing array of 0 to 5 elements (values 0..15, plus full-width int up to 3) and every value
// BOUNDS: range insert/remove: every array of 0 to 4 and every strictly increasing range of 0 to 3 (thorough 5 and 4), values 0..15; int and heap-owning elements
#include "lv.hpp"
#include "sortedArrayManipulation.hpp"
using namespace LvArray;
namespace sam = LvArray::sortedArrayManipulation;
#ifdef LV_THOROUGH
constexpr int N = 6, K = 4, NR = 5;
#else
constexpr int N = 5, K = 3, NR = 4;
#endif
template< class T, int CAP > struct Raw
{
  T * p; int n;
  Raw(): p( static_cast< T * >( std::malloc( CAP * sizeof( T ) ) ) ), n( 0 ) {}
  ~Raw() { for( int i = 0; i < n; ++i ) p[ i ].~T(); std::free( p ); }
};
template< class T, int CAP > void fill( Raw< T, CAP > & a, Seq< int > & m, int n, int hi, bool full = false )
{
  int prev = 0;
  for( int i = 0; i < n; ++i )
  {
    int v = full ? sym< int >( "a" ) : range( "a", 0, hi );
    if( i ) ASSUME( prev < v );
    prev = v; new ( a.p + i ) T( v ); ++a.n; m.push( v );
  }
}
template< class T, int CAP > void same( Raw< T, CAP > const & a, Seq< int > const & m )
{
  CHECK( a.n == m.n ); bool ok = true;
  for( int i = 0; i < m.n; ++i ) ok &= valueOf( a.p[ i ] ) == m.d[ i ];
  CHECK( ok );
}
// callbacks that record what they are told, so that a companion array kept by them can be compared with the set afterwards
template< class T, int CAP > struct Companion
{
  int * c; int & nAdded; int const * src; int oldSize; int newSize;
  T * incrementSize( T * p, std::ptrdiff_t n ) const { nAdded = static_cast< int >( n ); return p; }
  void insert( std::ptrdiff_t pos ) const { for( int i = oldSize; i > pos; --i ) c[ i ] = c[ i - 1 ]; c[ pos ] = src[ 0 ]; }
  void set( std::ptrdiff_t pos, std::ptrdiff_t valuePos ) const { c[ pos ] = src[ valuePos ]; }
  void insert( std::ptrdiff_t nLeft, std::ptrdiff_t valuePos, std::ptrdiff_t pos, std::ptrdiff_t prevPos ) const
  { for( std::ptrdiff_t i = prevPos - 1; i >= pos; --i ) c[ i + nLeft ] = c[ i ]; c[ pos + nLeft - 1 ] = src[ valuePos ]; }
  void remove( std::ptrdiff_t pos ) const { for( std::ptrdiff_t i = pos; i < oldSize - 1; ++i ) c[ i ] = c[ i + 1 ]; }
  void remove( std::ptrdiff_t nRemoved, std::ptrdiff_t cur, std::ptrdiff_t next ) const { for( std::ptrdiff_t i = cur + 1; i < next; ++i ) c[ i - nRemoved ] = c[ i ]; }
};
template< class T > void one( int hi, bool full )
{
  int n = shape( "n", 0, full ? 3 : N ); Raw< T, N + 1 > a; Seq< int > m; fill( a, m, n, hi, full );
  int x = full ? sym< int >( "x" ) : range( "x", 0, hi ); T const v( x );
  CHECK( sam::find( a.p, n, v ) == m.lower( x ) );
  CHECK( sam::contains( a.p, n, v ) == m.has( x ) );
  int c[ N + 2 ]; for( int i = 0; i < n; ++i ) c[ i ] = ( m.d[ i ] ^ 77 );
  int nAdded = -1; int src[ 1 ] = { x ^ 77 };
  Companion< T, N + 1 > cb{ c, nAdded, src, n, 0 };
  bool r;
  if( shape( "op", 0, 1 ) ) { r = sam::insert( a.p, n, v, cb ); CHECK( nAdded == ( r ? 1 : 0 ) ); a.n += r; CHECK( r == m.setInsert( x ) ); }
  else { r = sam::remove( a.p, n, v, cb ); a.n -= r; CHECK( r == m.setRemove( x ) ); }
  same( a, m ); observe( r );
  bool ok = true; for( int i = 0; i < m.n; ++i ) ok &= c[ i ] == ( m.d[ i ] ^ 77 ); CHECK( ok );
  REACH( "done" );
}
ENTRY( one_int ) { one< int >( 15, false ); }
ENTRY( one_full ) { one< int >( 0, true ); }
ENTRY( one_owner ) { one< Owner >( 15, false ); }
template< class T > void many( bool ins )
{
  int n = shape( "n", 0, NR ), k = shape( "k", 0, K ); Raw< T, NR + K > a; Seq< int > m; fill( a, m, n, 15 );
  T f[ K ]; int fv[ K ], src[ K ];
  for( int i = 0; i < k; ++i ) { fv[ i ] = range( "f", 0, 15 ); if( i ) ASSUME( fv[ i - 1 ] < fv[ i ] ); f[ i ] = T( fv[ i ] ); src[ i ] = fv[ i ] ^ 77; }
  int c[ NR + K + 1 ]; for( int i = 0; i < n; ++i ) c[ i ] = ( m.d[ i ] ^ 77 );
  int nAdded = -1; Companion< T, NR + K > cb{ c, nAdded, src, n, 0 };
  int expect = 0; std::ptrdiff_t r;
  if( ins )
  {
    r = sam::insert( a.p, n, f, f + k, cb ); a.n += r; for( int i = 0; i < k; ++i ) expect += m.setInsert( fv[ i ] );
    CHECK( n == 0 ? nAdded >= r : nAdded == r );
  }
  else { r = sam::remove( a.p, n, f, f + k, cb ); a.n -= r; for( int i = 0; i < k; ++i ) expect += m.setRemove( fv[ i ] ); }
  CHECK( r == expect ); same( a, m ); observe( r );
  bool ok = true; for( int i = 0; i < m.n; ++i ) ok &= c[ i ] == ( m.d[ i ] ^ 77 ); CHECK( ok );
  for( int i = 0; i < k; ++i ) CHECK( valueOf( f[ i ] ) == fv[ i ] );
  REACH( "done" );
}
ENTRY( insertRange_int ) { many< int >( true ); }
ENTRY( removeRange_int ) { many< int >( false ); }
ENTRY( insertRange_owner ) { many< Owner >( true ); }
ENTRY( removeRange_owner ) { many< Owner >( false ); }
// with a user comparator
ENTRY( find_greater )
{
  int n = shape( "n", 0, N ); int a[ N ]; for( int i = 0; i < n; ++i ) { a[ i ] = range( "a", 0, 15 ); if( i ) ASSUME( a[ i - 1 ] > a[ i ] ); }
  int x = range( "x", 0, 15 ); int lower = 0; bool has = false;
  for( int i = 0; i < n; ++i ) { lower += a[ i ] > x; has |= a[ i ] == x; }
  CHECK( sam::find( a, n, x, sam::greater< int >() ) == lower ); CHECK( sam::contains( a, n, x, sam::greater< int >() ) == has );
}
