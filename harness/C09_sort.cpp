// BOUNDS: dualSort, makeSorted, makeSortedUnique, removeDuplicates: every input of 0 to 5 elements (values 0..15 or full int; int, double-like and heap-owning elements; ascending and descending)
// BOUNDS: dualSort above the introsort threshold: 65, 66, 67, 70 and 130 elements, 9 base patterns, 2 (thorough: 3) elements at every choice of stated positions symbolic over values 0..15; std::sort path: 17 to 20 elements, same scheme
// BOUNDS: adversarial median-of-three input of 140 elements (deepest partition stack) with one symbolic element
// ASSUMES: makeSorted is encoded as compiled for the host (std::sort of libstdc++ 13); its device branch consists of the functions reached through dualSort
#include "lv.hpp"
#include "sortedArrayManipulation.hpp"
using namespace LvArray;
namespace sam = LvArray::sortedArrayManipulation;
#ifdef LV_THOROUGH
constexpr int NMAX = 6;
#else
constexpr int NMAX = 5;
#endif

template< class T, class C > void checkDual( int n, T * v, int * d, T const * orig, C comp )
{
  bool sorted = true, paired = true, perm = true;
  bool seen[ 160 ] = {};
  for( int i = 1; i < n; ++i ) sorted &= !comp( v[ i ], v[ i - 1 ] );
  for( int i = 0; i < n; ++i )
  {
    if( d[ i ] < 0 || d[ i ] >= n || seen[ d[ i ] ] ) { perm = false; break; }
    seen[ d[ i ] ] = true;
    paired &= v[ i ] == orig[ d[ i ] ];
  }
  CHECK( perm ); CHECK( sorted ); CHECK( paired );
}
template< class C > void dualSmall( bool full )
{
  int n = shape( "n", 0, NMAX );
  int v[ NMAX + 1 ] = {}, o[ NMAX + 1 ] = {}, d[ NMAX + 1 ] = {};
  for( int i = 0; i < n; ++i ) { v[ i ] = o[ i ] = full ? sym< int >( "v" ) : range( "v", 0, 15 ); d[ i ] = i; }
  v[ n ] = -7; d[ n ] = -9;
  sam::dualSort( v, v + n, d, C() );
  checkDual( n, v, d, o, C() );
  CHECK( v[ n ] == -7 ); CHECK( d[ n ] == -9 );
  for( int i = 0; i < n; ++i ) observe( d[ i ] );
  REACH( "sorted" );
}
ENTRY( dualSort_less ) { dualSmall< sam::less< int > >( false ); }
ENTRY( dualSort_greater ) { dualSmall< sam::greater< int > >( false ); }
ENTRY( dualSort_default )
{
  int n = shape( "n", 0, 4 ); int v[ 4 ], o[ 4 ], d[ 4 ];
  for( int i = 0; i < n; ++i ) { v[ i ] = o[ i ] = sym< int >( "v" ); d[ i ] = i; }
  sam::dualSort( v, v + n, d );
  checkDual( n, v, d, o, sam::less< int >() ); REACH( "sorted" );
}
ENTRY( dualSort_owner )
{
  int n = shape( "n", 0, 4 ); Owner v[ 4 ]; Owner d[ 4 ]; int o[ 4 ] = {};
  for( int i = 0; i < n; ++i ) { int x = range( "v", 0, 7 ); o[ i ] = x; v[ i ] = Owner( x ); d[ i ] = Owner( i ); }
  sam::dualSort( v, v + n, d );
  int vv[ 4 ], dd[ 4 ]; for( int i = 0; i < n; ++i ) { vv[ i ] = v[ i ].value(); dd[ i ] = d[ i ].value(); }
  checkDual( n, vv, dd, o, sam::less< int >() ); REACH( "sorted" );
}
// --- above the threshold
int pattern( int kind, int i, int n )
{
  switch( kind )
  {
    case 0: return i * 15 / n;              // ascending
    case 1: return ( n - i ) * 15 / n;      // descending
    case 2: return 7;                       // all equal
    case 3: return i < n / 2 ? i * 30 / n : ( n - 1 - i ) * 30 / n;   // organ pipe
    case 4: return ( i * 11 ) % 16;         // scrambled
    case 5: return i % 2 ? 3 : 12;          // alternating
    case 6: return i == 0 ? 15 : 0;         // one large first
    case 7: return i == n - 1 ? 0 : 9;      // one small last
    default: return i < n / 2 ? ( n / 2 - i ) % 16 : ( i * 5 ) % 16;
  }
}
template< class C, int NSYM > void dualLarge( int n, int kind, bool pivots )
{
  static int v[ 160 ], o[ 160 ], d[ 160 ];
  for( int i = 0; i < n; ++i ) { v[ i ] = pattern( kind, i, n ); d[ i ] = i; }
  int pos[ 3 ];
  if( pivots ) { pos[ 0 ] = 1; pos[ 1 ] = n / 2; pos[ 2 ] = n - 1; }
  else { pos[ 0 ] = 0; pos[ 1 ] = n - 2; pos[ 2 ] = 2; }
  for( int k = 0; k < NSYM; ++k ) v[ pos[ k ] ] = range( "v", 0, 15 );
  for( int i = 0; i < n; ++i ) o[ i ] = v[ i ];
  v[ n ] = -7; d[ n ] = -9;
  sam::dualSort( v, v + n, d, C() );
  checkDual( n, v, d, o, C() );
  CHECK( v[ n ] == -7 ); CHECK( d[ n ] == -9 );
  REACH( "sorted" );
}
ENTRY( dualSort_66_less ) { int k = shape( "pattern", 0, 8 ); dualLarge< sam::less< int >, 2 >( 66, k, shape( "pivots", 0, 1 ) != 0 ); }
ENTRY( dualSort_65_greater ) { int k = shape( "pattern", 0, 8 ); dualLarge< sam::greater< int >, 2 >( 65, k, true ); }
ENTRY( dualSort_64_less ) { int k = shape( "pattern", 0, 8 ); dualLarge< sam::less< int >, 2 >( 64, k, true ); }
ENTRY( dualSort_67_pivots ) { int k = shape( "pattern", 2, 5 ); dualLarge< sam::less< int >, 3 >( 67, k, true ); }
ENTRY( dualSort_130_less ) { int k = shape( "pattern", 0, 8 ); dualLarge< sam::less< int >, 1 >( 130, k, true ); }
ENTRY( dualSort_70_T ) { int k = shape( "pattern", 0, 8 ); dualLarge< sam::less< int >, 3 >( 70, k, shape( "pivots", 0, 1 ) != 0 ); }
ENTRY( dualSort_133_T ) { int k = shape( "pattern", 0, 8 ); dualLarge< sam::greater< int >, 2 >( 133, k, true ); }
// Median-of-three adversary: McIlroy's construction against this very implementation.  Elements are "gas" until a comparison forces a value.
struct Adversary
{
  static int val[ 160 ], nsolid, gas, candidate;
  bool operator()( int x, int y ) const
  {
    if( val[ x ] == gas && val[ y ] == gas ) { if( x == candidate ) val[ x ] = nsolid++; else val[ y ] = nsolid++; }
    if( val[ x ] == gas ) candidate = x; else if( val[ y ] == gas ) candidate = y;
    return val[ x ] < val[ y ];
  }
};
int Adversary::val[ 160 ], Adversary::nsolid, Adversary::gas, Adversary::candidate;
struct AdversaryDown : Adversary { bool operator()( int x, int y ) const { return Adversary::operator()( y, x ); } };
template< class A > void adversarial( int n )
{
  static int p[ 160 ], d[ 160 ], v[ 160 ], o[ 160 ];
  Adversary::gas = 1000; Adversary::nsolid = 0; Adversary::candidate = 0;
  for( int i = 0; i < n; ++i ) { p[ i ] = d[ i ] = i; Adversary::val[ i ] = Adversary::gas; }
  sam::dualSort( p, p + n, d, A() );
  for( int i = 0; i < n; ++i ) CHECK( p[ i ] == d[ i ] );
  for( int i = 1; i < n; ++i ) CHECK( Adversary::val[ p[ i - 1 ] ] != Adversary::val[ p[ i ] ] );
  // the killer input again, as plain values, with one symbolic element
  for( int i = 0; i < n; ++i ) { v[ i ] = Adversary::val[ i ]; d[ i ] = i; }
  v[ n - 1 ] = range( "v", 0, 15 );
  for( int i = 0; i < n; ++i ) o[ i ] = v[ i ];
  sam::dualSort( v, v + n, d );
  checkDual( n, v, d, o, sam::less< int >() );
  REACH( "sorted" );
}
ENTRY( dualSort_adversary ) { adversarial< Adversary >( 140 ); }
ENTRY( dualSort_adversaryDown ) { adversarial< AdversaryDown >( 140 ); }

// --- makeSorted and friends
template< class C > void sortSmall()
{
  int n = shape( "n", 0, NMAX ); int v[ NMAX + 1 ], o[ NMAX + 1 ];
  for( int i = 0; i < n; ++i ) v[ i ] = o[ i ] = range( "v", 0, 7 );
  v[ n ] = -7;
  sam::makeSorted( v, v + n, C() );
  bool sorted = true, counts = true;
  for( int i = 1; i < n; ++i ) sorted &= !C()( v[ i ], v[ i - 1 ] );
  for( int i = 0; i < n; ++i ) { int a = 0, b = 0; for( int j = 0; j < n; ++j ) { a += v[ j ] == o[ i ]; b += o[ j ] == o[ i ]; } counts &= a == b; }
  CHECK( sorted ); CHECK( counts ); CHECK( v[ n ] == -7 ); REACH( "sorted" );
}
ENTRY( makeSorted_less ) { sortSmall< sam::less< int > >(); }
ENTRY( makeSorted_greater ) { sortSmall< sam::greater< int > >(); }
template< class C > void sortMedium( int n )
{
  int v[ 24 ], o[ 24 ]; int k = shape( "pattern", 0, 8 );
  for( int i = 0; i < n; ++i ) v[ i ] = pattern( k, i, n );
  v[ n / 2 ] = range( "v", 0, 15 ); v[ n - 1 ] = range( "v", 0, 15 );
  for( int i = 0; i < n; ++i ) o[ i ] = v[ i ];
  sam::makeSorted( v, v + n, C() );
  bool sorted = true; int s = 0;
  for( int i = 1; i < n; ++i ) sorted &= !C()( v[ i ], v[ i - 1 ] );
  for( int x = 0; x < 16; ++x ) { int a = 0, b = 0; for( int j = 0; j < n; ++j ) { a += v[ j ] == x; b += o[ j ] == x; } s |= a ^ b; }
  CHECK( sorted ); CHECK( s == 0 ); REACH( "sorted" );
}
ENTRY( makeSorted_18 ) { sortMedium< sam::less< int > >( 18 ); }
ENTRY( makeSorted_20_greater_T ) { sortMedium< sam::greater< int > >( 20 ); }

template< class T, class C > void distinct( bool sortedInput )
{
  int n = shape( "n", 0, NMAX ); T v[ NMAX ]; int o[ NMAX ] = {};
  for( int i = 0; i < n; ++i ) { o[ i ] = range( "v", 0, 15 ); if( sortedInput && i ) ASSUME( !C()( o[ i ], o[ i - 1 ] ) ); v[ i ] = T( o[ i ] ); }
  Seq< int > m; for( int i = 0; i < n; ++i ) m.setInsert( o[ i ] );
  std::ptrdiff_t r;
  struct CT { bool operator()( T const & a, T const & b ) const { return C()( valueOf( a ), valueOf( b ) ); } };
  if( sortedInput ) r = sam::removeDuplicates( v, v + n, CT() ); else r = sam::makeSortedUnique( v, v + n, CT() );
  CHECK( r == m.n );
  bool up = C()( 0, 1 ), ok = true;
  for( int i = 0; i < m.n; ++i ) ok &= valueOf( v[ i ] ) == m.d[ up ? i : m.n - 1 - i ];
  CHECK( ok ); observe( r ); REACH( "unique" );
}
ENTRY( removeDuplicates_less ) { distinct< int, sam::less< int > >( true ); }
ENTRY( removeDuplicates_greater ) { distinct< int, sam::greater< int > >( true ); }
ENTRY( removeDuplicates_owner ) { distinct< Owner, sam::less< int > >( true ); }
ENTRY( makeSortedUnique_less ) { distinct< int, sam::less< int > >( false ); }
ENTRY( makeSortedUnique_greater ) { distinct< int, sam::greater< int > >( false ); }
ENTRY( makeSortedUnique_defaults )
{
  int n = shape( "n", 0, 4 ); int v[ 4 ], w[ 4 ]; Seq< int > m;
  for( int i = 0; i < n; ++i ) { v[ i ] = w[ i ] = range( "v", 0, 15 ); m.setInsert( v[ i ] ); }
  std::ptrdiff_t r = sam::makeSortedUnique( v, v + n ); CHECK( r == m.n ); for( int i = 0; i < m.n; ++i ) CHECK( v[ i ] == m.d[ i ] );
  sam::makeSorted( w, w + n ); r = sam::removeDuplicates( w, w + n ); CHECK( r == m.n ); for( int i = 0; i < m.n; ++i ) CHECK( w[ i ] == m.d[ i ] );
}
template< class T, class C > void tests( bool full )
{
  int n = shape( "n", 0, NMAX ); T v[ NMAX ];
  for( int i = 0; i < n; ++i ) v[ i ] = full ? sym< T >( "v" ) : range< T >( "v", 0, 15 );
  bool so = true, un = true;
  for( int i = 1; i < n; ++i ) { so &= !C()( v[ i ], v[ i - 1 ] ); un &= C()( v[ i - 1 ], v[ i ] ); }
  bool r = sam::isSorted( v, v + n, C() ); CHECK( r == so );
  bool u = sam::isSortedUnique( v, v + n, C() ); CHECK( u == un );
  observe( r ); observe( u ); REACH( "answered" );
}
ENTRY( isSorted_int ) { tests< int, sam::less< int > >( true ); }
ENTRY( isSorted_greater ) { tests< int64_t, sam::greater< int64_t > >( false ); }
ENTRY( isSorted_u8 ) { tests< uint8_t, sam::less< uint8_t > >( true ); }
ENTRY( isSorted_default )
{
  int n = shape( "n", 0, 4 ); int v[ 4 ]; bool so = true, un = true;
  for( int i = 0; i < n; ++i ) { v[ i ] = range( "v", 0, 7 ); if( i ) { so &= v[ i - 1 ] <= v[ i ]; un &= v[ i - 1 ] < v[ i ]; } }
  CHECK( sam::isSorted( v, v + n ) == so ); CHECK( sam::isSortedUnique( v, v + n ) == un );
}
ENTRY( description )
{
  CHECK( sam::isSorted( sam::SORTED_UNIQUE ) ); CHECK( sam::isSorted( sam::SORTED_WITH_DUPLICATES ) ); CHECK( !sam::isSorted( sam::UNSORTED_NO_DUPLICATES ) ); CHECK( !sam::isSorted( sam::UNSORTED_WITH_DUPLICATES ) );
  CHECK( sam::isUnique( sam::SORTED_UNIQUE ) ); CHECK( !sam::isUnique( sam::SORTED_WITH_DUPLICATES ) ); CHECK( sam::isUnique( sam::UNSORTED_NO_DUPLICATES ) ); CHECK( !sam::isUnique( sam::UNSORTED_WITH_DUPLICATES ) );
  int x = range( "x", 0, 3 ), y = range( "y", 0, 3 );
  CHECK( sam::less< int >()( x, y ) == ( x < y ) ); CHECK( sam::greater< int >()( x, y ) == ( x > y ) );
}
