// BOUNDS: arrays of arrays, arrays of sets, sparsity patterns and matrices with 0..3 rows of 0..2 values created with a default capacity of 0..2; capacities requested 0..4 for every row, 0..4 rows and 0..9 values reserved; capacity vectors of 0..4 rows (sets, patterns, matrices: 0..3) with entries 0..3 (0..2); two capacity operations in a row (thorough: three); values symbolic (32-bit, members of sets 0..15), heap-owning elements for arrays of arrays and matrices
// ASSUMES: -
#define LV_ROWS 24
#define LV_COLS 8
#define LV_SET_VALUE range( "a", 0, 15 )
#include "rows.hpp"
// the operations of the four kinds of containers under one set of names; x is larger than every value of the row
template< class T, class I > struct K_AoA: AoA< T, I >
{
  using C = typename AoA< T, I >::C;
  static int rows( C const & c ) { return c.size(); }
  static int size( C const & c, int i ) { return c.sizeOfArray( i ); }
  static int cap( C const & c, int i ) { return c.capacityOfArray( i ); }
  static void const * at( C const & c, int i ) { return c[ i ].dataIfContiguous(); }
  static void setCap( C & c, int i, int n ) { c.setCapacityOfArray( i, n ); }
  static int limit( int n ) { return n; }
  static void reserveRow( C & c, int i, int n ) { if( c.capacityOfArray( i ) < n ) c.setCapacityOfArray( i, n ); }
  static void reserveRows( C & c, int n ) { c.reserve( n ); CHECK( c.capacity() >= n ); }
  static void reserveValues( C & c, int n ) { c.reserveValues( n ); CHECK( c.valueCapacity() >= n ); }
  static int total( C const & c ) { return c.valueCapacity(); }
  static void fromCaps( C & c, int n, I const * p ) { c.template resizeFromCapacities< RAJA::seq_exec >( n, p ); }
  static void add( C & c, Model & m, int i, bool view ) { int x = sym< int >( "x" ); if( view ) c.toView().emplaceBack( i, x ); else c.emplaceBack( i, x ); m.k[ i ].push( x ); }
  static void append( C & c, Model & m, int n ) { c.appendArray( n ); m.insertRow( m.n ); while( n-- ) m.k[ m.n - 1 ].push( 0 ); }
  static void grow( C & c, int n, int cap ) { c.resize( n, cap ); }
};
template< class I > struct K_AoS: AoS< int, I >
{
  using C = typename AoS< int, I >::C;
  static int rows( C const & c ) { return c.size(); }
  static int size( C const & c, int i ) { return c.sizeOfSet( i ); }
  static int cap( C const & c, int i ) { return c.capacityOfSet( i ); }
  static void const * at( C const & c, int i ) { return c[ i ].dataIfContiguous(); }
  static void setCap( C & c, int i, int n ) { c.setCapacityOfSet( i, n ); }
  static int limit( int n ) { return n; }
  static void reserveRow( C & c, int i, int n ) { c.reserveCapacityOfSet( i, n ); }
  static void reserveRows( C & c, int n ) { c.reserve( n ); CHECK( c.capacity() >= n ); }
  static void reserveValues( C & c, int n ) { c.reserveValues( n ); CHECK( c.valueCapacity() >= n ); }
  static int total( C const & c ) { return c.valueCapacity(); }
  static void fromCaps( C & c, int n, I const * p ) { c.template resizeFromCapacities< RAJA::seq_exec >( n, p ); }
  static void add( C & c, Model & m, int i, bool view ) { int x = range( "x", 0, 15 ); bool r = view ? c.toView().insertIntoSet( i, x ) : c.insertIntoSet( i, x ); ASSUME( r ); m.k[ i ].setInsert( x ); }
  static void append( C & c, Model & m, int n ) { c.appendSet( n ); m.insertRow( m.n ); CHECK( c.capacityOfSet( m.n - 1 ) == n ); }
  static void grow( C & c, int n, int cap ) { c.resize( n, cap ); }
};
template< class B, class I > struct K_Rows: B
{
  using C = typename B::C;
  static int rows( C const & c ) { return c.numRows(); }
  static int size( C const & c, int i ) { return c.numNonZeros( i ); }
  static int cap( C const & c, int i ) { return c.nonZeroCapacity( i ); }
  static void const * at( C const & c, int i ) { return c.getColumns( i ).dataIfContiguous(); }
  static void setCap( C & c, int i, int n ) { c.setRowCapacity( i, n ); }
  static int limit( int n ) { return n < 6 ? n : 6; }
  static void reserveRow( C & c, int i, int n ) { c.reserveNonZeros( i, n ); }
  static void reserveValues( C & c, int n ) { c.reserveNonZeros( n ); CHECK( c.nonZeroCapacity() >= n ); }
  static int total( C const & c ) { return c.nonZeroCapacity(); }
  static void fromCaps( C & c, int n, I const * p ) { c.template resizeFromRowCapacities< RAJA::seq_exec >( n, 6, p ); }
  static void grow( C & c, int n, int cap ) { c.resize( n, 6, cap ); }
};
template< class I > struct K_Pat: K_Rows< Pattern< int, I >, I >
{
  using C = typename Pattern< int, I >::C;
  static void reserveRows( C & c, int n ) { c.reserveRows( n ); }
  static void add( C & c, Model & m, int i, bool view ) { int x = range( "x", 0, 5 ); bool r = view ? c.toView().insertNonZero( i, x ) : c.insertNonZero( i, x ); ASSUME( r ); m.k[ i ].setInsert( x ); }
  static void append( C & c, Model & m, int n ) { c.appendRow( n ); m.insertRow( m.n ); CHECK( c.nonZeroCapacity( m.n - 1 ) == n ); }
};
template< class T, class I > struct K_Mat: K_Rows< Matrix< T, int, I >, I >
{
  using C = typename Matrix< T, int, I >::C;
  static void reserveRows( C &, int ) {}
  static void add( C & c, Model & m, int i, bool view ) { int x = range( "x", 0, 5 ), y = sym< int >( "y" ); T const e( y ); bool r = view ? c.toView().insertNonZero( i, x, e ) : c.insertNonZero( i, x, e ); ASSUME( r ); int p = m.k[ i ].lower( x ); m.k[ i ].setInsert( x ); m.v[ i ].insert( p, y ); }
  static void append( C & c, Model & m, int n ) { c.resize( m.n + 1, 6, n ); m.insertRow( m.n ); CHECK( c.nonZeroCapacity( m.n - 1 ) == n ); }
};
template< class C > auto offsetsOf( C const & c ) { return c.toViewConst().getOffsets(); }
// sizes within capacities, rows one behind the other without sharing storage, everything inside the buffer
template< class K > void layout( typename K::C const & c, Model const & m )
{
  K::same( c, m ); bool ok = K::rows( c ) == m.n; int sum = 0; auto const * off = offsetsOf( c );
  for( int i = 0; i < m.n; ++i ) { ok &= K::size( c, i ) <= K::cap( c, i ); ok &= off[ i ] == sum; sum += K::cap( c, i ); }
  CHECK( ok ); CHECK( sum <= K::total( c ) );
}
template< class K > void fillRow( typename K::C & c, Model & m, int i, int cap )
{
  if( cap > 4 ) cap = 4; void const * before[ ROWS ]; for( int r = 0; r < m.n; ++r ) before[ r ] = K::at( c, r );
  bool view = shape( "view", 0, 1 ); while( K::size( c, i ) < cap ) K::add( c, m, i, view );
  bool ok = true; for( int r = 0; r < m.n; ++r ) ok &= K::at( c, r ) == before[ r ];
  CHECK_MSG( ok, "filling up a row to its capacity moved values" ); layout< K >( c, m );
}
template< class T, class I > void const * first( ArrayOfArrays< T, I, MallocBuffer > const & c ) { return c.toViewConst().getValues(); }
template< class T, class I > void const * first( ArrayOfSets< T, I, MallocBuffer > const & c ) { return c.toViewConst().getValues(); }
template< class CT, class I > void const * first( SparsityPattern< CT, I, MallocBuffer > const & c ) { return c.toViewConst().getColumns(); }
template< class T, class CT, class I > void const * first( CRSMatrix< T, CT, I, MallocBuffer > const & c ) { return c.toViewConst().getEntries(); }
// fill a row completely without looking at the other rows
template< class K > void fillRow2( typename K::C & c, Model & m, int i, int cap )
{
  void const * p = first( c ); while( K::size( c, i ) < cap ) K::add( c, m, i, true );
  CHECK_MSG( first( c ) == p && K::cap( c, i ) == cap, "using a capacity moved the values" );
}
template< class K > void op( typename K::C & c, Model & m, int o, int hiCap )
{
  int caps[ ROWS ]; for( int r = 0; r < m.n; ++r ) caps[ r ] = K::cap( c, r );
  if( m.n == 0 && o < 3 ) o = 5;
  switch( o )
  {
    case 0: case 1:     // set or reserve the capacity of a row, then use all of it
    {
      int i = shape( "i", 0, m.n - 1 ), n = shape( "c", 0, hiCap ); if( o == 0 ) K::setCap( c, i, n ); else K::reserveRow( c, i, n );
      bool ok = o == 0 ? K::cap( c, i ) == K::limit( n ) : K::cap( c, i ) >= n && K::cap( c, i ) >= caps[ i ]; CHECK( ok );
      for( int r = 0; r < m.n; ++r ) if( r != i ) ok &= K::cap( c, r ) == caps[ r ];
      CHECK( ok ); if( o == 0 && m.k[ i ].n > n ) m.k[ i ].n = m.v[ i ].n = n;
      layout< K >( c, m ); fillRow< K >( c, m, i, K::cap( c, i ) ); break;
    }
    case 2:             // reserve room for rows and values, then use it
    {
      int n = shape( "rows", 0, 4 ), v = shape( "vals", 0, 1 ) * 9; K::reserveRows( c, n ); K::reserveValues( c, v ); layout< K >( c, m );
      bool ok = true; for( int r = 0; r < m.n; ++r ) ok &= K::cap( c, r ) == caps[ r ];
      CHECK( ok ); auto const * off = offsetsOf( c ); auto const * sz = c.toViewConst().getSizes(); void const * p = v ? first( c ) : nullptr;
      int i = shape( "i", 0, m.n - 1 ); while( m.k[ i ].n < 3 && offsetsOf( c )[ m.n ] < 4 ) K::add( c, m, i, false );
      if( v ) CHECK_MSG( first( c ) == p, "values reallocated although the capacity was reserved" );
      layout< K >( c, m ); while( !std::is_same< K, K_Mat< Owner, int > >::value && m.n < n ) K::append( c, m, 0 );
      layout< K >( c, m ); CHECK_MSG( offsetsOf( c ) == off && c.toViewConst().getSizes() == sz, "rows reallocated although they were reserved" ); break;
    }
    case 3:             // no slack
    {
      c.compress(); bool ok = true; int sum = 0; for( int r = 0; r < m.n; ++r ) { ok &= K::cap( c, r ) == m.k[ r ].n; sum += m.k[ r ].n; }
      CHECK( ok ); CHECK( offsetsOf( c )[ m.n ] == sum ); layout< K >( c, m ); if( m.n ) { K::add( c, m, shape( "i", 0, m.n - 1 ), false ); layout< K >( c, m ); } break;
    }
    case 4:             // more or fewer rows of a default capacity
    {
      int n = shape( "rows", 0, 4 ), d = shape( "d", 0, 2 ), old = m.n; K::grow( c, n, d ); m.resize( n ); bool ok = true;
      for( int r = 0; r < n; ++r ) ok &= K::cap( c, r ) == ( r < old ? caps[ r ] : d );
      CHECK( ok ); layout< K >( c, m ); if( n ) fillRow< K >( c, m, n - 1, K::cap( c, n - 1 ) ); break;
    }
    case 5: { int n = shape( "k", 0, 2 ); K::append( c, m, n ); bool ok = true; for( int r = 0; r + 1 < m.n; ++r ) ok &= K::cap( c, r ) == caps[ r ]; CHECK( ok ); layout< K >( c, m ); break; }
    default: { if( m.n == 0 ) break; int i = shape( "i", 0, m.n - 1 ); K::add( c, m, i, false ); layout< K >( c, m ); }
  }
}
template< class K > void history( int ops, int hiRows, int hiCap )
{
  typename K::C c; Model m; K::make( c, m, hiRows ); layout< K >( c, m );
  for( int o = 0; o < ops && m.n < ROWS; ++o ) op< K >( c, m, shape( "op", 0, 6 ), hiCap );
  REACH( "done" );
}
// a container built from a vector of capacities, whatever it held before: exactly those capacities, all usable through views in any order of rows
template< class K, class I > void fromCaps( int hiRows, int hiCap )
{
  typename K::C c; Model m; if( shape( "before", 0, 1 ) ) K::make( c, m, 2 );
  int n = shape( "rows", 0, hiRows ); I caps[ 5 ] = {}; for( int r = 0; r < n; ++r ) caps[ r ] = shape< I >( "c", 0, hiCap );
  K::fromCaps( c, n, caps ); m.n = 0; m.resize( n ); m.cols = 6; bool ok = true; for( int r = 0; r < n; ++r ) ok &= K::cap( c, r ) == caps[ r ];
  CHECK( ok ); layout< K >( c, m );
  if( shape( "order", 0, 1 ) ) for( int r = n; r-- > 0; ) fillRow2< K >( c, m, r, caps[ r ] ); else for( int r = 0; r < n; ++r ) fillRow2< K >( c, m, r, caps[ r ] );
  layout< K >( c, m ); REACH( "done" );
}
#if LV_THOROUGH
#define X 1
#else
#define X 0
#endif
ENTRY( caps_int ) { fromCaps< K_AoA< int, int >, int >( 4, 2 + X ); }
ENTRY( caps_owner ) { fromCaps< K_AoA< Owner, std::ptrdiff_t >, std::ptrdiff_t >( 3, 2 + X ); }
ENTRY( caps_sets ) { fromCaps< K_AoS< int >, int >( 2 + X, 2 ); }
ENTRY( caps_pattern ) { fromCaps< K_Pat< std::ptrdiff_t >, std::ptrdiff_t >( 2 + X, 2 ); }
ENTRY( caps_matrix ) { fromCaps< K_Mat< Owner, int >, int >( 2 + X, 2 ); }
ENTRY( hist_int ) { history< K_AoA< int, std::ptrdiff_t > >( 1 + X, 3, 4 ); }
ENTRY( hist_owner ) { history< K_AoA< Owner, int > >( 2, 2, 3 ); }
ENTRY( hist_sets ) { history< K_AoS< int > >( 1 + X, 2 - X, 3 ); }
ENTRY( hist_pattern ) { history< K_Pat< int > >( 1 + X, 2, 3 ); }
ENTRY( hist_matrix ) { history< K_Mat< Owner, int > >( 1 + X, 2, 3 ); }
// the number of rows that fit without reallocation, of containers whose rows were added one by one, removed, copied or reserved
template< class K > void rowCapacity( int hi )
{
  typename K::C c; Model m; int const how = shape( "how", 0, 3 ), n = shape( "n", 0, hi ); if( how == 1 ) { K::grow( c, 2, 0 ); m.resize( 2 ); } if( how == 2 ) K::reserveRows( c, 4 );
  for( int i = 0; i < n; ++i ) K::append( c, m, 0 ); if( how == 3 ) { typename K::C b( c ); c = std::move( b ); }
  auto const * off = offsetsOf( c ); auto const * sz = c.toViewConst().getSizes(); int const cap = c.capacity(); CHECK( cap >= m.n ); for( int i = 0; m.n < cap; ++i ) K::append( c, m, 0 );
  CHECK_MSG( offsetsOf( c ) == off && c.toViewConst().getSizes() == sz, "rows reallocated although they fitted the capacity" ); REACH( "done" );
}
ENTRY( rows_int ) { rowCapacity< K_AoA< int, std::ptrdiff_t > >( 9 + X ); }
ENTRY( rows_sets ) { rowCapacity< K_AoS< int > >( 9 + X ); }
