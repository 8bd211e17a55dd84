// One face for the owning containers and a list-of-lists oracle for them.
#pragma once
#include "nd.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
using namespace LvArray;
#ifndef LV_SET_VALUE
#define LV_SET_VALUE sym< int >( "a" )
#endif
#ifndef LV_ROWS
#define LV_ROWS 5
#define LV_COLS 8
#endif
constexpr int ROWS = LV_ROWS, COLS = LV_COLS;
struct Model
{
  int n = 0, cols = 0, dim = -1; /* the dimension a one-argument resize changes, -1 for any */ Seq< int, COLS > k[ ROWS ], v[ ROWS ];
  void insertRow( int i ) { if( n >= ROWS ) lv_abort( "oracle rows" ); for( int r = n; r > i; --r ) { k[ r ] = k[ r - 1 ]; v[ r ] = v[ r - 1 ]; } k[ i ].n = v[ i ].n = 0; ++n; }
  void eraseRow( int i ) { for( int r = i; r + 1 < n; ++r ) { k[ r ] = k[ r + 1 ]; v[ r ] = v[ r + 1 ]; } --n; }
  void clear() { n = 0; cols = 0; dim = -1; }
  void resize( int m ) { while( n < m ) insertRow( n ); n = m; }
};
// --- containers with one row
template< class T, class I, template< class > class B > struct Seq1
{
  using C = Array< T, 1, RAJA::PERM_I, I, B >;
  static void make( C & c, Model & m, int hi ) { m.resize( 1 ); int s = shape( "n", 0, hi ); for( int i = 0; i < s; ++i ) { int x = sym< int >( "a" ); c.emplace_back( x ); m.k[ 0 ].push( x ); } }
  static void mutate( C & c, Model & m ) { m.resize( 1 ); int x = sym< int >( "m" ); c.emplace_back( x ); m.k[ 0 ].push( x ); if( m.k[ 0 ].n > 1 ) { c[ 0 ] = T( x ); m.k[ 0 ].d[ 0 ] = x; } }
  static void same( C const & c, Model const & m ) { int s = m.n ? m.k[ 0 ].n : 0; CHECK( c.size() == s ); CHECK( c.empty() == ( s == 0 ) ); CHECK( c.capacity() >= s ); CHECK( c.strides()[ 0 ] == 1 ); bool ok = true; for( int i = 0; i < s; ++i ) ok &= valueOf( c[ i ] ) == m.k[ 0 ].d[ i ]; CHECK( ok ); }
};
template< class T, class I > struct Sort1
{
  using C = SortedArray< T, I, MallocBuffer >;
  static void make( C & c, Model & m, int hi ) { m.resize( 1 ); int s = shape( "n", 0, hi ); for( int i = 0; i < s; ++i ) { int x = sym< int >( "a" ); if( m.k[ 0 ].n > 0 ) ASSUME( x > m.k[ 0 ].d[ m.k[ 0 ].n - 1 ] ); c.insert( T( x ) ); m.k[ 0 ].push( x ); } }
  static void mutate( C & c, Model & m ) { m.resize( 1 ); int x = m.k[ 0 ].n ? m.k[ 0 ].d[ 0 ] : 5; ASSUME( x > -1000000 ); c.insert( T( x - 1 ) ); m.k[ 0 ].insert( 0, x - 1 ); }
  static void same( C const & c, Model const & m ) { int s = m.n ? m.k[ 0 ].n : 0; CHECK( c.size() == s ); CHECK( c.empty() == ( s == 0 ) ); bool ok = true; for( int i = 0; i < s; ++i ) ok &= valueOf( c[ i ] ) == m.k[ 0 ].d[ i ]; CHECK( ok ); }
};
// two-dimensional array of a fixed permutation
template< class T, class PERM, class I, template< class > class B > struct Arr2
{
  using C = Array< T, 2, PERM, I, B >;
  static void make( C & c, Model & m, int hi ) { int r = shape( "r", 0, hi ), w = shape( "w", 0, 2 ); c.resize( r, w ); m.resize( r ); m.cols = w; m.dim = range( "dim", 0, 1 ); c.setSingleParameterResizeIndex( m.dim ); for( int i = 0; i < r; ++i ) for( int j = 0; j < w; ++j ) { int x = sym< int >( "a" ); c( i, j ) = T( x ); m.k[ i ].push( x ); } }
  static void mutate( C & c, Model & m )
  {
    if( m.n && m.cols ) { int x = sym< int >( "m" ); c( m.n - 1, m.cols - 1 ) = T( x ); m.k[ m.n - 1 ].d[ m.cols - 1 ] = x; }
    else { int x = sym< int >( "m" ); c.resize( 1, 2 ); m.n = 0; m.resize( 1 ); m.cols = 2; c( 0, 0 ) = T( x ); c( 0, 1 ) = T( 4 ); m.k[ 0 ].push( x ); m.k[ 0 ].push( 4 ); }
  }
  static void same( C const & c, Model const & m )
  {
    int cols = m.n || m.cols ? m.cols : 0; I d[ 2 ] = { static_cast< I >( m.n ), static_cast< I >( cols ) }, s[ 2 ]; denseStrides< PERM >( d, s );
    CHECK( c.size( 0 ) == d[ 0 ] && c.size( 1 ) == d[ 1 ] ); CHECK( c.size() == d[ 0 ] * d[ 1 ] ); CHECK( m.dim == -1 || c.getSingleParameterResizeIndex() == m.dim );
    if( d[ 0 ] && d[ 1 ] ) { CHECK( c.strides()[ 0 ] == s[ 0 ] && c.strides()[ 1 ] == s[ 1 ] ); }
    bool ok = true; for( int i = 0; i < m.n; ++i ) for( int j = 0; j < cols; ++j ) ok &= valueOf( c( i, j ) ) == m.k[ i ].d[ j ]; CHECK( ok );
  }
};
template< class T, class I > struct AoA
{
  using C = ArrayOfArrays< T, I, MallocBuffer >;
  static void make( C & c, Model & m, int hi )
  {
    int r = shape( "r", 0, hi ), cap = shape( "cap", 0, 2 ); c.resize( r, cap ); m.resize( r );
    for( int i = 0; i < r; ++i ) { int s = shape( "n", 0, 2 ); for( int j = 0; j < s; ++j ) { int x = sym< int >( "a" ); c.emplaceBack( i, x ); m.k[ i ].push( x ); } }
  }
  static void mutate( C & c, Model & m ) { if( m.n == 0 ) { c.resize( 1 ); m.resize( 1 ); } int x = sym< int >( "m" ); c.emplace( m.n - 1, 0, T( x ) ); m.k[ m.n - 1 ].insert( 0, x ); }
  static void same( C const & c, Model const & m )
  {
    CHECK( c.size() == m.n ); bool ok = true;
    for( int i = 0; i < m.n; ++i ) { CHECK( c.sizeOfArray( i ) == m.k[ i ].n ); CHECK( c.capacityOfArray( i ) >= m.k[ i ].n ); for( int j = 0; j < m.k[ i ].n; ++j ) ok &= valueOf( c( i, j ) ) == m.k[ i ].d[ j ]; }
    CHECK( ok );
  }
};
template< class T, class I > struct AoS
{
  using C = ArrayOfSets< T, I, MallocBuffer >;
  static void make( C & c, Model & m, int hi )
  {
    int r = shape( "r", 0, hi ), cap = shape( "cap", 0, 2 ); c.resize( r, cap ); m.resize( r );
    for( int i = 0; i < r; ++i ) { int s = shape( "n", 0, 2 ); for( int j = 0; j < s; ++j ) { int x = LV_SET_VALUE; if( j ) ASSUME( x > m.k[ i ].d[ j - 1 ] ); c.insertIntoSet( i, T( x ) ); m.k[ i ].push( x ); } }
  }
  static void mutate( C & c, Model & m ) { if( m.n == 0 ) { c.resize( 1 ); m.resize( 1 ); } auto & k = m.k[ m.n - 1 ]; int x = k.n ? k.d[ 0 ] : 5; ASSUME( x > -1000000 ); c.insertIntoSet( m.n - 1, T( x - 1 ) ); k.insert( 0, x - 1 ); }
  static void same( C const & c, Model const & m )
  {
    CHECK( c.size() == m.n ); bool ok = true;
    for( int i = 0; i < m.n; ++i ) { CHECK( c.sizeOfSet( i ) == m.k[ i ].n ); CHECK( c.capacityOfSet( i ) >= m.k[ i ].n ); for( int j = 0; j < m.k[ i ].n; ++j ) ok &= valueOf( c( i, j ) ) == m.k[ i ].d[ j ]; }
    CHECK( ok );
  }
};
template< class CT, class I > struct Pattern
{
  using C = SparsityPattern< CT, I, MallocBuffer >;
  static void make( C & c, Model & m, int hi )
  {
    int r = shape( "r", 0, hi ), cap = shape( "cap", 0, 2 ); c.resize( r, 6, cap ); m.resize( r ); m.cols = 6;
    for( int i = 0; i < r; ++i ) { int s = shape( "n", 0, 2 ); for( int j = 0; j < s; ++j ) { int x = range( "a", j ? 4 : 2, j ? 5 : 3 ); c.insertNonZero( i, static_cast< CT >( x ) ); m.k[ i ].push( x ); } }
  }
  static void mutate( C & c, Model & m ) { if( m.n == 0 || m.cols == 0 ) { c.resize( 1, 6, 0 ); m.resize( 1 ); m.cols = 6; } auto & k = m.k[ m.n - 1 ]; int x = k.has( 1 ) ? 0 : 1; bool fresh = c.insertNonZero( m.n - 1, static_cast< CT >( x ) ); CHECK( fresh == !k.has( x ) ); k.setInsert( x ); }
  static void same( C const & c, Model const & m )
  {
    CHECK( c.numRows() == m.n ); CHECK( c.numColumns() == ( m.n || m.cols ? m.cols : 0 ) ); bool ok = true; int total = 0;
    for( int i = 0; i < m.n; ++i ) { CHECK( c.numNonZeros( i ) == m.k[ i ].n ); total += m.k[ i ].n; for( int j = 0; j < m.k[ i ].n; ++j ) ok &= c.getColumns( i )[ j ] == m.k[ i ].d[ j ]; }
    CHECK( ok ); CHECK( c.numNonZeros() == total );
  }
};
template< class T, class CT, class I > struct Matrix
{
  using C = CRSMatrix< T, CT, I, MallocBuffer >;
  static void make( C & c, Model & m, int hi )
  {
    int r = shape( "r", 0, hi ), cap = shape( "cap", 0, 2 ); c.resize( r, 6, cap ); m.resize( r ); m.cols = 6;
    for( int i = 0; i < r; ++i ) { int s = shape( "n", 0, 2 ); for( int j = 0; j < s; ++j ) { int x = range( "a", j ? 4 : 2, j ? 5 : 3 ), y = sym< int >( "v" ); c.insertNonZero( i, static_cast< CT >( x ), T( y ) ); m.k[ i ].push( x ); m.v[ i ].push( y ); } }
  }
  static void mutate( C & c, Model & m )
  {
    if( m.n == 0 || m.cols == 0 ) { c.resize( 1, 6, 0 ); m.resize( 1 ); m.cols = 6; } int x = m.k[ m.n - 1 ].has( 1 ) ? 0 : 1, y = sym< int >( "m" );
    bool fresh = c.insertNonZero( m.n - 1, static_cast< CT >( x ), T( y ) ); CHECK( fresh == !m.k[ m.n - 1 ].has( x ) ); int p = m.k[ m.n - 1 ].lower( x ); if( m.k[ m.n - 1 ].setInsert( x ) ) m.v[ m.n - 1 ].insert( p, y );
  }
  static void same( C const & c, Model const & m )
  {
    CHECK( c.numRows() == m.n ); CHECK( c.numColumns() == ( m.n || m.cols ? m.cols : 0 ) ); bool ok = true;
    for( int i = 0; i < m.n; ++i ) { CHECK( c.numNonZeros( i ) == m.k[ i ].n ); for( int j = 0; j < m.k[ i ].n; ++j ) ok &= c.getColumns( i )[ j ] == m.k[ i ].d[ j ] && valueOf( c.getEntries( i )[ j ] ) == m.v[ i ].d[ j ]; }
    CHECK( ok );
  }
};
