// operation histories on arrays of arrays against a list of lists
#pragma once
#include "rows.hpp"
template< class A > void layout( A const & a, Model const & m )
{
  CHECK( a.size() == m.n ); CHECK( a.capacity() >= m.n ); auto const v = a.toViewConst(); auto const * off = v.getOffsets(); auto const * sz = v.getSizes(); bool ok = true;
  CHECK( off[ 0 ] == 0 );
  for( int i = 0; i < m.n; ++i ) { ok &= a.sizeOfArray( i ) == m.k[ i ].n; ok &= sz[ i ] == m.k[ i ].n; ok &= off[ i + 1 ] - off[ i ] >= sz[ i ]; ok &= a.capacityOfArray( i ) == off[ i + 1 ] - off[ i ]; ok &= a[ i ].size() == m.k[ i ].n; }
  CHECK( ok ); CHECK( off[ m.n ] <= a.valueCapacity() );
}
template< class A > void values( A const & a, Model const & m )
{
  bool ok = true; auto const c = a.toViewConst(); auto const v = a.toView(); CHECK( c.size() == m.n && v.size() == m.n );
  for( int i = 0; i < m.n; ++i ) { int j = 0; for( auto const & x : a[ i ] ) { ok &= valueOf( x ) == m.k[ i ].d[ j ]; ok &= valueOf( a( i, j ) ) == m.k[ i ].d[ j ]; ok &= &x == c.getValues() + c.getOffsets()[ i ] + j; ok &= &v( i, j ) == &x; ++j; } ok &= j == m.k[ i ].n; }
  CHECK( ok );
}
template< class A > void all( A const & a, Model const & m ) { layout( a, m ); values( a, m ); }
template< class T, class I > void aoaStart( ArrayOfArrays< T, I, MallocBuffer > & a, Model & m, int hiRows, int hiSize )
{
  int r = shape( "r", 1, hiRows ), cap = shape( "cap", 0, 2 ); a.resize( r, cap ); m.resize( r );
  for( int i = 0; i < r; ++i ) { int s = shape( "n", 0, hiSize ); for( int j = 0; j < s; ++j ) { int x = sym< int >( "a" ); a.emplaceBack( i, x ); m.k[ i ].push( x ); } }
}
template< class T, class I > void aoaOp( ArrayOfArrays< T, I, MallocBuffer > & a, Model & m, int op )
{
  int f[ 3 ]; int i = m.n > 0 ? shape( "i", 0, m.n - 1 ) : 0;
  if( m.n == 0 && op != 5 && op != 6 && op != 7 && op != 11 ) { a.resize( 1 ); m.resize( 1 ); }
  auto & k = m.k[ i ]; auto fresh = [&]( int lo, int hi ) { int n = shape( "k", lo, hi ); for( int q = 0; q < n; ++q ) f[ q ] = sym< int >( "f" ); return n; };
  switch( op )
  {
    case 0: { int x = sym< int >( "x" ); a.emplaceBack( i, x ); k.push( x ); break; }
    case 1: { int x = sym< int >( "x" ), j = range( "j", 0, k.n ); a.emplace( i, j, T( x ) ); k.insert( j, x ); break; }
    case 2: { if( k.n == 0 ) break; int n = shape( "k", 1, k.n < 2 ? 1 : 2 ), j = range( "j", 0, k.n - n ); a.eraseFromArray( i, j, n ); while( n-- ) k.erase( j ); break; }
    case 3: { int n = fresh( 0, 2 ), j = range( "j", 0, k.n ); a.insertIntoArray( i, j, f, f + n ); for( int q = 0; q < n; ++q ) k.insert( j + q, f[ q ] ); break; }
    case 4: { int n = fresh( 0, 3 ); a.appendToArray( i, Fwd< int >{ f }, Fwd< int >{ f + n } ); for( int q = 0; q < n; ++q ) k.push( f[ q ] ); break; }
    case 5: { int n = shape( "k", 0, 2 ); a.appendArray( n ); m.insertRow( m.n ); while( n-- ) m.k[ m.n - 1 ].push( dflt< T >() ); break; }
    case 6: { int n = fresh( 0, 2 ); a.appendArray( f, f + n ); m.insertRow( m.n ); for( int q = 0; q < n; ++q ) m.k[ m.n - 1 ].push( f[ q ] ); break; }
    case 7: { int n = fresh( 0, 2 ), p = shape( "p", 0, m.n ); a.insertArray( p, f, f + n ); m.insertRow( p ); for( int q = 0; q < n; ++q ) m.k[ p ].push( f[ q ] ); break; }
    case 8: a.eraseArray( i ); m.eraseRow( i ); break;
    case 9: { int n = shape( "k", 0, 3 ); if( shape( "def", 0, 1 ) ) { int x = sym< int >( "x" ); a.resizeArray( i, n, T( x ) ); while( k.n < n ) k.push( x ); } else { a.resizeArray( i, n ); while( k.n < n ) k.push( dflt< T >() ); } k.n = n; break; }
    case 10: a.clearArray( i ); k.n = 0; break;
    case 11: { int n = shape( "k", 0, 3 ), c = shape( "c", 0, 1 ) * 2, old = m.n; a.resize( n, c ); m.resize( n ); for( int q = old; q < n; ++q ) CHECK( a.capacityOfArray( q ) == c ); break; }
    case 12: { int c = shape( "c", 0, 4 ); a.setCapacityOfArray( i, c ); if( k.n > c ) k.n = c; CHECK( a.capacityOfArray( i ) == c ); break; }
    case 13: a.compress(); for( int q = 0; q < m.n; ++q ) CHECK( a.capacityOfArray( q ) == m.k[ q ].n ); break;
    case 14: { int n = shape( "k", 0, 4 ); a.reserve( n ); CHECK( a.capacity() >= n ); n = shape( "k", 0, 1 ) * 9; a.reserveValues( n ); CHECK( a.valueCapacity() >= n ); break; }
    default: { int n = shape( "k", 0, 3 ); I c[ 3 ]; for( int q = 0; q < n; ++q ) c[ q ] = shape< I >( "c", 0, 2 ); a.template resizeFromCapacities< RAJA::seq_exec >( n, c ); m.n = 0; m.resize( n ); for( int q = 0; q < n; ++q ) CHECK( a.capacityOfArray( q ) == c[ q ] ); break; }
  }
}
