// BOUNDS: copies, moves and assignments of arrays (heap and stack storage, 1-D and permuted 2-D), arrays of arrays and matrices of 0..3 elements of type double, float, 8- to 64-bit integers, bool, pointer, enumeration, padded structure, std::array, heap-owning and preset, onto ones with less or more, then either is modified; every bit pattern
#include "types.hpp"
template< class T > using Stack16 = StackBuffer< T, 16 >;
template< class T, template< class > class B > struct One
{
  using C = Array< T, 1, RAJA::PERM_I, int, B >;
  static void make( C & c, List< T > & m, int n ) { for( int i = 0; i < n; ++i ) { T const x = Gen< T >::get( "a" ); c.emplace_back( x ); m.push( x ); } }
  static T & get( C & c, int i ) { return c[ i ]; }
  static int size( C const & c ) { return c.size(); }
};
template< class T > struct Two
{
  using C = Array< T, 2, RAJA::PERM_JI, std::ptrdiff_t, MallocBuffer >;
  static void make( C & c, List< T > & m, int n ) { c.resize( n, 2 ); for( int i = 0; i < n; ++i ) for( int j = 0; j < 2; ++j ) { T const x = Gen< T >::get( "a" ); c( i, j ) = x; m.push( x ); } }
  static T & get( C & c, int i ) { return c( i / 2, i % 2 ); }
  static int size( C const & c ) { return static_cast< int >( c.size() ); }
};
template< class T > struct Nested
{
  using C = ArrayOfArrays< T, int, MallocBuffer >;
  static void make( C & c, List< T > & m, int n ) { if( n == 0 ) return; c.resize( 2, 3 ); for( int i = 0; i < n; ++i ) { T const x = Gen< T >::get( "a" ); c.emplaceBack( 1, x ); m.push( x ); } }
  static T & get( C & c, int i ) { return c( 1, i ); }
  static int size( C const & c ) { return c.size() == 0 ? 0 : c.sizeOfArray( 1 ); }
};
template< class T > struct Sparse
{
  using C = CRSMatrix< T, int, int, MallocBuffer >;
  static void make( C & c, List< T > & m, int n ) { if( n == 0 ) return; c.resize( 2, 9, 3 ); for( int i = 0; i < n; ++i ) { T const x = Gen< T >::get( "a" ); c.insertNonZero( 1, 2 * i, x ); m.push( x ); } }
  static T & get( C & c, int i ) { return c.getEntries( 1 )[ i ]; }
  static int size( C const & c ) { return c.numRows() == 0 ? 0 : c.numNonZeros( 1 ); }
};
template< class T, class K > void life()
{
  using C = typename K::C; auto same = []( C & c, List< T > const & m ) { CHECK( K::size( c ) == m.n ); bool ok = true; for( int i = 0; i < m.n; ++i ) ok &= bits( K::get( c, i ), m.d[ i ] ); CHECK( ok ); };
  auto change = []( C & c, List< T > & m ) { if( m.n == 0 ) return; int const i = shape( "i", 0, m.n - 1 ); T const x = Gen< T >::get( "x" ); K::get( c, i ) = x; m.d[ i ] = x; };
  C a, b; List< T > ma, mb, none; K::make( a, ma, shape( "a", 0, 3 ) ); K::make( b, mb, shape( "b", 0, 1 ) * 2 );
  switch( shape( "op", 0, 5 ) )
  {
    case 0: b = a; mb = ma; break;
    case 1: b = std::move( a ); mb = ma; ma = none; break;
    case 2: a = b; ma = mb; break;
    case 3: { C c( a ); List< T > mc = ma; change( a, ma ); same( c, mc ); change( c, mc ); same( a, ma ); b = std::move( c ); mb = mc; break; }
    case 4: { C c( std::move( a ) ); same( c, ma ); a = c; same( c, ma ); break; }
    default: { C & r = a; a = r; break; }
  }
  same( a, ma ); same( b, mb ); if( shape( "which", 0, 1 ) ) change( a, ma ); else change( b, mb ); same( a, ma ); same( b, mb ); REACH( "done" );
}
#define ONE( T, NAME ) ENTRY( types_ ## NAME ) { switch( shape( "kind", 0, 4 ) ) { case 0: life< T, One< T, MallocBuffer > >(); break; case 1: life< T, std::conditional_t< std::is_trivially_destructible< T >::value, One< T, Stack16 >, One< T, MallocBuffer > > >(); break; case 2: life< T, Two< T > >(); break; case 3: life< T, Nested< T > >(); break; default: life< T, Sparse< T > >(); break; } }
LV_PLAIN( ONE )
