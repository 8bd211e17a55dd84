// BOUNDS: copies, moves and assignments between containers of 18 or 70 values, or 18 or 270 rows of 0..4 values and ones holding nothing, less or more; then either is modified; symbolic values, int and heap-owning elements
#define LV_ROWS 280
#define LV_COLS 90
#include "large.hpp"
template< class C > void fill( C & c, Model & m, int n, Seq1< int, int, MallocBuffer > * ) { m.resize( 1 ); for( int i = 0; i < n; ++i ) { int const x = sym< int >( "a" ); c.emplace_back( x ); m.k[ 0 ].push( x ); } }
template< class C > void fill( C & c, Model & m, int n, Seq1< Owner, std::ptrdiff_t, MallocBuffer > * ) { m.resize( 1 ); for( int i = 0; i < n; ++i ) { int const x = sym< int >( "a" ); c.emplace_back( x ); m.k[ 0 ].push( x ); } }
template< class C, class T, class I > void fill( C & c, Model & m, int n, Sort1< T, I > * ) { m.resize( 1 ); for( int i = 0; i < n; ++i ) { c.insert( T( 3 * i ) ); m.k[ 0 ].push( 3 * i ); } }
template< class C, class T, class I > void fill( C & c, Model & m, int n, AoA< T, I > * ) { c.resize( n, 1 ); m.resize( n ); for( int i = 0; i < n; ++i ) for( int j = 0; j < i * 3 % 5; ++j ) { int const x = sym< int >( "a" ); c.emplaceBack( i, x ); m.k[ i ].push( x ); } }
template< class C, class T, class I > void fill( C & c, Model & m, int n, AoS< T, I > * ) { c.resize( n, 1 ); m.resize( n ); for( int i = 0; i < n; ++i ) for( int j = 0; j < i * 3 % 5; ++j ) { c.insertIntoSet( i, T( i + 4 * j ) ); m.k[ i ].push( i + 4 * j ); } }
template< class C, class CT, class I > void fill( C & c, Model & m, int n, Pattern< CT, I > * ) { if( n == 0 ) return; c.resize( n, 6, 1 ); m.resize( n ); m.cols = 6; for( int i = 0; i < n; ++i ) for( int j = 0; j < i * 3 % 5; ++j ) { c.insertNonZero( i, static_cast< CT >( 1 + j ) ); m.k[ i ].push( 1 + j ); } }
template< class C, class T, class CT, class I > void fill( C & c, Model & m, int n, Matrix< T, CT, I > * ) { if( n == 0 ) return; c.resize( n, 6, 1 ); m.resize( n ); m.cols = 6; for( int i = 0; i < n; ++i ) for( int j = 0; j < i * 3 % 5; ++j ) { int const x = sym< int >( "a" ); c.insertNonZero( i, static_cast< CT >( 1 + j ), T( x ) ); m.k[ i ].push( 1 + j ); m.v[ i ].push( x ); } }
template< class C, class T, class PERM, class I, template< class > class B > void fill( C & c, Model & m, int n, Arr2< T, PERM, I, B > * ) { if( n == 0 ) return; c.resize( n, 3 ); m.resize( n ); m.cols = 3; m.dim = 0; for( int i = 0; i < n; ++i ) for( int j = 0; j < 3; ++j ) { int const x = sym< int >( "a" ); c( i, j ) = T( x ); m.k[ i ].push( x ); } }
template< class K > void life( int n )
{
  using C = typename K::C; K * const kind = nullptr; C a, b; static Model ma, mb, mc; ma.clear(); mb.clear(); for( int i = 0; i < ROWS; ++i ) ma.k[ i ].n = ma.v[ i ].n = mb.k[ i ].n = mb.v[ i ].n = 0; int const z = shape( "other", 0, 3 ); fill( a, ma, n, kind ); fill( b, mb, z == 0 ? 0 : z == 1 ? 1 : z == 2 ? n / 2 : n + 1, kind );
  switch( shape( "op", 0, 5 ) )
  {
    case 0: b = a; mb = ma; break;
    case 1: b = std::move( a ); mb = ma; ma.clear(); K::same( a, ma ); break;
    case 2: { C & r = b; b = r; break; }
    case 3: { C c( a ); mc = ma; K::mutate( a, ma ); K::same( c, mc ); b = c; mb = mc; K::mutate( c, mc ); K::same( c, mc ); break; }
    case 4: { C c( std::move( b ) ); K::same( c, mb ); mc.clear(); K::same( b, mc ); b = std::move( c ); K::same( b, mb ); break; }
    default: a = b; ma = mb; break;
  }
  K::same( a, ma ); K::same( b, mb ); if( shape( "which", 0, 1 ) ) K::mutate( b, mb ); else K::mutate( a, ma ); K::same( a, ma ); K::same( b, mb ); REACH( "done" );
}
ENTRY( large_array ) { life< Seq1< int, int, MallocBuffer > >( 70 ); }
ENTRY( large_array_owner ) { life< Seq1< Owner, std::ptrdiff_t, MallocBuffer > >( 18 ); }
ENTRY( large_array2 ) { life< Arr2< Owner, RAJA::PERM_JI, int, MallocBuffer > >( 18 ); }
ENTRY( large_sorted ) { life< Sort1< int, int > >( 70 ); }
ENTRY( large_sorted_owner ) { life< Sort1< Owner, std::ptrdiff_t > >( 18 ); }
ENTRY( large_aoa ) { life< AoA< int, std::ptrdiff_t > >( 270 ); }
ENTRY( large_aoa_owner ) { life< AoA< Owner, int > >( 18 ); }
ENTRY( large_aos_owner ) { life< AoS< Owner, int > >( 18 ); }
ENTRY( large_pattern ) { life< Pattern< int, int > >( 270 ); }
ENTRY( large_matrix ) { life< Matrix< int, int, int > >( 270 ); }
ENTRY( large_matrix_owner ) { life< Matrix< Owner, int, std::ptrdiff_t > >( 18 ); }
