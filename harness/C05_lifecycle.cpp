// BOUNDS: every sequence of 2 (thorough 3) of {copy-assign, move-assign, assign to itself, copy-construct, move-construct, modify either} on two containers with 0..2 rows (0..1 for matrices of owning values) of 0..2 values, capacities with and without slack, symbolic values; int, heap-owning and copy-only elements; every container, heap and stack buffers
// ASSUMES: after being moved from, a container is only resized, assigned to or destroyed; a container is not move-assigned to itself
#include "rows.hpp"
#ifdef LV_THOROUGH
constexpr int OPS = 3;
#else
constexpr int OPS = 2;
#endif
template< class K > void life( int hi, int ops = OPS )
{
  using C = typename K::C; C a, b; Model ma, mb; K::make( a, ma, hi ); if( shape( "full", 0, 1 ) ) K::make( b, mb, hi );
  for( int o = 0; o < ops; ++o )
    switch( shape( "op", 0, 7 ) )
    {
      case 0: b = a; mb = ma; break;
      case 1: b = std::move( a ); mb = ma; ma.clear(); K::same( a, ma ); break;
      case 2: { C & r = b; b = r; break; }
      case 3: { C c( a ); Model mc = ma; K::mutate( a, ma ); K::same( c, mc ); b = c; mb = mc; K::mutate( c, mc ); K::same( c, mc ); break; }
      case 4: { C c( std::move( b ) ); K::same( c, mb ); Model e; K::same( b, e ); b = std::move( c ); K::same( b, mb ); break; }
      case 5: K::mutate( a, ma ); break;
      case 6: K::mutate( b, mb ); break;
      default: a = b; ma = mb; break;
    }
  K::same( a, ma ); K::same( b, mb ); REACH( "done" );
}

template< class T > using Stack8 = StackBuffer< T, 8 >;
ENTRY( array_int ) { life< Seq1< int, int, MallocBuffer > >( 2 ); }
ENTRY( array_owner ) { life< Seq1< Owner, std::ptrdiff_t, MallocBuffer > >( 2 ); }
ENTRY( array_deep ) { life< Seq1< Deep, int, MallocBuffer > >( 1 ); }
ENTRY( array_stack ) { life< Seq1< int, int, Stack8 > >( 2 ); }
ENTRY( array2_ij ) { life< Arr2< Owner, RAJA::PERM_IJ, int, MallocBuffer > >( 1 ); }
ENTRY( array2_ji ) { life< Arr2< int, RAJA::PERM_JI, int, MallocBuffer > >( 2 ); }
ENTRY( sorted_int ) { life< Sort1< int, int > >( 2 ); }
ENTRY( sorted_owner ) { life< Sort1< Owner, std::ptrdiff_t > >( 2 ); }
ENTRY( aoa_int ) { life< AoA< int, int > >( 1 ); }
ENTRY( aoa_owner ) { life< AoA< Owner, int > >( 1 ); }
ENTRY( aos_int ) { life< AoS< int, int > >( 1 ); }
ENTRY( aos_owner ) { life< AoS< Owner, int > >( 1 ); }
ENTRY( pattern ) { life< Pattern< int, int > >( 1 ); }
ENTRY( matrix_int ) { life< Matrix< int, int, int > >( 1 ); }
ENTRY( matrix_owner ) { life< Matrix< Owner, int, int > >( 1 ); }
// larger shapes, one operation
ENTRY( aoa_owner_rows ) { life< AoA< Owner, std::ptrdiff_t > >( 2, 1 ); }
ENTRY( aos_rows ) { life< AoS< int, std::ptrdiff_t > >( 2, 1 ); }
ENTRY( matrix_owner_rows_T ) { life< Matrix< Owner, int, std::ptrdiff_t > >( 2, 1 ); }
ENTRY( pattern_rows_T ) { life< Pattern< int, std::ptrdiff_t > >( 2, 1 ); }
ENTRY( array2_rows ) { life< Arr2< Owner, RAJA::PERM_JI, int, MallocBuffer > >( 3, 1 ); }
