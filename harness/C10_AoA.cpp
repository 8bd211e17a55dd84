// BOUNDS: every history of 2 operations (thorough 3 for plain elements) out of append, insert one / a range, erase one or two, append / insert / erase a sub-array, resize a sub-array, clear, resize, set a capacity, compress, reserve and rebuild from capacities, from every start of 1..2 sub-arrays of 0..1 (element operations first, single operations on heap-owning elements, and thorough: 0..2) values with and without slack; positions symbolic, values symbolic 32-bit; int and heap-owning elements; int32 and int64 indices
// ASSUMES: arguments do not alias elements of the container
#include "aoa.hpp"
template< class T, class I > void history( int first, int last, int ops, int hiRows = 2, int hiSize = 2 )
{
  ArrayOfArrays< T, I, MallocBuffer > a; Model m; aoaStart( a, m, hiRows, hiSize ); all( a, m );
  aoaOp( a, m, shape( "op", first, last ) ); all( a, m );
  for( int o = 1; o < ops; ++o ) { aoaOp( a, m, shape( "op", 0, 15 ) ); all( a, m ); }
  REACH( "done" );
}
#if LV_THOROUGH
#define HI 2
#else
#define HI 1
#endif
ENTRY( int_elem ) { history< int, int >( 0, 2, 2 ); }
ENTRY( int_range ) { history< int, int >( 3, 4, 2, 2, HI ); }
ENTRY( int_rows ) { history< int, std::ptrdiff_t >( 5, 8, 2, 2, HI ); }
ENTRY( int_size ) { history< int, int >( 9, 12, 2, 2, HI ); }
ENTRY( int_cap ) { history< int, std::ptrdiff_t >( 13, 15, 2, 2, HI ); }
ENTRY( owner_a ) { history< Owner, int >( 0, 4, 1 ); }
ENTRY( owner_b ) { history< Owner, int >( 5, 15, 1 ); }
ENTRY( preset ) { history< Preset, int >( 0, 15, 1 ); }
ENTRY( owner_mixed ) { history< Owner, int >( 0, 15, 2, HI, 1 ); }
ENTRY( int_three_T ) { history< int, int >( 0, 15, 3, 1, 1 ); }
// elements that can only be copied, in rows with spare capacity, when the values move to a larger allocation
ENTRY( deep_gap )
{
  ArrayOfArrays< Deep, int, MallocBuffer > a; a.resize( 2, 2 ); int x = sym< int >( "x" ), y = sym< int >( "y" ); a.emplaceBack( 0, x ); a.emplaceBack( 1, y ); a.reserveValues( 40 );
  CHECK( a.valueCapacity() >= 40 && a.sizeOfArray( 0 ) == 1 && a.sizeOfArray( 1 ) == 1 && valueOf( a( 0, 0 ) ) == x && valueOf( a( 1, 0 ) ) == y ); REACH( "done" );
}
