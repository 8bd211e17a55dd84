// BOUNDS: the histories of the sequence, arrays-of-arrays, sets, pattern and matrix properties (two operations on arrays, one on the others from 1..2 rows of 0..2) with 8-bit, 16-bit, 32-bit and unsigned index and column types
// BOUNDS: one-dimensional arrays with an 8-bit index at up to three elements below the largest size, two operations; two- and three-dimensional arrays of 8- and 16-bit index types for every combination of extents of up to 255 (2-D) and 7 (3-D; thorough 31) whose product fits; extents of every value of 8- to 64-bit argument types
// BOUNDS: nested containers with an 8-bit index filled up to offsets of 126, insertion and removal at every position of every row
// ASSUMES: products of extents and offsets including spare capacity fit the index type
#include "aoa.hpp"
#include <umpireInterface.cpp>
#define LV_NO_UMPIRE
#undef ENTRY
#define ENTRY( NAME ) template< int > void unused_ ## NAME()
namespace c01 {
#include "C01_index.cpp"
}
namespace c03 {
#include "C03_sequence.cpp"
}
namespace c04 {
#include "C04_resize.cpp"
}
#undef HI
namespace c10 {
#include "C10_AoA.cpp"
}
#undef HI
namespace c12 {
#include "C12_sets.cpp"
}
#undef HI
namespace c13 {
#include "C13_pattern.cpp"
}
#undef HI
namespace c14 {
#include "C14_matrix.cpp"
}
#undef ENTRY
#define ENTRY( NAME ) extern "C" void entry_ ## NAME(); extern "C" void entry_ ## NAME()
using i8 = std::int8_t; using u8 = std::uint8_t; using i16 = std::int16_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
ENTRY( seq_i8 ) { c03::history< int, i8, MallocBuffer >( 2, 0, 8 ); }
ENTRY( seq_u8 ) { c03::history< Owner, u8, MallocBuffer >( 2, 0, 8 ); }
ENTRY( seq_u16 ) { c03::history< int, u16, MallocBuffer >( 2, 0, 8 ); }
ENTRY( seq_u64 ) { c03::history< std::int64_t, u64, MallocBuffer >( 2, 0, 8 ); }
ENTRY( aoa_i8 ) { c10::history< int, i8 >( 0, 15, 1 ); }
ENTRY( aoa_u32 ) { c10::history< int, u32 >( 0, 15, 1 ); }
ENTRY( aoa_u64 ) { c10::history< Owner, u64 >( 0, 15, 1, 2, 1 ); }
ENTRY( aoa_u16 ) { c10::history< int, u16 >( 0, 15, 1, 2, 1 ); }
ENTRY( sets_i8 ) { c12::history< i8, i8 >( 0, 13, 1, 2, 1 ); }
ENTRY( sets_u32 ) { c12::history< int, u32 >( 0, 13, 1, 2, 1 ); }
ENTRY( sets_u8 ) { c12::history< u8, u16 >( 0, 13, 1, 2, 1 ); }
ENTRY( pattern_i8 ) { c13::history< i8, i8 >( 0, 12, 1, 2, 1 ); }
ENTRY( pattern_u32 ) { c13::history< int, u32 >( 0, 12, 1, 2, 1 ); }
ENTRY( pattern_u64 ) { c13::history< u32, u64 >( 0, 12, 1, 2, 1 ); }
ENTRY( shapes_i8 ) { c14::shapes< i8, int >(); }
ENTRY( shapes_u16 ) { c14::shapes< u16, int >(); }
ENTRY( matrix_i8 ) { c14::history< int, u8, i8 >( 0, 13, 1, 1, 2 ); }
ENTRY( matrix_u32 ) { c14::history< int, u16, u32 >( 0, 13, 1, 2, 1 ); }
ENTRY( resize_i8 ) { c04::invalid< i8, int >(); }
ENTRY( resize_u8 ) { c04::invalid< u8, std::ptrdiff_t >(); }
ENTRY( resize_u8_i8 ) { c04::invalid< u8, i8 >(); }
ENTRY( resize_i16 ) { c04::invalid< i16, u16 >(); }
ENTRY( resize_u32 ) { c04::invalid< u32, std::ptrdiff_t >(); }
ENTRY( resize_u64 ) { c04::invalid< u64, int >(); }
// every shape whose size fits
template< class PERM, class I > void fits( int hi )
{
  constexpr int N = PermOf< PERM >::N; int const top = std::numeric_limits< I >::max();
  I d[ N ], s[ N ], i[ N ]; int total = 1, expect = 0;
  for( int k = 0; k < N; ++k ) { d[ k ] = range< I >( "d", 1, hi ); total *= d[ k ]; ASSUME( total <= top ); }
  Array< int, N, PERM, I, PhantomBuffer > a; Nd< N >::resizeNoInit( a, d ); CHECK( a.size() == total ); CHECK( a.capacity() >= total );
  int st = 1; for( int k = N - 1; k >= 0; --k ) { int const q = PermOf< PERM >::at( k ); CHECK( a.strides()[ q ] == st ); s[ q ] = static_cast< I >( st ); st *= d[ q ]; }
  for( int k = 0; k < N; ++k ) { i[ k ] = range< I >( "i", 0, top ); ASSUME( i[ k ] < d[ k ] ); expect += i[ k ] * s[ k ]; }
  CHECK( Nd< N >::lin( a, i ) == expect ); CHECK( &Nd< N >::par( a, i ) == a.data() + expect ); CHECK( &Nd< N >::brk( a, i ) == a.data() + expect );
  REACH( "fits" );
}
ENTRY( fits_ij_i8 ) { fits< RAJA::PERM_IJ, i8 >( 127 ); }
ENTRY( fits_ji_u8 ) { fits< RAJA::PERM_JI, u8 >( 255 ); }
ENTRY( fits_ijk_u8 ) { fits< RAJA::PERM_IJK, u8 >( 7 ); }
ENTRY( fits_ij_i16_T ) { fits< RAJA::PERM_IJ, i16 >( 255 ); }
ENTRY( fits_kij_i8 ) { fits< RAJA::PERM_KIJ, i8 >( 6 ); }
ENTRY( fits_kij_i16_T ) { fits< RAJA::PERM_KIJ, i16 >( 31 ); }
// one-dimensional arrays close to the largest size
template< class I > void limit()
{
  int const top = std::numeric_limits< I >::max(); Array< char, 1, RAJA::PERM_I, I, MallocBuffer > a; Seq< char, 256 > m; int n = shape( "n", top - 3, top - 2 );
  a.resize( n ); for( int k = 0; k < n; ++k ) { a[ static_cast< I >( k ) ] = static_cast< char >( k ); m.push( static_cast< char >( k ) ); }
  for( int o = 0; o < 2; ++o ) switch( shape( "op", 0, 5 ) )
  {
    case 0: { if( m.n == top ) break; char x = sym< char >( "x" ); a.emplace_back( x ); m.push( x ); break; }
    case 1: { if( m.n == top ) break; char x = sym< char >( "x" ); int p = shape( "p", 0, 3 ) * 63; if( p > m.n ) p = m.n; a.emplace( static_cast< I >( p ), x ); m.insert( p, x ); break; }
    case 2: { int p = shape( "p", 0, 2 ) * 60; a.erase( static_cast< I >( p ) ); m.erase( p ); break; }
    case 3: a.pop_back(); --m.n; break;
    case 4: { int s = shape( "s", top - 4, top ); char x = sym< char >( "x" ); a.resizeDefault( static_cast< I >( s ), x ); while( m.n < s ) m.push( x ); m.n = s; break; }
    default: { int s = shape( "s", top - 4, top ); a.resize( static_cast< I >( s ) ); while( m.n < s ) m.push( 0 ); m.n = s; break; }
  }
  CHECK( a.size() == m.n ); bool ok = true; for( int k = 0; k < m.n; ++k ) ok &= a[ static_cast< I >( k ) ] == m.d[ k ]; CHECK( ok ); int k = 0; for( char c : a ) { ok &= c == m.d[ k ]; ++k; } CHECK( ok && k == m.n ); REACH( "done" );
}
ENTRY( limit_i8 ) { limit< i8 >(); }
ENTRY( limit_u8 ) { limit< u8 >(); }
// rows of an array of arrays whose offsets reach the largest index
template< class I > void rows()
{
  int const top = std::numeric_limits< I >::max(), each = ( top - 1 ) / 3; ArrayOfArrays< char, I, MallocBuffer > a; a.resize( 3, static_cast< I >( each ) ); int n[ 3 ]; static char d[ 3 ][ 100 ];
  for( int i = 0; i < 3; ++i ) { n[ i ] = each - shape( "free", 0, 1 ); for( int j = 0; j < n[ i ]; ++j ) { d[ i ][ j ] = static_cast< char >( 5 * i + j ); a.emplaceBack( static_cast< I >( i ), d[ i ][ j ] ); } }
  int r = shape( "row", 0, 2 ), what = shape( "what", 0, 3 ), p = shape( "p", 0, 2 ) * ( ( each - 1 ) / 2 ); I const R = static_cast< I >( r ); char x = sym< char >( "x" );
  if( what == 0 ) { a.eraseFromArray( R, static_cast< I >( p ) ); for( int j = p; j + 1 < n[ r ]; ++j ) d[ r ][ j ] = d[ r ][ j + 1 ]; --n[ r ]; }
  else if( what == 1 ) { if( n[ r ] == each ) return; a.emplace( R, static_cast< I >( p ), x ); for( int j = n[ r ]; j > p; --j ) d[ r ][ j ] = d[ r ][ j - 1 ]; d[ r ][ p ] = x; ++n[ r ]; }
  else if( what == 2 ) { a.setCapacityOfArray( R, static_cast< I >( p ) ); if( n[ r ] > p ) n[ r ] = p; }
  else { a.resizeArray( R, static_cast< I >( p ), x ); if( n[ r ] > p ) n[ r ] = p; }
  bool ok = true; int at = 0; auto const v = a.toViewConst(); for( int i = 0; i < 3; ++i ) { int const cap = what == 2 && i == r ? p : each; CHECK( v.getOffsets()[ i ] == at ); at += cap; CHECK( a.capacityOfArray( static_cast< I >( i ) ) == cap ); CHECK( a.sizeOfArray( static_cast< I >( i ) ) == n[ i ] ); for( int j = 0; j < n[ i ]; ++j ) ok &= a( static_cast< I >( i ), static_cast< I >( j ) ) == d[ i ][ j ]; }
  CHECK( ok ); REACH( "done" );
}
ENTRY( rows_i8 ) { rows< i8 >(); }
ENTRY( rows_u8 ) { rows< u8 >(); }
