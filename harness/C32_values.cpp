// LV: variant=device -DWITH_DEVICE=1
// LV: variant=host
// BOUNDS: element types that own memory (always, until moved from) in host memory: buffers of 0..3 elements reallocated twice to any capacity 0..4; sequences, arrays of arrays and sets under histories of 3 operations with symbolic positions and values
#include "lv.hpp"
#include "math.hpp"
#include "limits.hpp"
#include "Macros.hpp"
#ifdef WITH_DEVICE
#define LVARRAY_USE_CUDA
#endif
#include "ChaiBuffer.hpp"
#include "bufferManipulation.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "Array.hpp"
#include <umpireInterface.cpp>
using namespace LvArray;
#ifdef LV_SYMBOLIC
extern "C" int pthread_mutex_lock( pthread_mutex_t * ) { return 0; }
extern "C" int pthread_mutex_unlock( pthread_mutex_t * ) { return 0; }
#endif
using Model = Seq< int, 8 >;
template< class C > void same( C const & c, Model const & m ) { CHECK( c.size() == m.n ); for( int k = 0; k < m.n; ++k ) CHECK( c[ k ].value() == m.d[ k ] ); }
// a buffer: what fits is kept, the rest is destroyed, and freeing destroys what is left
template< class T > void buffers()
{
  ChaiBuffer< T > b( true ); b.reallocate( 0, MemorySpace::host, shape( "room", 3, 4 ) ); Model m; int const n = shape( "n", 0, 3 ); for( int k = 0; k < n; ++k ) { int const x = sym< int >( "x" ); new ( b.data() + k ) T( x ); m.push( x ); }
  for( int o = 0; o < 2; ++o ) { int const c = shape( "capacity", 0, 4 ); b.reallocate( m.n, MemorySpace::host, c ); if( m.n > c ) m.n = c; CHECK( b.capacity() == c ); for( int k = 0; k < m.n; ++k ) CHECK( b[ k ].value() == m.d[ k ] ); }
  if( shape( "copy", 0, 1 ) ) { ChaiBuffer< T > d( true ); bufferManipulation::copyInto( d, 0, b, m.n ); for( int k = 0; k < m.n; ++k ) CHECK( d[ k ].value() == m.d[ k ] ); bufferManipulation::free( d, m.n ); }
  bufferManipulation::free( b, m.n ); REACH( "freed" );
}
ENTRY( buffer_owner ) { buffers< Owner >(); }
ENTRY( buffer_deep ) { buffers< Deep >(); }
template< class T > void sequence()
{
  Array< T, 1, RAJA::PERM_I, int, ChaiBuffer > a; Model m; int const n = shape( "n", 0, 2 ); for( int k = 0; k < n; ++k ) { int const x = sym< int >( "x" ); a.emplace_back( x ); m.push( x ); }
  for( int o = 0; o < 3; ++o ) switch( shape( "op", 0, 4 ) )
  {
    case 0: { int const at = range( "at", 0, m.n ), x = sym< int >( "x" ); a.emplace( at, x ); m.insert( static_cast< int >( lv_concrete( at ) ), x ); break; }
    case 1: if( m.n ) { int const at = shape( "at", 0, m.n - 1 ); a.erase( at ); m.erase( at ); } break;
    case 2: { int const s = shape( "size", 0, 3 ); a.resize( s ); while( m.n < s ) m.push( 0 ); m.n = s; break; }
    case 3: a.reserve( shape( "room", 0, 6 ) ); break;
    default: { auto b = a; a.clear(); a = std::move( b ); break; }
  }
  same( a, m ); REACH( "done" );
}
ENTRY( sequence_owner ) { sequence< Owner >(); }
ENTRY( sequence_deep ) { sequence< Deep >(); }
// (with room for everything where the elements have to be alive to be moved: see the known finding aoa-gap)
template< class T > void rows( int const lo, int const hi )
{
  ArrayOfArrays< T, int, ChaiBuffer > a; Model m[ 2 ]; a.resize( 2, shape( "room", lo, hi ) );
  for( int o = 0; o < 3; ++o ) { int const r = shape( "row", 0, 1 ); switch( shape( "op", 0, 3 ) )
  {
    case 0: { int const x = sym< int >( "x" ); a.emplaceBack( r, x ); m[ r ].push( x ); break; }
    case 1: if( m[ r ].n ) { a.eraseFromArray( r, 0 ); m[ r ].erase( 0 ); } break;
    case 2: { int const x = sym< int >( "x" ); a.resizeArray( r, 2, x ); while( m[ r ].n < 2 ) m[ r ].push( x ); m[ r ].n = 2; break; }
    default: { int const x = sym< int >( "x" ); a.emplace( r, 0, x ); m[ r ].insert( 0, x ); break; }
  } }
  for( int r = 0; r < 2; ++r ) same( a[ r ], m[ r ] ); REACH( "done" );
}
ENTRY( rows_owner ) { rows< Owner >( 0, 1 ); }
ENTRY( rows_deep ) { rows< Deep >( 4, 5 ); }
template< class T > void sets()
{
  SortedArray< T, int, ChaiBuffer > s; ArrayOfSets< T, int, ChaiBuffer > a; a.resize( 2 ); Model m, q;
  for( int o = 0; o < 3; ++o ) { int const x = range( "x", 0, 7 ); switch( shape( "op", 0, 3 ) )
  {
    case 0: CHECK( s.insert( T( x ) ) == m.setInsert( x ) ); break;
    case 1: CHECK( s.remove( T( x ) ) == m.setRemove( x ) ); break;
    case 2: CHECK( a.insertIntoSet( 1, T( x ) ) == q.setInsert( x ) ); break;
    default: CHECK( a.removeFromSet( 1, T( x ) ) == q.setRemove( x ) ); break;
  } }
  same( s, m ); CHECK( a.sizeOfSet( 0 ) == 0 ); same( a[ 1 ], q ); REACH( "done" );
}
ENTRY( sets_owner ) { sets< Owner >(); }
struct Deeper : Deep { using Deep::Deep; Deeper() = default; bool operator!=( Deeper const & o ) const { return value() != o.value(); } };
ENTRY( sets_deep ) { sets< Deeper >(); }
