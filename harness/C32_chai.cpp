// LV: variant=device -DWITH_DEVICE=1
// LV: variant=host
// BOUNDS: histories of 2 (thorough: 3) operations out of: writing in either space, reading in either space through a buffer of const elements or without touching (followed by writes that must not count), capturing a copy while an execution space is active, reallocating, transferring ownership, on a buffer of 0..3 symbolic ints; containers (arrays, arrays of arrays nested in each other, sorted arrays, arrays of arrays, sets, patterns, matrices) of up to 2x2 / 2 rows of 0..2 values moved, captured and const-captured between the two spaces; memory spaces as symbolic numbers -1..40
// ASSUMES: a stand-in of CHAI's ArrayManager (stubs/chai) with two spaces, device memory being a second host allocation; the message printed by a move is not covered
#include "lv.hpp"
#include "math.hpp"
#include "limits.hpp"
#include "Macros.hpp"
#ifdef WITH_DEVICE
#define LVARRAY_USE_CUDA
#endif
#include "ChaiBuffer.hpp"
#include "CRSMatrix.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "Array.hpp"
#include <umpireInterface.cpp>
using namespace LvArray;
#ifdef LV_SYMBOLIC
static int g_lock = 0;
extern "C" int pthread_mutex_lock( pthread_mutex_t * ) { CHECK_MSG( g_lock == 0, "lock taken twice" ); g_lock = 1; return 0; }
extern "C" int pthread_mutex_unlock( pthread_mutex_t * ) { CHECK_MSG( g_lock == 1, "lock released twice" ); g_lock = 0; return 0; }
#endif
using Buf = ChaiBuffer< int >; using Model = Seq< int, 8 >;
static chai::ArrayManager & AM() { return *chai::ArrayManager::getInstance(); }
inline MemorySpace where( int s ) { return s ? MemorySpace::cuda : MemorySpace::host; }
struct Active { explicit Active( int s ) { AM().setExecutionSpace( s == 0 ? chai::CPU : chai::GPU ); } ~Active() { AM().setExecutionSpace( chai::NONE ); } };
template< class P > void same( P const * p, Model const & m ) { bool ok = true; for( int k = 0; k < m.n; ++k ) ok &= p[ k ] == m.d[ k ]; CHECK( ok ); }
#ifdef WITH_DEVICE
inline void write( int * p, Model & m ) { if( m.n == 0 ) return; int const at = range( "at", 0, m.n - 1 ), x = sym< int >( "x" ); p[ at ] = x; for( int k = 0; k < m.n; ++k ) if( k == at ) m.d[ k ] = x; }
inline int * in( Buf const & b, int s ) { return static_cast< int * >( b.pointerRecord().m_pointers[ s == 0 ? chai::CPU : chai::GPU ] ); }
// the copy of the other space is up to date: writes to this one that were not announced have to be forgotten by the next move there
inline void scribble( Buf & b, int const * p, int s, Model const & m )
{
  b.move( where( 1 - s ), true ); same( b.data(), m ); CHECK( m.n == 0 || b.data() != p );
}
void bufOp( Buf & b, Model & m, int o )
{
  int const s = shape( "space", 0, 1 ); bool const touch = shape( "touch", 0, 1 );
  switch( o )
  {
    case 0: b.move( where( s ), true ); CHECK( b.capacity() == 0 || b.getPreviousSpace() == where( s ) ); same( b.data(), m ); write( b.data(), m ); break;
    case 1:
    { // through const elements: never counts as a change
      b.move( where( 1 - s ), true ); ChaiBuffer< int const > const c( b ); CHECK( c.data() == b.data() && c.capacity() == b.capacity() ); c.move( where( s ), touch ); same( c.data(), m ); CHECK( b.capacity() == 0 || b.getPreviousSpace() == where( s ) );
      for( int k = 0; k < m.n; ++k ) const_cast< int * >( c.data() )[ k ] = -1; scribble( b, c.data(), s, m ); break;
    }
    case 2: b.move( where( 1 - s ), true ); b.move( where( s ), false ); same( b.data(), m ); { int * const p = b.data(); for( int k = 0; k < m.n; ++k ) p[ k ] = -2; scribble( b, p, s, m ); } break;
    case 3:
    { // capture
      int * const old = b.data(); { Buf const c( b ); CHECK( c.data() == old && c.capacity() == b.capacity() ); }
      {
        Active a( s ); bool const sized = touch; Buf const c = sized ? Buf( b, m.n ) : Buf( b ); CHECK( c.capacity() == b.capacity() ); if( m.n ) CHECK( c.data() == in( b, s ) && b.getPreviousSpace() == where( s ) ); same( c.data(), m ); write( c.data(), m );
      }
      b.move( where( 1 - s ), true ); same( b.data(), m ); break;
    }
    case 4:
    { // reallocation keeps the values that fit and lives on the host
      int const c = shape( "c", 0, 4 ); b.move( MemorySpace::host, touch ); int const n = m.n; if( m.n > c ) m.n = c; b.reallocate( n, MemorySpace::host, c ); CHECK( b.capacity() == c && b.getPreviousSpace() == MemorySpace::host ); same( b.data(), m );
      while( m.n < c && m.n < 3 ) { int const x = sym< int >( "x" ); b[ m.n ] = x; m.push( x ); } b.move( where( s ), touch ); same( b.data(), m ); break;
    }
    case 5: { Buf t( std::move( b ) ); CHECK( b.data() == nullptr && b.capacity() == 0 ); same( t.data(), m ); Buf u; u = t; same( u.data(), m ); CHECK( u.data() == t.data() && u.capacity() == t.capacity() ); b = std::move( t ); CHECK( t.data() == nullptr && t.capacity() == 0 && b.data() == u.data() && b.capacity() == u.capacity() ); same( b.data(), m ); break; }
    case 6: { auto * const p = b.data(); auto const w = b.getPreviousSpace(); b.move( MemorySpace::undefined, touch ); b.moveNested( MemorySpace::undefined, m.n, touch ); CHECK( b.data() == p && b.getPreviousSpace() == w ); same( p, m ); b.moveNested( where( s ), m.n, true ); same( b.data(), m ); write( b.data(), m ); break; }
    default: { b.move( MemorySpace::host, false ); b.move( where( s ), false ); if( m.n ) { write( b.data(), m ); b.registerTouch( where( s ) ); } b.move( where( 1 - s ), true ); same( b.data(), m ); break; }
  }
}
#ifdef LV_THOROUGH
constexpr int OPS = 3;
#else
constexpr int OPS = 2;
#endif
void history( int first, int last )
{
  int64_t const before = lv_heap_live(); { Buf b( true ); CHECK( b.capacity() == 0 && b.data() == nullptr ); Model m; int const n = shape( "n", 0, 2 ), spare = shape( "spare", 0, 1 ); if( n + spare ) { b.reallocate( 0, MemorySpace::host, n + spare ); CHECK( b.capacity() == n + spare && b.getPreviousSpace() == MemorySpace::host ); }
  for( int k = 0; k < n + spare; ++k ) b[ k ] = 0; for( int k = 0; k < n; ++k ) { int const x = sym< int >( "v" ); b[ k ] = x; m.push( x ); }
  bufOp( b, m, shape( "op", first, last ) ); for( int o = 1; o < OPS; ++o ) bufOp( b, m, shape( "op", 0, 7 ) );
  CHECK( b.capacity() >= m.n ); if( shape( "bm", 0, 1 ) ) bufferManipulation::free( b, m.n ); else b.free(); CHECK( b.capacity() == 0 && b.data() == nullptr ); } CHECK( lv_heap_live() == before ); REACH( "done" );
}
ENTRY( buf_a ) { history( 0, 1 ); }
ENTRY( buf_b ) { history( 2, 3 ); }
ENTRY( buf_c ) { history( 4, 5 ); }
ENTRY( buf_d ) { history( 6, 7 ); }
// device memory first; no reallocation of values that may live there
ENTRY( device_first )
{
  Buf b( true ); int const n = shape( "n", 1, 3 ); b.reallocate( 0, MemorySpace::cuda, n ); CHECK( b.capacity() == n && b.getPreviousSpace() == MemorySpace::cuda && b.data() == in( b, 1 ) ); Model m; for( int k = 0; k < n; ++k ) { int const x = sym< int >( "v" ); b.data()[ k ] = x; m.push( x ); }
  b.move( MemorySpace::host, shape( "touch", 0, 1 ) ); CHECK( b.data() == in( b, 0 ) ); same( b.data(), m ); int const size = shape( "size", 0, 1 ) * n; ABORTS_IFF( size > 0, b.reallocate( size, MemorySpace::cuda, 4 ) ); CHECK( b.capacity() == 4 && b.getPreviousSpace() == MemorySpace::cuda ); b.free(); REACH( "done" );
}
ENTRY( allocators )
{
  int const how = shape( "how", 0, 3 ); umpire::Allocator const a1{ range( "a1", 200, 300 ) }, a2{ range( "a2", 200, 300 ) };
  using S = std::initializer_list< MemorySpace >; using A = std::initializer_list< umpire::Allocator >; S const one = { MemorySpace::host }, dev = { MemorySpace::cuda }, two = { MemorySpace::cuda, MemorySpace::host }; A const al1 = { a1 }, al2 = { a1, a2 };
  Buf b( true ); b.free(); ABORTS_IFF( how == 3, b = how == 0 ? Buf( one, al1 ) : how == 1 ? Buf( dev, al1 ) : how == 2 ? Buf( two, al2 ) : Buf( two, al1 ) );
  int const host = how == 0 ? a1.id : how == 1 ? 101 : a2.id, device = how == 0 ? 102 : a1.id; for( int r = 0; r < 2; ++r ) { b.reallocate( 0, MemorySpace::host, 2 + r ); CHECK( AM().lastAllocator[ chai::CPU ] == host ); b[ 0 ] = 1; b[ 1 ] = 2; b[ 1 + r ] = 3; b.move( MemorySpace::cuda, true ); CHECK( AM().lastAllocator[ chai::GPU ] == device ); CHECK( b.data()[ 0 ] == 1 && b.data()[ 1 + r ] == 3 ); }
  b.free(); REACH( "done" );
}
template< class T > using Chai = ChaiBuffer< T >;
// ---- containers: what is written in one space is seen in the other; what only travels as const is not carried back
template< class PERM > void array2()
{
  Array< int, 2, PERM, int, Chai > a( shape( "a", 0, 2 ), shape( "b", 1, 2 ) ); Model m; for( int k = 0; k < a.size(); ++k ) { int const x = sym< int >( "v" ); a.data()[ k ] = x; m.push( x ); }
  for( int o = 0; o < 2; ++o )
  {
    int const s = shape( "s", 0, 1 ); a.move( where( 1 - s ) ); same( a.data(), m );
    switch( shape( "how", 0, 5 ) )
    {
      case 0: a.move( where( s ) ); same( a.data(), m ); write( a.data(), m ); break;
      case 1: a.toView().move( where( s ), true ); { auto const v = a.toView(); CHECK( v.getPreviousSpace() == where( s ) || m.n == 0 ); } a.move( where( s ), true ); write( a.data(), m ); break;
      case 2: { auto const v = a.toViewConst(); v.move( where( s ) ); same( v.data(), m ); for( int k = 0; k < m.n; ++k ) const_cast< int * >( v.data() )[ k ] = -1; break; }
      case 3: { auto const v = a.toView(); { Active on( s ); auto const c( v ); same( c.data(), m ); write( c.data(), m ); } break; }
      case 4: { auto const v = a.toViewConst(); { Active on( s ); auto const c( v ); same( c.data(), m ); for( int k = 0; k < m.n; ++k ) const_cast< int * >( c.data() )[ k ] = -1; } break; }
      default: a.move( where( s ), false ); same( a.data(), m ); for( int k = 0; k < m.n; ++k ) a.data()[ k ] = -1; break;
    }
    a.move( where( 1 - s ) ); same( a.data(), m );
  }
  a.move( MemorySpace::host ); a.resize( 2, 2 ); if( m.n == 4 ) same( a.data(), m ); CHECK( a.size() == 4 ); REACH( "done" );
}
ENTRY( array_ij ) { array2< RAJA::PERM_IJ >(); }
ENTRY( array_ji ) { array2< RAJA::PERM_JI >(); }
ENTRY( array_grow )
{ // growing on the host after use on the device
  Array< int, 1, RAJA::PERM_I, std::ptrdiff_t, Chai > a; Model m; int const n = shape( "n", 0, 2 ); for( int k = 0; k < n; ++k ) { int const x = sym< int >( "v" ); a.emplace_back( x ); m.push( x ); }
  for( int o = 0; o < 2; ++o ) { a.move( MemorySpace::cuda ); same( a.data(), m ); write( a.data(), m ); a.move( MemorySpace::host, true ); same( a.data(), m ); switch( shape( "op", 0, 3 ) ) { case 0: { int const x = sym< int >( "x" ); a.emplace_back( x ); m.push( x ); break; } case 1: { int const x = sym< int >( "x" ); a.emplace( 0, x ); m.insert( 0, x ); break; } case 2: if( m.n ) { a.erase( 0 ); m.erase( 0 ); } break; default: { a.resize( 2 ); while( m.n < 2 ) m.push( 0 ); m.n = 2; } } a.move( MemorySpace::cuda, false ); same( a.data(), m ); a.move( MemorySpace::host, false ); same( a.data(), m ); }
  Array< int, 1, RAJA::PERM_I, std::ptrdiff_t, Chai > b( a ); same( b.data(), m ); CHECK( m.n == 0 || b.data() != a.data() ); b.move( MemorySpace::cuda ); same( b.data(), m ); REACH( "done" );
}
ENTRY( nested )
{ // arrays of arrays nested in each other: the inner ones travel with the outer one
  using In = Array< int, 1, RAJA::PERM_I, int, Chai >; Array< In, 1, RAJA::PERM_I, int, Chai > a( 2 ); Model m[ 2 ]; int const n = shape( "n", 0, 2 ); for( int i = 0; i < 2; ++i ) { a[ i ].resize( i ? 1 : n ); for( int k = 0; k < a[ i ].size(); ++k ) { int const x = sym< int >( "v" ); a[ i ][ k ] = x; m[ i ].push( x ); } }
  for( int o = 0; o < 2; ++o )
  {
    int const how = shape( "how", 0, 1 ); if( how == 0 ) { a.move( MemorySpace::cuda ); for( int i = 0; i < 2; ++i ) { int * const p = a.data()[ i ].data(); same( p, m[ i ] ); write( p, m[ i ] ); } }
    else { auto const v = a.toView(); Active on( 1 ); auto const c( v ); for( int i = 0; i < 2; ++i ) { int * const p = c.data()[ i ].data(); same( p, m[ i ] ); write( p, m[ i ] ); } }
    a.move( MemorySpace::host ); for( int i = 0; i < 2; ++i ) { same( a[ i ].data(), m[ i ] ); write( a[ i ].data(), m[ i ] ); a[ i ].registerTouch( MemorySpace::host ); CHECK( a[ i ].size() == m[ i ].n ); }
  }
  REACH( "done" );
}
ENTRY( sorted )
{
  SortedArray< int, int, Chai > a; Model m; int const n = shape( "n", 0, 3 ); for( int k = 0; k < n; ++k ) { int const x = range( "v", 0, 15 ); CHECK( a.insert( x ) == m.setInsert( x ) ); }
  int const how = shape( "how", 0, 2 ); a.move( MemorySpace::host, true ); if( how == 0 ) a.move( MemorySpace::cuda ); else if( how == 1 ) a.toView().move( MemorySpace::cuda, true ); else { auto const v = a.toView(); Active on( 1 ); auto const c( v ); same( c.data(), m ); }
  auto const w = a.toView(); w.move( MemorySpace::cuda ); same( w.data(), m ); for( int k = 0; k < m.n; ++k ) const_cast< int * >( w.data() )[ k ] = -1; a.move( MemorySpace::host ); same( a.data(), m );
  int const x = range( "x", 0, 15 ); CHECK( a.insert( x ) == m.setInsert( x ) ); a.move( MemorySpace::cuda ); same( a.data(), m ); a.move( MemorySpace::host ); int const y = range( "y", 0, 15 ); CHECK( a.remove( y ) == m.setRemove( y ) ); CHECK( a.size() == m.n ); same( a.data(), m ); REACH( "done" );
}
// sizes and values written on the device come back, offsets are never written there
ENTRY( aoa )
{
  ArrayOfArrays< int, int, Chai > a( 2, 2 ); Model m[ 2 ]; for( int i = 0; i < 2; ++i ) for( int k = shape( "n", 0, 2 ); k > 0; --k ) { int const x = sym< int >( "v" ); a.emplaceBack( i, x ); m[ i ].push( x ); }
  for( int o = 0; o < 2; ++o )
  {
    a.move( MemorySpace::host ); int const how = shape( "how", 0, 5 ), i = shape( "i", 0, 1 ), x = sym< int >( "x" );
    auto grow = [&]( auto const & v ) { for( int r = 0; r < 2; ++r ) { CHECK( v.sizeOfArray( r ) == m[ r ].n && v.capacityOfArray( r ) >= 2 ); same( v[ r ].dataIfContiguous(), m[ r ] ); } if( m[ i ].n < v.capacityOfArray( i ) ) { v.emplaceBack( i, x ); m[ i ].push( x ); } };
    auto set = [&]( auto const & v ) { for( int r = 0; r < 2; ++r ) { CHECK( v.sizeOfArray( r ) == m[ r ].n ); same( v[ r ].dataIfContiguous(), m[ r ] ); } if( m[ i ].n ) { v( i, 0 ) = x; m[ i ].d[ 0 ] = x; } };
    switch( how )
    {
      case 0: { a.move( MemorySpace::cuda ); auto const v = a.toView(); grow( v ); for( int r = 0; r < 3; ++r ) const_cast< int * >( v.getOffsets() )[ r ] = -1; break; }
      case 1: { auto const v = a.toView(); Active on( 1 ); auto const c( v ); grow( c ); break; }
      case 2: { auto const v = a.toViewConstSizes(); Active on( 1 ); auto const c( v ); set( c ); const_cast< int * >( c.getSizes() )[ i ] = -1; const_cast< int * >( c.getOffsets() )[ 0 ] = -1; break; }
      case 3: { auto const v = a.toViewConst(); Active on( 1 ); auto const c( v ); for( int r = 0; r < 2; ++r ) { CHECK( c.sizeOfArray( r ) == m[ r ].n ); same( c[ r ].dataIfContiguous(), m[ r ] ); if( m[ r ].n ) const_cast< int & >( c( r, 0 ) ) = -1; } const_cast< int * >( c.getSizes() )[ i ] = -1; break; }
      case 4: { a.move( MemorySpace::cuda, false ); auto const v = a.toView(); CHECK( v.sizeOfArray( 1 ) == m[ 1 ].n ); const_cast< int * >( v.getSizes() )[ i ] = -1; if( m[ 0 ].n ) v( 0, 0 ) = -1; break; }
      default: { auto const v = a.toView(); v.move( MemorySpace::cuda, true ); set( v ); break; }
    }
    a.move( MemorySpace::host ); for( int r = 0; r < 2; ++r ) { CHECK( a.sizeOfArray( r ) == m[ r ].n && a.capacityOfArray( r ) >= m[ r ].n ); same( a[ r ].dataIfContiguous(), m[ r ] ); }
  }
  int const x = sym< int >( "x" ); a.emplaceBack( 0, x ); m[ 0 ].push( x ); a.resize( 3 ); CHECK( a.sizeOfArray( 2 ) == 0 ); for( int r = 0; r < 2; ++r ) { CHECK( a.sizeOfArray( r ) == m[ r ].n ); same( a[ r ].dataIfContiguous(), m[ r ] ); } REACH( "done" );
}
ENTRY( sets )
{
  ArrayOfSets< int, int, Chai > a( 2, 3 ); Model m[ 2 ]; for( int i = 0; i < 2; ++i ) for( int k = shape( "n", 0, 2 - i ); k > 0; --k ) { int const x = range( "v", 0, 15 ); CHECK( a.insertIntoSet( i, x ) == m[ i ].setInsert( x ) ); }
  int const i = shape( "i", 0, 1 ), x = range( "x", 0, 15 ); a.move( MemorySpace::host ); if( shape( "how", 0, 1 ) ) { auto const v = a.toView(); Active on( 1 ); auto const c( v ); CHECK( c.insertIntoSet( i, x ) == m[ i ].setInsert( x ) ); CHECK( c.contains( i, x ) ); } else { a.move( MemorySpace::cuda ); auto const v = a.toView(); CHECK( v.removeFromSet( i, x ) == m[ i ].setRemove( x ) ); }
  a.move( MemorySpace::host ); for( int r = 0; r < 2; ++r ) { CHECK( a.sizeOfSet( r ) == m[ r ].n ); same( a[ r ].dataIfContiguous(), m[ r ] ); } REACH( "done" );
}
ENTRY( matrix )
{
  CRSMatrix< int, int, int, Chai > a( 2, 8, 3 ); Model c[ 2 ], v[ 2 ]; for( int i = 0; i < 2; ++i ) for( int k = shape( "n", 0, 2 - i ); k > 0; --k ) { int const x = range( "c", 0, 7 ), y = sym< int >( "v" ); int const p = c[ i ].lower( x ); if( a.insertNonZero( i, x, y ) ) { c[ i ].setInsert( x ); v[ i ].insert( p, y ); } }
  int const i = shape( "i", 0, 1 ), x = range( "x", 0, 7 ), y = sym< int >( "y" ); a.move( MemorySpace::host );
  auto put = [&]( auto const & w ) { int const p = c[ i ].lower( x ); bool const f = w.insertNonZero( i, x, y ); CHECK( f == c[ i ].setInsert( x ) ); if( f ) v[ i ].insert( p, y ); };
  switch( shape( "how", 0, 4 ) )
  {
    case 0: { auto const w = a.toView(); Active on( 1 ); auto const k( w ); put( k ); break; }
    case 1: { a.move( MemorySpace::cuda ); put( a.toView() ); break; }
    case 2: { auto const w = a.toViewConstSizes(); Active on( 1 ); auto const k( w ); same( k.getColumns( i ).dataIfContiguous(), c[ i ] ); if( c[ i ].n ) { k.getEntries( i )[ 0 ] = y; v[ i ].d[ 0 ] = y; const_cast< int & >( k.getColumns( i )[ 0 ] ) = -1; } break; }
    case 3: { auto const w = a.toViewConst(); Active on( 1 ); auto const k( w ); same( k.getEntries( i ).dataIfContiguous(), v[ i ] ); if( c[ i ].n ) { const_cast< int & >( k.getEntries( i )[ 0 ] ) = -1; const_cast< int & >( k.getColumns( i )[ 0 ] ) = -1; } break; }
    default: { auto const w = a.toSparsityPatternView(); Active on( 1 ); auto const k( w ); same( k.getColumns( i ).dataIfContiguous(), c[ i ] ); break; }
  }
  a.move( MemorySpace::host ); for( int r = 0; r < 2; ++r ) { CHECK( a.numNonZeros( r ) == c[ r ].n ); same( a.getColumns( r ).dataIfContiguous(), c[ r ] ); same( a.getEntries( r ).dataIfContiguous(), v[ r ] ); }
  a.toView().zero(); for( int r = 0; r < 2; ++r ) for( int k = 0; k < v[ r ].n; ++k ) CHECK( a.getEntries( r )[ k ] == 0 ); REACH( "done" );
}
#else
// built for the host only: any other space is rejected and nothing moves
ENTRY( host_only )
{
  Buf b( true ); Model m; int const n = shape( "n", 0, 3 ); if( n ) b.reallocate( 0, MemorySpace::host, n ); for( int k = 0; k < n; ++k ) { int const x = sym< int >( "v" ); b[ k ] = x; m.push( x ); }
  auto const s = static_cast< MemorySpace >( range( "space", -1, 40 ) ); bool const bad = s != MemorySpace::host; bool const touch = range( "touch", 0, 1 ); int * const p = b.data(); Buf const c( b ), d( b, n );
  switch( shape( "how", 0, 2 ) ) { case 0: ABORTS_IFF( bad, b.move( s, touch ) ); break; case 1: ABORTS_IFF( bad, b.moveNested( s, n, touch ) ); break; default: ABORTS_IFF( bad && s != MemorySpace::undefined, b.registerTouch( s ) ); break; }
  CHECK( b.data() == p && c.data() == p && d.data() == p && b.capacity() == n && c.capacity() == n ); same( p, m ); if( n ) b.registerTouch( MemorySpace::host ); b.reallocate( n, MemorySpace::host, 4 ); CHECK( b.capacity() == 4 ); same( b.data(), m ); b.free(); REACH( "done" );
}
template< class U > void ratio()
{
  Buf b( true ); int const n = shape( "n", 0, 3 ) * 3; b.reallocate( 0, MemorySpace::host, n ); ChaiBuffer< U > const u( b ); CHECK( u.capacity() == n * 4 / static_cast< int >( sizeof( U ) ) && static_cast< void * >( u.data() ) == b.data() && &u.pointerRecord() == &b.pointerRecord() ); b.free(); REACH( "done" );
}
ENTRY( ratio_char ) { ratio< char >(); }
ENTRY( ratio_group ) { ratio< int[ 3 ] >(); }
#endif
