// LV: system=1
// BOUNDS: move messages: every record size (64-bit) and space; names of 0..3 characters; the buffers of an array, a set, an array of arrays and a matrix before and after they grow
// ASSUMES: the byte count in a message has the length that calculateSize gives it (C20 decides its text)
#define LV_CHAI_CALLBACK 1
#include "lv.hpp"
#include "math.hpp"
#include "limits.hpp"
#include "Macros.hpp"
#include <string>
#define LVARRAY_USE_CUDA
static char g_text[ 256 ]; static int g_n = 0, g_messages = 0;
struct Sink
{
  Sink const & operator<<( char const * t ) const { for(; *t; ++t ) put( *t ); return *this; }
  Sink const & operator<<( std::string const & t ) const { for( std::size_t k = 0; k < t.size(); ++k ) put( t[ k ] ); return *this; }
  static void put( char const c ) { if( g_n >= 255 ) lv_abort( "message too long" ); g_text[ g_n++ ] = c; g_text[ g_n ] = 0; }
};
#undef LVARRAY_LOG
static void counted();
#define LVARRAY_LOG( ... ) do { g_n = 0; g_text[ 0 ] = 0; ++g_messages; Sink() << __VA_ARGS__; counted(); } while( false )
#include "ChaiBuffer.hpp"
#include "CRSMatrix.hpp"
#include "ArrayOfArrays.hpp"
#include "SortedArray.hpp"
#include "Array.hpp"
#include <umpireInterface.cpp>
#ifdef LV_SYMBOLIC
extern "C" int pthread_mutex_lock( pthread_mutex_t * ) { return 0; }
extern "C" int pthread_mutex_unlock( pthread_mutex_t * ) { return 0; }
#endif
namespace LvArray { namespace system {
std::string stackTrace( bool const ) { return std::string(); }
void callErrorHandler() { lv_abort( "LvArray error handler" ); for(;; ) {} }
std::string demangle( char const * const ) { return std::string( "TYPE" ); }
// one decimal digit and the unit behind the whole ones
std::string calculateSize( std::size_t const b )
{
  int const shift = static_cast< int >( lv_concrete( b >> 30 ? 30 : b >> 20 ? 20 : 10 ) ); std::size_t const unit = std::size_t( 1 ) << shift, last = ~std::size_t( 0 ) / unit; int n = 6; std::size_t lim = 10; for(; lim <= last; lim *= 10 ) n += b >= lim * unit - unit / 20;
  n = static_cast< int >( lv_concrete( n ) ); std::string r( static_cast< std::size_t >( n - 5 ), '7' ); return r + ".7 " + ( shift == 30 ? "GB" : shift == 20 ? "MB" : "KB" );
}
} }
using namespace LvArray;
static bool has( char const * const t ) { for( int i = 0; i < g_n; ++i ) { int k = 0; while( t[ k ] && g_text[ i + k ] == t[ k ] ) ++k; if( !t[ k ] ) return true; } return false; }
static int g_named = 0; // messages with the name the entries give
static void counted() { g_named += has( "Qwz" ); }
static char const * const NAMES[] = { "", "Q", "Qw", "Qwz" };
ENTRY( message )
{
  ChaiBuffer< int > b( true ); int const w = shape( "name", 0, 3 ); b.setName( NAMES[ w ] ); int const grow = shape( "grow", 0, 1 ); if( grow ) b.reallocate( 0, MemorySpace::host, 2 ); chai::PointerRecord & r = const_cast< chai::PointerRecord & >( b.pointerRecord() ); std::size_t const old = r.m_size;
  r.m_size = sym< std::size_t >( "size" ); int const s = shape( "space", 0, 1 ), act = shape( "act", 0, 2 ); std::string const text = system::calculateSize( r.m_size );
  g_messages = 0; r.m_user_callback( &r, act == 0 ? chai::ACTION_ALLOC : act == 1 ? chai::ACTION_FREE : chai::ACTION_MOVE, s ? chai::GPU : chai::CPU );
  CHECK( g_messages == ( act == 2 ) ); if( act == 2 ) { CHECK( has( NAMES[ w ] ) ); CHECK( has( text.c_str() ) ); CHECK( has( "HOST" ) == ( s == 0 ) ); CHECK( has( "DEVICE" ) == ( s == 1 ) ); REACH( "logged" ); }
  r.m_size = old; b.free();
}
// every buffer that moves says the name its container was given, before and after the container grows
template< class C > void carried( C const & c, int const buffers )
{
  g_messages = g_named = 0; c.move( MemorySpace::cuda, true ); CHECK( g_messages == buffers ); CHECK( g_named == buffers ); c.move( MemorySpace::host, true ); CHECK( g_messages >= buffers ); CHECK( g_named == g_messages ); REACH( "moved" );
}
ENTRY( array ) { Array< int, 2, RAJA::PERM_IJ, int, ChaiBuffer > a; if( shape( "before", 0, 1 ) ) a.resize( 2, 1 ); a.setName( "Qwz" ); if( shape( "after", 0, 1 ) ) { a.resize( 3, 2 ); } else a.resize( 1, 1 ); carried( a, 1 ); }
ENTRY( set ) { SortedArray< int, int, ChaiBuffer > a; if( shape( "before", 0, 1 ) ) a.insert( 4 ); a.setName( "Qwz" ); a.insert( 2 ); a.insert( 9 ); if( shape( "copy", 0, 1 ) ) { SortedArray< int, int, ChaiBuffer > b( std::move( a ) ); carried( b, 1 ); } else carried( a, 1 ); }
ENTRY( rows ) { ArrayOfArrays< int, int, ChaiBuffer > a; if( shape( "before", 0, 1 ) ) a.resize( 1, 1 ); a.setName( "Qwz" ); a.resize( 2, 2 ); a.emplaceBack( 1, 5 ); if( shape( "after", 0, 1 ) ) a.appendArray( 3 ); carried( a, 3 ); }
ENTRY( matrix ) { CRSMatrix< int, int, int, ChaiBuffer > a; if( shape( "before", 0, 1 ) ) a.resize( 1, 3, 1 ); a.setName( "Qwz" ); a.resize( 2, 4, 1 ); a.insertNonZero( 0, 1, 5 ); if( shape( "after", 0, 1 ) ) a.insertNonZero( 0, 3, 5 ); carried( a, 4 ); }
