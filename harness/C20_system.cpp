// LV: system=1
// BOUNDS: signals: histories of 5 (thorough: 7) operations out of set a handler, reset, and the program installing a handler (SIGHUP or SIGSEGV) itself, all handler addresses symbolic 64-bit, every one of the 64 signals; error handler: histories of 5 (thorough: 7) set / call, and chains of up to 3 handlers that install the next one, raising the next error themselves or not; floating-point traps: every starting mask and every requested mask (symbolic), guards nested up to 3 deep with enable and disable in between, setFPE; byte counts: every 64-bit value
// ASSUMES: signal, feenableexcept, fedisableexcept, snprintf, the MXCSR macros and the unwinder are replaced by stand-ins with their documented behaviour; std::map's out-of-line tree functions by an unbalanced tree; the text of a stack trace is not looked at; program-installed handlers are not SIG_ERR
#include "lv.hpp"
#include <csignal>
#include <cfenv>
#include <fenv.h>
#include <cxxabi.h>
#include <string.h>
#include <pmmintrin.h>
#include <unwind.h>
using handle = void ( * )( int );
static handle g_table[ 65 ]; static int g_mask, g_fail, g_ftz, g_daz; static double g_units; static char const * g_suffix; static std::size_t g_room; static int g_formats;
extern "C" inline handle lv_signal( int sig, handle h ) { if( sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP || h == SIG_ERR ) return SIG_ERR; handle o = g_table[ sig ]; g_table[ sig ] = h; return o; }
extern "C" inline int lv_feenable( int e ) { int o = g_mask; if( g_fail ) return -1; g_mask |= e & FE_ALL_EXCEPT; return o; }
extern "C" inline int lv_fedisable( int e ) { int o = g_mask; if( g_fail ) return -1; g_mask &= ~( e & FE_ALL_EXCEPT ); return o; }
extern "C" inline char * lv_strsignal( int ) { static char t[ 2 ] = "s"; return t; }
extern "C" inline int lv_fetest( int ) { return 0; }
extern "C" inline _Unwind_Reason_Code lv_unwind( _Unwind_Trace_Fn, void * ) { return _URC_END_OF_STACK; }
namespace std { inline int lv_snprintf( char * b, size_t n, char const *, double u, char const * s ) { g_units = u; g_suffix = s; g_room = n; ++g_formats; if( n > 2 ) { b[ 0 ] = '#'; b[ 1 ] = s[ 0 ]; b[ 2 ] = 0; } return 2; } inline void lv_std_abort() { lv_abort( "std::abort" ); } }
#undef _MM_SET_FLUSH_ZERO_MODE
#undef _MM_SET_DENORMALS_ZERO_MODE
#define _MM_SET_FLUSH_ZERO_MODE( X ) ( g_ftz = ( X ) )
#define _MM_SET_DENORMALS_ZERO_MODE( X ) ( g_daz = ( X ) )
#define signal lv_signal
#define feenableexcept lv_feenable
#define fedisableexcept lv_fedisable
#define fetestexcept lv_fetest
#define _Unwind_Backtrace lv_unwind
#define snprintf lv_snprintf
#define strsignal lv_strsignal
#define abort lv_std_abort
#ifdef LV_SYMBOLIC
namespace std
{
_Rb_tree_node_base * _Rb_tree_increment( _Rb_tree_node_base * x ) throw() { if( x->_M_right ) { x = x->_M_right; while( x->_M_left ) x = x->_M_left; return x; } auto * y = x->_M_parent; while( x == y->_M_right ) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
_Rb_tree_node_base const * _Rb_tree_increment( _Rb_tree_node_base const * x ) throw() { return _Rb_tree_increment( const_cast< _Rb_tree_node_base * >( x ) ); }
_Rb_tree_node_base * _Rb_tree_decrement( _Rb_tree_node_base * x ) throw() { if( x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x ) return x->_M_right; if( x->_M_left ) { x = x->_M_left; while( x->_M_right ) x = x->_M_right; return x; } auto * y = x->_M_parent; while( x == y->_M_left ) { x = y; y = y->_M_parent; } return y; }
void _Rb_tree_insert_and_rebalance( bool const left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h ) throw()
{
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if( left ) { p->_M_left = x; if( p == &h ) { h._M_parent = x; h._M_right = x; } else if( p == h._M_left ) h._M_left = x; } else { p->_M_right = x; if( p == h._M_right ) h._M_right = x; }
}
}
#endif
#include <system.cpp>
using namespace LvArray;
constexpr int SIGS[] = { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGPOLL, SIGFPE, SIGBUS, SIGSEGV, SIGSYS, SIGPIPE, SIGTERM };
static bool common( int s ) { bool r = false; for( int c : SIGS ) r |= c == s; return r; }
static handle anyHandler( char const * n ) { std::uint64_t const v = sym< std::uint64_t >( n ); ASSUME( v != static_cast< std::uint64_t >( -1 ) ); return reinterpret_cast< handle >( v ); }
#ifdef LV_THOROUGH
constexpr int OPS = 7;
#else
constexpr int OPS = 5;
#endif
ENTRY( signals )
{
  lv_no_leak_check(); handle expect[ 65 ], original[ 65 ]; bool saved = false; for( int s = 1; s <= 64; ++s ) expect[ s ] = original[ s ] = g_table[ s ] = ( common( s ) || s == SIGUSR1 ) ? anyHandler( "initial" ) : SIG_DFL;
  for( int o = 0; o < OPS; ++o )
  {
    int const k = shape( "op", 0, 2 );
    if( k == 0 ) { handle const h = anyHandler( "handler" ); if( !saved ) for( int s = 1; s <= 64; ++s ) original[ s ] = expect[ s ]; saved = true; system::setSignalHandling( h ); for( int s : SIGS ) expect[ s ] = h; REACH( "set" ); }
    else if( k == 1 ) { system::resetSignalHandling(); if( saved ) for( int s : SIGS ) expect[ s ] = original[ s ]; saved = false; REACH( "reset" ); }
    else { if( saved ) break; int const s = SIGS[ shape( "which", 0, 1 ) * 9 ]; expect[ s ] = anyHandler( "program" ); lv_signal( s, expect[ s ] ); }
    bool ok = true; for( int s = 1; s <= 64; ++s ) ok &= g_table[ s ] == expect[ s ]; CHECK( ok );
  }
}
static int g_calls[ 3 ]; static void h0() { ++g_calls[ 0 ]; } static void h1() { ++g_calls[ 1 ]; }
ENTRY( handlers )
{
  lv_no_leak_check(); int current = -1, expect[ 3 ] = {}; int payload = sym< int >( "payload" ), seen = 0; g_calls[ 0 ] = g_calls[ 1 ] = 0;
  for( int o = 0; o < OPS; ++o )
  {
    int const k = shape( "op", 0, 4 );
    if( k == 0 ) { system::setErrorHandler( h0 ); current = 0; }
    else if( k == 1 ) { system::setErrorHandler( h1 ); current = 1; }
    else if( k == 2 ) { system::setErrorHandler( [payload, &seen] () { seen = payload; ++g_calls[ 2 ]; } ); current = 2; }
    else if( k == 3 ) { if( current < 0 ) { ABORTS_IFF( true, system::callErrorHandler() ); } else { system::callErrorHandler(); ++expect[ current ]; if( current == 2 ) CHECK( seen == payload ); REACH( "called" ); } }
    else { int const a = range( "a", 0, 1 ); if( current < 0 ) { ABORTS_IFF( a, LVARRAY_ERROR_IF( a, "error" ) ); } else { LVARRAY_ERROR_IF( a, "error" ); expect[ current ] += a; } }
    for( int h = 0; h < 3; ++h ) CHECK( g_calls[ h ] == expect[ h ] );
  }
  g_calls[ 2 ] = 0;
}
// a handler that installs the next one (or an error inside it) and goes on: each keeps its own data until it returns
struct Chain
{
  Owner data; int * seen; int left; bool nested;
  void operator()() const
  {
    if( left > 0 ) { system::setErrorHandler( Chain{ Owner( data.value() + 1 ), seen + 1, left - 1, nested } ); if( nested ) system::callErrorHandler(); }
    *seen = data.value(); ++g_calls[ 0 ];
  }
};
ENTRY( handler_replaces )
{
  lv_no_leak_check(); int const x = range( "x", 0, 1000 ), left = shape( "left", 0, 2 ); bool const nested = shape( "nested", 0, 1 ); int seen[ 3 ] = { -1, -1, -1 }; g_calls[ 0 ] = 0; system::setErrorHandler( Chain{ Owner( x ), seen, left, nested } );
  for( int o = 0; o <= left; ++o ) { system::callErrorHandler(); if( nested ) break; CHECK( g_calls[ 0 ] == o + 1 ); }
  for( int o = 0; o <= left; ++o ) CHECK( seen[ o ] == x + o ); CHECK( g_calls[ 0 ] == left + 1 ); if( left > 0 ) REACH( "replaced" );
}
ENTRY( null_handler ) { lv_no_leak_check(); std::function< void() > const none; ABORTS_IFF( true, system::setErrorHandler( none ) ); }
static handle installed() { return g_table[ SIGSEGV ]; }
ENTRY( trace_handler )
{
  lv_no_leak_check(); handle const h = anyHandler( "handler" ); system::setErrorHandler( h0 ); g_calls[ 0 ] = 0; system::setSignalHandling( h ); int const sig = shape( "sig", 0, 2 ) * 20 - 5; bool const exit = shape( "exit", 0, 1 ); system::stackTraceHandler( sig, exit );
  CHECK( g_calls[ 0 ] == exit ); CHECK( installed() == ( exit ? SIG_DFL : h ) ); for( int s : SIGS ) CHECK( g_table[ s ] == installed() ); REACH( "handled" );
}
static int anyMask( char const * n ) { return range( n, 0, FE_ALL_EXCEPT ) & FE_ALL_EXCEPT; }
static void between( int & expect )
{
  int const k = shape( "op", 0, 2 ); if( k == 0 ) return; int const e = sym< int >( "e" );
  if( k == 1 ) { CHECK( system::enableFloatingPointExceptions( e ) == expect ); expect |= e & FE_ALL_EXCEPT; } else { CHECK( system::disableFloatingPointExceptions( e ) == expect ); expect &= ~( e & FE_ALL_EXCEPT ); }
  CHECK( g_mask == expect );
}
ENTRY( traps )
{
  int expect = g_mask = anyMask( "mask" ); g_fail = 0; for( int o = 0; o < 3; ++o ) { between( expect ); }
  CHECK( system::getDefaultFloatingPointExceptions() == ( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ) ); int const k = shape( "default", 0, 2 ); int const def = FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID;
  if( k == 0 ) { CHECK( system::enableFloatingPointExceptions() == expect ); expect |= def; } else if( k == 1 ) { CHECK( system::disableFloatingPointExceptions() == expect ); expect &= ~def; } else { g_ftz = g_daz = 0; system::setFPE(); expect |= def; CHECK( g_ftz == _MM_FLUSH_ZERO_ON ); CHECK( g_daz == _MM_DENORMALS_ZERO_ON ); }
  CHECK( g_mask == expect ); REACH( "done" );
}
// what a guard leaves behind: the traps it found are on again, the others are as the code it guarded left them
ENTRY( guards )
{
  int e0 = g_mask = anyMask( "mask" ); g_fail = 0; bool const pure = shape( "pure", 0, 1 ); int const depth = shape( "depth", 1, 3 ); int const start = e0; int const m0 = sym< int >( "m" ), m1 = sym< int >( "m" ), m2 = sym< int >( "m" );
  int e1 = e0 & ~( m0 & FE_ALL_EXCEPT );
  { system::FloatingPointExceptionGuard a( m0 ); CHECK( g_mask == e1 ); if( !pure ) between( e1 );
    if( depth > 1 ) { int const f1 = e1; int e2 = e1 & ~( m1 & FE_ALL_EXCEPT ); { system::FloatingPointExceptionGuard b( m1 ); CHECK( g_mask == e2 ); if( !pure ) between( e2 );
      if( depth > 2 ) { int const f2 = e2; e2 &= ~( m2 & FE_ALL_EXCEPT ); { system::FloatingPointExceptionGuard c( m2 ); CHECK( g_mask == e2 ); } e2 |= f2; CHECK( g_mask == e2 ); } }
      e1 = e2 | f1; CHECK( g_mask == e1 ); } }
  CHECK( g_mask == ( e1 | start ) ); if( pure ) CHECK( g_mask == start ); REACH( "restored" );
  { system::FloatingPointExceptionGuard d; CHECK( g_mask == ( ( e1 | start ) & ~( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ) ) ); } CHECK( g_mask == ( e1 | start ) );
}
ENTRY( traps_failing ) { g_mask = anyMask( "mask" ); g_fail = range( "fail", 0, 1 ); int const e = sym< int >( "e" ); if( shape( "on", 0, 1 ) ) { ABORTS_IFF( g_fail, system::enableFloatingPointExceptions( e ) ); } else { ABORTS_IFF( g_fail, system::disableFloatingPointExceptions( e ) ); } REACH( "worked" ); }
// the unit is the largest of KB, MB, GB the count reaches and there is room for all digits of the printed number
ENTRY( bytes_FP )
{
  std::uint64_t const b = sym< std::uint64_t >( "bytes" ); g_formats = 0; std::string const r = system::calculateSize( b ); CHECK( g_formats == 1 ); char const c = g_suffix[ 0 ]; CHECK( g_suffix[ 1 ] == 'B' ); CHECK( g_suffix[ 2 ] == 0 ); CHECK( r.size() == 2 ); CHECK( r[ 1 ] == c );
  CHECK( c == ( b >= ( 1ull << 30 ) ? 'G' : b >= ( 1ull << 20 ) ? 'M' : 'K' ) ); double const unit = c == 'G' ? 1073741824.0 : c == 'M' ? 1048576.0 : 1024.0; CHECK( g_units * unit == static_cast< double >( b ) );
  std::size_t digits = 1; double const lim[] = { 9.95, 99.95, 999.95, 9999.95, 99999.95, 999999.95, 9999999.95, 99999999.95, 999999999.95, 9999999999.95 }; for( double x : lim ) digits += g_units >= x; CHECK( g_room >= digits + 6 ); REACH( "printed" ); // ".d", space, two letters, terminator
}
