// LV: system=1
// BOUNDS: stacks of 0..30 active calls at symbolic addresses, the outermost one with a zero address or not; symbol kinds (demangles, does not demangle, no symbol but a file, nothing known) of every frame for stacks of up to 3 frames, and of one frame in any position of the longer ones; source locations of 0..70 characters, ended by a line feed, carriage return and line feed, or nothing, of frames with and without a known file (path of the executable 1..80 characters); failing pipe and fork; every signal -5..70, every set of raised floating-point exceptions
// ASSUMES: the unwinder, dladdr, __cxa_demangle, pipe, fork, execv, readlink, strsignal, fetestexcept and the stdio calls on the pipe are replaced by stand-ins with their documented behaviour, results symbolic; the symbolic run replaces string streams by one that writes text and decimal integers, the native replay uses the real ones; opening the pipe as a stream succeeds; standard input and output may be closed when the pipe is opened, standard error is not
#define LV_KEEP_STREAMS
#include "lv.hpp"
#include <cfenv>
#include <csignal>
#include <cxxabi.h>
#include <fenv.h>
#include <pmmintrin.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unwind.h>
constexpr int MAX = 32;
static int g_frames, g_kind[ MAX ], g_zero, g_fpe, g_pipeFails, g_low, g_forkResult, g_queries, g_child, g_exeLength; static std::uint64_t g_base;
static char g_name[ MAX ][ 5 ], g_file[ MAX ][ 5 ], g_exe[ 96 ]; static char g_context[ MAX ];
static std::uint64_t address( int i ) { return g_base + 16 * static_cast< std::uint64_t >( i ); }
static int frameOf( void const * a ) { for( int i = 0; i < g_frames; ++i ) if( reinterpret_cast< std::uint64_t >( a ) == address( i ) ) return i; lv_abort( "address that is not of the stack" ); return 0; }
extern "C" inline _Unwind_Reason_Code lv_unwind( _Unwind_Trace_Fn f, void * arg ) { for( int i = 0; i < g_frames; ++i ) if( f( reinterpret_cast< _Unwind_Context * >( g_context + i ), arg ) != _URC_NO_REASON ) return _URC_FATAL_PHASE1_ERROR; return _URC_END_OF_STACK; }
extern "C" inline std::uint64_t lv_ip( _Unwind_Context * c ) { int const i = static_cast< int >( reinterpret_cast< char * >( c ) - g_context ); return g_zero && i == g_frames - 1 ? 0 : address( i ); }
enum { DEMANGLES, PLAIN, FILE_ONLY, UNKNOWN };
extern "C" inline int lv_dladdr( void const * a, Dl_info * d ) { int const i = frameOf( a ); if( g_kind[ i ] == UNKNOWN ) return 0; d->dli_fname = g_file[ i ]; d->dli_sname = g_kind[ i ] == FILE_ONLY ? nullptr : g_name[ i ]; d->dli_saddr = nullptr; d->dli_fbase = nullptr; return 1; }
namespace __cxxabiv1 { inline char * lv_demangle( char const * n, char * b, std::size_t *, int * status )
{
  if( b != nullptr || n[ 0 ] != '<' || n[ 1 ] != 'm' ) lv_abort( "unexpected arguments of __cxa_demangle" ); int const i = n[ 2 ] - 'A'; if( g_kind[ i ] != DEMANGLES ) { *status = -2; return nullptr; }
  char * r = static_cast< char * >( std::malloc( 5 ) ); std::memcpy( r, n, 5 ); r[ 1 ] = 'd'; *status = 0; return r;
} }
static int g_fd[ 2 ], g_open, g_files, g_unwaited; static char g_text[ 96 ]; static int g_length, g_read; static char g_stream;
extern "C" inline int lv_pipe( int * p ) { if( g_pipeFails ) return -1; if( g_open != 0 ) lv_abort( "pipe opened while another is open" ); p[ 0 ] = g_fd[ 0 ] = g_low == 0 ? 20 : g_low == 1 ? 1 : 0; p[ 1 ] = g_fd[ 1 ] = g_low == 0 ? 21 : g_low == 1 ? 3 : 1; g_open = 3; return 0; }
extern "C" inline int lv_close( int f ) { if( g_child && f == STDERR_FILENO ) return 0; int const b = f == g_fd[ 0 ] ? 1 : f == g_fd[ 1 ] ? 2 : 0; if( b == 0 || !( g_open & b ) ) lv_abort( "closed a descriptor that is not open" ); g_open &= ~b; return 0; }
extern "C" inline pid_t lv_fork() { ++g_queries; if( g_forkResult == 0 ) g_child = g_fd[ 1 ] == STDOUT_FILENO ? 3 : 1; if( g_forkResult > 0 ) ++g_unwaited; return g_forkResult; }
extern "C" inline FILE * lv_fdopen( int f, char const * m ) { if( f != g_fd[ 0 ] || !( g_open & 1 ) || m[ 0 ] != 'r' ) lv_abort( "wrong descriptor or mode" ); g_read = 0; ++g_files; return reinterpret_cast< FILE * >( &g_stream ); }
extern "C" inline int lv_fclose( FILE * ) { --g_files; g_open &= ~1; return 0; }
extern "C" inline int lv_feof( FILE * ) { return g_read > g_length; }
extern "C" inline char * lv_fgets( char * b, int n, FILE * ) { int k = 0; while( k < n - 1 && g_read < g_length ) { b[ k ] = g_text[ g_read++ ]; if( b[ k++ ] == '\n' ) break; } if( k < n - 1 && ( k == 0 || b[ k - 1 ] != '\n' ) ) g_read = g_length + 1; if( k == 0 ) return nullptr; b[ k ] = 0; return b; }
extern "C" inline int lv_kill( pid_t p, int s ) { if( p <= 0 || p != g_forkResult || s != SIGKILL ) lv_abort( "signal sent to another process" ); return 0; }
extern "C" inline pid_t lv_waitpid( pid_t p, int *, int ) { if( p <= 0 || p != g_forkResult ) lv_abort( "waited for another process" ); --g_unwaited; return p; }
extern "C" inline int lv_dup2( int f, int t ) { if( f != g_fd[ 1 ] || t != STDOUT_FILENO || !( g_open & 2 ) ) lv_abort( "wrong descriptor redirected" ); g_child |= 2; return t; }
static bool sameText( char const * a, char const * b ) { while( *a && *a == *b ) { ++a; ++b; } return *a == *b; }
static char const * g_expectFile; static std::uint64_t g_expectAddress;
static void checkCommand( char const * p, char * const * v );
extern "C" inline int lv_execv( char const * p, char * const * v ) { checkCommand( p, v ); return -1; }
extern "C" inline void lv_exit( int ) { lv_end_path(); }
extern "C" inline ssize_t lv_readlink( char const * p, char * b, std::size_t n ) { if( !sameText( p, "/proc/self/exe" ) ) lv_abort( "wrong link" ); if( g_exeLength < 0 ) return -1; std::size_t const k = static_cast< std::size_t >( g_exeLength ) < n ? static_cast< std::size_t >( g_exeLength ) : n; for( std::size_t i = 0; i < k; ++i ) b[ i ] = g_exe[ i ]; return static_cast< ssize_t >( k ); }
extern "C" inline char * lv_strsignal( int s ) { static char t[ 4 ]; t[ 0 ] = '['; t[ 1 ] = static_cast< char >( '0' + s ); t[ 2 ] = ']'; t[ 3 ] = 0; return t; }
extern "C" inline int lv_fetest( int m ) { return g_fpe & m; }
extern "C" inline void ( * lv_signal( int, void ( * )( int ) ) )( int ) { return SIG_DFL; }
extern "C" inline int lv_feenable( int ) { return 0; }
namespace std { inline int lv_snprintf( char *, size_t, char const *, double, char const * ) { return 0; } inline void lv_std_abort() { lv_abort( "std::abort" ); } }
#ifdef LV_SYMBOLIC
namespace std
{
struct lv_text
{
  string t; void const * address = nullptr;
  void number( unsigned long long v ) { if( v > 99 ) { t += '#'; return; } unsigned x = static_cast< unsigned >( v ); if( x > 9 ) t += static_cast< char >( '0' + x / 10 ); t += static_cast< char >( '0' + x % 10 ); }
  lv_text & operator<<( char const * s ) { t += s; return *this; }
  lv_text & operator<<( char c ) { t += c; return *this; }
  lv_text & operator<<( string const & s ) { t += s; return *this; }
  lv_text & operator<<( int v ) { if( v < 0 ) { t += '-'; number( -static_cast< long long >( v ) ); } else number( static_cast< unsigned long long >( v ) ); return *this; }
  lv_text & operator<<( long v ) { return *this << static_cast< int >( v ); }
  lv_text & operator<<( unsigned long v ) { number( v ); return *this; }
  lv_text & operator<<( unsigned v ) { number( v ); return *this; }
  lv_text & operator<<( void const * p ) { lastAddress = p; t += '@'; return *this; }
  lv_text & operator<<( lv_text & ( *f )( lv_text & ) ) { return f( *this ); }
  string str() const { return t; }
  static void const * lastAddress;
};
void const * lv_text::lastAddress;
inline lv_text & lv_endl( lv_text & o ) { return o << '\n'; }
static lv_text lv_out;
}
#define ostringstream lv_text
#define cout lv_out
#define endl lv_endl
#endif
namespace std
{
_Rb_tree_node_base * _Rb_tree_increment( _Rb_tree_node_base * x ) throw();
}
#undef _MM_SET_FLUSH_ZERO_MODE
#undef _MM_SET_DENORMALS_ZERO_MODE
#define _MM_SET_FLUSH_ZERO_MODE( X )
#define _MM_SET_DENORMALS_ZERO_MODE( X )
#define _Unwind_Backtrace lv_unwind
#define _Unwind_GetIP lv_ip
#define dladdr lv_dladdr
#define __cxa_demangle lv_demangle
#define pipe lv_pipe
#define close lv_close
#define fork lv_fork
#define fdopen lv_fdopen
#define fclose lv_fclose
#define feof lv_feof
#define fgets lv_fgets
#define kill lv_kill
#define waitpid lv_waitpid
#define dup2 lv_dup2
#define execv lv_execv
#define _exit lv_exit
#define readlink lv_readlink
#define strsignal lv_strsignal
#define fetestexcept lv_fetest
#define signal lv_signal
#define feenableexcept lv_feenable
#define fedisableexcept lv_feenable
#define snprintf lv_snprintf
#define abort lv_std_abort
#include <system.cpp>
#undef cout
using namespace LvArray;
static void checkCommand( char const * p, char * const * v )
{
  CHECK( sameText( p, LV_STR( LVARRAY_ADDR2LINE_EXEC ) ) ); CHECK( sameText( v[ 0 ], p ) ); CHECK( sameText( v[ 2 ], g_expectFile ) ); CHECK( v[ 4 ] == nullptr );
  // C: demangle, p: one line, e: the executable follows
  bool has[ 3 ] = {}; CHECK( v[ 1 ][ 0 ] == '-' ); char last = 0; for( char const * c = v[ 1 ] + 1; *c; ++c ) { last = *c; has[ 0 ] |= *c == 'C'; has[ 1 ] |= *c == 'p'; has[ 2 ] |= *c == 'e'; } CHECK( has[ 0 ] && has[ 1 ] && has[ 2 ] && last == 'e' );
  CHECK( g_child == 3 ); CHECK( !( g_open & 1 ) );
  #ifdef LV_SYMBOLIC
  CHECK( sameText( v[ 3 ], "@" ) ); CHECK( reinterpret_cast< std::uint64_t >( std::lv_text::lastAddress ) == g_expectAddress );
  #else
  CHECK( std::strtoull( v[ 3 ], nullptr, 16 ) == g_expectAddress );
  #endif
  REACH( "executed" );
}
static void stack( int frames )
{
  g_frames = frames; g_base = sym< std::uint64_t >( "base" ); ASSUME( g_base > 4096 && g_base < ( std::uint64_t( 1 ) << 47 ) ); g_zero = frames > 0 && shape( "zero", 0, 1 ); g_forkResult = 77; g_pipeFails = g_low = 0; g_queries = g_child = 0; g_length = 0; g_open = g_files = g_unwaited = 0; g_exeLength = 1; g_exe[ 0 ] = '/'; g_fpe = 0;
  for( int i = 0; i < frames; ++i ) { g_kind[ i ] = DEMANGLES; char const n[] = { '<', 'm', static_cast< char >( 'A' + i ), '>', 0 }, f[] = { '<', 'f', static_cast< char >( 'A' + i ), '>', 0 }; std::memcpy( g_name[ i ], n, 5 ); std::memcpy( g_file[ i ], f, 5 ); }
}
// The frames a trace lists: marks <xN> are names, the word Unknown the name of a frame nothing is known about; the first number is the announced count.
static void checkTrace( std::string const & t )
{
  int const active = g_frames - g_zero - 2 > 0 ? g_frames - g_zero - 2 : 0; int n = 0, announced = -1; bool ok = true; std::size_t const end = t.size();
  for( std::size_t p = 0; p < end; ++p )
  {
    if( announced < 0 && t[ p ] >= '0' && t[ p ] <= '9' ) { announced = t[ p ] - '0'; if( p + 1 < end && t[ p + 1 ] >= '0' && t[ p + 1 ] <= '9' ) announced = 10 * announced + t[ ++p ] - '0'; }
    bool const mark = t[ p ] == '<' && t[ p + 1 ] != 'l', none = t[ p ] == 'U' && t[ p + 1 ] == 'n' && t[ p + 2 ] == 'k'; if( !mark && !none ) continue;
    int const i = n + 2; if( i >= g_frames - g_zero ) { ok = false; break; } int const k = g_kind[ i ]; ++n;
    if( none ) ok &= k == UNKNOWN; else ok &= t[ p + 2 ] == static_cast< char >( 'A' + i ) && t[ p + 3 ] == '>' && t[ p + 1 ] == ( k == DEMANGLES ? 'd' : k == PLAIN ? 'm' : k == FILE_ONLY ? 'f' : 0 );
  }
  CHECK( ok ); CHECK( n >= ( active < 25 ? active : 25 ) ); CHECK( announced == n );
}
ENTRY( kinds )
{
  stack( shape( "frames", 0, 5 ) ); for( int i = 2; i < g_frames - g_zero; ++i ) g_kind[ i ] = shape( "kind", 0, 3 );
  checkTrace( system::stackTrace( false ) ); CHECK( g_queries == 0 ); REACH( "traced" );
}
#ifdef LV_THOROUGH
constexpr int FROM = 6;
#else
constexpr int FROM = 24;
#endif
ENTRY( deep )
{
  stack( shape( "frames", FROM, 30 ) ); int const which = shape( "which", 2, g_frames - 1 ); g_kind[ which ] = shape( "kind", 1, 3 );
  checkTrace( system::stackTrace( false ) ); REACH( "traced" );
}
ENTRY( demangle ) { stack( 3 ); g_kind[ 2 ] = shape( "kind", 0, 1 ); std::string const s = system::demangle( g_name[ 2 ] ); CHECK( s.size() == 4 ); CHECK( s[ 1 ] == ( g_kind[ 2 ] == DEMANGLES ? 'd' : 'm' ) ); CHECK( s[ 2 ] == 'C' ); CHECK( system::demangle( nullptr ).size() == 0 ); REACH( "demangled" ); }
static int find( std::string const & t, char const * w, int n ) { int r = 0; for( std::size_t p = 0; p + static_cast< std::size_t >( n ) <= t.size(); ++p ) { bool same = true; for( int k = 0; k < n; ++k ) same &= t[ p + static_cast< std::size_t >( k ) ] == w[ k ]; r += same; } return r; }
// what the child writes is what follows the name of the frame, unless it starts with a question mark
ENTRY( location )
{
  stack( 3 ); g_zero = 0; g_kind[ 2 ] = shape( "kind", 0, 3 ); int const body = shape( "body", 0, 70 ), ending = shape( "ending", 0, 2 ); if( g_kind[ 2 ] == UNKNOWN ) { g_exeLength = shape( "path", 1, 80 ); if( body > 3 ) return; for( int i = 0; i < g_exeLength; ++i ) g_exe[ i ] = '/'; } else if( g_kind[ 2 ] != DEMANGLES && body > 5 ) return;
  for( int i = 0; i < body; ++i ) { char const c = range< char >( "c", 33, 126 ); ASSUME( c != '<' && c != 'U' ); g_text[ g_length++ ] = c; }
  if( ending == 1 ) g_text[ g_length++ ] = '\r'; if( ending ) g_text[ g_length++ ] = '\n';
  std::string const t = system::stackTrace( true ); checkTrace( t ); CHECK( g_queries == 1 ); CHECK( g_open == 0 ); CHECK( g_files == 0 ); CHECK( g_unwaited == 0 );
  if( body > 0 && g_text[ 0 ] == '?' ) { bool none = true; for( std::size_t p = 0; p < t.size(); ++p ) none &= t[ p ] != '?'; CHECK( none ); REACH( "dropped" ); }
  else { std::string const plain = system::stackTrace( false ); std::size_t p = 0; while( p < plain.size() && plain[ p ] == t[ p ] ) ++p; /* p: first place where the location made a difference */ CHECK( t.size() >= plain.size() + static_cast< std::size_t >( body ) ); bool found = false; std::size_t const extra = t.size() - plain.size() - static_cast< std::size_t >( body ); CHECK( extra <= 2 ); for( std::size_t q = p >= 1 ? p - 1 : 0; q <= p + 1; ++q ) { bool same = q + static_cast< std::size_t >( body ) <= t.size(); for( int i = 0; same && i < body; ++i ) same &= t[ q + static_cast< std::size_t >( i ) ] == g_text[ i ]; found |= same; } CHECK( found ); REACH( "shown" ); }
}
ENTRY( child )
{
  lv_no_leak_check(); stack( 3 ); g_zero = 0; g_low = shape( "low", 0, 2 ); g_kind[ 2 ] = shape( "kind", 0, 3 ); g_forkResult = 0; g_expectAddress = address( 2 ); g_expectFile = g_file[ 2 ]; if( g_kind[ 2 ] == UNKNOWN ) { g_exeLength = shape( "path", 1, 80 ); for( int i = 0; i < g_exeLength; ++i ) { g_exe[ i ] = range< char >( "c", 1, 127 ); } g_exe[ g_exeLength ] = 0; g_expectFile = g_exe; }
  system::stackTrace( true ); CHECK_MSG( false, "the child process continued" );
}
ENTRY( failing )
{
  stack( 4 ); g_zero = 0; g_low = shape( "low", 0, 2 ); if( shape( "unknown", 0, 1 ) ) { g_kind[ 2 ] = UNKNOWN; g_exeLength = shape( "link", 0, 1 ) ? -1 : 5; for( int i = 0; i < 5; ++i ) g_exe[ i ] = 'e'; } g_pipeFails = shape( "pipe", 0, 1 ); g_forkResult = shape( "fork", 0, 1 ) ? -1 : 77; checkTrace( system::stackTrace( true ) ); CHECK( g_open == 0 ); CHECK( g_files == 0 ); CHECK( g_unwaited == 0 ); REACH( "traced" );
}
#ifdef LV_SYMBOLIC
struct Capture { std::string str() { return std::lv_out.t; } };
#else
struct Capture { std::stringbuf b; std::streambuf * o; Capture(): o( std::cout.rdbuf( &b ) ) {} ~Capture() { std::cout.rdbuf( o ); } std::string str() { return b.str(); } };
#endif
static int contains( std::string const & t, char const * w ) { int n = 0; while( w[ n ] ) ++n; return find( t, w, n ); }
ENTRY( report )
{
  lv_no_leak_check(); Capture c; stack( 4 ); g_zero = 0; g_fpe = range( "fpe", 0, FE_ALL_EXCEPT ) & FE_ALL_EXCEPT; int const sig = shape( "sig", -5, 70 ); system::stackTraceHandler( sig, false ); std::string const t = c.str();
  bool const valid = sig >= 0 && sig < NSIG; char const name[] = { '[', static_cast< char >( '0' + sig ), ']', 0 }; CHECK( contains( t, name ) == valid );
  bool const fpe = sig == SIGFPE; CHECK( contains( t, "Division by zero" ) == ( fpe && ( g_fpe & FE_DIVBYZERO ) != 0 ) ); CHECK( contains( t, "Inexact result" ) == ( fpe && ( g_fpe & FE_INEXACT ) != 0 ) ); CHECK( contains( t, "Invalid argument" ) == ( fpe && ( g_fpe & FE_INVALID ) != 0 ) ); CHECK( contains( t, "Overflow" ) == ( fpe && ( g_fpe & FE_OVERFLOW ) != 0 ) ); CHECK( contains( t, "Underflow" ) == ( fpe && ( g_fpe & FE_UNDERFLOW ) != 0 ) );
  CHECK( contains( t, "<dC>" ) == 1 ); CHECK( contains( t, "<dD>" ) == 1 ); if( fpe ) REACH( "fpe" ); REACH( "reported" );
}
