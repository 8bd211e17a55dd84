// Native runtime of the harness intrinsics: replays one concrete input sequence against the really compiled code.
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <vector>

struct In { char * name; char * val; };     // plain C, so that the memory-sanitized build sees every byte initialised
static std::vector< In > ins; static size_t pos; static bool realMode, freeThreads;
static int expecting; static int expectCond;
static std::atomic< int64_t > live; static int64_t base; static bool noLeak;
static thread_local bool counting;      // true only while code of the harness runs, not the thread machinery below
static std::vector< uint64_t > obs;

static void finish( const char * what, int code )
{
  for( uint64_t o : obs ) printf( "OBS %llu\n", (unsigned long long)o );
  printf( "END %s\n", what ); fflush( stdout ); _exit( code );
}
static void violation( const char * kind, const char * msg ) { printf( "NATIVE-VIOLATION %s: %s\n", kind, msg ? msg : "" ); finish( "violation", 3 ); }

static const char * next( const char * name, bool & ok )
{
  while( freeThreads && pos < ins.size() && !strcmp( ins[ pos ].name, "sched" ) ) ++pos;
  if( pos >= ins.size() ) { ok = false; return "0"; }
  if( strcmp( ins[ pos ].name, name ) ) { printf( "DESYNC wanted %s have %s\n", name, ins[ pos ].name ); finish( "desync", 5 ); }
  ok = true; return ins[ pos++ ].val;
}

#if defined( __SANITIZE_ADDRESS__ ) || ( defined( __has_feature ) && __has_feature( address_sanitizer ) )
#define LV_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( const volatile void *, size_t ), void ( * )( const volatile void * ) );
static void hm( const volatile void *, size_t ) { if( counting ) ++live; }
static void hf( const volatile void * p ) { if( counting && p ) --live; }
#endif
#if defined( __has_feature ) && __has_feature( memory_sanitizer )
extern "C" void __msan_check_mem_is_initialized( const volatile void *, size_t );
#define LV_MSAN 1
#endif

// threads, run under a baton so that the recorded schedule is followed
struct Th { std::thread t; bool done = false; void ( *f )( void * ); void * a; };
static std::vector< Th * > th; static std::mutex mu; static std::condition_variable cv; static int turn = 0; static thread_local int me = 0;

static void pick()       // with mu held: next scheduling decision
{
  bool any = false; for( size_t i = 1; i < th.size(); ++i ) any |= !th[ i ]->done;
  if( !any ) { turn = 0; cv.notify_all(); return; }
  bool ok; const char * v = next( "sched", ok );
  int t = ok ? atoi( v ) : 0;
  if( t < 1 || t >= (int)th.size() || th[ t ]->done ) { for( size_t i = 1; i < th.size(); ++i ) if( !th[ i ]->done ) { t = (int)i; break; } }
  turn = t; cv.notify_all();
}

extern "C"
{
uint64_t lv_sym( const char * n, unsigned bits )
{ bool ok; uint64_t v = strtoull( next( n, ok ), nullptr, 10 ); return bits >= 64 ? v : v & ( ( 1ull << bits ) - 1 ); }
int64_t lv_range( const char * n, int64_t lo, int64_t hi )
{ bool ok; int64_t v = (int64_t)strtoull( next( n, ok ), nullptr, 10 ); if( !ok ) v = lo; if( v < lo || v > hi ) { printf( "DESYNC %s out of range\n", n ); finish( "desync", 5 ); } return v; }
int64_t lv_choose( const char * n, int64_t lo, int64_t hi ) { return lv_range( n, lo, hi ); }
double lv_symf64( const char * n )
{ bool ok; const char * v = next( n, ok ); if( realMode ) return strtod( v, nullptr ); uint64_t b = strtoull( v, nullptr, 10 ); double d; memcpy( &d, &b, 8 ); return d; }
float lv_symf32( const char * n )
{ bool ok; const char * v = next( n, ok ); if( realMode ) return strtof( v, nullptr ); uint32_t b = (uint32_t)strtoull( v, nullptr, 10 ); float d; memcpy( &d, &b, 4 ); return d; }
void lv_assume( int c ) { if( !c ) { if( realMode ) finish( "assume-real", 6 ); printf( "ASSUME-FAILED\n" ); finish( "assume", 4 ); } }
void lv_assert( int c, const char * msg )
{
#ifdef LV_MSAN
  __msan_check_mem_is_initialized( &c, sizeof( c ) );
#endif
  if( !c ) violation( "assert", msg );
}
void lv_near64( double a, double b, const char * msg )
{
  if( realMode ) { double s = std::fabs( a ) + std::fabs( b ); if( !( std::fabs( a - b ) <= 1e-6 * ( s > 1 ? s : 1 ) ) ) violation( "assert", msg ); }
  else if( !( a == b || ( a != a && b != b ) ) ) violation( "assert", msg );
}
int lv_isreal() { return realMode; }
int lv_symbolic() { return 0; }
void lv_abort( const char * msg )
{
  if( expecting ) { if( expectCond ) finish( "aborted", 0 ); violation( "abort", msg ); }
  violation( "abort", msg );
}
void lv_expect_begin( int c ) { expecting = 1; expectCond = c; }
void lv_expect_end() { if( expectCond ) violation( "noabort", "operation completed although it had to be rejected" ); expecting = 0; }
void lv_observe( uint64_t v ) { obs.push_back( v ); }
void lv_defined( uint64_t v )
{
#ifdef LV_MSAN
  __msan_check_mem_is_initialized( &v, sizeof( v ) );
#endif
  (void)v;
}
void lv_reach( const char * ) {}
int64_t lv_heap_live() { return live - base; }
void lv_no_leak_check() { noLeak = true; }
void lv_end_path() { finish( "ok", 0 ); }
int64_t lv_concrete( int64_t v ) { return v; }
void lv_spawn( void ( *f )( void * ), void * a )
{
  bool c = counting; counting = false;
  if( th.empty() ) th.push_back( new Th );
  th.push_back( new Th ); Th * t = th.back(); t->f = f; t->a = a;
  counting = c;
}
void lv_join()
{
  if( th.size() < 2 ) return;
  bool c = counting; counting = false;
  for( size_t i = 1; i < th.size(); ++i )
    th[ i ]->t = std::thread( [i, c]()
    {
      me = (int)i;
      if( !freeThreads ) { std::unique_lock< std::mutex > l( mu ); cv.wait( l, [i]() { return turn == (int)i; } ); }
      counting = c; th[ i ]->f( th[ i ]->a ); counting = false;
      if( !freeThreads ) { std::unique_lock< std::mutex > l( mu ); th[ i ]->done = true; pick(); }
    } );
  if( !freeThreads ) { std::unique_lock< std::mutex > l( mu ); pick(); cv.wait( l, []() { return turn == 0; } ); }
  for( size_t i = 1; i < th.size(); ++i ) { th[ i ]->t.join(); delete th[ i ]; }
  delete th[ 0 ]; th.clear(); turn = 0; counting = c;
}
void lv_sched()
{
  if( me == 0 || freeThreads ) return;
  std::unique_lock< std::mutex > l( mu ); int i = me; pick(); cv.wait( l, [i]() { return turn == i; } );
}
void lv_atomic_begin() { if( freeThreads ) mu.lock(); }
void lv_atomic_end() { if( freeThreads ) mu.unlock(); }
}

int main( int argc, char ** argv )
{
  if( argc < 3 ) return 2;
  realMode = getenv( "LV_REAL" ) != nullptr; freeThreads = getenv( "LV_FREE_THREADS" ) != nullptr;
  FILE * f = fopen( argv[ 2 ], "r" ); if( !f ) return 2;
  char line[ 4096 ];
  while( fgets( line, sizeof line, f ) )
  {
    size_t n = strlen( line ); if( n && line[ n - 1 ] == '\n' ) line[ n - 1 ] = 0;
    char * p = strchr( line, '\t' ); if( !p || line[ 0 ] == '#' ) continue;
    *p = 0; ins.push_back( { strdup( line ), strdup( p + 1 ) } );
  }
  fclose( f );
  obs.reserve( 4096 ); setvbuf( stdout, nullptr, _IOFBF, 1 << 16 );
  char e[ 512 ]; snprintf( e, sizeof e, "entry_%s", argv[ 1 ] );
  auto fn = (void ( * )())dlsym( RTLD_DEFAULT, e );
  if( !fn ) { printf( "no entry %s\n", e ); return 2; }
  alarm( 20 );
#ifdef LV_ASAN
  __sanitizer_install_malloc_and_free_hooks( hm, hf ); counting = true;
#endif
  base = live; 
  fn();
#ifdef LV_ASAN
  if( !noLeak && live != base ) { counting = false; violation( "leak", "memory was not released" ); }
#endif
  if( expecting && expectCond ) violation( "noabort", "operation completed although it had to be rejected" );
  finish( "ok", 0 );
}
