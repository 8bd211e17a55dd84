// Harness prelude.  Included first by every harness: pulls in the standard headers, replaces stream formatting by no-ops (message text is
// not part of any property decided symbolically), declares the checker's intrinsics and defines the error-handler stubs.
#pragma once
#include <bits/c++config.h>
#ifdef LV_NO_EXTERN_TEMPLATE // have the library templates in the bitcode (and in the memory-sanitized build) instead of the shared library
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include <dlfcn.h>

extern "C"
{
uint64_t lv_sym( const char * name, unsigned bits );
int64_t lv_range( const char * name, int64_t lo, int64_t hi );
int64_t lv_choose( const char * name, int64_t lo, int64_t hi );
double lv_symf64( const char * name );
float lv_symf32( const char * name );
void lv_assume( int c );
void lv_assert( int c, const char * msg );
void lv_near64( double a, double b, const char * msg );
int lv_isreal();
int lv_symbolic();
void lv_abort( const char * msg );
void lv_expect_begin( int mustAbort );
void lv_expect_end();
void lv_observe( uint64_t v );
void lv_defined( uint64_t v );
void lv_reach( const char * label );
int64_t lv_heap_live();
void lv_no_leak_check();
void lv_end_path();
int64_t lv_concrete( int64_t v );
void lv_spawn( void ( *f )( void * ), void * arg );
void lv_join();
void lv_sched();
void lv_atomic_begin();
void lv_atomic_end();
}

#ifndef LV_KEEP_STREAMS
namespace std
{
struct lv_ostringstream
{
  template< class T > typename enable_if< !is_arithmetic< T >::value, lv_ostringstream & >::type operator<<( T const & ) { return *this; }
  template< class T > typename enable_if< is_arithmetic< T >::value, lv_ostringstream & >::type operator<<( T ) { return *this; }
  lv_ostringstream & operator<<( ostream & ( * )( ostream & ) ) { return *this; }
  std::string str() const { return std::string(); }
};
static lv_ostringstream lv_cout;
}
#define ostringstream lv_ostringstream
#define cout lv_cout
#endif

#define ENTRY( NAME ) extern "C" void entry_ ## NAME(); extern "C" void entry_ ## NAME()
#define LV_STR2( X ) #X
#define LV_STR( X ) LV_STR2( X )
#define CHECK( ... ) lv_assert( static_cast< bool >( __VA_ARGS__ ), #__VA_ARGS__ " [line " LV_STR( __LINE__ ) "]" )
#define CHECK_MSG( C, M ) lv_assert( static_cast< bool >( C ), M )
#define ASSUME( ... ) lv_assume( static_cast< bool >( __VA_ARGS__ ) )
#define REACH( L ) lv_reach( L )
// `code` must abort exactly when `cond` holds; when it does not abort execution continues behind the macro.
#define ABORTS_IFF( COND, ... ) do { lv_expect_begin( static_cast< bool >( COND ) ); __VA_ARGS__; lv_expect_end(); } while( false )

template< class T > struct LvSym { static T get( const char * n ) { return static_cast< T >( lv_sym( n, 8 * sizeof( T ) ) ); } };
template<> struct LvSym< double > { static double get( const char * n ) { return lv_symf64( n ); } };
template<> struct LvSym< float > { static float get( const char * n ) { return lv_symf32( n ); } };
template<> struct LvSym< bool > { static bool get( const char * n ) { return lv_range( n, 0, 1 ) != 0; } };
template< class T > T sym( const char * n ) { return LvSym< T >::get( n ); }
template< class T = int > T range( const char * n, int64_t lo, int64_t hi ) { return static_cast< T >( lv_range( n, lo, hi ) ); }
// a size that the rest of the path uses concretely (forks over the feasible values)
template< class T = int > T shape( const char * n, int64_t lo, int64_t hi ) { return static_cast< T >( lv_choose( n, lo, hi ) ); }
inline void observe( int64_t v ) { lv_observe( static_cast< uint64_t >( v ) ); }

// Element type that owns heap memory: a lost destructor call is a leak, a doubled one a double free, a read of a moved-from or
// never-constructed element a bad access.
struct Owner
{
  int * p;
  Owner(): p( new int( 0 ) ) {}
  Owner( int v ): p( new int( v ) ) {}
  Owner( Owner const & o ): p( new int( *o.p ) ) {}
  Owner( Owner && o ): p( o.p ) { o.p = nullptr; }
  Owner & operator=( Owner const & o ) { if( this != &o ) { int * n = new int( *o.p ); delete p; p = n; } return *this; }
  Owner & operator=( Owner && o ) { if( this != &o ) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~Owner() { delete p; p = nullptr; }
  int value() const { return *p; }
  bool operator==( Owner const & o ) const { return *p == *o.p; }
  bool operator!=( Owner const & o ) const { return *p != *o.p; }
  bool operator<( Owner const & o ) const { return *p < *o.p; }
};
// Element type that can only be copied and always owns memory, also after it was "moved" from: every object must be destroyed.
struct Deep
{
  int * p;
  Deep(): p( new int( 0 ) ) {}
  Deep( int v ): p( new int( v ) ) {}
  Deep( Deep const & o ): p( new int( *o.p ) ) {}
  Deep & operator=( Deep const & o ) { *p = *o.p; return *this; }
  ~Deep() { delete p; p = nullptr; }
  int value() const { return *p; }
  bool operator==( Deep const & o ) const { return *p == *o.p; }
  bool operator<( Deep const & o ) const { return *p < *o.p; }
};
inline int valueOf( Deep const & o ) { return o.value(); }
inline int valueOf( int v ) { return v; }
inline int64_t valueOf( int64_t v ) { return v; }
inline unsigned valueOf( unsigned v ) { return v; }
inline uint64_t valueOf( uint64_t v ) { return v; }
// Element type that can be copied byte by byte but whose default value is not zero bytes.
struct Preset
{
  int v = 41; char tag = 'k';
  Preset() = default;
  Preset( int x ): v( x ) {}
  bool operator==( Preset const & o ) const { return v == o.v; }
  bool operator!=( Preset const & o ) const { return v != o.v; }
  bool operator<( Preset const & o ) const { return v < o.v; }
};
static_assert( std::is_trivially_copyable< Preset >::value, "" );
inline int valueOf( Preset const & o ) { return o.tag == 'k' ? o.v : ~o.v; }
inline int valueOf( Owner const & o ) { return o.value(); }
// the value of a value-initialised element
template< class T > int dflt() { T const t = T(); return static_cast< int >( valueOf( t ) ); }

// forward iterator over an array: only ++, * and comparison
template< class T > struct Fwd
{
  using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const *; using reference = T const &;
  T const * p;
  T const & operator*() const { return *p; }
  Fwd & operator++() { ++p; return *this; }
  Fwd operator++( int ) { Fwd r = *this; ++p; return r; }
  bool operator==( Fwd const & o ) const { return p == o.p; }
  bool operator!=( Fwd const & o ) const { return p != o.p; }
};

// Reference sequence with a fixed capacity (the oracle of the container properties).
template< class T, int CAP = 24 > struct Seq
{
  T d[ CAP ]; int n;
  Seq(): d{}, n( 0 ) {}
  void push( T v ) { if( n >= CAP ) lv_abort( "oracle capacity" ); d[ n++ ] = v; }
  void insert( int pos, T v ) { if( n >= CAP ) lv_abort( "oracle capacity" ); for( int i = n; i > pos; --i ) d[ i ] = d[ i - 1 ]; d[ pos ] = v; ++n; }
  void erase( int pos ) { for( int i = pos; i + 1 < n; ++i ) d[ i ] = d[ i + 1 ]; --n; }
  bool has( T v ) const { bool r = false; for( int i = 0; i < n; ++i ) r |= ( d[ i ] == v ); return r; }
  int lower( T v ) const { int r = 0; for( int i = 0; i < n; ++i ) r += ( d[ i ] < v ); return r; }
  // set semantics
  bool setInsert( T v ) { if( has( v ) ) return false; insert( lower( v ), v ); return true; }
  bool setRemove( T v ) { if( !has( v ) ) return false; erase( lower( v ) ); return true; }
};

#ifndef LV_REAL_SYSTEM
#include "system.hpp"
namespace LvArray { namespace system {
std::string stackTrace( bool const ) { return std::string(); }
void callErrorHandler() { lv_abort( "LvArray error handler" ); for(;; ) {} }
std::string demangle( char const * const ) { return std::string(); }
std::string calculateSize( size_t const ) { return std::string(); }
} }
#endif
