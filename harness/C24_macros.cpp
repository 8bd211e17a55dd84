// LV: flags=-fexceptions
// LV: variant=ndebug -DMODE_NDEBUG=1
// LV: variant=assert -UNDEBUG
// LV: system=1
// BOUNDS: all operand values (int32, int64, uint64, mixed int/int64, double with IEEE semantics) of every comparison macro, message and short forms, with and without NDEBUG
#include "lv.hpp"
static bool g_throwing = false, g_handler = false;
#define TYPEID_UNUSED
#include "system.hpp"
namespace LvArray { namespace system {
std::string stackTrace( bool const ) { return std::string(); }
void callErrorHandler() { CHECK_MSG( !g_throwing, "a throwing macro called the error handler" ); lv_abort( "error handler" ); for(;; ) {} }
std::string demangle( char const * const ) { return std::string(); }
std::string calculateSize( size_t const ) { return std::string(); }
} }
#include "Macros.hpp"
struct Thrown { Thrown( std::string const & ) { CHECK_MSG( g_throwing, "a non-throwing macro threw" ); lv_abort( "exception" ); } };

template< class A, class B > void errorMacros()
{
  A a = sym< A >( "a" ); B b = sym< B >( "b" );
  int passed = 0;
  int k = shape( "macro", 0, 11 );
  switch( k )
  {
    case 0: ABORTS_IFF( a == b, LVARRAY_ERROR_IF_EQ( a, b ) ); ++passed; break;
    case 1: ABORTS_IFF( a != b, LVARRAY_ERROR_IF_NE( a, b ) ); ++passed; break;
    case 2: ABORTS_IFF( a > b, LVARRAY_ERROR_IF_GT( a, b ) ); ++passed; break;
    case 3: ABORTS_IFF( a >= b, LVARRAY_ERROR_IF_GE( a, b ) ); ++passed; break;
    case 4: ABORTS_IFF( a < b, LVARRAY_ERROR_IF_LT( a, b ) ); ++passed; break;
    case 5: ABORTS_IFF( a <= b, LVARRAY_ERROR_IF_LE( a, b ) ); ++passed; break;
    case 6: ABORTS_IFF( a == b, LVARRAY_ERROR_IF_EQ_MSG( a, b, "m" ) ); ++passed; break;
    case 7: ABORTS_IFF( a != b, LVARRAY_ERROR_IF_NE_MSG( a, b, "m" ) ); ++passed; break;
    case 8: ABORTS_IFF( a > b, LVARRAY_ERROR_IF_GT_MSG( a, b, "m" ) ); ++passed; break;
    case 9: ABORTS_IFF( a >= b, LVARRAY_ERROR_IF_GE_MSG( a, b, "m" ) ); ++passed; break;
    case 10: ABORTS_IFF( a < b, LVARRAY_ERROR_IF_LT_MSG( a, b, "m" ) ); ++passed; break;
    default: ABORTS_IFF( a <= b, LVARRAY_ERROR_IF_LE_MSG( a, b, "m" ) ); ++passed; break;
  }
  CHECK( passed == 1 ); observe( k ); REACH( "passed" );
}
template< class A, class B > void throwMacros()
{
  A a = sym< A >( "a" ); B b = sym< B >( "b" );
  g_throwing = true;
  int k = shape( "macro", 0, 11 );
  switch( k )
  {
    case 0: ABORTS_IFF( a == b, LVARRAY_THROW_IF_EQ( a, b, Thrown ) ); break;
    case 1: ABORTS_IFF( a != b, LVARRAY_THROW_IF_NE( a, b, Thrown ) ); break;
    case 2: ABORTS_IFF( a > b, LVARRAY_THROW_IF_GT( a, b, Thrown ) ); break;
    case 3: ABORTS_IFF( a >= b, LVARRAY_THROW_IF_GE( a, b, Thrown ) ); break;
    case 4: ABORTS_IFF( a < b, LVARRAY_THROW_IF_LT( a, b, Thrown ) ); break;
    case 5: ABORTS_IFF( a <= b, LVARRAY_THROW_IF_LE( a, b, Thrown ) ); break;
    case 6: ABORTS_IFF( a == b, LVARRAY_THROW_IF_EQ_MSG( a, b, "m", Thrown ) ); break;
    case 7: ABORTS_IFF( a != b, LVARRAY_THROW_IF_NE_MSG( a, b, "m", Thrown ) ); break;
    case 8: ABORTS_IFF( a > b, LVARRAY_THROW_IF_GT_MSG( a, b, "m", Thrown ) ); break;
    case 9: ABORTS_IFF( a >= b, LVARRAY_THROW_IF_GE_MSG( a, b, "m", Thrown ) ); break;
    case 10: ABORTS_IFF( a < b, LVARRAY_THROW_IF_LT_MSG( a, b, "m", Thrown ) ); break;
    default: ABORTS_IFF( a <= b, LVARRAY_THROW_IF_LE_MSG( a, b, "m", Thrown ) ); break;
  }
  observe( k ); REACH( "passed" );
}
#ifdef MODE_NDEBUG
constexpr bool asserting = false;
#else
constexpr bool asserting = true;
#endif
template< class A, class B > void assertMacros()
{
  A a = sym< A >( "a" ); B b = sym< B >( "b" );
  int k = shape( "macro", 0, 7 );
  switch( k )
  {
    case 0: ABORTS_IFF( asserting && !( a == b ), LVARRAY_ASSERT_EQ( a, b ) ); break;
    case 1: ABORTS_IFF( asserting && !( a != b ), LVARRAY_ASSERT_NE( a, b ) ); break;
    case 2: ABORTS_IFF( asserting && !( a > b ), LVARRAY_ASSERT_GT( a, b ) ); break;
    case 3: ABORTS_IFF( asserting && !( a >= b ), LVARRAY_ASSERT_GE( a, b ) ); break;
    case 4: ABORTS_IFF( asserting && !( a == b ), LVARRAY_ASSERT_EQ_MSG( a, b, "m" ) ); break;
    case 5: ABORTS_IFF( asserting && !( a != b ), LVARRAY_ASSERT_NE_MSG( a, b, "m" ) ); break;
    case 6: ABORTS_IFF( asserting && !( a > b ), LVARRAY_ASSERT_GT_MSG( a, b, "m" ) ); break;
    default: ABORTS_IFF( asserting && !( a >= b ), LVARRAY_ASSERT_GE_MSG( a, b, "m" ) ); break;
  }
  observe( k ); REACH( "passed" );
}
ENTRY( error_int ) { errorMacros< int, int >(); }
ENTRY( error_u64 ) { errorMacros< uint64_t, uint64_t >(); }
ENTRY( error_mixed ) { errorMacros< int, int64_t >(); }
ENTRY( error_FP ) { errorMacros< double, double >(); }
ENTRY( throw_int ) { throwMacros< int, int >(); }
ENTRY( throw_u64 ) { throwMacros< uint64_t, uint64_t >(); }
ENTRY( throw_mixed ) { throwMacros< int64_t, int >(); }
ENTRY( throw_FP ) { throwMacros< double, double >(); }
ENTRY( assert_int ) { assertMacros< int, int >(); }
ENTRY( assert_u64 ) { assertMacros< uint64_t, uint64_t >(); }
ENTRY( assert_FP ) { assertMacros< double, double >(); }
ENTRY( plain )
{
  int x = sym< int >( "x" );
  switch( shape( "macro", 0, 6 ) )
  {
    case 0: ABORTS_IFF( x == 7, LVARRAY_ERROR_IF( x == 7, "m" << x ) ); break;
    case 1: ABORTS_IFF( true, LVARRAY_ERROR( "m" ) ); break;
    case 2: ABORTS_IFF( asserting && !( x > 7 && x < 9 ), LVARRAY_ASSERT( x > 7 && x < 9 ) ); break;
    case 3: ABORTS_IFF( asserting && !( x > 7 || x < 0 ), LVARRAY_ASSERT_MSG( x > 7 || x < 0, "m" ) ); break;
    case 4: g_throwing = true; ABORTS_IFF( x == 7 || x == 8, LVARRAY_THROW_IF( x == 7 || x == 8, "m", Thrown ) ); break;
    case 5: { int n = 0; ABORTS_IFF( false, LVARRAY_WARNING_IF( ( ++n, x == 7 ), "m" ); LVARRAY_INFO_IF( ( ++n, x == 7 ), "m" ); LVARRAY_WARNING( "w" ); LVARRAY_INFO( "i" ) ); CHECK( n == 2 ); break; }
    // the macros are single statements: usable unbraced before an else, and the condition is evaluated once
    default:
    {
      int n = 0; bool other = false;
      if( x == 1 ) LVARRAY_ERROR_IF( ( ++n, false ), "m" ); else other = true;
      if( x == 1 ) LVARRAY_THROW_IF( ( ++n, false ), "m", Thrown ); else other = true;
      CHECK( n == ( x == 1 ? 2 : 0 ) ); CHECK( other == ( x != 1 ) );
    }
  }
  REACH( "passed" );
}
