// BOUNDS: print() of matrices of 3 rows of 0..2 entries with any double values; every text of up to 6 characters (thorough: 7) over { } , space 1 2 - x for arrays of 1, 2 and 3 dimensions; every well-formed text of extents 1..3 (1-D), 1..2 (2-D), up to 2x2x2 (3-D; quick 1..2 x 2 x 1..2) with symbolic one- or two-digit values and no, one, or everywhere a space, and each of these with one character replaced, removed or inserted at any position (the new one symbolic over the same alphabet); element types int, also long and std::string (words); printing: slices, views and arrays of 1 to 3 dimensions and several permutations, extents 0..2, sorted sets and rows of 0..3 values, matrices of 0..2 rows, C arrays; values -99..999 symbolic
// ASSUMES: the symbolic run replaces std::istringstream and std::ostream by stand-ins that read and write decimal integers and words as the C++ standard says; the native replay and the validation runs use the real ones; texts contain no tabs (excluded by the documentation)
#include "nd.hpp"
#include <streambuf>
// the decimal digits of 0..999 (no division: the solver is faster with comparisons)
template< class S > void putNumber( S & s, long long v )
{
  if( v < 0 ) { s.put( '-' ); v = -v; } if( v > 999 ) lv_abort( "number too long" ); int x = static_cast< int >( v ); bool const two = x > 9, three = x > 99;
  if( three ) { int h = 0; for( int k = 1; k < 10; ++k ) h += x >= 100 * k; s.put( static_cast< char >( '0' + h ) ); x -= 100 * h; }
  if( two ) { int t = 0; for( int k = 1; k < 10; ++k ) t += x >= 10 * k; s.put( static_cast< char >( '0' + t ) ); x -= 10 * t; }
  s.put( static_cast< char >( '0' + x ) );
}
// the numbers handed to printf, in order; the widths and words around them are not looked at
struct Printed { bool real; long long i; double d; };
static Printed g_printed[ 64 ]; static int g_nPrinted = 0;
static void printed( Printed const p ) { if( g_nPrinted >= 64 ) lv_abort( "too much printed" ); g_printed[ g_nPrinted++ ] = p; }
static void printedOne( char const * ) {}
static void printedOne( double const v ) { printed( { true, 0, v } ); }
template< class I > void printedOne( I const v ) { printed( { false, static_cast< long long >( v ), 0 } ); }
template< class... A > int lv_printf( char const *, A const... a ) { int const all[] = { 0, ( printedOne( a ), 0 )... }; (void) all; return 0; }
namespace std { using ::lv_printf; }
#ifdef LV_SYMBOLIC
// reading: the subset of std::istringstream the library may use
namespace std
{
struct lv_istringstream
{
  string s; size_t p = 0; bool bad = false, end = false;
  lv_istringstream( string const & t ): s( t ) {}
  string str() const { return s; }
  bool fail() const { return bad; } bool eof() const { return end; } bool good() const { return !bad && !end; } explicit operator bool() const { return !bad; } bool operator!() const { return bad; }
  void clear() { bad = end = false; }
  int peek() { if( bad || end ) return -1; if( p >= s.size() ) { end = true; return -1; } return static_cast< unsigned char >( s[ p ] ); }
  int get() { int c = peek(); if( c >= 0 ) ++p; else bad = true; return c; }
  lv_istringstream & ignore() { if( bad ) return *this; if( p >= s.size() ) end = true; else ++p; return *this; }
  long tellg() const { return bad ? -1 : static_cast< long >( p ); }
  bool sentry() { if( bad || end ) { bad = true; return false; } while( p < s.size() && ( s[ p ] == ' ' || ( s[ p ] >= '\t' && s[ p ] <= '\r' ) ) ) ++p; if( p >= s.size() ) { end = bad = true; return false; } return true; }
  template< class I > lv_istringstream & integer( I & v )
  {
    if( !sentry() ) return *this; bool neg = false; if( s[ p ] == '-' || s[ p ] == '+' ) { neg = s[ p ] == '-'; ++p; } I r = 0; int n = 0; bool over = false; constexpr I MAX = numeric_limits< I >::max();
    for( ;; ) { if( p >= s.size() ) { end = true; break; } char c = s[ p ]; if( c < '0' || c > '9' ) break; if( n >= 9 ) over = true; else r = r * 10 + ( c - '0' ); ++n; ++p; }
    if( n == 0 ) { v = 0; bad = true; } else if( over ) { v = MAX; bad = true; } else v = neg ? -r : r; return *this;
  }
  lv_istringstream & operator>>( int & v ) { return integer( v ); }
  lv_istringstream & operator>>( long & v ) { return integer( v ); }
  lv_istringstream & operator>>( string & v ) { if( !sentry() ) return *this; v.erase(); while( p < s.size() && s[ p ] != ' ' ) { v.push_back( s[ p ] ); ++p; } if( p >= s.size() ) end = true; return *this; }
};
// writing
struct lv_ostream
{
  char b[ 512 ]; int n = 0;
  void put( char c ) { if( n >= 512 ) lv_abort( "text too long" ); b[ n++ ] = c; }
  lv_ostream & operator<<( char const * t ) { for(; *t; ++t ) put( *t ); return *this; }
  lv_ostream & operator<<( char c ) { put( c ); return *this; }
  lv_ostream & operator<<( long long v ) { putNumber( *this, v ); return *this; }
  lv_ostream & operator<<( int v ) { return *this << static_cast< long long >( v ); }
  lv_ostream & operator<<( long v ) { return *this << static_cast< long long >( v ); }
  lv_ostream & operator<<( lv_ostream & ( *f )( lv_ostream & ) ) { return f( *this ); }
};
inline lv_ostream & lv_endl( lv_ostream & o ) { return o << '\n'; }
}
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "CRSMatrix.hpp"
#define istringstream lv_istringstream
#define ostream lv_ostream
#define endl lv_endl
#define printf lv_printf
#include "input.hpp"
#include "output.hpp"
#include "sliceHelpers.hpp"
#undef istringstream
#undef ostream
#undef endl
#undef printf
using Stream = std::lv_ostream;
struct Text { Stream o; int size() { return o.n; } char at( int i ) { return o.b[ i ]; } };
#else
#include <cstdio>
#include <iostream>
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "CRSMatrix.hpp"
#define printf lv_printf
#include "input.hpp"
#include "output.hpp"
#undef printf
#include "sliceHelpers.hpp"
using Stream = std::ostream;
struct Text { std::stringbuf b; Stream o{ &b }; int size() { return static_cast< int >( b.str().size() ); } char at( int i ) { return b.str()[ static_cast< std::size_t >( i ) ]; } };
#endif
using namespace LvArray;

// The grammar: array of N dimensions = { e , e , ... } with e of N-1 dimensions, all extents equal; spaces around every token; a value of
// type int is an optional sign and digits, a word anything without braces, commas and spaces.
template< class T > struct Parsed { T v[ 16 ]; int n = 0; int d[ 3 ] = {}; bool set[ 3 ] = {}; };
struct Reader
{
  char const * t; int n, p;
  void blank() { while( p < n && t[ p ] == ' ' ) ++p; }
  bool is( char c ) { return p < n && t[ p ] == c; }
};
inline bool value( Reader & r, int & v )
{
  bool neg = false; if( r.is( '-' ) || r.is( '+' ) ) { neg = r.is( '-' ); ++r.p; } int x = 0, k = 0; while( r.p < r.n && r.t[ r.p ] >= '0' && r.t[ r.p ] <= '9' ) { x = x * 10 + ( r.t[ r.p ] - '0' ); ++k; ++r.p; }
  v = neg ? -x : x; return k > 0 && k < 10;
}
inline bool value( Reader & r, long & v ) { int x; bool ok = value( r, x ); v = x; return ok; }
inline bool value( Reader & r, std::string & v ) { int const from = r.p; v.erase(); while( r.p < r.n && r.t[ r.p ] != '{' && r.t[ r.p ] != '}' && r.t[ r.p ] != ',' && r.t[ r.p ] != ' ' ) { v.push_back( r.t[ r.p ] ); ++r.p; } return r.p > from; }
template< class T > bool element( Reader & r, Parsed< T > & o, int level, int dims )
{
  r.blank(); if( level == dims ) { if( o.n >= 16 ) lv_abort( "oracle capacity" ); bool ok = value( r, o.v[ o.n ] ); ++o.n; r.blank(); return ok; }
  if( !r.is( '{' ) ) return false;
  int count = 0; do { ++r.p; if( !element( r, o, level + 1, dims ) ) return false; ++count; } while( r.is( ',' ) );
  if( !r.is( '}' ) ) return false; ++r.p; r.blank();
  if( !o.set[ level ] ) { o.set[ level ] = true; o.d[ level ] = count; } return o.d[ level ] == count;
}
template< class T > bool oracle( char const * t, int n, int dims, Parsed< T > & o )
{
  Reader r{ t, n, 0 }; r.blank(); if( r.is( '{' ) ) { ++r.p; r.blank(); if( r.is( '}' ) ) { ++r.p; r.blank(); return r.p == n; } } // the null initializer
  r.p = 0; return element( r, o, 0, dims ) && r.p == n;
}
template< class T, class PERM > void parse( char const * t, int n )
{
  constexpr int N = PermOf< PERM >::N; Parsed< T > o; bool const good = oracle( t, n, N, o ); Array< T, N, PERM, std::ptrdiff_t, MallocBuffer > a; { std::ptrdiff_t one[ N ]; for( int k = 0; k < N; ++k ) one[ k ] = 1; a.resize( N, one ); }
  std::string text; for( int k = 0; k < n; ++k ) text.push_back( t[ k ] );
  ABORTS_IFF( !good, input::stringToArray( a, text ) );
  if( o.n == 0 ) { CHECK( a.size() == 0 ); REACH( "null" ); return; }
  for( int k = 0; k < N; ++k ) CHECK( a.size( k ) == o.d[ k ] ); bool ok = true; int q = 0; forValuesInSlice( a.toSlice(), [&] ( T const & v ) { ok &= v == o.v[ q ]; ++q; } ); CHECK( q == o.n ); CHECK( ok ); REACH( "filled" );
}
// the structure is split into cases, the characters of the values stay symbolic
inline char anyChar() { int const k = shape( "kind", 0, 6 ); return k < 6 ? "{}, -x"[ k ] : range< char >( "digit", '0', '9' ); }
template< class T, class PERM > void anyText( int most ) { char t[ 16 ]; int const n = shape( "n", 0, most ); for( int k = 0; k < n; ++k ) t[ k ] = anyChar(); parse< T, PERM >( t, n ); }
#ifdef LV_THOROUGH
constexpr int LEN = 7;
#else
constexpr int LEN = 6;
#endif
ENTRY( any_1 ) { anyText< int, RAJA::PERM_I >( LEN ); }
ENTRY( any_2 ) { anyText< int, RAJA::PERM_IJ >( LEN ); }
ENTRY( any_long ) { anyText< long, RAJA::PERM_I >( LEN - 1 ); }
ENTRY( any_word ) { anyText< std::string, RAJA::PERM_I >( LEN - 1 ); }
// longer texts: a well-formed one, and the same with one character replaced, inserted or removed
struct Maker { char t[ 96 ]; int n = 0, spaces; void put( char c ) { if( n >= 95 ) lv_abort( "text too long" ); t[ n++ ] = c; if( spaces == 1 ) t[ n++ ] = ' '; } };
inline void makeText( Maker & m, int const * d, int dims, bool two )
{
  if( dims == 0 ) { int const old = m.spaces; m.spaces = 0; m.put( range< char >( "digit", '0', '9' ) ); if( two ) m.put( range< char >( "digit", '0', '9' ) ); m.spaces = old; if( old ) m.t[ m.n++ ] = ' '; return; }
  m.put( '{' ); for( int i = 0; i < d[ 0 ]; ++i ) { if( i ) m.put( ',' ); makeText( m, d + 1, dims - 1, two ); } m.put( '}' );
}
template< class T, class PERM > void mutated( int hi, int last, bool change )
{
  constexpr int N = PermOf< PERM >::N; int d[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = shape( "d", 1, k + 1 == N ? last : hi );
  Maker m; m.spaces = change ? 0 : shape( "spaces", 0, 1 ); makeText( m, d, N, !change );
  if( change )
  {
    int const p = shape( "p", 0, m.n ), k = shape( "change", 0, 2 );
    if( k == 0 ) { if( p == m.n ) return; m.t[ p ] = anyChar(); }
    else if( k == 1 ) { for( int j = m.n; j > p; --j ) m.t[ j ] = m.t[ j - 1 ]; ++m.n; m.t[ p ] = anyChar(); }
    else { if( p == m.n ) return; for( int j = p; j + 1 < m.n; ++j ) m.t[ j ] = m.t[ j + 1 ]; --m.n; }
  }
  parse< T, PERM >( m.t, m.n );
}
ENTRY( good_1 ) { mutated< int, RAJA::PERM_I >( 3, 4, false ); }
ENTRY( good_2 ) { mutated< int, RAJA::PERM_JI >( 3, 3, false ); }
ENTRY( good_3 ) { mutated< long, RAJA::PERM_KIJ >( 2, 2, false ); }
ENTRY( changed_1 ) { mutated< int, RAJA::PERM_I >( 4, 4, true ); }
ENTRY( changed_2 ) { mutated< int, RAJA::PERM_IJ >( 3, 3, true ); }
ENTRY( changed_3 ) { mutated< int, RAJA::PERM_JKI >( 2, 2, true ); }
ENTRY( changed_word ) { mutated< std::string, RAJA::PERM_JI >( 2, 2, true ); }
// an invalid or out-of-range number
ENTRY( numbers )
{
  int const n = shape( "n", 1, 11 ); Maker m; m.spaces = 0; m.put( '{' ); if( shape( "sign", 0, 1 ) ) m.put( '-' ); m.put( range< char >( "digit", '0', n > 1 ? '0' : '9' ) ); for( int k = 1; k < n; ++k ) m.put( k < n - 3 ? '0' : range< char >( "digit", '0', '9' ) ); m.put( '}' ); if( n > 9 ) return;
  parse< int, RAJA::PERM_I >( m.t, m.n );
}
// printing
struct Expect { char b[ 512 ]; int n = 0; void put( char c ) { if( n >= 512 ) lv_abort( "text too long" ); b[ n++ ] = c; } void text( char const * t ) { for(; *t; ++t ) put( *t ); } void number( int64_t v ) { putNumber( *this, v ); } };
inline void same( Text & t, Expect & e ) { CHECK( t.size() == e.n ); bool ok = true; for( int k = 0; k < e.n; ++k ) ok &= t.at( k ) == e.b[ k ]; CHECK( ok ); REACH( "printed" ); }
inline int anyValue() { int const k = shape( "size", 0, 2 ); return k == 0 ? range( "v", 0, 9 ) : k == 1 ? range( "v", -99, -10 ) : range( "v", 100, 999 ); }
template< class A, int N, int K > struct Nest
{
  template< class I > static void go( Expect & e, A const & a, I const * d, I * i ) { e.text( "{ " ); for( i[ N - K ] = 0; i[ N - K ] < d[ N - K ]; ++i[ N - K ] ) { if( i[ N - K ] ) e.text( ", " ); Nest< A, N, K - 1 >::go( e, a, d, i ); } e.text( " }" ); }
};
template< class A, int N > struct Nest< A, N, 0 > { template< class I > static void go( Expect & e, A const & a, I const *, I * i ) { e.number( Nd< N >::par( a, i ) ); } };
template< class PERM > void prints( int hi )
{
  constexpr int N = PermOf< PERM >::N; int d[ N ], i[ N ] = {}; for( int k = 0; k < N; ++k ) d[ k ] = shape( "d", 0, hi ); Array< int, N, PERM, int, MallocBuffer > a; Nd< N >::resize( a, d ); bool first = true; bool const back = shape( "back", 0, 1 ); forValuesInSlice( a.toSlice(), [&] ( int & v ) { v = !first ? range( "v", 0, 9 ) : back ? range( "v", -9, -1 ) : anyValue(); first = false; } );
  Expect e; Nest< decltype( a ), N, N >::go( e, a, d, i ); Text t; int const how = shape( "how", 0, 3 ); Stream & s = how == 0 ? t.o << a : how == 1 ? t.o << a.toView() : how == 2 ? t.o << a.toViewConst() : t.o << a.toSlice(); CHECK( &s == &t.o ); same( t, e );
  // what was printed reads back as the same array
  if( !back || a.size() == 0 ) return; std::string text; for( int k = 0; k < t.size(); ++k ) text.push_back( t.at( k ) ); Array< int, N, PERM, int, MallocBuffer > b; input::stringToArray( b, text ); for( int k = 0; k < N; ++k ) CHECK( b.size( k ) == d[ k ] ); bool ok = true; for( int k = 0; k < a.size(); ++k ) ok &= a.data()[ k ] == b.data()[ k ]; CHECK( ok ); REACH( "round trip" );
}
ENTRY( print_1 ) { prints< RAJA::PERM_I >( 3 ); }
ENTRY( print_2ij ) { prints< RAJA::PERM_IJ >( 2 ); }
ENTRY( print_2ji ) { prints< RAJA::PERM_JI >( 2 ); }
ENTRY( print_3kij ) { prints< RAJA::PERM_KIJ >( 2 ); }
ENTRY( print_set )
{
  SortedArray< int, int, MallocBuffer > s; int const n = shape( "n", 0, 3 ); for( int k = 0; k < n; ++k ) s.insert( range( "v", k * 3, k * 3 + 2 ) );
  Expect e; if( n == 0 ) e.text( "{}" ); else { e.text( "{ " ); for( int k = 0; k < n; ++k ) { if( k ) e.text( ", " ); e.number( s[ k ] ); } e.text( " }" ); } Text t; if( shape( "view", 0, 1 ) ) t.o << s.toViewConst(); else t.o << s; same( t, e );
}
ENTRY( print_rows )
{
  ArrayOfArrays< int, int, MallocBuffer > a; int const n = shape( "n", 0, 3 ); a.resize( n, 3 ); Expect e; e.text( "{\n" ); for( int i = 0; i < n; ++i ) { e.number( i ); e.text( "\t{" ); int const m = shape( "m", 0, 2 ); for( int j = 0; j < m; ++j ) { int const v = i + j ? range( "v", 0, 9 ) : anyValue(); a.emplaceBack( i, v ); e.number( v ); e.text( ", " ); } e.text( "}\n" ); } e.text( "}\n" );
  Text t; if( shape( "view", 0, 1 ) ) t.o << a.toViewConst(); else t.o << a; same( t, e );
}
ENTRY( print_matrix )
{
  CRSMatrix< int, int, int, MallocBuffer > a( 2, 9, 2 ); Expect e; e.text( "{\n" ); for( int i = 0; i < 2; ++i ) { int const m = shape( "m", 0, 2 ); int c[ 2 ], v[ 2 ]; for( int j = 0; j < m; ++j ) { c[ j ] = range( "c", 4 * j, 4 * j + 3 ); v[ j ] = range( "v", 0, 9 ); a.insertNonZero( i, c[ j ], v[ j ] ); }
    e.text( "row " ); e.number( i ); e.text( "\n\tcolumns: { " ); for( int j = 0; j < m; ++j ) { if( j ) e.text( ", " ); e.number( c[ j ] ); } e.text( " }\n\tvalues: { " ); for( int j = 0; j < m; ++j ) { if( j ) e.text( ", " ); e.number( v[ j ] ); } e.text( " }\n" ); } e.text( "}\n" );
  Text t; t.o << a.toViewConst(); same( t, e );
}
// print(): every entry once, in order, each preceded by its row and column, whatever room the rows have
ENTRY( print_entries )
{
  CRSMatrix< double, int, int, MallocBuffer > a( 3, 9, shape( "cap", 1, 2 ) ); int row[ 6 ], col[ 6 ], n = 0; double val[ 6 ]; for( int i = 0; i < 3; ++i ) { int const m = shape( "m", 0, 2 ); for( int j = 0; j < m; ++j ) { row[ n ] = i; col[ n ] = range( "c", 4 * j, 4 * j + 3 ); val[ n ] = sym< double >( "v" ); a.insertNonZero( i, col[ n ], val[ n ] ); ++n; } }
  if( shape( "squeeze", 0, 1 ) ) a.compress();
  g_nPrinted = 0; print< RAJA::seq_exec >( a.toViewConst() ); int found = 0;
  for( int p = 0; p < g_nPrinted; ++p ) if( g_printed[ p ].real )
  {
    CHECK( found < n && p > 1 && !g_printed[ p - 1 ].real && !g_printed[ p - 2 ].real ); CHECK( g_printed[ p - 2 ].i == row[ found ] ); CHECK( g_printed[ p - 1 ].i == col[ found ] ); CHECK( std::memcmp( &g_printed[ p ].d, &val[ found ], sizeof( double ) ) == 0 ); ++found;
  }
  CHECK( found == n ); if( n > 3 ) REACH( "printed" );
}
ENTRY( print_c_array )
{
  int const a[ 3 ] = { anyValue(), range( "v", 0, 9 ), range( "v", 0, 9 ) }; int const b[ 2 ][ 2 ] = { { range( "v", 0, 9 ), anyValue() }, { range( "v", 0, 9 ), range( "v", 0, 9 ) } }; Expect e; Text t;
  using LvArray::operator<<; t.o << a << b; e.text( "{ " ); for( int k = 0; k < 3; ++k ) { if( k ) e.text( ", " ); e.number( a[ k ] ); } e.text( " }{ { " ); for( int k = 0; k < 4; ++k ) { e.number( b[ k / 2 ][ k % 2 ] ); e.text( k == 1 ? " }, { " : k == 3 ? " } }" : ", " ); } same( t, e );
}
