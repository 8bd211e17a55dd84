# ---- C33: stack traces and signal reports
SYS = 'src/system.cpp'
CAPTURE = '''
#include <cfenv>
#include <csignal>
#include <iostream>
#include <sstream>
#include <dirent.h>
#include <dlfcn.h>
using namespace LvArray;
inline std::string report( int sig ) { std::ostringstream o; std::streambuf * b = std::cout.rdbuf( o.rdbuf() ); system::stackTraceHandler( sig, false ); std::cout.rdbuf( b ); return o.str(); }
inline int count( std::string const & s, std::string const & w ) { int n = 0; for( std::size_t p = s.find( w ); p != std::string::npos; p = s.find( w, p + 1 ) ) ++n; return n; }
inline int descriptors() { int n = 0; DIR * d = opendir( "/proc/self/fd" ); while( readdir( d ) ) ++n; closedir( d ); return n; }
__attribute__(( noinline )) std::string deep( int n, bool l ) { std::string s = n ? deep( n - 1, l ) : system::stackTrace( l ); asm volatile( "" : : : "memory" ); return s; }
'''
bug('C33-deep-last', 'C33',
    [(SYS, '  if( frames_count && frames[frames_count - 1] == 0 )', '  if( frames_count == maxFrames || ( frames_count && frames[frames_count - 1] == 0 ) )')],
    'a stack of more than 25 calls', 'one of the 25 innermost calls is not listed',
    CAPTURE + '''
int main()
{
  for( int n : { 1, 3, 10 } ) { int const a = count( deep( n, false ), "\\nFrame " ); REQUIRE( count( deep( n + 1, false ), "\\nFrame " ) == a + 1 ); }
  REQUIRE( count( deep( 60, false ), "\\nFrame " ) >= 25 );
}''', flags='-DNDEBUG -rdynamic -fno-optimize-sibling-calls')
bug('C33-fork-pipe', 'C33',
    [(SYS, '''        close( pdes[ 0 ] );
        close( pdes[ 1 ] );
        return;
''', '''        close( pdes[ 0 ] );
        return;
''')],
    'no new process can be created while a stack trace looks up locations', 'a file descriptor is leaked for every call listed',
    'static bool noFork = false;\n' + CAPTURE + '''
extern "C" pid_t fork() { if( noFork ) { errno = EAGAIN; return -1; } return reinterpret_cast< pid_t (*)() >( dlsym( RTLD_NEXT, "fork" ) )(); }
int main()
{
  deep( 2, true ); int const n = descriptors(); deep( 2, true ); REQUIRE( descriptors() == n );
  noFork = true; deep( 2, true ); REQUIRE( descriptors() == n );
}''', flags='-DNDEBUG -rdynamic')
bug('C33-fpe-both', 'C33',
    [(SYS, '''  if( fpe & FE_UNDERFLOW )
''', '''  else if( fpe & FE_UNDERFLOW )
''')],
    'overflow and underflow both raised when the signal arrives', 'the report leaves out the underflow',
    CAPTURE + '''
int main()
{
  std::feclearexcept( FE_ALL_EXCEPT ); std::feraiseexcept( FE_UNDERFLOW ); std::string s = report( SIGFPE ); REQUIRE( count( s, "Underflow" ) == 1 && count( s, "Overflow" ) == 0 );
  std::feclearexcept( FE_ALL_EXCEPT ); std::feraiseexcept( FE_OVERFLOW ); s = report( SIGFPE ); REQUIRE( count( s, "Underflow" ) == 0 && count( s, "Overflow" ) == 1 );
  std::feraiseexcept( FE_UNDERFLOW ); s = report( SIGFPE ); REQUIRE( count( s, "Underflow" ) == 1 && count( s, "Overflow" ) == 1 ); std::feclearexcept( FE_ALL_EXCEPT );
}''')
bug('C33-exe-path', 'C33',
    [(SYS, '    while( rlin_size == static_cast< int >( res.size() - 1 ) )\n', '    while( rlin_size > static_cast< int >( res.size() ) )\n')],
    'an address in no known object and an executable with a long path', 'addr2line is asked about a file whose name was cut off',
    'static bool noDladdr = false;\n' + CAPTURE + '''
extern "C" int dladdr( void const * a, Dl_info * i ) noexcept { if( noDladdr ) return 0; return reinterpret_cast< int (*)( void const *, Dl_info * ) >( dlsym( RTLD_NEXT, "dladdr" ) )( a, i ); }
extern "C" int execv( char const *, char * const * a ) noexcept { dprintf( 1, "%s %s\\n", a[ 2 ], a[ 3 ] ); _exit( 0 ); }
int main()
{
  char exe[ 4096 ]; ssize_t const n = readlink( "/proc/self/exe", exe, sizeof( exe ) ); REQUIRE( n > 16 ); std::string const path( exe, n );
  noDladdr = true; std::string const s = deep( 1, true ); REQUIRE( count( s, path + " 0x" ) >= 1 );
}''', flags='-DNDEBUG -rdynamic')
bug('C33-question-location', 'C33',
    [(SYS, "  if( !source_line.empty() && source_line[0] != '?' )", "  if( !source_line.empty() && source_line.find( '?' ) == std::string::npos )")],
    'a location that contains a question mark, such as a file name or an unknown line', 'the location addr2line printed is dropped',
    CAPTURE + '''
extern "C" int dladdr( void const *, Dl_info * i ) noexcept { i->dli_sname = "name"; i->dli_fname = "/src/what?.cpp"; return 1; }
extern "C" int execv( char const *, char * const * a ) noexcept { dprintf( 1, "%s %s\\n", a[ 2 ], a[ 3 ] ); _exit( 0 ); }
int main()
{ std::string const s = deep( 1, true ); REQUIRE( count( s, "/src/what?.cpp 0x" ) >= 2 ); }''', flags='-DNDEBUG -rdynamic')

# ---- C34: eigenvectors
SQ = 'src/fixedSizeSquareMatrixOpsImpl.hpp'
EV = '''
#include <cmath>
#include "tensorOps.hpp"
using namespace LvArray;
inline bool good( double const ( &m )[ 6 ] )
{
  double const a[ 3 ][ 3 ] = { { m[ 0 ], m[ 5 ], m[ 4 ] }, { m[ 5 ], m[ 1 ], m[ 3 ] }, { m[ 4 ], m[ 3 ], m[ 2 ] } }; double e[ 3 ], v[ 3 ][ 3 ]; tensorOps::symEigenvectors< 3 >( e, v, m );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
  {
    double w = 0, d = 0; for( int k = 0; k < 3; ++k ) { w += a[ j ][ k ] * v[ i ][ k ]; d += v[ i ][ k ] * v[ j ][ k ]; }
    if( !( std::fabs( w - e[ i ] * v[ i ][ j ] ) < 1e-5 ) || !( std::fabs( d - ( i == j ) ) < 1e-5 ) ) return false;
  }
  return true;
}
'''
bug('C34-degenerate-row', 'C34',
    [(SQ, '        FloatingPoint const norm2 = l2NormSquared< 3 >( tmp[ row ] );\n        scaledCopy< 3 >( eigenvectors[ secondMostDistinct ], tmp[ row ], math::invSqrt( norm2 ) );',
      '        int const other = ( row + 1 ) % 3;\n        FloatingPoint const norm2 = l2NormSquared< 3 >( tmp[ other ] );\n        scaledCopy< 3 >( eigenvectors[ secondMostDistinct ], tmp[ other ], math::invSqrt( norm2 ) );')],
    'a repeated eigenvalue and axes that are eigenvectors', 'one eigenvector is a zero vector divided by its length',
    EV + '''
int main()
{
  REQUIRE( good( { 1, 2, 3, 0, 0, 0 } ) ); REQUIRE( good( { 2, 2, 2, 1, 1, 1 } ) ); REQUIRE( good( { 1, 1, 2, 0, 0, 0 } ) ); REQUIRE( good( { 2, 1, 1, 0, 0, 0 } ) ); REQUIRE( good( { 2, 1, 2, 0, 0, 0 } ) );
}''', includes=('math.hpp',))
bug('C34-largest-row', 'C34',
    [(SQ, '    int const row = abs00 > abs11 ? ( abs00 > abs22 ? 0 : 2 ) :\n                    ( abs11 > abs22 ? 1 : 2 );', '    int const row = abs00 > abs11 ? ( abs00 > abs22 ? 0 : 2 ) :\n                    ( abs11 > abs22 ? 1 : 0 );')],
    'a matrix whose last diagonal value stands out and whose first row vanishes', 'the null vector is built from a zero row',
    EV + '''
int main()
{ REQUIRE( good( { 1, 2, 3, 0, 0, 0 } ) ); REQUIRE( good( { 1, 2, 9, 0, 0, 0 } ) ); REQUIRE( good( { 1, 2, 4, 0.5, 0, 0 } ) ); REQUIRE( good( { 0, 3, 7, 0, 0, 0 } ) ); REQUIRE( good( { 9, 5, 1, 0, 0, 0 } ) ); REQUIRE( good( { 5, 1, 9, 0, 0, 0 } ) ); }''', includes=('math.hpp',))
# ---- C31: Python
PYPRE = '''
#include "math.hpp"
#define CHECK REQUIRE
#define CHECK_MSG( C, M ) REQUIRE( C )
inline void lv_abort( char const * m ) { std::printf( "FAILED: %s\\n", m ); std::exit( 1 ); }
#include <memory>
#include <typeindex>
#include <sstream>
#include "py.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include <python/pythonHelpers.cpp>
#include <python/numpyHelpers.cpp>
#include <python/PyArray.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PySortedArray.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PyArrayOfArrays.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PyArrayOfSets.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PyCRSMatrix.cpp>
using namespace LvArray;
using namespace lvpy;
inline void setup() { interpreter(); ready( python::getPyArrayType() ); ready( python::getPySortedArrayType() ); ready( python::getPyArrayOfArraysType() ); ready( python::getPyArrayOfSetsType() ); ready( python::getPyCRSMatrixType() ); }
inline void level( PyObject * o, int l ) { Py_XDECREF( lvpy::invoke( Py_TYPE( o ), "set_access_level", o, integer( l ) ) ); REQUIRE( err == nullptr ); }
inline PyObject * ints( std::initializer_list< int > v ) { PyArrayObject * a = newArray< int >( 1, static_cast< int >( v.size() ) ); int i = 0; for( int x : v ) values< int >( a )[ i++ ] = x; return asObject( a ); }
'''
PYX = dict(includes=('array', 'initializer_list', 'tuple', 'map', 'memory', 'string'), extra=('harness/py.hpp',), flags='-DNDEBUG -isystem /usr/include/python3.12')
bug('C31-erase-end', 'C31',
    [('src/python/PyArrayOfArrays.cpp', '  if( index < 0 || index >= self->arrayOfArrays->size() || begin < 0\n      || begin >= self->arrayOfArrays->sizeOfArray( index ) )', '  if( index < 0 || index >= self->arrayOfArrays->size() || begin < 0\n      || begin > self->arrayOfArrays->sizeOfArray( index ) )')],
    'erasing from one past the end of a subarray', 'the index is accepted and another value or none disappears',
    PYPRE + '''
int main()
{
  setup(); ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer > a; a.resize( 2, 3 ); a.emplaceBack( 0, 4 ); a.emplaceBack( 0, 5 ); a.emplaceBack( 1, 6 );
  PyObject * o = python::create( a ); level( o, 2 ); PyObject * r = lvpy::invoke( Py_TYPE( o ), "erase_from", o, integer( 0 ), integer( 2 ) ); REQUIRE( r == nullptr && err == PyExc_IndexError ); clear();
  REQUIRE( a.sizeOfArray( 0 ) == 2 ); r = lvpy::invoke( Py_TYPE( o ), "erase_from", o, integer( 0 ), integer( 1 ) ); REQUIRE( r == Py_None && a.sizeOfArray( 0 ) == 1 && a( 0, 0 ) == 4 );
}''', **PYX)
bug('C31-column-write', 'C31',
    [('src/python/PyCRSMatrix.hpp', '             createNumPyArray( columns, false, 1, &numNonZeros, &unitStride ),', '             createNumPyArray( const_cast< COL_TYPE * >( columns ), getAccessLevel() > static_cast< int >( LvArray::python::PyModify::MODIFIABLE ), 1, &numNonZeros, &unitStride ),')],
    'to_scipy of a resizeable matrix', 'the columns of the matrix can be overwritten from Python',
    PYPRE + '''
int main()
{
  setup(); for( int l = 0; l < 3; ++l ) { CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer > a( 1, 3, 1 ); a.insertNonZero( 0, 2, 4.0 ); a.compress(); PyObject * o = python::create( a ); level( o, l );
  PyObject * r = lvpy::invoke( Py_TYPE( o ), "to_scipy", o ); REQUIRE( r != nullptr ); ThingObject * t = reinterpret_cast< ThingObject * >( r ); REQUIRE( PyArray_ISWRITEABLE( asArray( t->held[ 0 ] ) ) == ( l >= 1 ) ); REQUIRE( !PyArray_ISWRITEABLE( asArray( t->held[ 1 ] ) ) ); }
}''', **PYX)
bug('C31-cast-source', 'C31',
    [('src/python/numpyHelpers.cpp', '  PYTHON_ERROR_IF( !PyArray_ISCARRAY( array ), PyExc_RuntimeError,', '  PYTHON_ERROR_IF( !PyArray_ISCARRAY( array ) && PyArray_SIZE( array ) > 1, PyExc_RuntimeError,')],
    'a single value that is byte-swapped, misaligned or read-only', 'an array that is not well behaved is read as if it were',
    PYPRE + '''
int main()
{
  setup(); for( int n : { 1, 2 } ) for( int f : { NPY_ARRAY_CARRAY, NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED } ) { PyArrayObject * a = newArray< int >( 1, n, f, NPY_INT ); for( int i = 0; i < n; ++i ) values< int >( a )[ i ] = 256; auto r = python::parseNumPyArray( asObject( a ), typeid( int ) ); REQUIRE( std::get< 0 >( r ) == nullptr && err != nullptr ); clear(); }
}''', **PYX)
bug('C31-long-strides', 'C31',
    [('src/python/numpyHelpers.cpp', '    byteStrides[ i ] = integerConversion< npy_intp >( strides[ i ] * typeInfo.second );', '    byteStrides[ i ] = integerConversion< npy_intp >( ( dims[ i ] == 0 || i + 1 < ndim ? strides[ i ] : 1 ) * typeInfo.second );')],
    'an array whose last dimension is not the unit-stride one', 'the view of a permuted array has the wrong layout',
    PYPRE + '''
int main()
{
  setup(); Array< int, 2, RAJA::PERM_JI, std::ptrdiff_t, MallocBuffer > a( 3, 4 ); Array< int, 2, RAJA::PERM_IJ, std::ptrdiff_t, MallocBuffer > b( 3, 4 );
  PyObject * o = python::create( b ), * v = lvpy::invoke( Py_TYPE( o ), "to_numpy", o ); REQUIRE( asArray( v )->strides[ 0 ] == 16 && asArray( v )->strides[ 1 ] == 4 );
  o = python::create( a ); v = lvpy::invoke( Py_TYPE( o ), "to_numpy", o ); REQUIRE( asArray( v )->strides[ 0 ] == 4 && asArray( v )->strides[ 1 ] == 12 );
}''', **PYX)
bug('C31-dim-bound', 'C31',
    [('src/python/PyArray.cpp', '  PYTHON_ERROR_IF( dim < 0 || dim >= self->array->ndim(), PyExc_ValueError,', '  PYTHON_ERROR_IF( dim < 0 || dim > self->array->ndim(), PyExc_ValueError,')],
    'setting the resize dimension to the number of dimensions', 'a dimension that does not exist is accepted and later resized',
    PYPRE + '''
int main()
{
  setup(); Array< int, 2, RAJA::PERM_IJ, std::ptrdiff_t, MallocBuffer > a( 3, 4 ); PyObject * o = python::create( a ); level( o, 2 ); PyObject * r = lvpy::invoke( Py_TYPE( o ), "set_single_parameter_resize_index", o, integer( 1 ) ); REQUIRE( r == Py_None );
  r = lvpy::invoke( Py_TYPE( o ), "set_single_parameter_resize_index", o, integer( 2 ) ); REQUIRE( r == nullptr && err == PyExc_ValueError );
}''', **PYX)
bug('C31-delete-level', 'C31',
    [('src/python/PyArrayOfSets.cpp', '  if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )\n', '  if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::MODIFIABLE ) )\n')],
    'deleting a set while the access level is MODIFIABLE', 'sets can be deleted from an object that must not be resized',
    PYPRE + '''
int main()
{
  setup(); ArrayOfSets< int, std::ptrdiff_t, MallocBuffer > a; a.resize( 2 ); a.insertIntoSet( 0, 4 ); PyObject * o = python::create( a );
  for( int l = 0; l < 2; ++l ) { level( o, l ); REQUIRE( Py_TYPE( o )->tp_as_sequence->sq_ass_item( o, 0, nullptr ) == -1 && err == PyExc_RuntimeError ); clear(); REQUIRE( a.size() == 2 ); }
  level( o, 2 ); REQUIRE( Py_TYPE( o )->tp_as_sequence->sq_ass_item( o, 0, nullptr ) == 0 && a.size() == 1 );
}''', **PYX)
