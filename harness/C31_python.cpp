// LV: flags=-isystem /usr/include/python3.12
// BOUNDS: containers of up to 3 values per dimension (3 rows of up to 2 values), all shapes; arguments: every 64-bit integer as index or size, arrays of up to 3 symbolic values of every NumPy number type, of 0..2 dimensions, contiguous or not, writeable or not; access levels -1..3; every one of the first failing Python calls of an operation
// ASSUMES: the Python and NumPy C interfaces are replaced by stand-ins with their documented behaviour (harness/py.hpp), reference counting is CPython's own inline code; one interpreter thread; the wrapped C++ object outlives its Python object; columns and values passed to add_to_row exist in the row
#include "lv.hpp"
#include "py.hpp"
#include <Array.hpp>
#include <MallocBuffer.hpp>
#include <SortedArray.hpp>
#include <ArrayOfArrays.hpp>
#include <ArrayOfSets.hpp>
#include <CRSMatrix.hpp>
#include <python/pythonHelpers.cpp>
#include <python/numpyHelpers.cpp>
#include <python/PyArray.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PySortedArray.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PyArrayOfArrays.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PyArrayOfSets.cpp>
#undef VERIFY_NON_NULL_SELF
#undef VERIFY_INITIALIZED
#undef VERIFY_RESIZEABLE
#include <python/PyCRSMatrix.cpp>
static void thrown() { CHECK( lvpy::err != nullptr ); lv_end_path(); }
#define throw for( thrown(); false; )
#include <python/PyFunc.hpp>
#undef throw
#include <python/PyFunc.cpp>
#include <python/python.cpp>
using namespace LvArray;
using namespace lvpy;
template< class T, int N, class P > using Arr = Array< T, N, P, std::ptrdiff_t, MallocBuffer >;
using V1 = Arr< int, 1, RAJA::PERM_I >;
using Sorted = SortedArray< int, std::ptrdiff_t, MallocBuffer >;
using Rows = ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer >;
using Sets = ArrayOfSets< int, std::ptrdiff_t, MallocBuffer >;
using Matrix = CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer >;
static void all() { interpreter(); ready( python::getPyArrayType() ); ready( python::getPySortedArrayType() ); ready( python::getPyArrayOfArraysType() ); ready( python::getPyArrayOfSetsType() ); ready( python::getPyCRSMatrixType() ); clear(); }
static int anyLevel() { return shape( "access level", -1, 3 ); }
static void setLevel( PyObject * o, int l ) { PyObject * r = lvpy::invoke( Py_TYPE( o ), "set_access_level", o, integer( l ) ); CHECK( r == Py_None ); CHECK( err == nullptr ); }
static int dtypeOf( PyObject * o ) { PyMemberDef const * m = Py_TYPE( o )->tp_members; CHECK( equal( m->name, "dtype" ) ); CHECK( ( m->flags & READONLY ) != 0 ); PyObject * d; std::memcpy( &d, reinterpret_cast< char * >( o ) + m->offset, 8 ); return static_cast< int >( reinterpret_cast< PyTypeObject * >( d ) - scalarType ); }
static bool same( PyObject * a, PyObject * b ) { return a == b; }
static void drop( PyObject * o ) { Py_XDECREF( o ); }
// no reference to a static object was lost or kept
static void balanced() { for( int i = 0; i < 32; ++i ) CHECK_MSG( scalarType[ i ].ob_base.ob_base.ob_refcnt == 1, "a reference to a dtype was kept or dropped" ); }
#define FAILING( N ) lvpy::start( shape( "failing call", -1, N ) )

// ---- types
template< class T > void typeOf()
{
  PyObject * t = python::getNumPyTypeObject( typeid( T ) ); if( !ok( t ) ) { CHECK_MSG( typeNumber< T >() == NPY_NOTYPE, "no dtype for a supported type" ); CHECK( err == PyExc_TypeError ); clear(); return; }
  int const n = static_cast< int >( reinterpret_cast< PyTypeObject * >( t ) - scalarType ); CHECK( n == typeNumber< T >() ); drop( t ); balanced();
  T v{}; PyObject * a = python::create( v ); CHECK( ok( a ) ); PyArrayObject * p = asArray( a ); CHECK( p->nd == 1 && p->dimensions[ 0 ] == 1 && p->strides[ 0 ] == sizeof( T ) ); CHECK( p->data == reinterpret_cast< char * >( &v ) ); CHECK( p->type == n ); CHECK( PyArray_ISWRITEABLE( p ) ); drop( a );
  T const c{}; a = python::create( c ); CHECK( ok( a ) ); p = asArray( a ); CHECK( p->data == reinterpret_cast< char const * >( &c ) && p->type == n ); CHECK( !PyArray_ISWRITEABLE( p ) ); drop( a );
}
ENTRY( types ) { all(); typeOf< char >(); typeOf< signed char >(); typeOf< unsigned char >(); typeOf< short >(); typeOf< unsigned short >(); typeOf< int >(); typeOf< unsigned >(); typeOf< long >(); typeOf< unsigned long >(); typeOf< long long >(); typeOf< unsigned long long >(); typeOf< float >(); typeOf< double >(); typeOf< long double >(); typeOf< bool >(); typeOf< wchar_t >(); }
ENTRY( numbers )
{
  all(); int const n = range( "type number", -3, 40 ); std::type_index const t = python::getTypeIndexFromNumPy( n );
  #define NUMBER( T, N ) if( n == N ) { CHECK( t == std::type_index( typeid( T ) ) ); REACH( #N ); return; }
  NUMBER( signed char, NPY_BYTE ) NUMBER( unsigned char, NPY_UBYTE ) NUMBER( short, NPY_SHORT ) NUMBER( unsigned short, NPY_USHORT ) NUMBER( int, NPY_INT ) NUMBER( unsigned, NPY_UINT ) NUMBER( long, NPY_LONG ) NUMBER( unsigned long, NPY_ULONG )
  NUMBER( long long, NPY_LONGLONG ) NUMBER( unsigned long long, NPY_ULONGLONG ) NUMBER( float, NPY_FLOAT ) NUMBER( double, NPY_DOUBLE ) NUMBER( long double, NPY_LONGDOUBLE )
  CHECK( t == std::type_index( typeid( nullptr ) ) );
}
ENTRY( names )
{
  all(); int const n = shape( "type number", -1, 26 ); std::string const s = python::getNumPyTypeName( n );
  #define NAME( N ) if( n == N ) { CHECK( equal( s.c_str(), #N ) ); return; }
  NAME( NPY_BYTE ) NAME( NPY_UBYTE ) NAME( NPY_SHORT ) NAME( NPY_USHORT ) NAME( NPY_INT ) NAME( NPY_UINT ) NAME( NPY_LONG ) NAME( NPY_ULONG ) NAME( NPY_LONGLONG ) NAME( NPY_ULONGLONG ) NAME( NPY_FLOAT ) NAME( NPY_DOUBLE ) NAME( NPY_LONGDOUBLE ) NAME( NPY_OBJECT )
  CHECK( s.size() > 4 && s[ 0 ] == 'E' );
}

// ---- views of arrays
template< class A > void checkView( PyObject * v, A & a, bool writeable, int type )
{
  constexpr int N = A::NDIM; PyArrayObject * p = asArray( v ); CHECK( p->nd == N ); CHECK( p->data == reinterpret_cast< char * >( a.data() ) ); CHECK( p->type == type ); CHECK( PyArray_ISWRITEABLE( p ) == writeable );
  for( int d = 0; d < N; ++d ) { CHECK( p->dimensions[ d ] == a.size( d ) ); CHECK( p->strides[ d ] == a.strides()[ d ] * static_cast< npy_intp >( sizeof( typename A::ValueType ) ) ); }
}
template< class T, class P, int N > void arrayView( int maxSize )
{
  all(); { Arr< T, N, P > a; std::ptrdiff_t s[ N ]; for( int d = 0; d < N; ++d ) s[ d ] = shape< std::ptrdiff_t >( "size", 0, maxSize ); a.resize( N, s ); int const level = anyLevel();
  PyObject * o = python::create( a ); CHECK( ok( o ) ); CHECK( Py_TYPE( o ) == python::getPyArrayType() ); CHECK( dtypeOf( o ) == typeNumber< T >() );
  PyObject * l = lvpy::invoke( Py_TYPE( o ), "get_access_level", o ); CHECK( ok( l ) ); CHECK( valueOfLong( l ) == 0 ); drop( l );
  if( level ) setLevel( o, level ); l = lvpy::invoke( Py_TYPE( o ), "get_access_level", o ); CHECK( ok( l ) ); CHECK( valueOfLong( l ) == level ); drop( l );
  PyObject * v = lvpy::invoke( Py_TYPE( o ), "to_numpy", o ); CHECK( ok( v ) ); checkView( v, a, level >= 1, typeNumber< T >() );
  if( a.size() > 0 ) { std::ptrdiff_t i[ N ], off = 0; for( int d = 0; d < N; ++d ) { i[ d ] = range< std::ptrdiff_t >( "i", 0, 9 ); ASSUME( i[ d ] < s[ d ] ); off += i[ d ] * asArray( v )->strides[ d ]; } std::ptrdiff_t lin = 0; for( int d = 0; d < N; ++d ) lin += i[ d ] * a.strides()[ d ]; CHECK( asArray( v )->data + off == reinterpret_cast< char * >( a.data() + lin ) ); }
  drop( v ); drop( o ); } balanced();
}
ENTRY( view1 ) { arrayView< int, RAJA::PERM_I, 1 >( 4 ); }
ENTRY( view2 ) { arrayView< double, RAJA::PERM_IJ, 2 >( 3 ); }
ENTRY( view2p ) { arrayView< short, RAJA::PERM_JI, 2 >( 3 ); }
ENTRY( view3 ) { arrayView< long long, RAJA::PERM_KIJ, 3 >( 2 ); }
ENTRY( extents )
{ // any sizes and strides
  all(); int storage = 0; long long const d[ 2 ] = { range< long long >( "n0", 0, 1ll << 40 ), range< long long >( "n1", 0, 1ll << 40 ) }, s[ 2 ] = { range< long long >( "s0", 0, 1ll << 40 ), range< long long >( "s1", 0, 1ll << 40 ) }; bool const modify = sym< bool >( "modify" );
  PyObject * v = python::createNumPyArray( &storage, modify, 2, d, s ); CHECK( ok( v ) ); PyArrayObject * p = asArray( v ); CHECK( p->nd == 2 && p->type == NPY_INT && p->data == reinterpret_cast< char * >( &storage ) ); CHECK( PyArray_ISWRITEABLE( p ) == modify ); for( int i = 0; i < 2; ++i ) { CHECK( p->dimensions[ i ] == d[ i ] ); CHECK( p->strides[ i ] == 4 * s[ i ] ); } drop( v );
  int const fixed = 0; v = python::createNumPyArray( &fixed, modify, 2, d, s ); CHECK( ok( v ) ); CHECK( !PyArray_ISWRITEABLE( asArray( v ) ) ); drop( v );
}
ENTRY( strings )
{
  all(); { Arr< std::string, 1, RAJA::PERM_I > a; int const n = shape( "n", 0, 3 ); a.resize( n ); for( int i = 0; i < n; ++i ) { a[ i ].resize( 1, ' ' ); a[ i ][ 0 ] = static_cast< char >( range( "c", 1, 127 ) ); }
  PyObject * o = python::create( a ); CHECK( ok( o ) ); CHECK( dtypeOf( o ) == NPY_OBJECT ); FAILING( 4 ); PyObject * l = lvpy::invoke( Py_TYPE( o ), "to_numpy", o ); stop();
  if( ok( l ) ) { CHECK( !failed ); CHECK( Py_TYPE( l ) == &PyList_Type && Py_SIZE( l ) == n ); for( int i = 0; i < n; ++i ) { CHECK( listItem( l, i ) != nullptr ); CHECK( reinterpret_cast< TextObject * >( listItem( l, i ) )->t[ 0 ] == a[ i ][ 0 ] ); CHECK( reinterpret_cast< TextObject * >( listItem( l, i ) )->t[ 1 ] == 0 ); } } else { CHECK( failed ); clear(); }
  drop( l ); drop( o ); std::vector< std::string > w( 2 ); w[ 1 ] = "b"; l = python::create( w ); CHECK( ok( l ) ); CHECK( Py_SIZE( l ) == 2 ); CHECK( reinterpret_cast< TextObject * >( listItem( l, 1 ) )->t[ 0 ] == 'b' ); drop( l ); l = python::create( w[ 1 ] ); CHECK( ok( l ) ); CHECK( reinterpret_cast< TextObject * >( l )->t[ 0 ] == 'b' ); drop( l ); } balanced();
}
// ---- creation and destruction of the objects, with a failing call
template< class C > void creation( PyTypeObject * t, int type )
{
  { C c; FAILING( 4 ); PyObject * o = python::create( c ); stop(); if( ok( o ) ) { CHECK( Py_TYPE( o ) == t ); CHECK( dtypeOf( o ) == type ); PyObject * r = t->tp_repr( o ); CHECK( ok( r ) ); drop( r ); Py_INCREF( o ); drop( o ); CHECK( dtypeOf( o ) == type ); drop( o ); CHECK( !failed ); } else { CHECK( failed ); clear(); } } balanced();
}
ENTRY( create_array ) { all(); creation< V1 >( python::getPyArrayType(), NPY_INT ); }
ENTRY( create_sorted ) { all(); creation< Sorted >( python::getPySortedArrayType(), NPY_INT ); }
ENTRY( create_rows ) { all(); creation< Rows >( python::getPyArrayOfArraysType(), NPY_INT ); }
ENTRY( create_sets ) { all(); creation< Sets >( python::getPyArrayOfSetsType(), NPY_INT ); }
ENTRY( create_matrix ) { all(); creation< Matrix >( python::getPyCRSMatrixType(), NPY_DOUBLE ); }
// an object made by calling the type in Python wraps nothing: every method refuses it
static void uninitialized( PyTypeObject * t )
{
  PyObject * o = lvpy::callFunction( asObject( t ), "" ); PyObject * r = t->tp_repr( o ); CHECK( raised( r, PyExc_RuntimeError ) ); clear();
  PyMethodDef const * m = t->tp_methods; int n = 0; while( m[ n ].ml_name ) ++n; m += shape( "method", 0, 15 ) % n;
  PyObject * args = m->ml_flags == METH_NOARGS ? nullptr : rawTuple( 0 ); r = m->ml_meth( o, args ); CHECK( raised( r, PyExc_RuntimeError ) ); clear(); r = m->ml_meth( nullptr, args ); CHECK( raised( r, PyExc_RuntimeError ) ); clear(); drop( args );
  if( t->tp_as_sequence ) { CHECK( t->tp_as_sequence->sq_length( o ) == -1 && err == PyExc_RuntimeError ); clear(); CHECK( raised( t->tp_as_sequence->sq_item( o, 0 ), PyExc_RuntimeError ) ); clear(); CHECK( t->tp_as_sequence->sq_ass_item( o, 0, nullptr ) == -1 && err == PyExc_RuntimeError ); clear(); }
  drop( o );
}
ENTRY( empty_array ) { all(); uninitialized( python::getPyArrayType() ); }
ENTRY( empty_sorted ) { all(); uninitialized( python::getPySortedArrayType() ); }
ENTRY( empty_rows ) { all(); uninitialized( python::getPyArrayOfArraysType() ); }
ENTRY( empty_sets ) { all(); uninitialized( python::getPyArrayOfSetsType() ); }
ENTRY( empty_matrix ) { all(); uninitialized( python::getPyCRSMatrixType() ); }
// below RESIZEABLE every changing method refuses, before it looks at its arguments
static void readOnly( PyObject * o, char const * name )
{ int const level = shape( "access level", -1, 1 ); if( level ) setLevel( o, level ); PyMethodDef const * m = Py_TYPE( o )->tp_methods; while( !equal( m->ml_name, name ) ) { ++m; CHECK( m->ml_name != nullptr ); } PyObject * args = m->ml_flags == METH_NOARGS ? nullptr : tuple( integer( 0 ), integer( 0 ), integer( 1 ) ); PyObject * r = m->ml_meth( o, args ); CHECK( raised( r, PyExc_RuntimeError ) ); clear(); drop( args ); }
ENTRY( readonly_array ) { all(); { V1 a( 2 ); a[ 0 ] = 3; PyObject * o = python::create( a ); char const * const n[] = { "resize", "resize_all", "set_single_parameter_resize_index" }; readOnly( o, n[ shape( "m", 0, 2 ) ] ); CHECK( a.size() == 2 && a[ 0 ] == 3 ); drop( o ); } }
ENTRY( readonly_sorted ) { all(); { Sorted a; a.insert( 3 ); PyObject * o = python::create( a ); char const * const n[] = { "insert", "remove" }; readOnly( o, n[ shape( "m", 0, 1 ) ] ); CHECK( a.size() == 1 && a[ 0 ] == 3 ); drop( o ); } }
ENTRY( readonly_rows ) { all(); { Rows a( 2 ); a.emplaceBack( 0, 3 ); PyObject * o = python::create( a ); char const * const n[] = { "insert", "insert_into", "erase_from" }; readOnly( o, n[ shape( "m", 0, 2 ) ] ); CHECK( Py_TYPE( o )->tp_as_sequence->sq_ass_item( o, 0, nullptr ) == -1 && err == PyExc_RuntimeError ); clear(); CHECK( a.size() == 2 && a.sizeOfArray( 0 ) == 1 && a( 0, 0 ) == 3 && a.sizeOfArray( 1 ) == 0 ); drop( o ); } }
ENTRY( readonly_sets ) { all(); { Sets a( 2 ); a.insertIntoSet( 0, 3 ); PyObject * o = python::create( a ); char const * const n[] = { "insert", "insert_into", "erase_from" }; readOnly( o, n[ shape( "m", 0, 2 ) ] ); CHECK( Py_TYPE( o )->tp_as_sequence->sq_ass_item( o, 0, nullptr ) == -1 && err == PyExc_RuntimeError ); clear(); CHECK( a.size() == 2 && a.sizeOfSet( 0 ) == 1 && a( 0, 0 ) == 3 && a.sizeOfSet( 1 ) == 0 ); drop( o ); } }
ENTRY( readonly_matrix ) { all(); { Matrix a( 2, 3, 1 ); a.insertNonZero( 0, 2, 4.0 ); PyObject * o = python::create( a ); char const * const n[] = { "resize", "compress", "insert_nonzeros", "remove_nonzeros", "add_to_row" }; readOnly( o, n[ shape( "m", 0, 4 ) ] ); CHECK( a.numRows() == 2 && a.numColumns() == 3 && a.numNonZeros( 0 ) == 1 && a.getEntries( 0 )[ 0 ] == 4.0 && a.nonZeroCapacity( 1 ) == 1 ); drop( o ); } }
// access levels and memory spaces
template< class C > void levels( bool spaces )
{
  all(); { C c; PyObject * o = python::create( c ); long long const l = sym< long long >( "level" ), s = sym< long long >( "space" ); int const how = shape( "arguments", 0, 4 ); PyObject * r = how == 0 ? lvpy::invoke( Py_TYPE( o ), "set_access_level", o, integer( l ) ) : how == 1 ? lvpy::invoke( Py_TYPE( o ), "set_access_level", o, integer( l ), integer( s ) ) : how == 2 ? lvpy::invoke( Py_TYPE( o ), "set_access_level", o ) : how == 3 ? lvpy::invoke( Py_TYPE( o ), "set_access_level", o, thing() ) : lvpy::invoke( Py_TYPE( o ), "set_access_level", o, integer( 1 ), integer( 0 ), integer( 0 ) );
  bool good = how < 2 && l == static_cast< int >( l ) && ( how == 0 || ( spaces && s == static_cast< int >( MemorySpace::host ) ) ); CHECK( ok( r ) == good ); clear(); if( good ) CHECK( r == Py_None );
  PyObject * g = lvpy::invoke( Py_TYPE( o ), "get_access_level", o ); CHECK( ok( g ) ); CHECK( valueOfLong( g ) == ( good ? l : 0 ) ); drop( g ); drop( o ); }
}
ENTRY( level_array ) { levels< V1 >( true ); }
ENTRY( level_sorted ) { levels< Sorted >( true ); }
ENTRY( level_rows ) { levels< Rows >( false ); }
ENTRY( level_sets ) { levels< Sets >( false ); }
ENTRY( level_matrix ) { levels< Matrix >( true ); }

// ---- parsing of arguments
template< class To > void parsing()
{
  all(); { int const from = shape( "source type", NPY_BYTE, NPY_DOUBLE ), nd = shape( "dimensions", 0, 2 ), n = nd ? shape( "n", 0, 2 ) : 1; int const flag[] = { NPY_ARRAY_CARRAY | NPY_ARRAY_NOTSWAPPED, NPY_ARRAY_BEHAVED | NPY_ARRAY_NOTSWAPPED, NPY_ARRAY_CARRAY, NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED, NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_WRITEABLE | NPY_ARRAY_NOTSWAPPED }; int const k = shape( "flags", 0, 4 );
  byType( from, [&]( auto x )
  {
    using From = decltype( x ); PyArrayObject * a = newArray< From >( nd, n, flag[ k ], from ); for( int i = 0; i < n; ++i ) values< From >( a )[ i ] = std::is_floating_point< From >::value || std::is_floating_point< To >::value ? static_cast< From >( 2.5 + i ) : sym< From >( "value" );
    FAILING( 2 ); { auto r = python::parseNumPyArray( asObject( a ), typeid( To ) ); stop(); PyObject * o = std::get< 0 >( r ); bool const fits = nd <= 1 && k == 0 && PyArray_CanCastSafely( from, typeNumber< To >() );
    if( ok( o ) ) { CHECK( fits ); CHECK( !failed ); CHECK( std::get< 2 >( r ) == n ); CHECK( asArray( o )->type == typeNumber< To >() ); CHECK( std::get< 1 >( r ) == asArray( o )->data ); for( int i = 0; i < n; ++i ) CHECK( static_cast< To const * >( std::get< 1 >( r ) )[ i ] == static_cast< To >( values< From >( a )[ i ] ) ); } else { CHECK( !fits || failed ); CHECK( std::get< 1 >( r ) == nullptr && std::get< 2 >( r ) == 0 ); clear(); } }
    drop( asObject( a ) );
  } ); }
}
ENTRY( parse_int ) { parsing< int >(); }
ENTRY( parse_long ) { parsing< long >(); }
ENTRY( parse_longlong ) { parsing< long long >(); }
ENTRY( parse_ushort ) { parsing< unsigned short >(); }
ENTRY( parse_double ) { parsing< double >(); }
ENTRY( parse_other )
{
  all(); FAILING( 1 ); long const v = sym< long >( "v" ); PyObject * o = integer( v ), * t = thing(); { auto r = python::parseNumPyArray( o, typeid( long ) ); bool const f = failed; if( ok( std::get< 0 >( r ) ) ) { CHECK( !f ); CHECK( std::get< 2 >( r ) == 1 && *static_cast< long const * >( std::get< 1 >( r ) ) == v ); } else { CHECK( f ); clear(); } }
  stop(); { auto r = python::parseNumPyArray( t, typeid( long ) ); CHECK( !ok( std::get< 0 >( r ) ) ); clear(); } drop( o ); drop( t );
}
ENTRY( import ) { all(); PyArray_API = nullptr; FAILING( 3 ); int x = 0; PyObject * v = python::create( x ); if( ok( v ) ) CHECK( !failed ); else { CHECK( failed ); clear(); } drop( v ); stop(); PyArray_API = nullptr; start( 0 ); bool const r = python::import_array_wrapper(); CHECK( !r && err == PyExc_ImportError ); clear(); stop(); CHECK( python::import_array_wrapper() && PyArray_API != nullptr ); PyObject * t = ( start( 0 ), PyArray_API = nullptr, python::getNumPyTypeObject( typeid( int ) ) ); CHECK( !ok( t ) ); clear(); stop(); balanced(); }

// ---- Array
ENTRY( array_resize )
{
  all(); { Arr< int, 2, RAJA::PERM_IJ > a( 2, 2 ), b; for( int i = 0; i < 4; ++i ) a.data()[ i ] = sym< int >( "v" ); b = a; PyObject * o = python::create( a ); setLevel( o, 2 ); long long const n = sym< long long >( "n" ); ASSUME( n <= 3 ); int const how = shape( "arguments", 0, 2 ); PyObject * t = asObject( Py_TYPE( o ) ); (void)t;
  PyObject * r = how == 0 ? lvpy::invoke( Py_TYPE( o ), "resize", o, integer( n ) ) : how == 1 ? lvpy::invoke( Py_TYPE( o ), "resize", o, thing() ) : lvpy::invoke( Py_TYPE( o ), "resize", o );
  if( how == 0 && n >= 0 ) { CHECK( ok( r ) ); b.resize( n ); } else { CHECK( !ok( r ) ); if( how == 0 ) CHECK( err == PyExc_ValueError ); clear(); } CHECK( a.size( 0 ) == b.size( 0 ) && a.size( 1 ) == b.size( 1 ) ); for( std::ptrdiff_t i = 0; i < a.size(); ++i ) CHECK( a.data()[ i ] == b.data()[ i ] ); drop( o ); }
}
ENTRY( array_index )
{
  all(); { Arr< int, 2, RAJA::PERM_IJ > a( 2, 2 ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const n = sym< long long >( "n" ); PyObject * r = lvpy::invoke( Py_TYPE( o ), "set_single_parameter_resize_index", o, integer( n ) ); bool const good = n >= 0 && n < 2;
  CHECK( ok( r ) == good ); if( !good ) CHECK( err == ( n == static_cast< int >( n ) ? PyExc_ValueError : PyExc_OverflowError ) ); clear(); PyObject * g = lvpy::invoke( Py_TYPE( o ), "get_single_parameter_resize_index", o ); CHECK( ok( g ) ); CHECK( valueOfLong( g ) == ( good ? n : 0 ) ); CHECK( a.getSingleParameterResizeIndex() == ( good ? n : 0 ) ); drop( g );
  if( good ) { r = lvpy::invoke( Py_TYPE( o ), "resize", o, integer( 3 ) ); CHECK( ok( r ) ); CHECK( a.size( static_cast< int >( n ) ) == 3 && a.size( 1 - static_cast< int >( n ) ) == 2 ); } drop( o ); }
}
template< class T > void resizeAll()
{
  all(); { Arr< int, 2, RAJA::PERM_JI > a( 1, 2 ); PyObject * o = python::create( a ); setLevel( o, 2 ); int const n = shape( "n", 0, 3 ); PyArrayObject * d = newArray< T >( 1, n ); bool good = n == 2; long long w[ 3 ] = {}; for( int i = 0; i < n; ++i ) { T const v = sym< T >( "size" ); ASSUME( v <= 3 ); values< T >( d )[ i ] = v; w[ i ] = v; good = good && v >= 0; }
  FAILING( 1 ); PyObject * r = lvpy::invoke( Py_TYPE( o ), "resize_all", o, asObject( d ) ); stop(); if( ok( r ) ) { CHECK( good && !failed ); CHECK( a.size( 0 ) == w[ 0 ] && a.size( 1 ) == w[ 1 ] ); CHECK( r == Py_None ); } else { CHECK( !good || failed ); clear(); CHECK( a.size( 0 ) == 1 && a.size( 1 ) == 2 ); } drop( o ); }
}
ENTRY( array_resize_all ) { resizeAll< long long >(); }
ENTRY( array_resize_all_int ) { resizeAll< int >(); }

// ---- SortedArray
template< class T > static int collect( PyArrayObject * a, int n ) { for( int i = 0; i < n; ++i ) values< T >( a )[ i ] = static_cast< T >( range( "value", -3, 3 ) ); return n; }
static bool contained( int const * p, std::ptrdiff_t n, int v ) { bool f = false; for( std::ptrdiff_t i = 0; i < n; ++i ) f |= p[ i ] == v; return f; }
template< bool INSERT, class T > void sortedOps()
{
  all(); { Sorted a; int const m = shape( "m", 0, 2 ); for( int i = 0; i < m; ++i ) a.insert( range( "old", -3, 3 ) ); Sorted b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); int const n = shape( "n", 0, 3 ); PyArrayObject * d = newArray< T >( 1, n ); collect< T >( d, n ); FAILING( 2 );
  Py_INCREF( asObject( d ) ); PyObject * r = lvpy::invoke( Py_TYPE( o ), INSERT ? "insert" : "remove", o, asObject( d ) ); stop();
  bool const f = failed; if( ok( r ) ) { CHECK( !f ); long long count = 0; for( int i = 0; i < n; ++i ) count += INSERT ? b.insert( static_cast< int >( values< T >( d )[ i ] ) ) : b.remove( static_cast< int >( values< T >( d )[ i ] ) ); CHECK( valueOfLong( r ) == count ); } else { CHECK( f ); clear(); }
  if( !f ) { CHECK( a.size() == b.size() ); for( std::ptrdiff_t i = 0; i < b.size(); ++i ) CHECK( a[ i ] == b[ i ] ); } drop( r );
  int const level = anyLevel(); setLevel( o, level ); r = lvpy::invoke( Py_TYPE( o ), "to_numpy", o ); CHECK( ok( r ) ); PyArrayObject * v = asArray( r ); CHECK( v->nd == 1 && v->dimensions[ 0 ] == a.size() && v->strides[ 0 ] == sizeof( int ) && v->type == NPY_INT ); CHECK( v->data == reinterpret_cast< char const * >( a.data() ) ); CHECK( !PyArray_ISWRITEABLE( v ) ); drop( r ); drop( asObject( d ) ); drop( o ); }
}
ENTRY( sorted_insert ) { sortedOps< true, int >(); }
ENTRY( sorted_remove ) { sortedOps< false, int >(); }
ENTRY( sorted_insert_short ) { sortedOps< true, short >(); }
ENTRY( sorted_badargs ) { all(); { Sorted a; a.insert( 4 ); PyObject * o = python::create( a ); setLevel( o, 2 ); int const k = shape( "k", 0, 3 ); char const * const name = shape( "m", 0, 1 ) ? "insert" : "remove"; PyArrayObject * d = newArray< double >( 1, 1 ); values< double >( d )[ 0 ] = 4; PyObject * r = k == 0 ? lvpy::invoke( Py_TYPE( o ), name, o, thing() ) : k == 1 ? lvpy::invoke( Py_TYPE( o ), name, o ) : k == 2 ? lvpy::invoke( Py_TYPE( o ), name, o, asObject( newArray< int >( 2, 1 ) ) ) : ( Py_INCREF( asObject( d ) ), lvpy::invoke( Py_TYPE( o ), name, o, asObject( d ) ) ); CHECK( !ok( r ) ); clear(); CHECK( a.size() == 1 && a[ 0 ] == 4 ); drop( asObject( d ) ); drop( o ); } }

// ---- ArrayOfArrays
struct RowsModel { int v[ 4 ][ 6 ], n[ 4 ], rows; };
static RowsModel modelOf( Rows const & a ) { RowsModel m; m.rows = static_cast< int >( a.size() ); for( int i = 0; i < m.rows; ++i ) { m.n[ i ] = static_cast< int >( a.sizeOfArray( i ) ); for( int j = 0; j < m.n[ i ]; ++j ) m.v[ i ][ j ] = a( i, j ); } return m; }
static void equalRows( Rows const & a, RowsModel const & m ) { CHECK( a.size() == m.rows ); for( int i = 0; i < m.rows; ++i ) { CHECK( a.sizeOfArray( i ) == m.n[ i ] ); for( int j = 0; j < m.n[ i ]; ++j ) CHECK( a( i, j ) == m.v[ i ][ j ] ); } }
static void fillRows( Rows & a, int most ) { int const r = shape( "rows", 0, 2 ); a.resize( r ); for( int i = 0; i < r; ++i ) { int const n = shape( "length", 0, most ); for( int j = 0; j < n; ++j ) a.emplaceBack( i, sym< int >( "v" ) ); } }
ENTRY( rows_item )
{
  all(); { Rows a; fillRows( a, 2 ); int const level = anyLevel(); PyObject * o = python::create( a ); if( level ) setLevel( o, level ); PySequenceMethods * s = Py_TYPE( o )->tp_as_sequence; CHECK( s->sq_length( o ) == a.size() ); long const i = sym< long >( "i" ); PyObject * v = s->sq_item( o, i );
  if( i < 0 || i >= a.size() ) { CHECK( raised( v, PyExc_IndexError ) ); clear(); } else { CHECK( ok( v ) ); PyArrayObject * p = asArray( v ); CHECK( p->nd == 1 && p->dimensions[ 0 ] == a.sizeOfArray( i ) && p->strides[ 0 ] == sizeof( int ) && p->type == NPY_INT ); CHECK( p->data == reinterpret_cast< char * >( a[ i ].dataIfContiguous() ) ); CHECK( PyArray_ISWRITEABLE( p ) == ( level >= 1 ) ); drop( v ); }
  PyObject * t = thing(); v = s->sq_concat( o, t ); CHECK( v == Py_NotImplemented ); v = s->sq_repeat( o, 2 ); CHECK( v == Py_NotImplemented ); drop( t ); drop( o ); }
}
ENTRY( rows_delete )
{
  all(); { Rows a; fillRows( a, 2 ); RowsModel m = modelOf( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long const i = sym< long >( "i" ); PyObject * v = shape( "assign", 0, 1 ) ? thing() : nullptr; int const r = Py_TYPE( o )->tp_as_sequence->sq_ass_item( o, i, v ); CHECK( ( r == -1 ) == ( err != nullptr ) );
  if( r == 0 ) { CHECK( v == nullptr && i >= 0 && i < m.rows ); for( int k = 0; k + 1 < m.rows; ++k ) if( k >= i ) { m.n[ k ] = m.n[ k + 1 ]; for( int j = 0; j < 2; ++j ) m.v[ k ][ j ] = m.v[ k + 1 ][ j ]; } --m.rows; } else { CHECK( v != nullptr || i < 0 || i >= m.rows ); CHECK( err == ( v ? PyExc_TypeError : PyExc_IndexError ) ); clear(); } equalRows( a, m ); drop( v ); drop( o ); }
}
ENTRY( rows_insert )
{
  all(); { Rows a; fillRows( a, 1 ); RowsModel m = modelOf( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const i = sym< long long >( "i" ); int const n = shape( "n", 0, 2 ); PyArrayObject * d = newArray< int >( 1, n ); for( int j = 0; j < n; ++j ) values< int >( d )[ j ] = sym< int >( "w" ); PyObject * r = ( Py_INCREF( asObject( d ) ), lvpy::invoke( Py_TYPE( o ), "insert", o, integer( i ), asObject( d ) ) );
  if( ok( r ) ) { CHECK( i >= 0 && i <= m.rows ); for( int k = m.rows; k > 0; --k ) if( k > i ) { m.n[ k ] = m.n[ k - 1 ]; for( int j = 0; j < m.n[ k ]; ++j ) m.v[ k ][ j ] = m.v[ k - 1 ][ j ]; } for( int k = 0; k <= m.rows; ++k ) if( k == i ) { m.n[ k ] = n; for( int j = 0; j < n; ++j ) m.v[ k ][ j ] = values< int >( d )[ j ]; } ++m.rows; } else { CHECK( i < 0 || i > m.rows ); CHECK( err == PyExc_IndexError ); clear(); } equalRows( a, m ); drop( asObject( d ) ); drop( o ); }
}
ENTRY( rows_insert_into )
{
  all(); { Rows a; fillRows( a, 2 ); RowsModel m = modelOf( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const i = sym< long long >( "i" ), at = sym< long long >( "at" ); int const n = shape( "n", 0, 2 ); PyArrayObject * d = newArray< int >( 1, n ); for( int j = 0; j < n; ++j ) values< int >( d )[ j ] = sym< int >( "w" ); PyObject * r = ( Py_INCREF( asObject( d ) ), lvpy::invoke( Py_TYPE( o ), "insert_into", o, integer( i ), integer( at ), asObject( d ) ) );
  bool const inRow = i >= 0 && i < m.rows; if( ok( r ) ) { CHECK( inRow ); for( int k = 0; k < m.rows; ++k ) if( k == i ) { CHECK( at >= 0 && at <= m.n[ k ] ); for( int j = m.n[ k ]; j > 0; --j ) if( j > at ) m.v[ k ][ j - 1 + n ] = m.v[ k ][ j - 1 ]; for( int j = 0; j <= m.n[ k ]; ++j ) if( j == at ) for( int q = 0; q < n; ++q ) m.v[ k ][ j + q ] = values< int >( d )[ q ]; m.n[ k ] += n; } } else { bool good = false; for( int k = 0; k < m.rows; ++k ) good |= k == i && at >= 0 && at <= m.n[ k ]; CHECK( !good ); CHECK( err == PyExc_IndexError ); clear(); } equalRows( a, m ); drop( asObject( d ) ); drop( o ); }
}
ENTRY( rows_erase )
{
  all(); { Rows a; fillRows( a, 2 ); RowsModel m = modelOf( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const i = sym< long long >( "i" ), at = sym< long long >( "at" ); PyObject * r = lvpy::invoke( Py_TYPE( o ), "erase_from", o, integer( i ), integer( at ) ); bool good = false;
  for( int k = 0; k < m.rows; ++k ) if( k == i && at >= 0 && at < m.n[ k ] ) { good = true; for( int j = 0; j + 1 < m.n[ k ]; ++j ) if( j >= at ) m.v[ k ][ j ] = m.v[ k ][ j + 1 ]; --m.n[ k ]; } CHECK( ok( r ) == good ); if( !good ) CHECK( err == PyExc_IndexError ); clear(); equalRows( a, m ); drop( o ); }
}
template< class C > void badArguments( C & a, char const * name, int integers )
{ // too few arguments, a wrong type in any position, an array that cannot be converted
  (void)a; PyObject * o = python::create( a ); setLevel( o, 2 ); int const k = shape( "k", 0, integers + 2 ); PyObject * args = rawTuple( k == 0 ? integers : integers + 1 ); int const count = static_cast< int >( tupleSize( args ) ); for( int i = 0; i < count; ++i ) reinterpret_cast< PyTupleObject * >( args )->ob_item[ i ] = i == k - 1 ? thing() : i < integers ? integer( 0 ) : asObject( newArray< double >( 1, 1 ) );
  if( k == integers + 2 ) { drop( item( args, integers ) ); PyArrayObject * w = newArray< int >( 2, 1 ); reinterpret_cast< PyTupleObject * >( args )->ob_item[ integers ] = asObject( w ); } else if( k != 0 && k != integers + 1 ) values< double >( item( args, integers ) )[ 0 ] = 1; PyObject * r = method( Py_TYPE( o ), name, o, args ); CHECK( !ok( r ) ); clear(); drop( args ); drop( o );
}
ENTRY( rows_badargs ) { all(); { Rows a( 1 ); a.emplaceBack( 0, 5 ); char const * const n[] = { "insert", "insert_into" }; int const m = shape( "m", 0, 1 ); badArguments( a, n[ m ], m + 1 ); CHECK( a.size() == 1 && a.sizeOfArray( 0 ) == 1 && a( 0, 0 ) == 5 ); } }
ENTRY( sets_badargs ) { all(); { Sets a( 1 ); a.insertIntoSet( 0, 5 ); char const * const n[] = { "insert_into", "erase_from" }; badArguments( a, n[ shape( "m", 0, 1 ) ], 1 ); CHECK( a.size() == 1 && a.sizeOfSet( 0 ) == 1 && a( 0, 0 ) == 5 ); } }

// ---- ArrayOfSets
static void fillSets( Sets & a, int most ) { int const r = shape( "sets", 0, 2 ); a.resize( r ); for( int i = 0; i < r; ++i ) { int const n = shape( "length", 0, most ); for( int j = 0; j < n; ++j ) a.insertIntoSet( i, range( "v", -3, 3 ) ); } }
static void equalSets( Sets const & a, Sets const & b ) { CHECK( a.size() == b.size() ); for( std::ptrdiff_t i = 0; i < b.size(); ++i ) { CHECK( a.sizeOfSet( i ) == b.sizeOfSet( i ) ); for( std::ptrdiff_t j = 0; j < b.sizeOfSet( i ); ++j ) CHECK( a( i, j ) == b( i, j ) ); } }
ENTRY( sets_item )
{
  all(); { Sets a; fillSets( a, 2 ); int const level = anyLevel(); PyObject * o = python::create( a ); if( level ) setLevel( o, level ); PySequenceMethods * s = Py_TYPE( o )->tp_as_sequence; CHECK( s->sq_length( o ) == a.size() ); long const i = sym< long >( "i" ); PyObject * v = s->sq_item( o, i );
  if( i < 0 || i >= a.size() ) { CHECK( raised( v, PyExc_IndexError ) ); clear(); } else { CHECK( ok( v ) ); PyArrayObject * p = asArray( v ); CHECK( p->nd == 1 && p->dimensions[ 0 ] == a.sizeOfSet( i ) && p->strides[ 0 ] == sizeof( int ) && p->type == NPY_INT ); CHECK( p->data == reinterpret_cast< char const * >( a[ i ].dataIfContiguous() ) ); CHECK( !PyArray_ISWRITEABLE( p ) ); drop( v ); }
  PyObject * t = thing(); v = s->sq_concat( o, t ); CHECK( v == Py_NotImplemented ); v = s->sq_repeat( o, 2 ); CHECK( v == Py_NotImplemented ); drop( t ); drop( o ); }
}
ENTRY( sets_delete )
{
  all(); { Sets a; fillSets( a, 1 ); Sets b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long const i = sym< long >( "i" ); PyObject * v = shape( "assign", 0, 1 ) ? thing() : nullptr; int const r = Py_TYPE( o )->tp_as_sequence->sq_ass_item( o, i, v ); CHECK( ( r == -1 ) == ( err != nullptr ) );
  if( r == 0 ) { CHECK( v == nullptr && i >= 0 && i < b.size() ); b.eraseSet( lv_concrete( i ) ); } else { CHECK( v != nullptr || i < 0 || i >= b.size() ); CHECK( err == ( v ? PyExc_TypeError : PyExc_IndexError ) ); clear(); } equalSets( a, b ); drop( v ); drop( o ); }
}
ENTRY( sets_insert )
{
  all(); { Sets a; fillSets( a, 1 ); Sets b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const i = sym< long long >( "i" ), c = sym< long long >( "capacity" ); ASSUME( c <= 3 ); bool const with = shape( "with capacity", 0, 1 ); PyObject * r = with ? lvpy::invoke( Py_TYPE( o ), "insert", o, integer( i ), integer( c ) ) : lvpy::invoke( Py_TYPE( o ), "insert", o, integer( i ) );
  bool const place = i >= 0 && i <= b.size(), good = place && ( !with || c >= 0 ); CHECK( ok( r ) == good ); if( !good ) CHECK( err == ( place ? PyExc_ValueError : PyExc_IndexError ) ); clear(); if( good ) { b.insertSet( lv_concrete( i ), 0 ); CHECK( a.capacityOfSet( lv_concrete( i ) ) >= ( with ? c : 0 ) ); } equalSets( a, b ); drop( o ); }
}
template< bool INSERT > void setValues()
{
  all(); { Sets a; fillSets( a, 2 ); Sets b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const i = sym< long long >( "i" ); int const n = shape( "n", 0, 2 ); PyArrayObject * d = newArray< int >( 1, n ); collect< int >( d, n ); PyObject * r = ( Py_INCREF( asObject( d ) ), lvpy::invoke( Py_TYPE( o ), INSERT ? "insert_into" : "erase_from", o, integer( i ), asObject( d ) ) );
  bool const good = i >= 0 && i < b.size(); CHECK( ok( r ) == good ); if( good ) { long long count = 0; for( int j = 0; j < n; ++j ) count += INSERT ? b.insertIntoSet( lv_concrete( i ), values< int >( d )[ j ] ) : b.removeFromSet( lv_concrete( i ), values< int >( d )[ j ] ); CHECK( valueOfLong( r ) == count ); } else { CHECK( err == PyExc_IndexError ); clear(); } equalSets( a, b ); drop( r ); drop( asObject( d ) ); drop( o ); }
}
ENTRY( sets_insert_into ) { setValues< true >(); }
ENTRY( sets_erase_from ) { setValues< false >(); }

// ---- CRSMatrix
static void fillMatrix( Matrix & a, int most ) { int const r = shape( "rows", 1, 2 ); a.resize( r, 3, shape( "capacity", 0, 1 ) ); for( int i = 0; i < r; ++i ) { int const n = shape( "length", 0, most ); for( int j = 0; j < n; ++j ) a.insertNonZero( i, range( "c", 0, 2 ), 1.5 + 2 * i + j ); } }
static void equalMatrices( Matrix const & a, Matrix const & b ) { CHECK( a.numRows() == b.numRows() && a.numColumns() == b.numColumns() ); for( std::ptrdiff_t i = 0; i < b.numRows(); ++i ) { CHECK( a.numNonZeros( i ) == b.numNonZeros( i ) ); for( std::ptrdiff_t j = 0; j < b.numNonZeros( i ); ++j ) { CHECK( a.getColumns( i )[ j ] == b.getColumns( i )[ j ] ); CHECK( a.getEntries( i )[ j ] == b.getEntries( i )[ j ] ); } } }
static bool goodRow( Matrix const & a, long long r ) { return r >= 0 && r < a.numRows(); }
ENTRY( matrix_views )
{
  all(); { Matrix a; fillMatrix( a, 2 ); int const level = anyLevel(); PyObject * o = python::create( a ); if( level ) setLevel( o, level ); long long const r = sym< long long >( "row" );
  PyObject * v = lvpy::invoke( Py_TYPE( o ), "num_rows", o ); CHECK( ok( v ) ); CHECK( valueOfLong( v ) == a.numRows() ); drop( v ); v = lvpy::invoke( Py_TYPE( o ), "num_columns", o ); CHECK( ok( v ) ); CHECK( valueOfLong( v ) == a.numColumns() ); drop( v );
  v = lvpy::invoke( Py_TYPE( o ), "get_columns", o, integer( r ) ); CHECK( ok( v ) == goodRow( a, r ) ); if( v ) { PyArrayObject * p = asArray( v ); CHECK( p->nd == 1 && p->dimensions[ 0 ] == a.numNonZeros( r ) && p->strides[ 0 ] == 4 && p->type == NPY_INT ); CHECK( p->data == reinterpret_cast< char const * >( a.getColumns( r ).dataIfContiguous() ) ); CHECK( !PyArray_ISWRITEABLE( p ) ); drop( v ); } clear();
  v = lvpy::invoke( Py_TYPE( o ), "get_entries", o, integer( r ) ); CHECK( ok( v ) == goodRow( a, r ) ); if( v ) { PyArrayObject * p = asArray( v ); CHECK( p->nd == 1 && p->dimensions[ 0 ] == a.numNonZeros( r ) && p->strides[ 0 ] == 8 && p->type == NPY_DOUBLE ); CHECK( p->data == reinterpret_cast< char * >( a.getEntries( r ).dataIfContiguous() ) ); CHECK( PyArray_ISWRITEABLE( p ) == ( level >= 1 ) ); drop( v ); } clear(); drop( o ); }
}
ENTRY( matrix_scipy )
{
  all(); { Matrix a; if( shape( "empty", 0, 1 ) == 0 ) fillMatrix( a, 1 ); if( shape( "compress", 0, 1 ) ) a.compress(); bool compressed = true; for( std::ptrdiff_t i = 0; i < a.numRows(); ++i ) compressed &= a.numNonZeros( i ) == a.nonZeroCapacity( i ); std::ptrdiff_t const rows = a.numRows(); int const level = anyLevel(); PyObject * o = python::create( a ); if( level ) setLevel( o, level );
  FAILING( 6 ); PyObject * r = lvpy::invoke( Py_TYPE( o ), "to_scipy", o ); stop(); bool const f = failed; if( !ok( r ) ) { CHECK( !compressed || rows == 0 || f ); clear(); drop( o ); } else
  {
    CHECK( compressed && rows > 0 && !f ); ThingObject * t = reinterpret_cast< ThingObject * >( r ); CHECK( t->n == 5 ); CHECK( equal( lastFormat, "(OOO)(ll)" ) || equal( lastFormat, "(OOO)(LL)" ) || equal( lastFormat, "(NNN)(ll)" ) || equal( lastFormat, "(NNN)(LL)" ) ); CHECK( t->value[ 3 ] == rows && t->value[ 4 ] == a.numColumns() ); std::ptrdiff_t total = 0; for( std::ptrdiff_t i = 0; i < rows; ++i ) total += a.numNonZeros( i );
    PyArrayObject * e = asArray( t->held[ 0 ] ), * c = asArray( t->held[ 1 ] ), * s = asArray( t->held[ 2 ] ); CHECK( e->type == NPY_DOUBLE && c->type == NPY_INT && s->type == NPY_LONG ); CHECK( e->nd == 1 && c->nd == 1 && s->nd == 1 ); CHECK( e->dimensions[ 0 ] == total && c->dimensions[ 0 ] == total && s->dimensions[ 0 ] == rows + 1 ); CHECK( e->strides[ 0 ] == 8 && c->strides[ 0 ] == 4 && s->strides[ 0 ] == 8 ); CHECK( PyArray_ISWRITEABLE( e ) == ( level >= 1 ) ); CHECK( !PyArray_ISWRITEABLE( c ) && !PyArray_ISWRITEABLE( s ) );
    std::ptrdiff_t k = 0; for( std::ptrdiff_t i = 0; i < rows; ++i ) { CHECK( values< long >( s )[ i ] == k ); for( std::ptrdiff_t j = 0; j < a.numNonZeros( i ); ++j, ++k ) { CHECK( values< int >( c )[ k ] == a.getColumns( i )[ j ] ); CHECK( values< double >( e ) + k == &a.getEntries( i )[ j ] ); } } CHECK( values< long >( s )[ rows ] == total ); drop( r ); drop( o );
  } }
}
ENTRY( matrix_resize )
{
  all(); { Matrix a; fillMatrix( a, 1 ); Matrix b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const r = sym< long long >( "numRows" ), c = sym< long long >( "numCols" ), k = sym< long long >( "rowCapacity" ); ASSUME( r <= 3 && c <= 5 && k <= 2 ); int const how = shape( "arguments", 0, 2 ); PyObject * v = how == 0 ? lvpy::invoke( Py_TYPE( o ), "resize", o, integer( r ), integer( c ) ) : how == 1 ? lvpy::invoke( Py_TYPE( o ), "resize", o, integer( r ), integer( c ), integer( k ) ) : lvpy::invoke( Py_TYPE( o ), "resize", o, integer( r ) );
  bool const good = how < 2 && r >= 0 && c >= 0 && ( how == 0 || k >= 0 ); CHECK( ok( v ) == good ); clear(); if( good ) { CHECK( a.numRows() == r && a.numColumns() == c ); if( c >= 3 ) for( std::ptrdiff_t i = 0; i < b.numRows() && i < a.numRows(); ++i ) CHECK( a.numNonZeros( i ) == b.numNonZeros( i ) ); if( how == 1 && c >= 2 ) for( std::ptrdiff_t i = b.numRows(); i < a.numRows(); ++i ) CHECK( a.nonZeroCapacity( i ) >= k ); } else equalMatrices( a, b ); drop( o ); }
}
ENTRY( matrix_compress ) { all(); { Matrix a; fillMatrix( a, 2 ); Matrix b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); PyObject * v = lvpy::invoke( Py_TYPE( o ), "compress", o ); CHECK( v == Py_None && err == nullptr ); equalMatrices( a, b ); for( std::ptrdiff_t i = 0; i < a.numRows(); ++i ) CHECK( a.nonZeroCapacity( i ) == a.numNonZeros( i ) ); drop( o ); } }
ENTRY( matrix_insert )
{
  all(); { Matrix a; fillMatrix( a, 1 ); Matrix b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const r = sym< long long >( "row" ); int const n = shape( "n", 0, 3 ), m = shape( "m", 0, 3 ); PyArrayObject * c = newArray< int >( 1, n ), * e = newArray< double >( 1, m ); bool inside = true; for( int j = 0; j < n; ++j ) { values< int >( c )[ j ] = range( "column", -1, 3 ); inside &= values< int >( c )[ j ] >= 0 && values< int >( c )[ j ] < 3; } for( int j = 0; j < m; ++j ) values< double >( e )[ j ] = 10.0 * ( j + 1 );
  Py_INCREF( asObject( c ) ); Py_INCREF( asObject( e ) ); PyObject * v = lvpy::invoke( Py_TYPE( o ), "insert_nonzeros", o, integer( r ), asObject( c ), asObject( e ) ); bool const good = goodRow( b, r ) && n == m && inside; CHECK( ok( v ) == good ); clear();
  if( good ) { long long count = 0; for( int j = 0; j < n; ++j ) count += b.insertNonZero( lv_concrete( r ), values< int >( c )[ j ], values< double >( e )[ j ] ); CHECK( valueOfLong( v ) == count ); } equalMatrices( a, b ); drop( v ); drop( asObject( c ) ); drop( asObject( e ) ); drop( o ); }
}
ENTRY( matrix_remove )
{
  all(); { Matrix a; fillMatrix( a, 2 ); Matrix b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const r = sym< long long >( "row" ); int const n = shape( "n", 0, 3 ); PyArrayObject * c = newArray< int >( 1, n ); for( int j = 0; j < n; ++j ) values< int >( c )[ j ] = range( "column", 0, 2 );
  Py_INCREF( asObject( c ) ); PyObject * v = lvpy::invoke( Py_TYPE( o ), "remove_nonzeros", o, integer( r ), asObject( c ) ); CHECK( ok( v ) == goodRow( b, r ) ); clear(); if( v ) { long long count = 0; for( int j = 0; j < n; ++j ) count += b.removeNonZero( lv_concrete( r ), values< int >( c )[ j ] ); CHECK( valueOfLong( v ) == count ); } equalMatrices( a, b ); drop( v ); drop( asObject( c ) ); drop( o ); }
}
ENTRY( matrix_add )
{
  all(); { Matrix a; a.resize( 2, 4, 4 ); for( int i = 0; i < 2; ++i ) for( int j = 0; j < 3; ++j ) a.insertNonZero( i, j + i, 1.0 + j ); Matrix b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); long long const r = sym< long long >( "row" ); int const n = shape( "n", 0, 2 ), m = shape( "m", 0, 2 ); PyArrayObject * c = newArray< int >( 1, n ), * e = newArray< double >( 1, m ); for( int j = 0; j < n; ++j ) values< int >( c )[ j ] = range( "column", 1, 2 ); for( int j = 0; j < m; ++j ) values< double >( e )[ j ] = 10.0 * ( j + 1 );
  Py_INCREF( asObject( c ) ); Py_INCREF( asObject( e ) ); PyObject * v = lvpy::invoke( Py_TYPE( o ), "add_to_row", o, integer( r ), asObject( c ), asObject( e ) ); bool const good = goodRow( b, r ) && n == m; CHECK( ok( v ) == good ); clear(); if( good ) { CHECK( v == Py_None ); for( int j = 0; j < n; ++j ) b.getEntries( lv_concrete( r ) )[ values< int >( c )[ j ] - lv_concrete( r ) ] += values< double >( e )[ j ]; } equalMatrices( a, b ); drop( asObject( c ) ); drop( asObject( e ) ); drop( o ); }
}
ENTRY( matrix_badargs )
{
  all(); { Matrix a; a.resize( 1, 3, 2 ); a.insertNonZero( 0, 1, 2.0 ); Matrix b( a ); PyObject * o = python::create( a ); setLevel( o, 2 ); char const * const n[] = { "insert_nonzeros", "remove_nonzeros", "add_to_row" }; int const m = shape( "m", 0, 2 ), arrays = m == 1 ? 1 : 2, k = shape( "k", 0, 3 ); ASSUME( k <= arrays + 1 ); int const len = shape( "length", 0, 1 );
  PyObject * args = rawTuple( k == 0 ? arrays : arrays + 1 ); for( int i = 0; i < tupleSize( args ); ++i ) { PyObject * x; if( i == k - 1 ) x = thing(); else if( i == 0 ) x = integer( 0 ); else if( i == 1 ) { PyArrayObject * w = newArray< int >( 1, len ); if( len ) values< int >( w )[ 0 ] = 1; x = asObject( w ); } else { PyArrayObject * w = newArray< double >( 1, len ); if( len ) values< double >( w )[ 0 ] = 1; x = asObject( w ); } reinterpret_cast< PyTupleObject * >( args )->ob_item[ i ] = x; }
  PyObject * r = method( Py_TYPE( o ), n[ m ], o, args ); CHECK( !ok( r ) ); clear(); equalMatrices( a, b ); drop( args ); drop( o ); }
}

// ---- references, modules, functions
ENTRY( references )
{
  interpreter(); PyObject * a = thing(), * b = thing(); using Ref = python::PyObjectRef<>;
  { Ref x{ ( Py_INCREF( a ), a ) }, y{ ( Py_INCREF( b ), b ) }; CHECK( x.get() == a && static_cast< PyObject * >( x ) == a && *x.getAddress() == a ); CHECK( a->ob_refcnt == 2 );
    switch( shape( "operation", 0, 8 ) )
    {
      case 0: { Ref z( x ); CHECK( z.get() == a && a->ob_refcnt == 3 ); break; }
      case 1: { Ref z( std::move( x ) ); CHECK( z.get() == a && x.get() == nullptr && a->ob_refcnt == 2 ); break; }
      case 2: x = y; CHECK( x.get() == b && y.get() == b && a->ob_refcnt == 1 && b->ob_refcnt == 3 ); break;
      case 3: x = std::move( y ); CHECK( x.get() == b && y.get() == nullptr && a->ob_refcnt == 1 && b->ob_refcnt == 2 ); break;
      case 4: x = ( Py_INCREF( b ), b ); CHECK( x.get() == b && a->ob_refcnt == 1 && b->ob_refcnt == 3 ); break;
      case 5: { PyObject * r = x.release(); CHECK( r == a && x.get() == nullptr && a->ob_refcnt == 2 ); drop( r ); break; }
      case 6: { Ref z; CHECK( z.get() == nullptr ); z = x; CHECK( z.get() == a && a->ob_refcnt == 3 ); Ref e; z = e; CHECK( z.get() == nullptr && a->ob_refcnt == 2 ); break; }
      case 7: { Ref & z = x; x = z; CHECK( x.get() == a && a->ob_refcnt == 2 ); break; }
      default: { Ref z; x = std::move( z ); CHECK( x.get() == nullptr && a->ob_refcnt == 1 ); }
    } }
  CHECK( a->ob_refcnt == 1 && b->ob_refcnt == 1 ); drop( a ); drop( b );
}
ENTRY( instances )
{
  all(); { V1 a; Sorted s; PyObject * o = python::create( a ), * p = python::create( s ), * t = thing(); CHECK( python::convert< python::PyArray >( o, python::getPyArrayType() ) == reinterpret_cast< python::PyArray * >( o ) ); CHECK( err == nullptr ); PyObject * const wrong = shape( "object", 0, 1 ) ? t : p; CHECK( python::convert< python::PyArray >( wrong, python::getPyArrayType() ) == nullptr ); CHECK( err == PyExc_TypeError ); clear();
  CHECK( python::convert< python::PyArray >( nullptr, python::getPyArrayType() ) == nullptr ); CHECK( err != nullptr ); clear(); start( 0 ); CHECK( python::convert< python::PyArray >( o, python::getPyArrayType() ) == nullptr ); CHECK( err != nullptr ); clear(); stop();
  PyTypeObject * const types[] = { python::getPyArrayType(), python::getPySortedArrayType(), python::getPyArrayOfArraysType(), python::getPyArrayOfSetsType(), python::getPyCRSMatrixType() }; int const k = shape( "type", 0, 4 ); CHECK( !ok( types[ k ]->tp_repr( t ) ) ); clear(); drop( o ); drop( p ); drop( t ); }
}
ENTRY( module )
{
  interpreter(); PyTypeObject * const types[] = { python::getPyArrayType(), python::getPySortedArrayType(), python::getPyArrayOfArraysType(), python::getPyArrayOfSetsType(), python::getPyCRSMatrixType() }; long before[ 5 ]; for( int i = 0; i < 5; ++i ) before[ i ] = types[ i ]->ob_base.ob_base.ob_refcnt;
  FAILING( 16 ); PyObject * m = PyInit_pylvarray(); stop();
  if( ok( m ) ) { CHECK( !failed ); ThingObject * t = reinterpret_cast< ThingObject * >( m ); char const * const names[] = { "Array", "SortedArray", "ArrayOfArrays", "ArrayOfSets", "CRSMatrix" }; CHECK( t->n == 5 ); for( int i = 0; i < 5; ++i ) { bool found = false; for( int j = 0; j < t->n; ++j ) found |= equal( t->name[ j ], names[ i ] ) && t->held[ j ] == asObject( types[ i ] ); CHECK( found ); CHECK( types[ i ]->ob_base.ob_base.ob_refcnt == before[ i ] + 1 ); }
    char const * const constants[] = { "READ_ONLY", "MODIFIABLE", "RESIZEABLE", "CPU" }; long const value[] = { 0, 1, 2, static_cast< long >( MemorySpace::host ) }; for( int i = 0; i < 4; ++i ) { bool found = false; for( int j = 0; j < lv_constants; ++j ) found |= equal( lv_constantName[ j ], constants[ i ] ) && lv_constantValue[ j ] == value[ i ]; CHECK( found ); } CHECK( python::PyModify::READ_ONLY < python::PyModify::MODIFIABLE ); } else { CHECK( failed ); clear(); }
  drop( m ); for( int i = 0; i < 5; ++i ) CHECK( types[ i ]->ob_base.ob_base.ob_refcnt == before[ i ] );
}
ENTRY( submodule )
{
  interpreter(); PyObject * m = thing(); FAILING( 2 ); bool const r = python::addPyLvArrayModule( m ); stop(); CHECK( r == !failed ); CHECK( r == ( err == nullptr ) ); clear(); ThingObject * t = reinterpret_cast< ThingObject * >( m ); CHECK( t->n == ( r ? 1 : 0 ) ); if( r ) { CHECK( equal( t->name[ 0 ], "pylvarray" ) ); CHECK( t->held[ 0 ]->ob_refcnt == 1 ); CHECK( equal( reinterpret_cast< ThingObject * >( t->held[ 0 ] )->name[ 0 ], "pylvarray" ) ); } drop( m );
}
ENTRY( callback )
{
  all(); { V1 a( 2 ); double x = 2.5; PyObject * f = thing(); { python::PythonFunction< V1 &, double & > g( f ); CHECK( f->ob_refcnt == 2 ); FAILING( 5 ); g( a, x ); stop(); CHECK( !failed ); CHECK( err == nullptr ); } CHECK( f->ob_refcnt == 1 );
  PyObject * args = lastCallee; CHECK( args->ob_refcnt == 1 ); CHECK( tupleSize( args ) == 2 ); CHECK( Py_TYPE( item( args, 0 ) ) == python::getPyArrayType() ); CHECK( asArray( item( args, 1 ) )->data == reinterpret_cast< char * >( &x ) ); CHECK( item( args, 0 )->ob_refcnt == 1 && item( args, 1 )->ob_refcnt == 1 ); drop( args ); drop( f ); } balanced();
}
ENTRY( cupy )
{ // the (disabled) export to CuPy: the helper is called with the address, the total size in bytes, the dtype, and the strides and sizes
  all(); long long const d[ 2 ] = { range< long long >( "n0", 0, 99 ), range< long long >( "n1", 0, 99 ) }, s[ 2 ] = { range< long long >( "s0", 0, 99 ), range< long long >( "s1", 0, 99 ) }; int x = 0; FAILING( 10 ); PyObject * r = python::internal::createCupyArrayImpl( &x, typeid( int ), false, 2, d, s ); stop();
  if( ok( r ) ) { CHECK( !failed ); ThingObject * t = reinterpret_cast< ThingObject * >( r ); CHECK( t->n == 5 ); CHECK( t->value[ 0 ] == reinterpret_cast< long long >( &x ) ); CHECK( t->value[ 1 ] == 4 * d[ 0 ] * d[ 1 ] ); CHECK( t->held[ 2 ] == asObject( &scalarType[ NPY_INT ] ) ); for( int i = 0; i < 2; ++i ) { CHECK( valueOfLong( item( t->held[ 3 ], i ) ) == 4 * s[ i ] ); CHECK( valueOfLong( item( t->held[ 4 ], i ) ) == d[ i ] ); CHECK( item( t->held[ 3 ], i )->ob_refcnt == 1 && item( t->held[ 4 ], i )->ob_refcnt == 1 ); } } else { CHECK( failed ); clear(); } drop( r ); balanced();
}
