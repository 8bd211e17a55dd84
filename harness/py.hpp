// Stand-in for the part of the Python and NumPy C interfaces that src/python uses: real Python.h (so the reference counting is CPython's own
// inline code), objects of this model behind it.  Every call that can fail in CPython can be made to fail (lvpy::failAt), references are
// really counted, objects really freed, and calls CPython would crash on (NULL arguments, wrong format characters) are violations.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "structmember.h"
#include <numpy/arrayobject.h>
#include <typeindex>
#ifdef LV_SYMBOLIC // used by the comparison of type_info names
extern "C" inline __attribute__(( used )) int strcmp( char const * a, char const * b ) noexcept { while( *a && *a == *b ) { ++a; ++b; } return static_cast< unsigned char >( *a ) - static_cast< unsigned char >( *b ); }
#endif
#undef PyArg_ParseTuple
#undef PyObject_CallFunction
#define PyArg_ParseTuple lvpy::parseTuple
#define PyObject_CallFunction lvpy::callFunction

namespace lvpy
{
enum { MAXCALLS = 64 };
static int calls, failAt = -1, failed; static PyObject * err; static int importFails;
struct LongObject { PyObject_HEAD long long v; };
struct TextObject { PyObject_HEAD char t[ 16 ]; };
struct ThingObject { PyObject_HEAD PyObject * held[ 8 ]; long long value[ 8 ]; char const * name[ 8 ]; int n; };  // module, function, result of a call, or anything else
static void plainDealloc( PyObject * o ) { std::free( o ); }
static void tupleDealloc( PyObject * o ) { PyTupleObject * t = reinterpret_cast< PyTupleObject * >( o ); for( Py_ssize_t i = 0; i < t->ob_base.ob_size; ++i ) Py_XDECREF( t->ob_item[ i ] ); std::free( o ); }
static void listDealloc( PyObject * o ) { PyListObject * t = reinterpret_cast< PyListObject * >( o ); for( Py_ssize_t i = 0; i < t->ob_base.ob_size; ++i ) Py_XDECREF( t->ob_item[ i ] ); std::free( t->ob_item ); std::free( o ); }
static void thingDealloc( PyObject * o ) { ThingObject * t = reinterpret_cast< ThingObject * >( o ); for( int i = 0; i < t->n; ++i ) Py_XDECREF( t->held[ i ] ); std::free( o ); }
static void arrayDealloc( PyObject * o ) { PyArrayObject * a = reinterpret_cast< PyArrayObject * >( o ); if( a->flags & NPY_ARRAY_OWNDATA ) std::free( a->data ); std::free( o ); }
static PyTypeObject longType, thingType; static PyTypeObject scalarType[ 32 ]; static PyObject excType[ 8 ];
static void setDealloc( PyTypeObject & t, destructor d, char const * n ) { t.tp_dealloc = d; t.tp_name = n; t.ob_base.ob_base.ob_refcnt = 1; t.ob_base.ob_base.ob_type = &PyType_Type; }
inline bool fails( PyObject * e = nullptr ) { if( calls++ == failAt ) { failed = 1; err = e ? e : PyExc_MemoryError; return true; } return false; }
template< class T > T * object( PyTypeObject & t, std::size_t n = sizeof( T ) ) { T * p = static_cast< T * >( std::malloc( n ) ); std::memset( p, 0, n ); PyObject * o = reinterpret_cast< PyObject * >( p ); o->ob_refcnt = 1; o->ob_type = &t; return p; }
template< class T > PyObject * asObject( T * p ) { return reinterpret_cast< PyObject * >( p ); }
inline PyObject * integer( long long v ) { LongObject * o = object< LongObject >( longType ); o->v = v; return asObject( o ); }
inline PyObject * thing() { return asObject( object< ThingObject >( thingType ) ); }
inline long long valueOfLong( PyObject * o ) { if( o->ob_type != &longType ) lv_abort( "not an int" ); return reinterpret_cast< LongObject * >( o )->v; }
inline Py_ssize_t tupleSize( PyObject * o ) { return reinterpret_cast< PyVarObject * >( o )->ob_size; }
inline PyObject * item( PyObject * o, Py_ssize_t i ) { return reinterpret_cast< PyTupleObject * >( o )->ob_item[ i ]; }
inline PyObject * listItem( PyObject * o, Py_ssize_t i ) { return reinterpret_cast< PyListObject * >( o )->ob_item[ i ]; }
inline bool equal( char const * a, char const * b ) { while( *a && *a == *b ) { ++a; ++b; } return *a == *b; }

inline bool parseOne( char c, PyObject * o, int * out )
{ if( c != 'i' ) lv_abort( "format does not match the variable" ); if( o->ob_type != &longType ) { err = PyExc_TypeError; return false; } long long const v = valueOfLong( o ); if( v != static_cast< int >( v ) ) { err = PyExc_OverflowError; return false; } *out = static_cast< int >( v ); return true; }
inline bool parseOne( char c, PyObject * o, long * out )
{ if( c != 'l' && c != 'n' ) lv_abort( "format does not match the variable" ); if( o->ob_type != &longType ) { err = PyExc_TypeError; return false; } *out = valueOfLong( o ); return true; }
inline bool parseOne( char c, PyObject * o, long long * out )
{ if( c != 'L' ) lv_abort( "format does not match the variable" ); if( o->ob_type != &longType ) { err = PyExc_TypeError; return false; } *out = valueOfLong( o ); return true; }
inline bool parseOne( char c, PyObject * o, PyObject * * out ) { if( c != 'O' ) lv_abort( "format does not match the variable" ); *out = o; return true; }
inline bool parseRest( PyObject *, Py_ssize_t, char const * f ) { if( *f == '|' ) ++f; if( *f ) lv_abort( "more format characters than variables" ); return true; }
template< class T, class ... R > bool parseRest( PyObject * args, Py_ssize_t i, char const * f, T * out, R * ... rest )
{ if( *f == '|' ) ++f; if( *f == 0 ) lv_abort( "more variables than format characters" ); if( i < tupleSize( args ) && !parseOne( *f, item( args, i ), out ) ) return false; return parseRest( args, i + 1, f + 1, rest ... ); }
template< class ... R > int parseTuple( PyObject * args, char const * f, R * ... out )
{
  if( args == nullptr || args->ob_type != &PyTuple_Type ) lv_abort( "arguments are not a tuple" );
  int least = -1, most = 0; for( char const * c = f; *c; ++c ) if( *c == '|' ) least = most; else ++most; if( least < 0 ) least = most;
  if( tupleSize( args ) < least || tupleSize( args ) > most ) { err = PyExc_TypeError; return 0; }
  return parseRest( args, 0, f, out ... );
}
static PyObject * lastCallee; static char const * lastFormat;
inline void checkCharacter( char const * & f, char const * allowed ) { while( *f == '(' || *f == ')' || *f == ',' || *f == ' ' ) ++f; for( char const * a = allowed; *a; ++a ) if( *a == *f ) { ++f; return; } lv_abort( "format does not match the argument" ); }
inline void pass( ThingObject * t, char const * & f, PyObject * o ) { checkCharacter( f, "ON" ); if( o == nullptr ) lv_abort( "NULL passed" ); if( f[ -1 ] == 'O' ) Py_INCREF( o ); t->held[ t->n++ ] = o; }
inline void pass( ThingObject * t, char const * & f, long v ) { checkCharacter( f, "lLnKk" ); t->value[ t->n++ ] = v; }
inline void pass( ThingObject * t, char const * & f, long long v ) { checkCharacter( f, "lLnKk" ); t->value[ t->n++ ] = v; }
inline void passAll( ThingObject *, char const * f ) { while( *f == ')' ) ++f; if( *f ) lv_abort( "more format characters than arguments" ); }
template< class T, class ... R > void passAll( ThingObject * t, char const * f, T a, R ... rest ) { pass( t, f, a ); passAll( t, f, rest ... ); }
template< class ... A > PyObject * callFunction( PyObject * callable, char const * f, A ... a )
{
  if( callable == nullptr ) lv_abort( "NULL called" );
  if( fails() ) return nullptr;
  if( callable->ob_type == &PyType_Type ) { if( *f ) lv_abort( "arguments to a type" ); return reinterpret_cast< PyTypeObject * >( callable )->tp_new( reinterpret_cast< PyTypeObject * >( callable ), nullptr, nullptr ); }
  ThingObject * t = object< ThingObject >( thingType ); passAll( t, f, a ... ); lastCallee = callable; lastFormat = f; return asObject( t );
}
constexpr std::size_t itemSize( int type ) { return type == NPY_BYTE || type == NPY_UBYTE || type == NPY_BOOL ? 1 : type == NPY_SHORT || type == NPY_USHORT ? 2 : type == NPY_INT || type == NPY_UINT || type == NPY_FLOAT ? 4 : type == NPY_LONGDOUBLE ? 16 : 8; }
template< class T > constexpr int typeNumber()
{
  return std::is_same< T, char >::value ? ( std::is_signed< char >::value ? NPY_BYTE : NPY_UBYTE ) : std::is_same< T, signed char >::value ? NPY_BYTE : std::is_same< T, unsigned char >::value ? NPY_UBYTE :
         std::is_same< T, short >::value ? NPY_SHORT : std::is_same< T, unsigned short >::value ? NPY_USHORT : std::is_same< T, int >::value ? NPY_INT : std::is_same< T, unsigned >::value ? NPY_UINT :
         std::is_same< T, long >::value ? NPY_LONG : std::is_same< T, unsigned long >::value ? NPY_ULONG : std::is_same< T, long long >::value ? NPY_LONGLONG : std::is_same< T, unsigned long long >::value ? NPY_ULONGLONG :
         std::is_same< T, float >::value ? NPY_FLOAT : std::is_same< T, double >::value ? NPY_DOUBLE : std::is_same< T, long double >::value ? NPY_LONGDOUBLE : NPY_NOTYPE;
}
// an array a Python program passes: values in the array's own memory
template< class T > PyArrayObject * newArray( int nd, npy_intp n, int flags = NPY_ARRAY_CARRAY | NPY_ARRAY_NOTSWAPPED, int type = typeNumber< T >() )
{
  PyArrayObject * a = object< PyArrayObject >( PyArray_Type ); a->nd = nd; npy_intp m = 1; for( int i = 0; i < nd; ++i ) { a->dimensions[ i ] = i == nd - 1 ? n : 1; m *= a->dimensions[ i ]; }
  for( int i = 0; i < nd; ++i ) a->strides[ i ] = sizeof( T ) * ( i == nd - 1 ? 1 : n );
  a->type = type; a->flags = flags | NPY_ARRAY_OWNDATA; a->data = static_cast< char * >( std::malloc( m > 0 ? m * sizeof( T ) : 1 ) ); return a;
}
template< class T > T * values( PyArrayObject * a ) { return reinterpret_cast< T * >( a->data ); }
template< class T > T * values( PyObject * a ) { return reinterpret_cast< T * >( reinterpret_cast< PyArrayObject * >( a )->data ); }
inline PyArrayObject * asArray( PyObject * o ) { if( o->ob_type != &PyArray_Type ) lv_abort( "not an ndarray" ); return reinterpret_cast< PyArrayObject * >( o ); }
template< class F > void byType( int type, F && f )
{
  switch( type )
  {
    case NPY_BYTE: f( static_cast< signed char >( 0 ) ); return; case NPY_UBYTE: f( static_cast< unsigned char >( 0 ) ); return; case NPY_SHORT: f( static_cast< short >( 0 ) ); return; case NPY_USHORT: f( static_cast< unsigned short >( 0 ) ); return;
    case NPY_INT: f( 0 ); return; case NPY_UINT: f( 0u ); return; case NPY_LONG: f( 0l ); return; case NPY_ULONG: f( 0ul ); return; case NPY_LONGLONG: f( 0ll ); return; case NPY_ULONGLONG: f( 0ull ); return;
    case NPY_FLOAT: f( 0.0f ); return; case NPY_DOUBLE: f( 0.0 ); return; default: lv_abort( "conversion of this type is not modelled" );
  }
}
// method NAME of a type
inline PyObject * method( PyTypeObject * t, char const * name, PyObject * self, PyObject * args )
{
  PyMethodDef const * m = t->tp_methods; while( m->ml_name && !equal( m->ml_name, name ) ) ++m; if( m->ml_name == nullptr ) lv_abort( "no method of this name" );
  if( m->ml_flags == METH_NOARGS ) { if( args && tupleSize( args ) != 0 ) lv_abort( "arguments to a method without" ); return m->ml_meth( self, nullptr ); }
  if( m->ml_flags != METH_VARARGS ) lv_abort( "calling convention that is not modelled" ); return m->ml_meth( self, args );
}
inline PyObject * rawTuple( Py_ssize_t n ) { PyTupleObject * t = object< PyTupleObject >( PyTuple_Type, sizeof( PyVarObject ) + 8 * static_cast< std::size_t >( n + 1 ) ); t->ob_base.ob_size = n; return asObject( t ); }
inline void fill( PyObject *, Py_ssize_t ) {}
template< class ... R > void fill( PyObject * t, Py_ssize_t i, PyObject * o, R ... rest ) { reinterpret_cast< PyTupleObject * >( t )->ob_item[ i ] = o; fill( t, i + 1, rest ... ); }
// a tuple of new references, which it takes over
template< class ... R > PyObject * tuple( R ... r ) { PyObject * t = rawTuple( sizeof...( r ) ); fill( t, 0, r ... ); return t; }
template< class ... R > PyObject * invoke( PyTypeObject * t, char const * name, PyObject * self, R ... r ) { PyObject * args = tuple( r ... ); PyObject * res = method( t, name, self, args ); Py_DECREF( args ); return res; }
// the interpreter's own check of a result: NULL and an exception, or an object and none
inline bool ok( PyObject * r ) { CHECK_MSG( ( r == nullptr ) == ( err != nullptr ), "a call returns NULL exactly when it sets an exception" ); return r != nullptr; }
inline bool raised( PyObject * r, PyObject * e ) { return r == nullptr && err == e; }
inline void clear() { err = nullptr; }
inline void start( int fail = -1 ) { calls = 0; failAt = fail; failed = 0; }
inline void stop() { failAt = -1; }
}

PyObject _Py_NoneStruct = { { 0xffffffff }, nullptr }, _Py_NotImplementedStruct = { { 0xffffffff }, nullptr };
#define LV_EXC( N, I ) PyObject * N = &lvpy::excType[ I ]
LV_EXC( PyExc_RuntimeError, 0 ); LV_EXC( PyExc_ValueError, 1 ); LV_EXC( PyExc_TypeError, 2 ); LV_EXC( PyExc_IndexError, 3 ); LV_EXC( PyExc_OverflowError, 4 ); LV_EXC( PyExc_MemoryError, 5 ); LV_EXC( PyExc_ImportError, 6 ); LV_EXC( PyExc_SystemError, 7 );
PyTypeObject PyType_Type, PyTuple_Type, PyList_Type, PyUnicode_Type, PyArray_Type;
static PyTypeObject lv_descrType;
extern "C"
{
void _Py_Dealloc( PyObject * o ) { destructor const d = o->ob_type->tp_dealloc; if( !d ) lv_abort( "destroyed an object that is not on the heap" ); d( o ); }
void PyErr_SetString( PyObject * t, char const * m ) { if( !t || !m ) lv_abort( "NULL passed" ); lvpy::err = t; }
void PyErr_SetNone( PyObject * t ) { lvpy::err = t; }
PyObject * PyErr_NoMemory() { lvpy::err = PyExc_MemoryError; return nullptr; }
PyObject * PyErr_Occurred() { return lvpy::err; }
void PyErr_Clear() { lvpy::err = nullptr; }
void PyErr_Print() { lvpy::err = nullptr; }
PyObject * PyLong_FromLongLong( long long v ) { if( lvpy::fails() ) return nullptr; return lvpy::integer( v ); }
PyObject * PyLong_FromLong( long v ) { return PyLong_FromLongLong( v ); }
PyObject * PyLong_FromSsize_t( Py_ssize_t v ) { return PyLong_FromLongLong( v ); }
PyObject * PyUnicode_FromString( char const * s ) { if( !s ) lv_abort( "NULL passed" ); if( lvpy::fails() ) return nullptr; lvpy::TextObject * t = lvpy::object< lvpy::TextObject >( PyUnicode_Type ); int i = 0; while( s[ i ] && i < 15 ) { t->t[ i ] = s[ i ]; ++i; } return lvpy::asObject( t ); }
PyObject * PyTuple_New( Py_ssize_t n ) { if( n < 0 ) lv_abort( "negative size" ); if( lvpy::fails() ) return nullptr; return lvpy::rawTuple( n ); }
PyObject * PyList_New( Py_ssize_t n ) { if( n < 0 ) { lvpy::err = PyExc_SystemError; return nullptr; } if( lvpy::fails() ) return nullptr; PyListObject * t = lvpy::object< PyListObject >( PyList_Type ); t->ob_base.ob_size = n; t->ob_item = static_cast< PyObject * * >( std::malloc( 8 * static_cast< std::size_t >( n + 1 ) ) ); std::memset( t->ob_item, 0, 8 * static_cast< std::size_t >( n + 1 ) ); return lvpy::asObject( t ); }
int PyObject_IsInstance( PyObject * o, PyObject * t ) { if( !o || !t ) lv_abort( "NULL passed" ); if( lvpy::fails() ) return -1; return lvpy::asObject( o->ob_type ) == t; }
PyObject * PyObject_CallObject( PyObject * f, PyObject * args ) { if( !f ) lv_abort( "NULL called" ); if( args && args->ob_type != &PyTuple_Type ) lv_abort( "arguments are not a tuple" ); if( lvpy::fails() ) return nullptr; lvpy::ThingObject * t = lvpy::object< lvpy::ThingObject >( lvpy::thingType ); if( args ) { Py_INCREF( args ); t->held[ 0 ] = args; t->n = 1; Py_INCREF( args ); lvpy::lastCallee = args; } return lvpy::asObject( t ); }
PyObject * PyObject_GetAttrString( PyObject * o, char const * name ) { if( !o || !name ) lv_abort( "NULL passed" ); if( lvpy::fails() ) return nullptr; lvpy::ThingObject * t = lvpy::object< lvpy::ThingObject >( lvpy::thingType ); t->name[ 0 ] = name; return lvpy::asObject( t ); }
PyObject * PyImport_ImportModule( char const * name ) { if( lvpy::fails( PyExc_ImportError ) ) return nullptr; lvpy::ThingObject * t = lvpy::object< lvpy::ThingObject >( lvpy::thingType ); t->name[ 0 ] = name; return lvpy::asObject( t ); }
PyObject * PyModule_Create2( PyModuleDef * d, int ) { if( !d ) lv_abort( "NULL passed" ); if( lvpy::fails() ) return nullptr; return lvpy::thing(); }
int PyModule_AddObject( PyObject * m, char const * name, PyObject * v ) { if( !m || !name ) lv_abort( "NULL passed" ); if( !v ) { if( !lvpy::err ) lvpy::err = PyExc_SystemError; return -1; } if( lvpy::fails() ) return -1; lvpy::ThingObject * t = reinterpret_cast< lvpy::ThingObject * >( m ); t->name[ t->n ] = name; t->held[ t->n++ ] = v; return 0; }
int PyModule_AddObjectRef( PyObject * m, char const * name, PyObject * v ) { int const r = PyModule_AddObject( m, name, v ); if( r == 0 ) Py_INCREF( v ); return r; }
static char const * lv_constantName[ 8 ]; static long lv_constantValue[ 8 ]; static int lv_constants;
int PyModule_AddIntConstant( PyObject * m, char const * name, long v ) { if( !m || !name ) lv_abort( "NULL passed" ); if( lvpy::fails() ) return -1; lv_constantName[ lv_constants ] = name; lv_constantValue[ lv_constants++ ] = v; return 0; }
void PyObject_Free( void * p ) { std::free( p ); }
PyObject * PyType_GenericAlloc( PyTypeObject * t, Py_ssize_t ) { return lvpy::object< PyObject >( *t, static_cast< std::size_t >( t->tp_basicsize ) ); }
PyObject * PyType_GenericNew( PyTypeObject * t, PyObject *, PyObject * ) { return t->tp_alloc( t, 0 ); }
int PyType_Ready( PyTypeObject * t ) { if( lvpy::fails() ) return -1; t->ob_base.ob_base.ob_type = &PyType_Type; if( !t->tp_free ) t->tp_free = PyObject_Free; if( !t->tp_alloc ) t->tp_alloc = PyType_GenericAlloc; return 0; }
}
static void * lv_api;
int _import_array() { if( lvpy::fails( PyExc_ImportError ) ) return -1; PyArray_API = &lv_api; return 0; }
inline void lv_needNumPy() { if( PyArray_API == nullptr ) lv_abort( "NumPy used before it was imported" ); }
PyArray_Descr * PyArray_DescrFromType( int type ) { lv_needNumPy(); if( type < 0 || type >= NPY_NTYPES ) { lvpy::err = PyExc_ValueError; return nullptr; } PyArray_Descr * d = lvpy::object< PyArray_Descr >( lv_descrType ); d->type = type; return d; }
PyObject * PyArray_TypeObjectFromType( int type ) { lv_needNumPy(); if( type < 0 || type >= NPY_NTYPES ) { lvpy::err = PyExc_ValueError; return nullptr; } if( lvpy::fails() ) return nullptr; PyObject * o = lvpy::asObject( &lvpy::scalarType[ type ] ); Py_INCREF( o ); return o; }
PyObject * PyArray_NewFromDescr( PyTypeObject * subtype, PyArray_Descr * descr, int nd, npy_intp const * dims, npy_intp const * strides, void * data, int flags, PyObject * base )
{
  lv_needNumPy(); if( descr == nullptr ) { lvpy::err = PyExc_TypeError; return nullptr; } int const type = descr->type; Py_DECREF( lvpy::asObject( descr ) );
  if( subtype != &PyArray_Type || base != nullptr || nd < 0 || nd > LVPY_MAX_DIMS || strides == nullptr ) lv_abort( "use of PyArray_NewFromDescr that is not modelled" );
  if( lvpy::fails() ) return nullptr;
  PyArrayObject * a = lvpy::object< PyArrayObject >( PyArray_Type ); a->nd = nd; for( int i = 0; i < nd; ++i ) { a->dimensions[ i ] = dims[ i ]; a->strides[ i ] = strides[ i ]; } a->type = type; a->flags = flags & ~NPY_ARRAY_OWNDATA; a->data = static_cast< char * >( data ); return lvpy::asObject( a );
}
int PyArray_Converter( PyObject * obj, PyObject * * address )
{
  lv_needNumPy(); if( obj == nullptr ) lv_abort( "NULL passed" ); if( PyArray_Check( obj ) ) { Py_INCREF( obj ); *address = obj; return NPY_SUCCEED; }
  if( lvpy::fails() ) return NPY_FAIL; if( obj->ob_type != &lvpy::longType ) { lvpy::err = PyExc_TypeError; return NPY_FAIL; }
  PyArrayObject * a = lvpy::newArray< long >( 0, 1 ); *lvpy::values< long >( a ) = lvpy::valueOfLong( obj ); *address = lvpy::asObject( a ); return NPY_SUCCEED;
}
int PyArray_CanCastSafely( int from, int to )
{
  lv_needNumPy(); if( from == to ) return 1; if( from < 0 || to < 0 || from > NPY_LONGDOUBLE || to > NPY_LONGDOUBLE ) return to == NPY_OBJECT;
  if( to == NPY_BOOL ) return 0; if( from == NPY_BOOL ) return 1; std::size_t const a = lvpy::itemSize( from ), b = lvpy::itemSize( to ); bool const realFrom = from >= NPY_FLOAT, realTo = to >= NPY_FLOAT;
  if( realFrom ) return realTo && b >= a; if( realTo ) return b > a || b >= 8; bool const signedFrom = from % 2 == 1, signedTo = to % 2 == 1;
  return signedFrom == signedTo ? b >= a : signedTo && b > a;
}
PyObject * PyArray_CastToType( PyArrayObject * a, PyArray_Descr * d, int )
{
  lv_needNumPy(); if( d == nullptr ) return nullptr; int const type = d->type; Py_DECREF( lvpy::asObject( d ) ); if( lvpy::fails() ) return nullptr;
  npy_intp const n = PyArray_SIZE( a ); PyArrayObject * r = nullptr;
  lvpy::byType( type, [&]( auto to ) { using To = decltype( to ); r = lvpy::newArray< To >( a->nd, n, NPY_ARRAY_CARRAY | NPY_ARRAY_NOTSWAPPED, type ); lvpy::byType( a->type, [&]( auto from ) { using From = decltype( from ); for( npy_intp i = 0; i < n; ++i ) lvpy::values< To >( r )[ i ] = static_cast< To >( lvpy::values< From >( a )[ i ] ); } ); } );
  return lvpy::asObject( r );
}
namespace lvpy
{
// what importing Python, NumPy and the module has done before a program uses the bindings
inline void ready( PyTypeObject * t ) { if( PyType_Ready( t ) != 0 ) lv_abort( "setup" ); }
inline void interpreter()
{
  err = nullptr; setDealloc( longType, plainDealloc, "int" ); setDealloc( thingType, thingDealloc, "object" ); setDealloc( PyTuple_Type, tupleDealloc, "tuple" ); setDealloc( PyList_Type, listDealloc, "list" ); setDealloc( PyUnicode_Type, plainDealloc, "str" );
  setDealloc( PyArray_Type, arrayDealloc, "numpy.ndarray" ); setDealloc( lv_descrType, plainDealloc, "numpy.dtype" ); setDealloc( PyType_Type, nullptr, "type" ); for( int i = 0; i < 32; ++i ) setDealloc( scalarType[ i ], nullptr, "numpy.generic" );
  start(); if( _import_array() != 0 ) lv_abort( "setup" );
}
}
