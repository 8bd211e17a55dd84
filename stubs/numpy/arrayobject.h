// Stand-in for the part of the NumPy C interface that src/python uses (NumPy is not installed here); the functions are in harness/py.hpp.
#pragma once
#include <Python.h>
typedef Py_intptr_t npy_intp;
enum NPY_TYPES { NPY_BOOL = 0, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG, NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE,
                 NPY_CFLOAT, NPY_CDOUBLE, NPY_CLONGDOUBLE, NPY_OBJECT = 17, NPY_STRING, NPY_UNICODE, NPY_VOID, NPY_DATETIME, NPY_TIMEDELTA, NPY_HALF, NPY_NTYPES, NPY_NOTYPE };
#define NPY_FAIL 0
#define NPY_SUCCEED 1
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_F_CONTIGUOUS 0x0002
#define NPY_ARRAY_OWNDATA 0x0004
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_NOTSWAPPED 0x0200
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_BEHAVED ( NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE )
#define NPY_ARRAY_CARRAY ( NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_BEHAVED )
#define NPY_ARRAY_CARRAY_RO ( NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED )
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
constexpr int LVPY_MAX_DIMS = 4;
struct PyArrayObject { PyObject_HEAD char * data; int nd; npy_intp dimensions[ LVPY_MAX_DIMS ]; npy_intp strides[ LVPY_MAX_DIMS ]; int type; int flags; };
struct PyArray_Descr { PyObject_HEAD int type; };
extern PyTypeObject PyArray_Type;
static void ** PyArray_API;
int _import_array();
#define import_array1( RET ) { if( _import_array() < 0 ) { PyErr_Print(); PyErr_SetString( PyExc_ImportError, "numpy.core.multiarray failed to import" ); return RET; } }
#define import_array() { if( _import_array() < 0 ) { PyErr_Print(); PyErr_SetString( PyExc_ImportError, "numpy.core.multiarray failed to import" ); return nullptr; } }
PyObject * PyArray_NewFromDescr( PyTypeObject * subtype, PyArray_Descr * descr, int nd, npy_intp const * dims, npy_intp const * strides, void * data, int flags, PyObject * obj );
PyObject * PyArray_New( PyTypeObject * subtype, int nd, npy_intp const * dims, int type, npy_intp const * strides, void * data, int itemsize, int flags, PyObject * obj );
PyArray_Descr * PyArray_DescrFromType( int type );
PyObject * PyArray_TypeObjectFromType( int type );
int PyArray_Converter( PyObject * obj, PyObject * * address );
int PyArray_CanCastSafely( int from, int to );
PyObject * PyArray_CastToType( PyArrayObject * a, PyArray_Descr * d, int fortran );
#define PyArray_Cast( A, TYPE ) PyArray_CastToType( A, PyArray_DescrFromType( TYPE ), 0 )
inline int PyArray_NDIM( PyArrayObject const * a ) { return a->nd; }
inline int PyArray_TYPE( PyArrayObject const * a ) { return a->type; }
inline int PyArray_FLAGS( PyArrayObject const * a ) { return a->flags; }
inline void * PyArray_DATA( PyArrayObject * a ) { return a->data; }
inline npy_intp * PyArray_DIMS( PyArrayObject * a ) { return a->dimensions; }
inline npy_intp PyArray_DIM( PyArrayObject const * a, int i ) { return a->dimensions[ i ]; }
inline npy_intp * PyArray_STRIDES( PyArrayObject * a ) { return a->strides; }
inline bool PyArray_ISNOTSWAPPED( PyArrayObject const * a ) { return ( a->flags & NPY_ARRAY_NOTSWAPPED ) != 0; }
inline bool PyArray_CHKFLAGS( PyArrayObject const * a, int f ) { return ( a->flags & f ) == f; }
inline bool PyArray_ISCARRAY( PyArrayObject const * a ) { return PyArray_CHKFLAGS( a, NPY_ARRAY_CARRAY ) && PyArray_ISNOTSWAPPED( a ); }
inline bool PyArray_ISCARRAY_RO( PyArrayObject const * a ) { return PyArray_CHKFLAGS( a, NPY_ARRAY_CARRAY_RO ) && PyArray_ISNOTSWAPPED( a ); }
inline bool PyArray_ISCONTIGUOUS( PyArrayObject const * a ) { return PyArray_CHKFLAGS( a, NPY_ARRAY_C_CONTIGUOUS ); }
inline bool PyArray_ISBEHAVED( PyArrayObject const * a ) { return PyArray_CHKFLAGS( a, NPY_ARRAY_BEHAVED ) && PyArray_ISNOTSWAPPED( a ); }
inline bool PyArray_ISALIGNED( PyArrayObject const * a ) { return PyArray_CHKFLAGS( a, NPY_ARRAY_ALIGNED ); }
inline bool PyArray_ISWRITEABLE( PyArrayObject const * a ) { return PyArray_CHKFLAGS( a, NPY_ARRAY_WRITEABLE ); }
inline npy_intp PyArray_SIZE( PyArrayObject const * a ) { npy_intp n = 1; for( int i = 0; i < a->nd; ++i ) n *= a->dimensions[ i ]; return n; }
#define PyArray_Check( O ) ( Py_TYPE( O ) == &PyArray_Type )
