// Declarations of the part of the NumPy C interface an extension module may use, as ordinary functions.
#ifndef VF_NUMPY_STUB
#define VF_NUMPY_STUB
#include <Python.h>
typedef Py_ssize_t npy_intp;
typedef unsigned char npy_bool;
typedef struct _VfDescr { PyObject_HEAD int type_num; } PyArray_Descr;
typedef struct _VfArray { PyObject_HEAD char * data; int nd; npy_intp * dimensions; npy_intp * strides; PyObject * base; PyArray_Descr * descr; int flags; } PyArrayObject;
enum NPY_TYPES { NPY_BOOL = 0, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG,
                 NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE, NPY_CFLOAT, NPY_CDOUBLE, NPY_CLONGDOUBLE, NPY_OBJECT = 17, NPY_STRING, NPY_UNICODE, NPY_VOID,
                 NPY_DATETIME, NPY_TIMEDELTA, NPY_HALF, NPY_NTYPES, NPY_NOTYPE };
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_F_CONTIGUOUS 0x0002
#define NPY_ARRAY_OWNDATA 0x0004
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_ENSURECOPY 0x0020
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_NOTSWAPPED 0x0200
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_BEHAVED ( NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE )
#define NPY_ARRAY_CARRAY ( NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_BEHAVED )
#define NPY_ARRAY_CARRAY_RO ( NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED )
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_ARRAY NPY_ARRAY_CARRAY_RO
extern "C" {
extern void * * PyArray_API;
extern PyTypeObject PyArray_Type;
int _import_array( void );
int PyArray_NDIM( PyArrayObject const * );
void * PyArray_DATA( PyArrayObject const * );
char * PyArray_BYTES( PyArrayObject const * );
npy_intp * PyArray_DIMS( PyArrayObject const * );
npy_intp * PyArray_SHAPE( PyArrayObject const * );
npy_intp PyArray_DIM( PyArrayObject const *, int );
npy_intp * PyArray_STRIDES( PyArrayObject const * );
npy_intp PyArray_STRIDE( PyArrayObject const *, int );
npy_intp PyArray_ITEMSIZE( PyArrayObject const * );
npy_intp PyArray_SIZE( PyArrayObject * );
npy_intp PyArray_NBYTES( PyArrayObject * );
int PyArray_TYPE( PyArrayObject const * );
int PyArray_FLAGS( PyArrayObject const * );
int PyArray_CHKFLAGS( PyArrayObject const *, int );
PyObject * PyArray_BASE( PyArrayObject const * );
PyArray_Descr * PyArray_DESCR( PyArrayObject const * );
int PyArray_ISCARRAY( PyArrayObject const * );
int PyArray_ISCARRAY_RO( PyArrayObject const * );
int PyArray_ISCONTIGUOUS( PyArrayObject const * );
int PyArray_IS_C_CONTIGUOUS( PyArrayObject const * );
int PyArray_ISBEHAVED( PyArrayObject const * );
int PyArray_ISALIGNED( PyArrayObject const * );
int PyArray_ISWRITEABLE( PyArrayObject const * );
int PyArray_Check( void const * );
int PyArray_CheckExact( void const * );
int PyArray_CanCastSafely( int, int );
int PyArray_Converter( PyObject *, PyObject * * );
PyObject * PyArray_Cast( PyArrayObject *, int );
PyObject * PyArray_CastToType( PyArrayObject *, PyArray_Descr *, int );
PyArray_Descr * PyArray_DescrFromType( int );
PyObject * PyArray_TypeObjectFromType( int );
PyObject * PyArray_NewFromDescr( PyTypeObject *, PyArray_Descr *, int, npy_intp const *, npy_intp const *, void *, int, PyObject * );
PyObject * PyArray_New( PyTypeObject *, int, npy_intp const *, int, npy_intp const *, void *, int, int, PyObject * );
PyObject * PyArray_SimpleNewFromData( int, npy_intp const *, int, void * );
PyObject * PyArray_FromAny( PyObject *, PyArray_Descr *, int, int, int, PyObject * );
PyObject * PyArray_FROM_O( PyObject * );
PyObject * PyArray_FROM_OT( PyObject *, int );
PyObject * PyArray_FROM_OTF( PyObject *, int, int );
int PyArray_SetBaseObject( PyArrayObject *, PyObject * );
void PyArray_ENABLEFLAGS( PyArrayObject *, int );
void PyArray_CLEARFLAGS( PyArrayObject *, int );
}
#define import_array1( ret ) { if( _import_array() < 0 ) { PyErr_Print(); PyErr_SetString( PyExc_ImportError, "numpy.core.multiarray failed to import" ); return ret; } }
#define import_array() import_array1( NULL )
#endif
