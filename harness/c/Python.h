/* A model of the part of the Python C API an extension like speedup.c may use.
   The objects and the functions behave as documented; every function that may fail
   for lack of memory (or because a lookup raises) fails when the harness says so. */
#ifndef VT_PYTHON_H
#define VT_PYTHON_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 9
#define PY_VERSION_HEX 0x03090000
#define PyMODINIT_FUNC PyObject *
#define PyAPI_FUNC(x) x
#define PyAPI_DATA(x) extern x
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_O 8
#define METH_NOARGS 4
#define METH_FASTCALL 0x80

typedef ptrdiff_t Py_ssize_t;
typedef struct _typeobject { const char *tp_name; } PyTypeObject;
typedef struct _object { Py_ssize_t ob_refcnt; PyTypeObject *ob_type; } PyObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct PyMethodDef {
    const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc;
} PyMethodDef;
typedef struct PyModuleDef {
    PyObject m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size;
    PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free;
} PyModuleDef;
#define PyModuleDef_HEAD_INIT {1, NULL}

#ifndef VT_CAP
#define VT_CAP 8
#endif
typedef struct { PyObject ob_base; Py_ssize_t ob_size; PyObject *ob_item[VT_CAP]; } PyListObject;
typedef struct { PyObject ob_base; Py_ssize_t ob_size; PyObject *ob_item[5]; } PyTupleObject;
typedef struct { PyObject ob_base; int vt_which; } PySetObject;
typedef struct { PyObject ob_base; int vt_number; } PyCodeObject;
typedef struct _frame {
    PyObject ob_base; struct _frame *f_back; PyCodeObject *f_code; int f_lineno; int vt_number;
} PyFrameObject;

extern PyTypeObject PyList_Type, PyTuple_Type, PySet_Type, PyCode_Type, PyFrame_Type,
    PyNone_Type;
extern PyObject _Py_NoneStruct;
extern PyObject *PyExc_TypeError, *PyExc_MemoryError, *PyExc_ValueError, *PyExc_RuntimeError,
    *PyExc_SystemError, *PyExc_IndexError;
#define Py_None (&_Py_NoneStruct)
#define Py_REFCNT(o) (((PyObject *)(o))->ob_refcnt)
#define Py_TYPE(o) (((PyObject *)(o))->ob_type)
#define Py_SIZE(o) (((PyListObject *)(o))->ob_size)

void vt_incref(PyObject *);
void vt_decref(PyObject *);
#define Py_INCREF(o) vt_incref((PyObject *)(o))
#define Py_DECREF(o) vt_decref((PyObject *)(o))
#define Py_XINCREF(o) do { PyObject *vt_o = (PyObject *)(o); if (vt_o) vt_incref(vt_o); } while (0)
#define Py_XDECREF(o) do { PyObject *vt_o = (PyObject *)(o); if (vt_o) vt_decref(vt_o); } while (0)
#define Py_CLEAR(o) do { PyObject *vt_o = (PyObject *)(o); (o) = NULL; if (vt_o) vt_decref(vt_o); } while (0)
#define Py_SETREF(o, n) do { PyObject *vt_o = (PyObject *)(o); (o) = (n); vt_decref(vt_o); } while (0)
#define Py_XSETREF(o, n) do { PyObject *vt_o = (PyObject *)(o); (o) = (n); if (vt_o) vt_decref(vt_o); } while (0)
static inline PyObject *vt_newref(PyObject *o) { vt_incref(o); return o; }
#define Py_NewRef(o) vt_newref((PyObject *)(o))
#define Py_RETURN_NONE do { vt_incref(Py_None); return Py_None; } while (0)
#define Py_UNUSED(x) x
#define _PyCFunction_CAST(f) ((PyCFunction)(void (*)(void))(f))

PyObject *PyModule_Create(PyModuleDef *);
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_UnpackTuple(PyObject *, const char *, Py_ssize_t, Py_ssize_t, ...);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t);
Py_ssize_t PyTuple_Size(PyObject *);
#define PyTuple_GET_ITEM(t, i) (((PyTupleObject *)(t))->ob_item[i])
#define PyTuple_GET_SIZE(t) (((PyTupleObject *)(t))->ob_size)

PyObject *PyList_New(Py_ssize_t);
int PyList_Append(PyObject *, PyObject *);
int PyList_Insert(PyObject *, Py_ssize_t, PyObject *);
int PyList_Reverse(PyObject *);
int PyList_SetItem(PyObject *, Py_ssize_t, PyObject *);
PyObject *PyList_GetItem(PyObject *, Py_ssize_t);
Py_ssize_t PyList_Size(PyObject *);
int PyList_SetSlice(PyObject *, Py_ssize_t, Py_ssize_t, PyObject *);
#define PyList_GET_SIZE(l) (((PyListObject *)(l))->ob_size)
#define PyList_GET_ITEM(l, i) (((PyListObject *)(l))->ob_item[i])
#define PyList_SET_ITEM(l, i, v) (((PyListObject *)(l))->ob_item[i] = (PyObject *)(v))
int PySet_Contains(PyObject *, PyObject *);
int PySequence_Contains(PyObject *, PyObject *);
Py_ssize_t PySet_Size(PyObject *);
#define PySet_GET_SIZE(s) PySet_Size((PyObject *)(s))

#define Py_LT 0
#define Py_LE 1
#define Py_EQ 2
#define Py_NE 3
#define Py_GT 4
#define Py_GE 5
extern PyObject _Py_TrueStruct, _Py_FalseStruct;
#define Py_True (&_Py_TrueStruct)
#define Py_False (&_Py_FalseStruct)
#define Py_Is(x, y) ((PyObject *)(x) == (PyObject *)(y))
#define Py_IsNone(x) Py_Is(x, Py_None)
#define Py_IsTrue(x) Py_Is(x, Py_True)
#define Py_IsFalse(x) Py_Is(x, Py_False)
int PyObject_RichCompareBool(PyObject *, PyObject *, int);
PyObject *PyObject_RichCompare(PyObject *, PyObject *, int);
int PyObject_IsTrue(PyObject *);
int PyObject_Not(PyObject *);
PyObject *PyObject_GetAttrString(PyObject *, const char *);
void *PyMem_Malloc(size_t);
void *PyMem_Realloc(void *, size_t);
void PyMem_Free(void *);
#define PyMem_New(type, n) ((type *)PyMem_Malloc((n) * sizeof(type)))
#define PyMem_Del PyMem_Free

PyObject *PyErr_Occurred(void);
int PyErr_ExceptionMatches(PyObject *);
void PyErr_Clear(void);
PyObject *PyErr_NoMemory(void);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);

#define PyList_Check(o) (Py_TYPE(o) == &PyList_Type)
#define PyList_CheckExact PyList_Check
#define PyTuple_Check(o) (Py_TYPE(o) == &PyTuple_Type)
#define PyFrame_Check(o) (Py_TYPE(o) == &PyFrame_Type)
#define PyCode_Check(o) (Py_TYPE(o) == &PyCode_Type)
#define PyAnySet_Check(o) (Py_TYPE(o) == &PySet_Type)
#define PySet_Check PyAnySet_Check
PyFrameObject *PyFrame_GetBack(PyFrameObject *);
PyCodeObject *PyFrame_GetCode(PyFrameObject *);
#endif
