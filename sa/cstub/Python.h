/* What speedup.c may use, for the analysis only. */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#define NULL ((void *)0)
typedef long Py_ssize_t;
typedef unsigned long size_t;
typedef struct _object { Py_ssize_t ob_refcnt; } PyObject;
typedef struct _code { PyObject *co_name; PyObject *co_filename; } PyCodeObject;
typedef struct _frame {
    struct _frame *f_back; PyCodeObject *f_code; PyObject *f_globals;
    PyObject *f_locals; } PyFrameObject;
typedef struct _set { PyObject *x; } PySetObject;
typedef struct _list { PyObject **ob_item; } PyListObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags;
                 const char *ml_doc; } PyMethodDef;
typedef struct { int dummy; } PyModuleDef_Base;
struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name;
    const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; };
typedef struct PyModuleDef PyModuleDef;
#define PyModuleDef_HEAD_INIT {0}
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 9
#define PY_VERSION_HEX 0x03090000
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define PyMODINIT_FUNC PyObject *
extern PyObject *Py_None, *PyExc_TypeError, *PyExc_ValueError,
    *PyExc_RuntimeError, *PyExc_MemoryError, *PyExc_SystemError;
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_UnpackTuple(PyObject *, const char *, Py_ssize_t, Py_ssize_t, ...);
PyObject *PyModule_Create(PyModuleDef *);
PyObject *PyList_New(Py_ssize_t);
int PyList_Append(PyObject *, PyObject *);
int PyList_Insert(PyObject *, Py_ssize_t, PyObject *);
int PyList_Reverse(PyObject *);
Py_ssize_t PyList_Size(PyObject *);
Py_ssize_t PyList_GET_SIZE(PyObject *);
int PySet_Contains(PyObject *, PyObject *);
int PySequence_Contains(PyObject *, PyObject *);
Py_ssize_t PySet_Size(PyObject *);
Py_ssize_t PySet_GET_SIZE(PyObject *);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_NoMemory(void);
void Py_INCREF(void *);
void Py_DECREF(void *);
void Py_XINCREF(void *);
void Py_XDECREF(void *);
void Py_CLEAR(void *);
PyCodeObject *PyFrame_GetCode(PyFrameObject *);
PyFrameObject *PyFrame_GetBack(PyFrameObject *);
#define Py_RETURN_NONE return Py_None
#endif
