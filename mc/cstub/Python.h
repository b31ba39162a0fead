/* A miniature of the CPython API, just enough to run profiling/speedup.c on
 * enumerated stacks. */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 6
#define PY_VERSION_HEX 0x03060000

typedef ptrdiff_t Py_ssize_t;
typedef struct _object {
    long ob_refcnt;
    int kind;
    Py_ssize_t size;
    struct _object **items;
} PyObject;
typedef PyObject PyCodeObject;
typedef PyObject PySetObject;
typedef PyObject PyListObject;
typedef struct _frame {
    PyObject ob_base;
    PyCodeObject *f_code;
    struct _frame *f_back;
    int f_lineno;
} PyFrameObject;

extern PyObject _Py_NoneStruct;
#define Py_None (&_Py_NoneStruct)
#define Py_INCREF(o) (((PyObject *)(o))->ob_refcnt++)
#define Py_DECREF(o) (((PyObject *)(o))->ob_refcnt--)
#define Py_XINCREF(o) do { if (o) Py_INCREF(o); } while (0)
#define Py_XDECREF(o) do { if (o) Py_DECREF(o); } while (0)
#define Py_CLEAR(o) do { Py_XDECREF(o); (o) = NULL; } while (0)
#define Py_RETURN_NONE return Py_INCREF(Py_None), Py_None

static inline PyObject *stub_new(int kind)
{
    PyObject *o = calloc(1, sizeof(PyObject));
    o->ob_refcnt = 1;
    o->kind = kind;
    return o;
}
static inline PyObject *PyList_New(Py_ssize_t n)
{
    PyObject *o = stub_new(1);
    o->size = n;
    o->items = calloc(n + 1, sizeof(PyObject *));
    return o;
}
static inline int PyList_Insert(PyObject *l, Py_ssize_t at, PyObject *x)
{
    if (at > l->size) at = l->size;
    if (at < 0) at = at + l->size < 0 ? 0 : at + l->size;
    l->items = realloc(l->items, (l->size + 1) * sizeof(PyObject *));
    memmove(l->items + at + 1, l->items + at,
            (l->size - at) * sizeof(PyObject *));
    l->items[at] = x;
    l->size++;
    Py_INCREF(x);
    return 0;
}
static inline int PyList_Append(PyObject *l, PyObject *x)
{
    return PyList_Insert(l, l->size, x);
}
static inline int PyList_Reverse(PyObject *l)
{
    Py_ssize_t i;
    for (i = 0; i < l->size / 2; i++) {
        PyObject *t = l->items[i];
        l->items[i] = l->items[l->size - 1 - i];
        l->items[l->size - 1 - i] = t;
    }
    return 0;
}
static inline Py_ssize_t PyList_Size(PyObject *l) { return l->size; }
#define PyList_GET_SIZE(l) (((PyObject *)(l))->size)
#define Py_SIZE(l) (((PyObject *)(l))->size)
static inline PyObject *PyList_GetItem(PyObject *l, Py_ssize_t i)
{
    return l->items[i];
}
#define PyList_GET_ITEM(l, i) (((PyObject *)(l))->items[i])
static inline int PyList_SetItem(PyObject *l, Py_ssize_t i, PyObject *x)
{
    l->items[i] = x;
    return 0;
}
#define PyList_SET_ITEM(l, i, x) (((PyObject *)(l))->items[i] = (x))
static inline int PySet_Contains(PyObject *s, PyObject *x)
{
    Py_ssize_t i;
    if (s->kind != 2) return -1;
    for (i = 0; i < s->size; i++)
        if (s->items[i] == x) return 1;
    return 0;
}
#define PySequence_Contains PySet_Contains
static inline Py_ssize_t PySet_Size(PyObject *s) { return s->size; }
#define PySet_GET_SIZE(s) (((PyObject *)(s))->size)
static inline int PyArg_ParseTuple(PyObject *args, const char *fmt, ...)
{
    va_list ap;
    Py_ssize_t i = 0;
    va_start(ap, fmt);
    for (; *fmt && *fmt != ':' && *fmt != ';'; fmt++) {
        if (*fmt != 'O' || i >= args->size) { va_end(ap); return 0; }
        *va_arg(ap, PyObject **) = args->items[i++];
    }
    va_end(ap);
    return i == args->size;
}
#define PyTuple_GET_ITEM(t, i) (((PyObject *)(t))->items[i])
#define PyTuple_GET_SIZE(t) (((PyObject *)(t))->size)
static inline PyFrameObject *PyFrame_GetBack(PyFrameObject *f)
{
    return f->f_back;
}
static inline PyCodeObject *PyFrame_GetCode(PyFrameObject *f)
{
    return f->f_code;
}
static inline void *PyErr_Occurred(void) { return NULL; }

typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct {
    const char *ml_name;
    PyCFunction ml_meth;
    int ml_flags;
    const char *ml_doc;
} PyMethodDef;
#define METH_VARARGS 1
struct PyModuleDef { int base; const char *name; const char *doc; long size;
                     PyMethodDef *methods; };
typedef struct PyModuleDef PyModuleDef;
#define PyModuleDef_HEAD_INIT 0
#define PyMODINIT_FUNC struct PyModuleDef *
static inline struct PyModuleDef *PyModule_Create(struct PyModuleDef *d)
{
    return d;
}
#endif
