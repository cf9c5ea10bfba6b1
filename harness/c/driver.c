/* Runs the frame_stack() of speedup.c on an arbitrary chain of frames.

   CBMC: the inputs are nondeterministic, `CHECK` is an assertion.
   REPLAY: the inputs come from the command line, `CHECK` ends the program.

   VT_N frames at most, VT_M codes. */
#include "Python.h"

#ifndef VT_N
#define VT_N 4
#endif
#ifndef VT_M
#define VT_M 3
#endif

#ifdef REPLAY
#include <stdio.h>
static int vt_argc, vt_argi; static char **vt_argv;
static int input(void) { return vt_argi < vt_argc ? atoi(vt_argv[vt_argi++]) : 0; }
#define CHECK(c, label) do { if (!(c)) { printf("FAIL %s\n", label); exit(1); } } while (0)
#define ASSUME(c) do { if (!(c)) { printf("OUTSIDE\n"); exit(3); } } while (0)
#else
int nondet_int(void);
static int input(void) { return nondet_int(); }
#define CHECK(c, label) __CPROVER_assert(c, label)
#define ASSUME(c) __CPROVER_assume(c)
#endif

/* inputs */
int in_n;                   /* frames in the chain; 0: there is no frame (None) */
int in_code[VT_N];          /* the code of each frame; frame 0 is the innermost */
int in_ign_frame[VT_N];     /* is the frame ignored */
int in_ign_code[VT_M];      /* is the code ignored */
int in_base;                /* -1: None, VT_N: a frame out of the chain */
int in_base_code;           /* -1: None, VT_M: another code */
int in_equal;               /* are the codes 0 and 1 equal (they are never the same) */
int in_fail;                /* which call that can fail does fail; 0: none */

/* the objects */
PyTypeObject PyList_Type = {"list"}, PyTuple_Type = {"tuple"}, PySet_Type = {"set"},
    PyCode_Type = {"code"}, PyFrame_Type = {"frame"}, PyNone_Type = {"NoneType"},
    Error_Type = {"type"};
PyObject _Py_NoneStruct = {1000, &PyNone_Type};
PyObject _Py_TrueStruct = {1000, NULL}, _Py_FalseStruct = {1000, NULL};
static PyObject errors[6] = {{1000, &Error_Type}, {1000, &Error_Type}, {1000, &Error_Type},
                             {1000, &Error_Type}, {1000, &Error_Type}, {1000, &Error_Type}};
PyObject *PyExc_TypeError = &errors[0], *PyExc_MemoryError = &errors[1],
    *PyExc_ValueError = &errors[2], *PyExc_RuntimeError = &errors[3],
    *PyExc_SystemError = &errors[4], *PyExc_IndexError = &errors[5];
/* separate blocks, so that an overrun is seen */
static PyFrameObject *frames[VT_N + 1];
static PyCodeObject *codes[VT_M + 1];
#define VT_LISTS 3
static PyListObject *lists[VT_LISTS];   /* the lists that were made */
static int lists_made;
static PySetObject set_frames = {{10, &PySet_Type}, 0}, set_codes = {{10, &PySet_Type}, 1};
static PyTupleObject args = {{10, &PyTuple_Type}, 5, {0}};
static PyObject module_object = {10, NULL};
static PyModuleDef *module_def;

static int failures, fallible, lists_live;
static PyObject *error;

static int fails(void)
{
    fallible++;
    if (fallible == in_fail) { failures++; error = PyExc_MemoryError; return 1; }
    return 0;
}

void vt_incref(PyObject *o)
{
    CHECK(o != NULL && o->ob_refcnt > 0, "only living objects are referenced");
    o->ob_refcnt++;
}

void vt_decref(PyObject *o)
{
    CHECK(o != NULL && o->ob_refcnt > 0, "only living objects are released");
    if (--o->ob_refcnt > 0) return;
    for (int k = 0; k < VT_LISTS; k++)
        if (k < lists_made && o == (PyObject *)lists[k]) {
            PyListObject *l = lists[k];
            for (Py_ssize_t i = 0; i < VT_CAP; i++)
                if (i < l->ob_size && l->ob_item[i] != NULL) {
                    PyObject *x = l->ob_item[i];
                    CHECK(x->ob_refcnt > 1, "no object of somebody else is released");
                    x->ob_refcnt--;
                }
            lists_live--;
            free(l);
            return;
        }
    CHECK(0, "no object of somebody else is released");
}

PyObject *PyModule_Create(PyModuleDef *def) { module_def = def; return &module_object; }

PyObject *PyErr_Occurred(void) { return error; }
void PyErr_Clear(void) { error = NULL; }
int PyErr_ExceptionMatches(PyObject *e) { return error == e; }
PyObject *PyErr_NoMemory(void) { error = PyExc_MemoryError; return NULL; }
void PyErr_SetString(PyObject *e, const char *s) { error = e; }
PyObject *PyErr_Format(PyObject *e, const char *s, ...) { error = e; return NULL; }

int PyArg_ParseTuple(PyObject *a, const char *format, ...)
{
    PyTupleObject *t = (PyTupleObject *)a;
    CHECK(a == (PyObject *)&args, "the arguments are parsed");
    if (fails()) return 0;
    va_list va;
    va_start(va, format);
    int used = 0;
    for (const char *f = format; *f && *f != ':' && *f != ';'; f++) {
        if (*f == '|') continue;
        CHECK(*f == 'O', "the format is one the model knows");
        CHECK(used < 5, "no more arguments than there are");
        PyTypeObject *type = NULL;
        if (f[1] == '!') { type = va_arg(va, PyTypeObject *); f++; }
        PyObject **out = va_arg(va, PyObject **);
        if (type != NULL && t->ob_item[used]->ob_type != type) {
            error = PyExc_TypeError;
            va_end(va);
            return 0;
        }
        *out = t->ob_item[used++];
    }
    va_end(va);
    CHECK(used == 5, "all the arguments are parsed");
    return 1;
}

int PyArg_UnpackTuple(PyObject *a, const char *name, Py_ssize_t min, Py_ssize_t max, ...)
{
    PyTupleObject *t = (PyTupleObject *)a;
    CHECK(a == (PyObject *)&args && min <= 5 && max >= 5, "the arguments are parsed");
    if (fails()) return 0;
    va_list va;
    va_start(va, max);
    for (int i = 0; i < 5; i++) *va_arg(va, PyObject **) = t->ob_item[i];
    va_end(va);
    return 1;
}

PyObject *PyTuple_GetItem(PyObject *t, Py_ssize_t i)
{
    if (i < 0 || i >= 5) { error = PyExc_IndexError; return NULL; }
    return ((PyTupleObject *)t)->ob_item[i];
}
Py_ssize_t PyTuple_Size(PyObject *t) { return ((PyTupleObject *)t)->ob_size; }

static PyListObject *list(PyObject *o)
{
    CHECK(o != NULL && o->ob_refcnt > 0 && o->ob_type == &PyList_Type, "a living list is used");
    return (PyListObject *)o;
}

PyObject *PyList_New(Py_ssize_t n)
{
    if (fails()) return NULL;
    ASSUME(n >= 0 && n <= VT_CAP);
    PyListObject *l = malloc(sizeof *l);
    ASSUME(l != NULL);
    CHECK(lists_made < VT_LISTS, "bound (unwinding): the model has room for the list");
    lists[lists_made++] = l;
    l->ob_base.ob_refcnt = 1;
    l->ob_base.ob_type = &PyList_Type;
    l->ob_size = n;
    for (int i = 0; i < VT_CAP; i++) l->ob_item[i] = NULL;
    lists_live++;
    return (PyObject *)l;
}

int PyList_Insert(PyObject *o, Py_ssize_t at, PyObject *x)
{
    PyListObject *l = list(o);
    if (fails()) return -1;
    CHECK(l->ob_size < VT_CAP, "no more items than frames");
    if (at < 0) { at += l->ob_size; if (at < 0) at = 0; }
    if (at > l->ob_size) at = l->ob_size;
    vt_incref(x);
    for (Py_ssize_t i = VT_CAP - 1; i > 0; i--)
        if (i <= l->ob_size && i > at) l->ob_item[i] = l->ob_item[i - 1];
    l->ob_item[at] = x;
    l->ob_size++;
    return 0;
}

int PyList_Append(PyObject *o, PyObject *x)
{
    PyListObject *l = list(o);
    if (fails()) return -1;
    CHECK(l->ob_size < VT_CAP, "no more items than frames");
    vt_incref(x);
    l->ob_item[l->ob_size++] = x;
    return 0;
}

int PyList_Reverse(PyObject *o)
{
    PyListObject *l = list(o);
    for (Py_ssize_t i = 0; i < VT_CAP / 2; i++)
        if (2 * i + 1 < l->ob_size) {
            PyObject *x = l->ob_item[i];
            l->ob_item[i] = l->ob_item[l->ob_size - 1 - i];
            l->ob_item[l->ob_size - 1 - i] = x;
        }
    return 0;
}

int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *x)
{
    PyListObject *l = list(o);
    if (i < 0 || i >= l->ob_size) { vt_decref(x); error = PyExc_IndexError; return -1; }
    PyObject *old = l->ob_item[i];
    l->ob_item[i] = x;
    if (old) vt_decref(old);
    return 0;
}

PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i)
{
    PyListObject *l = list(o);
    if (i < 0 || i >= l->ob_size) { error = PyExc_IndexError; return NULL; }
    return l->ob_item[i];
}

Py_ssize_t PyList_Size(PyObject *o) { return list(o)->ob_size; }

int PyList_SetSlice(PyObject *o, Py_ssize_t low, Py_ssize_t high, PyObject *v)
{
    PyListObject *l = list(o);
    ASSUME(v == NULL && high >= l->ob_size && low >= 0);      /* cutting the end off */
    for (Py_ssize_t i = 0; i < VT_CAP; i++)
        if (i >= low && i < l->ob_size && l->ob_item[i]) vt_decref(l->ob_item[i]);
    if (low < l->ob_size) l->ob_size = low;
    return 0;
}

int PySet_Contains(PyObject *o, PyObject *x)
{
    CHECK(o == (PyObject *)&set_frames || o == (PyObject *)&set_codes, "looked up in a set");
    CHECK(x != NULL && x->ob_refcnt > 0, "a living object is looked up");
    if (fails()) return -1;
    for (int i = 0; i < VT_N; i++)
        if (x == (PyObject *)frames[i]) return o == (PyObject *)&set_frames && in_ign_frame[i];
    for (int i = 0; i < VT_M; i++)
        if (x == (PyObject *)codes[i]) return o == (PyObject *)&set_codes && in_ign_code[i];
    return 0;
}
int PySequence_Contains(PyObject *o, PyObject *x) { return PySet_Contains(o, x); }

Py_ssize_t PySet_Size(PyObject *o)
{
    Py_ssize_t n = 0;
    for (int i = 0; i < VT_N; i++) n += o == (PyObject *)&set_frames && in_ign_frame[i];
    for (int i = 0; i < VT_M; i++) n += o == (PyObject *)&set_codes && in_ign_code[i];
    return n;
}

int PyObject_RichCompareBool(PyObject *a, PyObject *b, int op)
{
    CHECK(a != NULL && b != NULL && a->ob_refcnt > 0 && b->ob_refcnt > 0,
          "living objects are compared");
    int same = a == b;
    if (!same) {
        if (fails()) return -1;
        if (in_equal)
            same = (a == (PyObject *)codes[0] && b == (PyObject *)codes[1]) ||
                   (b == (PyObject *)codes[0] && a == (PyObject *)codes[1]);
    }
    if (op == Py_EQ) return same;
    if (op == Py_NE) return !same;
    error = PyExc_TypeError;
    return -1;
}
PyObject *PyObject_RichCompare(PyObject *a, PyObject *b, int op)
{
    int r = PyObject_RichCompareBool(a, b, op);
    if (r < 0) return NULL;
    return vt_newref(r ? Py_True : Py_False);
}
int PyObject_IsTrue(PyObject *o) { return !(o == Py_False || o == Py_None); }
int PyObject_Not(PyObject *o) { return !PyObject_IsTrue(o); }
PyObject *PyObject_GetAttrString(PyObject *o, const char *name)
{
    CHECK(o != NULL && o->ob_refcnt > 0 && o->ob_type == &PyFrame_Type, "a living frame");
    if (fails()) return NULL;
    PyFrameObject *f = (PyFrameObject *)o;
    if (!strcmp(name, "f_code")) return vt_newref((PyObject *)f->f_code);
    CHECK(!strcmp(name, "f_back"), "an attribute the model knows");
    return vt_newref(f->f_back ? (PyObject *)f->f_back : Py_None);
}
static int blocks_live;
void *PyMem_Malloc(size_t n)
{
    if (fails()) { error = NULL; return NULL; }
    void *p = malloc(n ? n : 1);
    ASSUME(p != NULL);
    blocks_live++;
    return p;
}
void *PyMem_Realloc(void *p, size_t n)
{
    if (fails()) { error = NULL; return NULL; }
    if (p == NULL) blocks_live++;
    p = realloc(p, n ? n : 1);
    ASSUME(p != NULL);
    return p;
}
void PyMem_Free(void *p) { if (p) { blocks_live--; free(p); } }

PyFrameObject *PyFrame_GetBack(PyFrameObject *f)
{
    CHECK(f->ob_base.ob_type == &PyFrame_Type, "a frame");
    if (f->f_back) vt_incref((PyObject *)f->f_back);
    return f->f_back;
}
PyCodeObject *PyFrame_GetCode(PyFrameObject *f)
{
    CHECK(f->ob_base.ob_type == &PyFrame_Type, "a frame");
    vt_incref((PyObject *)f->f_code);
    return f->f_code;
}

PyObject *PyInit_speedup(void);

int main(int argc, char **argv)
{
    int i;
#ifdef REPLAY
    vt_argc = argc; vt_argv = argv; vt_argi = 1;
#endif
    in_n = input();
    in_base = input();
    in_base_code = input();
    in_fail = input();
    in_equal = input();
#ifdef NOFAIL
    in_fail = 0;
#endif
    for (i = 0; i < VT_N; i++) { in_code[i] = input(); in_ign_frame[i] = input(); }
    for (i = 0; i < VT_M; i++) in_ign_code[i] = input();
    ASSUME(in_n >= 0 && in_n <= VT_N);
    ASSUME(in_base >= -1 && in_base <= VT_N);
    ASSUME(in_base_code >= -1 && in_base_code <= VT_M);
    ASSUME(in_fail >= 0);
    ASSUME(in_equal == 0 || in_equal == 1);
    for (i = 0; i < VT_N; i++) {
        ASSUME(in_code[i] >= 0 && in_code[i] < VT_M);
        ASSUME(in_ign_frame[i] == 0 || in_ign_frame[i] == 1);
    }
    for (i = 0; i < VT_M; i++) ASSUME(in_ign_code[i] == 0 || in_ign_code[i] == 1);
    /* (a set does not tell equal objects apart) */
    ASSUME(!in_equal || in_ign_code[0] == in_ign_code[1]);

    for (i = 0; i <= VT_M; i++) {
        codes[i] = malloc(sizeof(PyCodeObject));
        ASSUME(codes[i] != NULL);
        codes[i]->ob_base.ob_refcnt = 20; codes[i]->ob_base.ob_type = &PyCode_Type;
        codes[i]->vt_number = i;
    }
    for (i = VT_N; i >= 0; i--) {
        frames[i] = malloc(sizeof(PyFrameObject));
        ASSUME(frames[i] != NULL);
        frames[i]->ob_base.ob_refcnt = 20; frames[i]->ob_base.ob_type = &PyFrame_Type;
        frames[i]->vt_number = i;
        frames[i]->f_back = i + 1 < in_n ? frames[i + 1] : NULL;
        frames[i]->f_code = i < VT_N ? codes[in_code[i]] : codes[VT_M];
    }
    args.ob_item[0] = in_n ? (PyObject *)frames[0] : Py_None;
    args.ob_item[1] = in_base < 0 ? Py_None : (PyObject *)frames[in_base];
    args.ob_item[2] = in_base_code < 0 ? Py_None : (PyObject *)codes[in_base_code];
    args.ob_item[3] = (PyObject *)&set_frames;
    args.ob_item[4] = (PyObject *)&set_codes;

    PyInit_speedup();
    CHECK(module_def != NULL, "the module is created");
    PyMethodDef *m = module_def->m_methods;
    for (i = 0; i < 3 && m->ml_name && strcmp(m->ml_name, "frame_stack"); i++) m++;
    CHECK(m->ml_name && m->ml_flags == METH_VARARGS, "frame_stack() is there");
    PyObject *r = m->ml_meth(&module_object, (PyObject *)&args);

    /* the definition: from the innermost frame outwards up to (without) the base,
       without those that are ignored; the outermost comes first */
    int want[VT_N], n = 0, ignored = 0, based = 0;
    for (i = 0; i < VT_N; i++) {
        if (i >= in_n || based) continue;
        if (i == in_base || in_code[i] == in_base_code) { based = 1; continue; }
        if (in_ign_frame[i] || in_ign_code[in_code[i]]) { ignored++; continue; }
        want[n++] = i;
    }
    CHECK((r == NULL) == (error != NULL), "failure is returned exactly with an error");
    if (failures) CHECK(r == NULL, "a failure is reported");
    else CHECK(r != NULL, "no failure without a cause");
    int held[VT_N];
    for (i = 0; i < VT_N; i++) held[i] = 0;
    if (r != NULL) {
        CHECK(r->ob_type == &PyList_Type && r->ob_refcnt == 1, "the caller owns a list");
        PyListObject *l = (PyListObject *)r;
        CHECK(l->ob_size == n, "the frames up to the base without the ignored ones");
        for (i = 0; i < n; i++) {
            CHECK(l->ob_item[i] == (PyObject *)frames[want[n - 1 - i]],
                  "the frames in order, the outermost first");
            held[want[n - 1 - i]]++;
        }
    }
    CHECK(lists_live == (r != NULL) && blocks_live == 0, "nothing is leaked");
    for (i = 0; i <= VT_N; i++)
        CHECK(frames[i]->ob_base.ob_refcnt == 20 + (i < VT_N ? held[i] : 0),
              "the references to frames are balanced");
    for (i = 0; i <= VT_M; i++)
        CHECK(codes[i]->ob_base.ob_refcnt == 20, "the references to codes are balanced");
    CHECK(set_frames.ob_base.ob_refcnt == 10 && set_codes.ob_base.ob_refcnt == 10 &&
          args.ob_base.ob_refcnt == 10, "the references to arguments are balanced");
    CHECK(_Py_NoneStruct.ob_refcnt == 1000, "the references to None are balanced");
    CHECK(_Py_TrueStruct.ob_refcnt == 1000 && _Py_FalseStruct.ob_refcnt == 1000,
          "the references to True and False are balanced");
#ifdef WITNESS
    int reached = 0;
    if (WITNESS == 1) reached = r != NULL && n >= 2 && ignored && based;
    if (WITNESS == 2) reached = r == NULL && in_fail >= 5;
    if (WITNESS == 3) reached = r != NULL && n == VT_N;
    if (WITNESS == 4) reached = in_n == 0;
    CHECK(!reached, "witness");
#endif
#ifdef REPLAY
    printf("OK %d\n", r == NULL ? -1 : n);
    if (r) free(r);
    for (i = 0; i <= VT_M; i++) free(codes[i]);
    for (i = 0; i <= VT_N; i++) free(frames[i]);
#endif
    return 0;
}
