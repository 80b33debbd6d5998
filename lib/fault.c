/* Fault injection for the memory allocators of the interpreter: arm(start, stop)
   makes the allocations with start <= n < stop (n counted from arm) fail, disarm()
   returns the numbers of allocations made and failed. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>

static PyMemAllocatorEx org[3], cur[3];
static long count, failed, start, stop, also = -1, net;
static int armed, installed;

static int
fail(void)
{
    long n;
    if (!armed)
        return 0;
    n = count++;
    if ((n >= start && n < stop) || n == also) {
        failed++;
        return 1;
    }
    return 0;
}

static void *f_malloc(void *ctx, size_t n) {
    PyMemAllocatorEx *a = ctx;
    void *p = fail() ? NULL : a->malloc(a->ctx, n);
    net += p != NULL;
    return p;
}
static void *f_calloc(void *ctx, size_t m, size_t n) {
    PyMemAllocatorEx *a = ctx;
    void *p = fail() ? NULL : a->calloc(a->ctx, m, n);
    net += p != NULL;
    return p;
}
static void *f_realloc(void *ctx, void *p, size_t n) {
    PyMemAllocatorEx *a = ctx;
    void *q = fail() ? NULL : a->realloc(a->ctx, p, n);
    net += !p && q;
    return q;
}
static void f_free(void *ctx, void *p) {
    PyMemAllocatorEx *a = ctx;
    net -= p != NULL;
    a->free(a->ctx, p);
}

static PyMemAllocatorDomain doms[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};

static PyObject *
install(PyObject *self, PyObject *args)
{
    int i;
    if (!installed) {
        for (i = 0; i < 3; i++) {
            PyMem_GetAllocator(doms[i], &org[i]);
            cur[i].ctx = &org[i];
            cur[i].malloc = f_malloc;
            cur[i].calloc = f_calloc;
            cur[i].realloc = f_realloc;
            cur[i].free = f_free;
            PyMem_SetAllocator(doms[i], &cur[i]);
        }
        installed = 1;
    }
    Py_RETURN_NONE;
}

static PyObject *
arm(PyObject *self, PyObject *args)
{
    long a, b;
    if (!PyArg_ParseTuple(args, "ll", &a, &b))
        return NULL;
    start = a;
    stop = b;
    count = failed = 0;
    armed = 1;
    Py_RETURN_NONE;
}

static PyObject *
disarm(PyObject *self, PyObject *args)
{
    armed = 0;
    return Py_BuildValue("ll", count, failed);
}

static long last_count, last_failed;

/* call(start, stop, f, args, kw, also=-1) -> result; arms only around the call */
static PyObject *
call(PyObject *self, PyObject *args)
{
    long a, b, c = -1;
    PyObject *f, *fargs, *kw, *r;
    if (!PyArg_ParseTuple(args, "llOO!O|l", &a, &b, &f, &PyTuple_Type, &fargs, &kw, &c))
        return NULL;
    also = c;
    start = a;
    stop = b;
    count = failed = 0;
    armed = 1;
    r = PyObject_Call(f, fargs, kw == Py_None ? NULL : kw);
    armed = 0;
    also = -1;
    last_count = count;
    last_failed = failed;
    return r;
}

static PyObject *
last(PyObject *self, PyObject *args)
{
    return Py_BuildValue("ll", last_count, last_failed);
}

/* the number of allocated blocks, relative to when the hooks were installed */
static PyObject *
live(PyObject *self, PyObject *args)
{
    return PyLong_FromLong(net);
}

static PyMethodDef methods[] = {
    {"live", live, METH_NOARGS, NULL},
    {"install", install, METH_NOARGS, NULL},
    {"arm", arm, METH_VARARGS, NULL},
    {"disarm", disarm, METH_NOARGS, NULL},
    {"call", call, METH_VARARGS, NULL},
    {"last", last, METH_NOARGS, NULL},
    {NULL}
};

static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "fault", NULL, -1, methods};

PyMODINIT_FUNC
PyInit_fault(void)
{
    return PyModule_Create(&mod);
}
