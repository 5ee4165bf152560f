/* Seam under numpy's data allocator and glibc malloc.
 *
 * - every fresh (uninitialised) numpy buffer is filled with a chosen 8-byte pattern,
 * - the n-th allocation made while counting is on can be made to fail,
 * - live buffers and their bytes are counted,
 * - glibc's M_PERTURB fills fresh malloc() memory (Fortran automatic arrays).
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

static uint64_t pattern = 0;
static int poison = 0, counting = 0;
static long long count = 0, fail_at = -1, fired = 0;

static long long live_n = 0, live_b = 0;

#define NSIZES 65536
static long long sizes[NSIZES];

static int must_fail(size_t size) {
    if (!counting) return 0;
    if (count < NSIZES) sizes[count] = (long long)size;
    count++;
    if (fail_at >= 0 && count == fail_at + 1) { fired++; return 1; }
    return 0;
}
static void fill(void *p, size_t from, size_t n) {
    if (!poison || !p) return;
    unsigned char *c = (unsigned char *)p, *q = (unsigned char *)&pattern;
    for (size_t i = from; i < n; i++) c[i] = q[i & 7];
}
static void *born(void *p) {
    if (p) { live_n++; live_b += malloc_usable_size(p); }
    return p;
}
static void *s_malloc(void *ctx, size_t size) {
    if (must_fail(size)) return NULL;
    void *p = born(malloc(size ? size : 1));
    fill(p, 0, size);
    return p;
}
static void *s_calloc(void *ctx, size_t n, size_t e) {
    if (must_fail(n * e)) return NULL;
    return born(calloc(n ? n : 1, e ? e : 1));
}
static void *s_realloc(void *ctx, void *p, size_t n) {
    if (must_fail(n)) return NULL;
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = realloc(p, n ? n : 1);
    if (q) {
        if (p) { live_n--; live_b -= old; }
        born(q);
    }
    if (q && old < n) fill(q, old, n);
    return q;
}
static void s_free(void *ctx, void *p, size_t size) {
    if (p) { live_n--; live_b -= malloc_usable_size(p); }
    if (poison && p) fill(p, 0, size);
    free(p);
}
static PyDataMem_Handler handler = {"dst_memseam", 1, {NULL, s_malloc, s_calloc, s_realloc, s_free}};

static PyObject *install(PyObject *self, PyObject *args) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *set_poison(PyObject *self, PyObject *args) {
    unsigned long long pat; int on, perturb;
    if (!PyArg_ParseTuple(args, "pKi", &on, &pat, &perturb)) return NULL;
    poison = on; pattern = pat;
    mallopt(M_PERTURB, perturb);
    Py_RETURN_NONE;
}
static PyObject *start(PyObject *self, PyObject *args) {
    long long at;
    if (!PyArg_ParseTuple(args, "L", &at)) return NULL;
    count = 0; fired = 0; fail_at = at; counting = 1;
    Py_RETURN_NONE;
}
static PyObject *stop(PyObject *self, PyObject *args) {
    counting = 0; fail_at = -1;
    return Py_BuildValue("LL", count, fired);
}
static PyObject *get_sizes(PyObject *self, PyObject *args) {
    return PyBytes_FromStringAndSize((char *)sizes, (count < NSIZES ? count : NSIZES) * sizeof(long long));
}
static PyObject *live(PyObject *self, PyObject *args) {
    struct mallinfo2 m = mallinfo2();
    return Py_BuildValue("LLL", live_n, live_b, (long long)(m.uordblks + m.hblkhd));
}
static PyMethodDef M[] = {
    {"live", live, METH_NOARGS, "(buffers, bytes) allocated through the seam and not freed, bytes of malloc in use"},
    {"install", install, METH_NOARGS, "use the seam in this thread's context"},
    {"set_poison", set_poison, METH_VARARGS, "(on, pattern, malloc perturb byte)"},
    {"start", start, METH_VARARGS, "count allocations, fail number n (or -1)"},
    {"sizes", get_sizes, METH_NOARGS, "sizes of the allocations counted last (int64, as bytes)"},
    {"stop", stop, METH_NOARGS, "stop counting: (count, fired)"},
    {NULL, NULL, 0, NULL}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "memseam", NULL, -1, M};
PyMODINIT_FUNC PyInit_memseam(void) {
    import_array();
    return PyModule_Create(&D);
}
