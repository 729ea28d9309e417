/* Failing allocations: the n-th allocation of the object and mem domains (and the m-1 after it) returns NULL.
 * Allocations made by the ICU binding and by PyFunction_New are passed over: neither survives a failure (CPython 3.12.3). */
#define PY_SSIZE_T_CLEAN
#define _GNU_SOURCE
#include <Python.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <string.h>

static PyMemAllocatorEx real_mem, real_obj;
static long count, at, left, failed;
static int armed;

static int fragile(void) {
    void *pc[64];
    Dl_info d;
    int n = backtrace(pc, 64);
    for (int i = 0; i < n; i++)
        if (dladdr(pc[i], &d) && (d.dli_fname && strstr(d.dli_fname, "icupy") || d.dli_sname && !strcmp(d.dli_sname, "PyFunction_New")))
            return 1;
    return 0;
}

static int fail(void) {
    count++;
    if (!armed || left <= 0 || count < at)
        return 0;
    if (fragile())
        return 0;
    left--;
    failed++;
    return 1;
}

static void *m_malloc(void *c, size_t n) { PyMemAllocatorEx *r = c; return fail() ? NULL : r->malloc(r->ctx, n); }
static void *m_calloc(void *c, size_t k, size_t n) { PyMemAllocatorEx *r = c; return fail() ? NULL : r->calloc(r->ctx, k, n); }
static void *m_realloc(void *c, void *p, size_t n) { PyMemAllocatorEx *r = c; return fail() ? NULL : r->realloc(r->ctx, p, n); }
static void m_free(void *c, void *p) { PyMemAllocatorEx *r = c; r->free(r->ctx, p); }

static PyObject *arm(PyObject *self, PyObject *args) {
    if (!PyArg_ParseTuple(args, "ll", &at, &left))
        return NULL;
    PyMemAllocatorEx a = {&real_mem, m_malloc, m_calloc, m_realloc, m_free}, b = {&real_obj, m_malloc, m_calloc, m_realloc, m_free};
    void *pc[4];
    backtrace(pc, 4);
    if (!armed) {
        PyMem_GetAllocator(PYMEM_DOMAIN_MEM, &real_mem);
        PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &real_obj);
        PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &a);
        PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &b);
    }
    armed = 1;
    count = failed = 0;
    Py_RETURN_NONE;
}

static PyObject *disarm(PyObject *self, PyObject *none) {
    if (armed) {
        PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &real_mem);
        PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &real_obj);
        armed = 0;
    }
    Py_RETURN_NONE;
}

static PyObject *seen(PyObject *self, PyObject *none) { return Py_BuildValue("ll", count, failed); }

static PyMethodDef methods[] = {{"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""}, {"seen", seen, METH_NOARGS, ""}, {0}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "memshim", 0, -1, methods};
PyMODINIT_FUNC PyInit_memshim(void) { return PyModule_Create(&mod); }
