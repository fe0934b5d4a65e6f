/* Test helper for the compiled extensions: Hamiltonian capsules and planted errors that a live sanitizer must report. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdlib.h>

#include <complex.h>
#include <string.h>

typedef struct { double re, im; } cplx;
typedef double _Complex ret_t;

static cplx *table = NULL;
static int q1 = 0, q2 = 0;
static long calls = 0, bad = 0;

static ret_t h_nn(int s, int t, int u, int v) {
    __sync_fetch_and_add(&calls, 1);
    if (s < 0 || u < 0 || t < 0 || v < 0 || s >= q1 || u >= q1 || t >= q2 || v >= q2) {
        __sync_fetch_and_add(&bad, 1);
        return 0;
    }
    cplx z = table[((s * q2 + t) * q1 + u) * q2 + v];
    return z.re + z.im * _Complex_I;
}

static PyObject *set_table(PyObject *self, PyObject *args) {
    Py_buffer b;
    if (!PyArg_ParseTuple(args, "y*ii", &b, &q1, &q2)) return NULL;
    free(table);
    table = malloc(b.len);
    memcpy(table, b.buf, b.len);
    calls = bad = 0;
    PyBuffer_Release(&b);
    return PyCapsule_New((void *)h_nn, "h_nn", NULL);
}
static PyObject *counts(PyObject *self, PyObject *args) { return Py_BuildValue("ll", calls, bad); }
static PyObject *wrong(PyObject *self, PyObject *args) { return PyCapsule_New((void *)h_nn, "other", NULL); }
static PyObject *overflow(PyObject *self, PyObject *args) {
    int n;
    if (!PyArg_ParseTuple(args, "i", &n)) return NULL;
    volatile char *p = malloc(n);
    p[n] = 1;
    char c = p[n];
    free((void *)p);
    return PyLong_FromLong(c);
}
static PyObject *signed_overflow(PyObject *self, PyObject *args) {
    int n;
    if (!PyArg_ParseTuple(args, "i", &n)) return NULL;
    volatile int x = 2147483647;
    x = x + n;
    return PyLong_FromLong(x);
}
static PyMethodDef M[] = {{"set_table", set_table, METH_VARARGS, ""}, {"counts", counts, METH_NOARGS, ""},
    {"wrong", wrong, METH_NOARGS, ""}, {"overflow", overflow, METH_VARARGS, ""},
    {"signed_overflow", signed_overflow, METH_VARARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "exthelp", "", -1, M};
PyMODINIT_FUNC PyInit_exthelp(void) { return PyModule_Create(&D); }
