/* Functions that the typestate rules have to accept (good) or to report. */
typedef long npy_intp;
typedef struct _object PyObject;
extern int PyGILState_Ensure(void);
extern void PyGILState_Release(int);
extern PyObject *PyErr_NoMemory(void);
extern void PyErr_SetString(PyObject *, const char *);
extern PyObject *PyNumber_Add(PyObject *, PyObject *);
extern void Py_INCREF(PyObject *);
extern void Py_DECREF(PyObject *);
extern void Py_XDECREF(PyObject *);
extern void *malloc(unsigned long);
extern void free(void *);
extern PyObject *PyExc_ValueError;

#define LOOP(name) \
    void name(char **args, npy_intp const *dimensions, npy_intp const *steps, void *data)

LOOP(p09_good)
{
    if (dimensions[1] == 0) {
        int s = PyGILState_Ensure();
        PyErr_SetString(PyExc_ValueError, "x");
        PyGILState_Release(s);
        return;
    }
    *(double *) args[1] = 0;
}

LOOP(p09_nogil)
{
    if (dimensions[1] == 0) {
        PyErr_SetString(PyExc_ValueError, "x");
        return;
    }
    *(double *) args[1] = 0;
}

LOOP(p09_unreleased)
{
    int s = PyGILState_Ensure();
    if (dimensions[1] == 0) {
        PyErr_SetString(PyExc_ValueError, "x");
        return;
    }
    PyGILState_Release(s);
}

LOOP(p09_released_twice)
{
    int s = PyGILState_Ensure();
    if (dimensions[1] == 0) {
        PyErr_SetString(PyExc_ValueError, "x");
        PyGILState_Release(s);
    }
    PyGILState_Release(s);
}

LOOP(p10_good)
{
    for (npy_intp k = 0; k < dimensions[0]; ++k) {
        PyObject *a = *(PyObject **) (args[0] + k*steps[0]);
        PyObject *b = *(PyObject **) (args[1] + k*steps[1]);
        PyObject *r = PyNumber_Add(a, b);
        if (r == 0) {
            return;
        }
        PyObject **out = (PyObject **) (args[2] + k*steps[2]);
        PyObject *old = *out;
        *out = r;
        Py_XDECREF(old);
    }
}

LOOP(p10_leak)
{
    PyObject *a = *(PyObject **) args[0];
    PyObject *r = PyNumber_Add(a, a);
    if (r == 0) {
        return;
    }
    PyObject *q = PyNumber_Add(r, a);
    if (q == 0) {
        return;
    }
    Py_DECREF(r);
    Py_DECREF(q);
}

LOOP(p10_borrowed)
{
    PyObject *a = *(PyObject **) args[0];
    PyObject **out = (PyObject **) args[1];
    PyObject *old = *out;
    *out = a;
    Py_XDECREF(old);
}

LOOP(p10_overwrite)
{
    PyObject *a = *(PyObject **) args[0];
    PyObject **out = (PyObject **) args[1];
    Py_INCREF(a);
    *out = a;
}

LOOP(p10_null)
{
    PyObject *a = *(PyObject **) args[0];
    PyObject *r = PyNumber_Add(a, a);
    Py_DECREF(r);
}

LOOP(p11_good)
{
    double *t = malloc(8 * dimensions[1]);
    if (t == 0) {
        PyErr_NoMemory();
        return;
    }
    t[0] = 1;
    *(double *) args[1] = t[0];
    free(t);
}

LOOP(p11_unchecked)
{
    double *t = malloc(8 * dimensions[1]);
    t[0] = 1;
    *(double *) args[1] = t[0];
    free(t);
}

LOOP(p11_leak)
{
    double *t = malloc(8 * dimensions[1]);
    if (t == 0) {
        PyErr_NoMemory();
        return;
    }
    t[0] = *(double *) args[0];
    if (t[0] < 0) {
        return;
    }
    *(double *) args[1] = t[0];
    free(t);
}

LOOP(p11_twice)
{
    double *t = malloc(8 * dimensions[1]);
    if (t == 0) {
        PyErr_NoMemory();
        return;
    }
    t[0] = *(double *) args[0];
    if (t[0] < 0) {
        free(t);
    }
    free(t);
}

LOOP(p11_after)
{
    double *t = malloc(8 * dimensions[1]);
    if (t == 0) {
        PyErr_NoMemory();
        return;
    }
    t[0] = *(double *) args[0];
    free(t);
    *(double *) args[1] = t[0];
}

LOOP(p11_silent)
{
    double *t = malloc(8 * dimensions[1]);
    if (t == 0) {
        return;
    }
    t[0] = *(double *) args[0];
    free(t);
}

extern int PyObject_RichCompareBool(PyObject *, PyObject *, int);

LOOP(p17_ignored)
{
    PyObject *a = *(PyObject **) args[0];
    PyObject *b = *(PyObject **) args[1];
    int lt = PyObject_RichCompareBool(a, b, 0);
    int gt = PyObject_RichCompareBool(b, a, 0);
    *(char *) args[2] = lt == 1 || gt == 1;
}

LOOP(p17_next_row)
{
    for (npy_intp k = 0; k < dimensions[0]; ++k) {
        PyObject *a = *(PyObject **) (args[0] + k*steps[0]);
        PyObject *b = *(PyObject **) (args[1] + k*steps[1]);
        int lt = PyObject_RichCompareBool(a, b, 0);
        if (lt < 0) {
            continue;
        }
        *(char *) (args[2] + k*steps[2]) = lt;
    }
}

extern void PyErr_Clear(void);

LOOP(p17_discard)
{
    PyObject *a = *(PyObject **) args[0];
    PyObject *b = *(PyObject **) args[1];
    int lt = PyObject_RichCompareBool(a, b, 0);
    if (lt == -1) {
        PyErr_Clear();
        lt = 0;
    }
    *(char *) args[2] = lt;
}
