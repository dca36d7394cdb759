/* Declarations of the Python 2 C-API names the sources use, so that the files the
   Python 3 harness leaves out can be parsed. Declarations only: nothing is linked. */
#ifndef VERIF_PY2SHIM_H
#define VERIF_PY2SHIM_H
#ifdef __cplusplus
#include <Python.h>
extern "C" {
PyObject *PyString_FromString(const char *);
char *PyString_AsString(PyObject *);
int PyString_Check(PyObject *);
int PyInt_Check(PyObject *);
PyObject *PyInt_FromLong(long);
long PyInt_AsLong(PyObject *);
}
#endif
#endif
