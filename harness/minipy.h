#pragma once
#include <Python.h>
extern int minipy_live, minipy_fail, minipy_printed; // objects alive; the n-th fallible call from now fails; tracebacks printed
int minipy_pending();                                // an error is set
