// A strict model of the part of the CPython C API that embedding code uses.
// Objects have the layout Python.h declares, so its inline functions (Py_DECREF,
// PyTuple_GET_SIZE, ...) run on them unchanged; dead objects are freed.
#include "sym.h"
#include "minipy.h"
#include <stdlib.h>
#include <string.h>
#define NEED(c, l) sym_assert(c, l)
int minipy_live = 0, minipy_fail = 0, minipy_printed = 0;
namespace {
struct plong { PyObject_HEAD long v; bool big; };
struct pstr { PyObject_HEAD size_t n; char *s; };
struct pfun { PyObject_HEAD PyMethodDef *def; };
struct pmod { PyObject_HEAD int n; char *key[8]; PyObject *val[8]; };
bool up = false; PyObject *error = nullptr, *path = nullptr; int mods = 0; char *mod_name[8]; PyObject *mod[8]; wchar_t *program = nullptr;
char *dup(const char *s) { size_t n = strlen(s); char *r = (char *)malloc(n + 1); memcpy(r, s, n + 1); return r; }
void start(PyTypeObject &t, unsigned long flags) { t.ob_base.ob_base.ob_refcnt = 1000; t.tp_flags = flags; }
template<class T> T *mk(PyTypeObject &t) { NEED(up, "python-not-initialized"); T *o = (T *)malloc(sizeof(T)); ((PyObject *)o)->ob_refcnt = 1; ((PyObject *)o)->ob_type = &t; minipy_live++; return o; }
void set(PyObject *e) { error = e; }
bool failing() { if (minipy_fail > 0 && --minipy_fail == 0) { set(PyExc_MemoryError); return true; } return false; }
void alive(PyObject *o) { NEED(up, "python-not-initialized"); NEED(o && o->ob_refcnt > 0, "python-dead-object"); }
plong *L(PyObject *o) { return (plong *)o; }
double F(PyObject *o) { return ((PyFloatObject *)o)->ob_fval; }
bool is(PyObject *o, PyTypeObject &t) { return o->ob_type == &t; }
}
int minipy_pending() { return error != nullptr; }
extern "C" {
PyTypeObject PyLong_Type, PyFloat_Type, PyTuple_Type, PyList_Type, PyUnicode_Type, PyModule_Type, PyCFunction_Type, PyBaseObject_Type, PyBool_Type; PyObject _Py_NoneStruct;
static PyObject e1, e2, e3, e4, e5, e6, e7; PyObject *PyExc_MemoryError = &e1, *PyExc_TypeError = &e2, *PyExc_OverflowError = &e3, *PyExc_ImportError = &e4, *PyExc_AttributeError = &e5, *PyExc_IndexError = &e6, *PyExc_SystemError = &e7;
PyObject *PyExc_RuntimeError = &e7, *PyExc_ValueError = &e2;
static int init_fails = 0;
int *minipy_init_fails = &init_fails;
void Py_Initialize(void) { if (init_fails || up) return; start(PyLong_Type, Py_TPFLAGS_LONG_SUBCLASS); start(PyFloat_Type, 0); start(PyTuple_Type, Py_TPFLAGS_TUPLE_SUBCLASS); start(PyList_Type, Py_TPFLAGS_LIST_SUBCLASS); start(PyUnicode_Type, Py_TPFLAGS_UNICODE_SUBCLASS); start(PyModule_Type, 0); start(PyCFunction_Type, 0); _Py_NoneStruct.ob_refcnt = 1000; up = true; error = nullptr; path = PyList_New(0); PyObject *d = PyUnicode_FromString("/usr/lib"); PyList_Append(path, d); Py_DECREF(d); }
void Py_InitializeEx(int) { Py_Initialize(); }
int Py_IsInitialized(void) { return up; }
int Py_FinalizeEx(void) { if (!up) return 0; for (int i = 0; i < mods; i++) { free(mod_name[i]); Py_DECREF(mod[i]); } mods = 0; Py_DECREF(path); path = nullptr; up = false; return 0; }
void Py_Finalize(void) { Py_FinalizeEx(); }
wchar_t *Py_DecodeLocale(const char *s, size_t *n) { if (failing()) { error = nullptr; return nullptr; } size_t k = strlen(s); wchar_t *r = (wchar_t *)malloc((k + 1) * sizeof(wchar_t)); for (size_t i = 0; i <= k; i++) r[i] = (unsigned char)s[i]; if (n) *n = k; return r; }
void PyMem_RawFree(void *p) { free(p); }
void Py_SetProgramName(const wchar_t *p) { size_t k = 0; while (p[k]) k++; free(program); program = (wchar_t *)malloc((k + 1) * sizeof(wchar_t)); for (size_t i = 0; i <= k; i++) program[i] = p[i]; }
wchar_t *Py_GetProgramName(void) { return program; }
PyObject *PyErr_Occurred(void) { NEED(up, "python-not-initialized"); return error; }
void PyErr_Print(void) { NEED(error, "python-print-without-error"); error = nullptr; minipy_printed++; }
void PyErr_PrintEx(int) { PyErr_Print(); }
void PyErr_Clear(void) { error = nullptr; }
void PyErr_SetString(PyObject *e, const char *) { set(e); }
int PyErr_ExceptionMatches(PyObject *e) { return error == e; }
void _Py_Dealloc(PyObject *o) {
  NEED(o->ob_refcnt == 0, "python-dealloc"); minipy_live--;
  if (is(o, PyTuple_Type)) { auto *t = (PyTupleObject *)o; for (Py_ssize_t i = 0; i < t->ob_base.ob_size; i++) Py_XDECREF(t->ob_item[i]); }
  else if (is(o, PyList_Type)) { auto *t = (PyListObject *)o; for (Py_ssize_t i = 0; i < t->ob_base.ob_size; i++) Py_XDECREF(t->ob_item[i]); free(t->ob_item); }
  else if (is(o, PyUnicode_Type)) free(((pstr *)o)->s);
  else if (is(o, PyModule_Type)) { auto *m = (pmod *)o; for (int i = 0; i < m->n; i++) { free(m->key[i]); Py_DECREF(m->val[i]); } }
  free(o);
}
void Py_IncRef(PyObject *o) { Py_XINCREF(o); }
void Py_DecRef(PyObject *o) { Py_XDECREF(o); }
// numbers
PyObject *PyLong_FromLong(long v) { if (failing()) return nullptr; auto *o = mk<plong>(PyLong_Type); o->v = v; o->big = false; return (PyObject *)o; }
PyObject *PyLong_FromLongLong(long long v) { return PyLong_FromLong(v); }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long v) { if (failing()) return nullptr; auto *o = mk<plong>(PyLong_Type); o->v = (long)v; o->big = v > 0x7fffffffffffffffULL; return (PyObject *)o; }
PyObject *PyLong_FromUnsignedLong(unsigned long v) { return PyLong_FromUnsignedLongLong(v); }
PyObject *PyLong_FromSize_t(size_t v) { return PyLong_FromUnsignedLongLong(v); }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return PyLong_FromLong(v); }
PyObject *PyLong_FromDouble(double d) { if (failing()) return nullptr; bool big = d >= 9.2233720368547758e18 || d < -9.2233720368547758e18; auto *o = mk<plong>(PyLong_Type); o->big = big; o->v = big ? 0 : (long)d; return (PyObject *)o; }
long PyLong_AsLong(PyObject *o) { alive(o); if (!is(o, PyLong_Type)) { set(PyExc_TypeError); return -1; } if (L(o)->big) { set(PyExc_OverflowError); return -1; } return L(o)->v; }
long long PyLong_AsLongLong(PyObject *o) { return PyLong_AsLong(o); }
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return PyLong_AsLong(o); }
long PyLong_AsLongAndOverflow(PyObject *o, int *v) { alive(o); *v = 0; if (!is(o, PyLong_Type)) { set(PyExc_TypeError); return -1; } if (L(o)->big) { *v = 1; return -1; } return L(o)->v; }
double PyLong_AsDouble(PyObject *o) { alive(o); if (!is(o, PyLong_Type)) { set(PyExc_TypeError); return -1; } return L(o)->big ? (double)(unsigned long)L(o)->v : (double)L(o)->v; }
PyObject *PyFloat_FromDouble(double v) { if (failing()) return nullptr; auto *o = mk<PyFloatObject>(PyFloat_Type); o->ob_fval = v; return (PyObject *)o; }
double PyFloat_AsDouble(PyObject *o) { alive(o); if (is(o, PyFloat_Type)) return F(o); if (is(o, PyLong_Type)) return PyLong_AsDouble(o); set(PyExc_TypeError); return -1; }
PyObject *PyNumber_Long(PyObject *o) { alive(o); if (failing()) return nullptr; if (is(o, PyLong_Type)) return Py_NewRef(o); if (is(o, PyFloat_Type)) return PyLong_FromDouble(F(o)); set(PyExc_TypeError); return nullptr; }
PyObject *PyNumber_Index(PyObject *o) { alive(o); if (is(o, PyLong_Type)) return Py_NewRef(o); set(PyExc_TypeError); return nullptr; }
PyObject *PyNumber_Float(PyObject *o) { alive(o); if (failing()) return nullptr; if (is(o, PyFloat_Type)) return Py_NewRef(o); if (is(o, PyLong_Type)) return PyFloat_FromDouble((double)L(o)->v); set(PyExc_TypeError); return nullptr; }
int PyNumber_Check(PyObject *o) { alive(o); return is(o, PyLong_Type) || is(o, PyFloat_Type); }
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { return a == b; }
// text
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t n) { if (failing()) return nullptr; auto *o = mk<pstr>(PyUnicode_Type); o->n = n; o->s = (char *)malloc(n + 1); memcpy(o->s, s, n); o->s[n] = 0; return (PyObject *)o; }
PyObject *PyUnicode_FromString(const char *s) { return PyUnicode_FromStringAndSize(s, strlen(s)); }
PyObject *PyUnicode_DecodeFSDefault(const char *s) { return PyUnicode_FromString(s); }
PyObject *PyUnicode_DecodeFSDefaultAndSize(const char *s, Py_ssize_t n) { return PyUnicode_FromStringAndSize(s, n); }
const char *PyUnicode_AsUTF8(PyObject *o) { alive(o); if (!is(o, PyUnicode_Type)) { set(PyExc_TypeError); return nullptr; } return ((pstr *)o)->s; }
// tuples and lists
PyObject *PyTuple_New(Py_ssize_t n) { if (failing()) return nullptr; NEED(up, "python-not-initialized"); NEED(n >= 0, "python-tuple-size"); auto *o = (PyTupleObject *)malloc(sizeof(PyVarObject) + (n + 1) * sizeof(PyObject *)); o->ob_base.ob_base.ob_refcnt = 1; o->ob_base.ob_base.ob_type = &PyTuple_Type; o->ob_base.ob_size = n; for (Py_ssize_t i = 0; i <= n; i++) o->ob_item[i] = nullptr; minipy_live++; return (PyObject *)o; }
Py_ssize_t PyTuple_Size(PyObject *o) { alive(o); if (!is(o, PyTuple_Type)) { set(PyExc_SystemError); return -1; } return ((PyVarObject *)o)->ob_size; }
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i) { alive(o); if (!is(o, PyTuple_Type)) { set(PyExc_SystemError); return nullptr; } if (failing()) return nullptr; if (i < 0 || i >= ((PyVarObject *)o)->ob_size) { set(PyExc_IndexError); return nullptr; } return ((PyTupleObject *)o)->ob_item[i]; }
int PyTuple_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { alive(o); if (!is(o, PyTuple_Type) || o->ob_refcnt != 1) { Py_XDECREF(v); set(PyExc_SystemError); return -1; } if (i < 0 || i >= ((PyVarObject *)o)->ob_size) { Py_XDECREF(v); set(PyExc_IndexError); return -1; } PyObject *old = ((PyTupleObject *)o)->ob_item[i]; ((PyTupleObject *)o)->ob_item[i] = v; Py_XDECREF(old); return 0; }
PyObject *PyList_New(Py_ssize_t n) { if (failing()) return nullptr; auto *o = mk<PyListObject>(PyList_Type); o->ob_base.ob_size = n; o->allocated = 16; o->ob_item = (PyObject **)malloc(16 * sizeof(PyObject *)); for (int i = 0; i < 16; i++) o->ob_item[i] = nullptr; return (PyObject *)o; }
Py_ssize_t PyList_Size(PyObject *o) { alive(o); return ((PyVarObject *)o)->ob_size; }
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { alive(o); if (i < 0 || i >= ((PyVarObject *)o)->ob_size) { set(PyExc_IndexError); return nullptr; } return ((PyListObject *)o)->ob_item[i]; }
int PyList_Insert(PyObject *o, Py_ssize_t at, PyObject *v) { alive(o); alive(v); if (!is(o, PyList_Type)) { set(PyExc_SystemError); return -1; } if (failing()) return -1; auto *l = (PyListObject *)o; Py_ssize_t n = l->ob_base.ob_size; NEED(n < 16, "python-model-list"); if (at < 0) at = at + n < 0 ? 0 : at + n; if (at > n) at = n; for (Py_ssize_t i = n; i > at; i--) l->ob_item[i] = l->ob_item[i - 1]; l->ob_item[at] = Py_NewRef(v); l->ob_base.ob_size = n + 1; return 0; }
int PyList_Append(PyObject *o, PyObject *v) { alive(o); return PyList_Insert(o, ((PyVarObject *)o)->ob_size, v); }
// modules, attributes and calls
PyObject *PySys_GetObject(const char *n) { NEED(up, "python-not-initialized"); if (minipy_fail > 0 && --minipy_fail == 0) return nullptr; return strcmp(n, "path") ? nullptr : path; }
int PySys_SetObject(const char *n, PyObject *v) { NEED(up && !strcmp(n, "path"), "python-model-sys"); if (failing()) return -1; alive(v); Py_INCREF(v); PyObject *old = path; path = v; Py_XDECREF(old); return 0; }
PyObject *PyImport_AddModule(const char *n) { NEED(up, "python-not-initialized"); for (int i = 0; i < mods; i++) if (!strcmp(mod_name[i], n)) return mod[i]; auto *m = mk<pmod>(PyModule_Type); m->n = 0; mod_name[mods] = dup(n); mod[mods++] = (PyObject *)m; return (PyObject *)m; }
PyObject *PyImport_ImportModule(const char *n) { NEED(!error, "python-pending-error"); if (failing()) return nullptr; for (int i = 0; i < mods; i++) if (!strcmp(mod_name[i], n)) return Py_NewRef(mod[i]); set(PyExc_ImportError); return nullptr; }
PyObject *PyImport_Import(PyObject *n) { alive(n); if (!is(n, PyUnicode_Type)) { set(PyExc_TypeError); return nullptr; } return PyImport_ImportModule(((pstr *)n)->s); }
PyObject *PyObject_GetAttrString(PyObject *o, const char *n) { alive(o); NEED(!error, "python-pending-error"); if (failing()) return nullptr; if (is(o, PyModule_Type)) { auto *m = (pmod *)o; for (int i = 0; i < m->n; i++) if (!strcmp(m->key[i], n)) return Py_NewRef(m->val[i]); } set(PyExc_AttributeError); return nullptr; }
int PyObject_SetAttrString(PyObject *o, const char *n, PyObject *v) { alive(o); NEED(is(o, PyModule_Type), "python-model-setattr"); auto *m = (pmod *)o; Py_INCREF(v); for (int i = 0; i < m->n; i++) if (!strcmp(m->key[i], n)) { Py_DECREF(m->val[i]); m->val[i] = v; return 0; } m->key[m->n] = dup(n); m->val[m->n++] = v; return 0; }
int PyObject_HasAttrString(PyObject *o, const char *n) { alive(o); auto *m = (pmod *)o; if (is(o, PyModule_Type)) for (int i = 0; i < m->n; i++) if (!strcmp(m->key[i], n)) return 1; return 0; }
PyObject *PyCMethod_New(PyMethodDef *d, PyObject *, PyObject *, PyTypeObject *) { auto *f = mk<pfun>(PyCFunction_Type); f->def = d; return (PyObject *)f; }
int PyCallable_Check(PyObject *o) { if (!o) return 0; alive(o); return is(o, PyCFunction_Type); }
PyObject *PyObject_CallObject(PyObject *f, PyObject *args) { alive(f); NEED(!error, "python-pending-error"); if (failing()) return nullptr; if (!is(f, PyCFunction_Type) || (args && !is(args, PyTuple_Type))) { set(PyExc_TypeError); return nullptr; } Py_INCREF(f); PyObject *a = args ? Py_NewRef(args) : PyTuple_New(0); for (Py_ssize_t i = 0; i < ((PyVarObject *)a)->ob_size; i++) NEED(((PyTupleObject *)a)->ob_item[i] != nullptr, "python-null-argument"); PyObject *r = ((pfun *)f)->def->ml_meth(nullptr, a); Py_DECREF(a); Py_DECREF(f); NEED((r == nullptr) == (error != nullptr), "python-result-and-error"); return r; }
PyObject *PyObject_Call(PyObject *f, PyObject *args, PyObject *kw) { NEED(!kw, "python-model-keywords"); return PyObject_CallObject(f, args); }
PyObject *PyObject_CallNoArgs(PyObject *f) { return PyObject_CallObject(f, nullptr); }
int minipy_run_status = 0, minipy_runs = 0; char *minipy_ran = nullptr;
int PyRun_SimpleStringFlags(const char *s, PyCompilerFlags *) { NEED(up, "python-not-initialized"); minipy_runs++; free(minipy_ran); minipy_ran = dup(s); return minipy_run_status; }
}
