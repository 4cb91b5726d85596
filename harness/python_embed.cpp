// Embedded Python: values, calls, modules, references and failures.
#include "sym.h"
#ifdef MINIPY
#include "minipy.h"
extern "C" char *minipy_ran; extern "C" int minipy_runs;
#else
#include <Python.h>
#endif
#include <ristra/ristra-config.h>
#include <cstring>
#include <stdexcept>
#include <string>
#include <ristra/embedded/embed_python.h>
using namespace ristra::embedded;
template<class F> static bool throws(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
static long live() {
#ifdef MINIPY
  return minipy_live;
#else
  return 0;
#endif
}
// the interpreter; what the library has allocated must be gone at the end, and no error pending
struct py { long base; py() { python_initialize(); base = live(); } void check(const char *label) { sym_assert(live() == base, label); sym_assert(!PyErr_Occurred(), "error-left-pending"); } ~py() { python_finalize(); } };
static void quiet() {
#ifdef MINIPY
  minipy_fail = 0;
#endif
}
static int calls, seen_n, seen_type[8]; static long seen_i[8]; static double seen_d[8]; static bool bad;
static PyObject *record(PyObject *, PyObject *args) { quiet(); calls++; seen_n = (int)PyTuple_Size(args); for (int i = 0; i < seen_n && i < 8; i++) { PyObject *o = PyTuple_GetItem(args, i); seen_type[i] = PyLong_Check(o) ? 1 : PyFloat_Check(o) ? 2 : 0; if (seen_type[i] == 1) seen_i[i] = PyLong_AsLong(o); if (seen_type[i] == 2) seen_d[i] = PyFloat_AsDouble(o); } if (bad) { PyErr_SetString(PyExc_RuntimeError, "bad"); return nullptr; } return PyLong_FromLong(4711); }
static PyObject *give_back(PyObject *, PyObject *args) { return Py_NewRef(PyTuple_GetItem(args, 0)); }
static PyMethodDef def_record = {"record", record, METH_VARARGS, nullptr}, def_back = {"back", give_back, METH_VARARGS, nullptr};
struct fun { PyObject *o; fun(PyMethodDef &d) : o(PyCFunction_New(&d, nullptr)) { calls = 0; seen_n = -1; bad = false; } ~fun() { python_free(o); } };
// numbers
HARNESS(long_value) { py p; long v = sym_long("v"); PyObject *o = python_get_value(v); sym_assert(PyLong_Check(o) && PyLong_AsLong(o) == v, "long-object"); sym_assert(python_as_long(o) == v, "long-value"); sym_assert(Py_REFCNT(o) >= 1, "long-alive"); python_free(o); p.check("long-released"); }
HARNESS(int_value) { py p; int v = sym_int("v"); PyObject *o = python_get_value(v); sym_assert(PyLong_Check(o) && python_as_long(o) == v, "int-value"); python_free(o); p.check("int-released"); }
HARNESS(double_value) { py p; double v = sym_real("v"); PyObject *o = python_get_value(v); sym_assert(PyFloat_Check(o), "double-object"); sym_eq(python_as_double(o), v, "double-value"); python_free(o); p.check("double-released"); }
HARNESS(double_of_int) { py p; int v = sym_int_in("v", -1000, 1000); PyObject *o = python_get_value(v); sym_eq(python_as_double(o), (double)v, "double-of-int"); python_free(o); p.check("double-released"); }
HARNESS(long_of_double) { py p; static const double v[] = {3.0, -7.0, 2.5, -2.5, 0.0, 1e30}; static const long w[] = {3, -7, 2, -2, 0, 0}; int k = sym_pick("k", 0, 5); PyObject *o = python_get_value(v[k]); long got = 99; bool t = throws([&] { got = python_as_long(o); }); sym_assert(t == (k == 5), "long-of-double"); if (k < 5) sym_assert(got == w[k], "long-of-double-value"); sym_eq(python_as_double(o), v[k], "double-unchanged"); python_free(o); p.check("long-of-double-released"); }
HARNESS(not_a_number) { py p; int k = sym_pick("k", 0, 2); PyObject *o = k == 0 ? PyUnicode_FromString("word") : k == 1 ? PyTuple_New(0) : PyList_New(0); sym_assert(throws([&] { (void)python_as_long(o); }), "long-refused"); sym_assert(!PyErr_Occurred(), "error-left-pending"); sym_assert(throws([&] { (void)python_as_double(o); }), "double-refused"); python_free(o); p.check("refused-released"); }
HARNESS(too_large) { py p; unsigned long v = (unsigned long)sym_long("v"); PyObject *o = PyLong_FromUnsignedLongLong(v); long got = 0; bool t = throws([&] { got = python_as_long(o); }); sym_assert(t == (v > 0x7fffffffffffffffUL), "long-range"); if (!t) sym_assert((unsigned long)got == v, "long-range-value"); python_free(o); p.check("long-range-released"); }
HARNESS(minus_one) { py p; PyObject *o = python_get_value(-1), *d = python_get_value(-1.0); sym_assert(python_as_long(o) == -1 && python_as_long(d) == -1, "minus-one"); sym_eq(python_as_double(o), -1.0, "minus-one-double"); sym_eq(python_as_double(d), -1.0, "minus-one-double"); python_free(o); python_free(d); p.check("minus-one-released"); }
// tuples
HARNESS(tuple) { py p; long a = sym_long("a"); double b = sym_real("b"); int c = sym_int("c"); PyObject *t = python_build_args(a, b, c); sym_assert(PyTuple_Check(t) && PyTuple_Size(t) == 3, "tuple-size"); size_t i = (size_t)sym_long("i"); PyObject *e = nullptr; bool x = throws([&] { e = python_get_tuple_element(t, i); }); sym_assert(x == (i >= 3), "tuple-range"); if (!x) { if (i == 0) sym_assert(PyLong_Check(e) && python_as_long(e) == a, "tuple-first"); else if (i == 1) { sym_assert(PyFloat_Check(e), "tuple-second-type"); sym_eq(python_as_double(e), b, "tuple-second"); } else sym_assert(PyLong_Check(e) && python_as_long(e) == c, "tuple-third"); } python_free(t); p.check("tuple-released"); }
HARNESS(tuple_set) { py p; long a = sym_long("a"), b = sym_long("b"), v = sym_long("v"); size_t i = (size_t)sym_long("i"); PyObject *t = python_build_args(a, b); bool x = throws([&] { python_set_tuple_element(t, i, v); }); sym_assert(x == (i >= 2), "tuple-set-range"); for (size_t k = 0; k < 2; k++) sym_assert(python_as_long(python_get_tuple_element(t, k)) == (k == i ? v : k ? b : a), "tuple-set-value"); python_free(t); p.check("tuple-released"); }
HARNESS(tuple_shared) { py p; PyObject *t = python_build_args(1, 2); Py_INCREF(t); sym_assert(throws([&] { python_set_tuple_element(t, 0, 5); }), "shared-tuple"); sym_assert(python_as_long(python_get_tuple_element(t, 0)) == 1, "shared-tuple-unchanged"); python_free(t); python_free(t); p.check("tuple-released"); }
// calls
HARNESS(call) { py p; { fun f(def_record); long a = sym_long("a"); double b = sym_real("b"); int c = sym_int("c"); PyObject *r = python_call_function(f.o, a, b, c); sym_assert(calls == 1 && seen_n == 3 && seen_type[0] == 1 && seen_type[1] == 2 && seen_type[2] == 1, "argument-types"); sym_assert(seen_i[0] == a && seen_i[2] == c, "argument-values"); sym_eq(seen_d[1], b, "argument-real"); sym_assert(python_as_long(r) == 4711, "call-result"); python_free(r); } p.check("call-released"); }
HARNESS(call_lvalues) { py p; { fun f(def_record); const int a = sym_int("a"); const double b = sym_real("b"); long c = sym_long("c"); double d = sym_real("d"); PyObject *r = python_call_function(f.o, d, a, b, c, 7); sym_assert(calls == 1 && seen_n == 5 && seen_i[1] == a && seen_i[3] == c && seen_i[4] == 7, "argument-values"); sym_eq(seen_d[0], d, "argument-first"); sym_eq(seen_d[2], b, "argument-real"); python_free(r); } p.check("call-released"); }
HARNESS(call_none) { py p; { fun f(def_record); PyObject *r = python_call_function(f.o); sym_assert(calls == 1 && seen_n == 0, "no-arguments"); sym_assert(python_as_long(r) == 4711, "call-result"); python_free(r); } p.check("call-released"); }
HARNESS(call_back) { py p; { fun f(def_back); long v = sym_long("v"); PyObject *r = python_call_function(f.o, v, 2.5); sym_assert(python_as_long(r) == v, "returned-argument"); sym_assert(Py_REFCNT(r) >= 1, "returned-alive"); python_free(r); } p.check("call-released"); }
HARNESS(call_fails) { py p; { fun f(def_record); bad = true; sym_assert(throws([&] { python_call_function(f.o, 1, 2.5); }) && calls == 1, "failing-function"); sym_assert(!PyErr_Occurred(), "error-left-pending"); bad = false; PyObject *r = python_call_function(f.o, 5); sym_assert(seen_n == 1 && seen_i[0] == 5 && python_as_long(r) == 4711, "call-after-failure"); python_free(r); } p.check("failing-call-released"); }
HARNESS(not_callable) { py p; int k = sym_pick("k", 0, 2); PyObject *o = k == 0 ? python_get_value(123456) : k == 1 ? PyUnicode_FromString("word") : PyTuple_New(1); sym_assert(throws([&] { python_call_function(o, 1); }), "call-of-non-function"); python_free(o); p.check("non-function-released"); }
// modules
static PyObject *module_with(long v) { PyObject *m = PyImport_AddModule("a_module"); PyObject *o = PyLong_FromLong(v); PyObject_SetAttrString(m, "value", o); python_free(o); o = PyCFunction_New(&def_record, nullptr); PyObject_SetAttrString(m, "f", o); python_free(o); return m; }
HARNESS(module) { py p; long v = sym_long("v"); PyObject *m = module_with(v); long base = live(); auto refs = Py_REFCNT(m); bad = false; PyObject *i = python_import("a_module"); sym_assert(i == m && Py_REFCNT(m) == refs + 1, "module"); PyObject *a = python_get_attribute(i, "value"); sym_assert(python_as_long(a) == v, "attribute"); auto n = Py_REFCNT(a); PyObject *b = python_get_attribute(i, "value"); sym_assert(b == a, "attribute-again"); python_free(b); python_free(a); PyObject *f = python_get_attribute(i, "f"); calls = 0; PyObject *r = python_call_function(f, 3); sym_assert(calls == 1 && seen_i[0] == 3 && python_as_long(r) == 4711, "module-function"); python_free(r); python_free(f); python_free(i); sym_assert(Py_REFCNT(m) == refs, "module-references"); sym_assert(throws([&] { python_get_attribute(m, "none"); }), "missing-attribute"); sym_assert(!PyErr_Occurred(), "error-left-pending"); sym_assert(live() == base, "module-released"); }
HARNESS(module_missing) { py p; module_with(1); long base = live(); sym_assert(throws([&] { python_import("no_such_module_here"); }), "missing-module"); sym_assert(!PyErr_Occurred(), "error-left-pending"); sym_assert(live() == base, "missing-module-released"); PyObject *m = python_import("a_module"); python_free(m); sym_assert(live() == base, "module-after-failure"); }
HARNESS(add_path) { py p; PyObject *s = PySys_GetObject("path"); auto refs = Py_REFCNT(s); auto n = PyList_Size(s); std::string dir = "./x"; dir[2] = (char)(33 + (sym_char("c") & 63)); for (int round = 0; round < 2; round++) { PyObject *r = python_add_to_path(dir); PyObject *now = PySys_GetObject("path"); sym_assert(r == now && PyList_Size(now) == n + 1 + round, "path-length"); sym_assert(!strcmp(PyUnicode_AsUTF8(PyList_GetItem(now, 0)), dir.c_str()), "path-first"); if (n) sym_assert(PyUnicode_AsUTF8(PyList_GetItem(now, 1 + round)) != nullptr, "path-rest"); sym_assert(Py_REFCNT(PyList_GetItem(now, 0)) == 1, "path-entry-references"); python_free(r); sym_assert(Py_REFCNT(now) == refs, "path-references"); } sym_assert(!PyErr_Occurred(), "error-left-pending"); }
HARNESS(restart) { for (int round = 0; round < 2; round++) { python_initialize(); sym_assert(Py_IsInitialized(), "initialized"); PyObject *o = python_get_value(70000 + round); sym_assert(python_as_long(o) == 70000 + round, "value-after-restart"); python_free(o); python_finalize(); sym_assert(!Py_IsInitialized(), "finalized"); } }
HARNESS(text) { std::string s; int n = sym_pick("n", 0, 3); for (int i = 0; i < n; i++) { char c = sym_char("c"); sym_assume(c > 0); s.push_back(c); } auto w = make_python_string(s); sym_assert(w.size() == s.size(), "text-length"); for (int i = 0; i < n; i++) sym_assert(w[i] == (wchar_t)s[i], "text-character"); auto v = make_python_string(s.c_str()); sym_assert(v == w && as_python_char(w)[0] == (n ? w[0] : 0), "text-again"); }
// larger ones
HARNESS(tuple_many) { py p; long a = sym_long("a"), z = sym_long("z"), v = sym_long("v"); double d = sym_real("d"); PyObject *t = python_build_args(a, 1, 2, 3, 4, 5, 6, d, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, z); sym_assert(PyTuple_Size(t) == 20, "many-size"); for (int i = 0; i < 20; i++) { PyObject *e = python_get_tuple_element(t, i); if (i == 7) sym_eq(python_as_double(e), d, "many-real"); else sym_assert(PyLong_Check(e) && python_as_long(e) == (i == 0 ? a : i == 19 ? z : i), "many-value"); } sym_assert(throws([&] { python_get_tuple_element(t, 20); }) && !PyErr_Occurred(), "many-range"); python_set_tuple_element(t, 19, v); python_set_tuple_element(t, 8, d); sym_assert(python_as_long(python_get_tuple_element(t, 19)) == v && python_as_long(python_get_tuple_element(t, 18)) == 18, "many-set"); sym_eq(python_as_double(python_get_tuple_element(t, 8)), d, "many-set-real"); python_free(t); p.check("many-released"); }
HARNESS(tuple_empty) { py p; size_t i = (size_t)sym_long("i"); PyObject *t = python_build_args(); sym_assert(PyTuple_Check(t) && PyTuple_Size(t) == 0, "empty-size"); sym_assert(throws([&] { python_get_tuple_element(t, i); }), "empty-range"); sym_assert(!PyErr_Occurred(), "error-left-pending"); sym_assert(throws([&] { python_set_tuple_element(t, i, 1); }), "empty-set-range"); python_free(t); p.check("empty-released"); }
HARNESS(calls_repeated) { py p; { fun f(def_record); int a = sym_int_in("a", -1000, 1000); for (int i = 0; i < 12; i++) { bad = i % 3 == 1; PyObject *r = nullptr; bool t = throws([&] { r = python_call_function(f.o, a + i, 2.5, i); }); sym_assert(t == bad && calls == i + 1 && seen_n == 3 && seen_i[0] == a + i && seen_i[2] == i, "repeated-call"); if (r) { sym_assert(python_as_long(r) == 4711, "repeated-result"); python_free(r); } sym_assert(!PyErr_Occurred(), "error-left-pending"); } bad = false; } p.check("repeated-released"); }
HARNESS(long_names) { py p; std::string name(60, 'm'); name[59] = sym_pick("k", 0, 1) ? 'n' : 'o'; PyObject *m = PyImport_AddModule(name.c_str()); std::string attr(70, 'a'); PyObject *o = PyLong_FromLong(sym_long("v")); long v = PyLong_AsLong(o); PyObject_SetAttrString(m, attr.c_str(), o); python_free(o); long base = live(); PyObject *i = python_import(name); sym_assert(i == m, "long-module"); PyObject *a = python_get_attribute(i, attr); sym_assert(python_as_long(a) == v, "long-attribute"); python_free(a); sym_assert(throws([&] { python_get_attribute(i, attr + "b"); }) && throws([&] { python_get_attribute(i, attr.substr(1)); }) && throws([&] { python_get_attribute(i, ""); }), "long-attribute-missing"); sym_assert(throws([&] { python_import(name + "x"); }), "long-module-missing"); python_free(i); sym_assert(live() == base && !PyErr_Occurred(), "long-released"); }
HARNESS(paths) { py p; PyObject *s = PySys_GetObject("path"); auto n = PyList_Size(s); static const int sizes[] = {1, 16, 60, 200}; for (int k = 0; k < 4; k++) { std::string dir = "/" + std::string(sizes[k], 'd'); python_add_to_path(dir); PyObject *now = PySys_GetObject("path"); sym_assert(PyList_Size(now) == n + 1 + k, "paths-length"); for (int j = 0; j <= k; j++) sym_assert(PyUnicode_AsUTF8(PyList_GetItem(now, j)) == "/" + std::string(sizes[k - j], 'd'), "paths-order"); } }
HARNESS(text_long) { static const int sizes[] = {7, 8, 15, 16, 40, 300}; int n = sizes[sym_pick("n", 0, 5)]; std::string s; for (int i = 0; i < n; i++) { char c = i == 0 || i == n - 1 ? sym_char("c") : char('a' + i % 26); if (i == 0 || i == n - 1) sym_assume(c > 0); s.push_back(c); } auto w = make_python_string(s); sym_assert(w.size() == s.size(), "long-text-length"); for (int i = 0; i < n; i++) sym_assert(w[i] == (wchar_t)s[i], "long-text-character"); }
#ifdef MINIPY
HARNESS(program_name) { std::string s = "pr"; s[1] = sym_char("c"); sym_assume(s[1] > 0); python_set_program_name(s); wchar_t *g = Py_GetProgramName(); sym_assert(g[0] == 'p' && g[1] == s[1] && g[2] == 0, "program-name"); minipy_fail = 1; sym_assert(throws([] { python_set_program_name("q"); }), "program-name-refused"); sym_assert(Py_GetProgramName()[0] == 'p', "program-name-kept"); }
HARNESS(run) { py p; int before = minipy_runs; python_run_string("x = 1\ny = 2\n"); sym_assert(minipy_runs == before + 1 && !strcmp(minipy_ran, "x = 1\ny = 2\n"), "run-text"); p.check("run-released"); }
// every call that can fail does, once: an exception, nothing leaked, nothing pending, and the next attempt works
HARNESS(failure_value) { py p; bool real = sym_pick("real", 0, 1); minipy_fail = 1; sym_assert(throws([&] { if (real) python_get_value(2.5); else python_get_value(3); }), "value-failure"); minipy_fail = 0; p.check("value-failure-released"); PyObject *d = python_get_value(2.5); int k = sym_pick("k", 1, 3); minipy_fail = k; long got = 2; (void)throws([&] { got = python_as_long(d); }); minipy_fail = 0; sym_assert(got == 2, "conversion-failure"); python_free(d); p.check("conversion-failure-released"); }
HARNESS(failure_call) { py p; { fun f(def_record); int k = sym_pick("k", 1, 8); minipy_fail = k; PyObject *r = nullptr; bool t = throws([&] { r = python_call_function(f.o, 1, 2.5, 3); }); minipy_fail = 0; sym_assert(t == (r == nullptr), "call-failure"); if (k <= 4) sym_assert(t, "call-failure-thrown"); if (r) python_free(r); sym_assert(!PyErr_Occurred(), "error-left-pending"); r = python_call_function(f.o, 1, 2.5, 3); sym_assert(seen_n == 3 && seen_i[2] == 3, "call-after-failure"); python_free(r); } p.check("call-failure-released"); }
HARNESS(failure_import) { py p; module_with(1); long base = live(); int k = sym_pick("k", 1, 4); minipy_fail = k; PyObject *r = nullptr; bool t = throws([&] { r = python_import("a_module"); }); minipy_fail = 0; sym_assert(t == (r == nullptr), "import-failure"); if (r) python_free(r); sym_assert(live() == base && !PyErr_Occurred(), "import-failure-released"); PyObject *m = python_import("a_module"); minipy_fail = 1; sym_assert(throws([&] { python_get_attribute(m, "value"); }), "attribute-failure"); minipy_fail = 0; python_free(m); sym_assert(live() == base && !PyErr_Occurred(), "attribute-failure-released"); }
HARNESS(failure_path) { py p; PyObject *s = PySys_GetObject("path"); auto refs = Py_REFCNT(s); long base = live(); int k = sym_pick("k", 1, 6); minipy_fail = k; PyObject *r = nullptr; bool t = throws([&] { r = python_add_to_path("dir"); }); minipy_fail = 0; sym_assert(t == (r == nullptr), "path-failure"); if (r) python_free(r); sym_assert(Py_REFCNT(s) == refs && !PyErr_Occurred(), "path-failure-references"); sym_assert(live() == base + (PyList_Size(s) - 1), "path-failure-released"); }
HARNESS(failure_tuple) { py p; int k = sym_pick("k", 1, 5); minipy_fail = k; PyObject *r = nullptr; bool t = throws([&] { r = python_build_args(1, 2.5, 3); }); minipy_fail = 0; sym_assert(t == (r == nullptr), "tuple-failure"); if (r) { minipy_fail = 1; sym_assert(throws([&] { python_set_tuple_element(r, 1, 7); }), "element-failure"); minipy_fail = 0; sym_eq(python_as_double(python_get_tuple_element(r, 1)), 2.5, "element-kept"); python_free(r); } p.check("tuple-failure-released"); }
#endif
