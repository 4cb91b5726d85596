// Grids and steps handed to Catalyst: what VTK is given is what the caller gave.
#include "sym.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <chrono>
#include <map>
#include <algorithm>
#ifdef ENCODED
extern "C" int putenv(char *) { return 0; }
#endif
#include <ristra/io/catalyst/vtk/unstructuredGrid.h>
static long now_ns;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(now_ns += 1000))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(now_ns += 1000))); }
#include <ristra/io/catalyst/adaptor.h>
using namespace ristra::io; using grid = vtk::UnstructuredGrid; using std::vector; using std::string; typedef vtkSmartPointer<vtkUnstructuredGrid> ugrid;
struct quiet { std::ostringstream o; std::streambuf *p; quiet() : p(std::cout.rdbuf(o.rdbuf())) {} ~quiet() { std::cout.rdbuf(p); } };
// nothing is left behind, nothing is released twice
struct balance { quiet q; long n = vtkObjectBase::live; ~balance() { vtkMultiProcessController::SetGlobalController(nullptr); sym_assert(vtkObjectBase::live == n, "objects-released"); } };
template<class T> T any(const char *n); template<> double any(const char *n) { return sym_real(n); } template<> float any(const char *n) { return (float)sym_real(n); } template<> int any(const char *n) { return sym_int(n); } template<> long any(const char *n) { return sym_int(n); } template<> unsigned char any(const char *n) { return (unsigned char)sym_char(n); }
static void at(vtkUnstructuredGrid *g, int i, double x, double y, double z) { double *p = g->GetPoints()->GetPoint(i); sym_eq(p[0], x, "point-x"); sym_eq(p[1], y, "point-y"); sym_eq(p[2], z, "point-z"); }
static bool cell(vtkUnstructuredGrid *g, int i, vector<vtkIdType> w) { return g->GetCells()->c[i] == w; }
template<class T> void points() { balance b; grid g; T a[3], c[3], m[6]; for (T &x : a) x = any<T>("a"); for (T &x : c) x = any<T>("c"); for (T &x : m) x = any<T>("m"); int k = sym_pick("many", 0, 2), two = sym_pick("push", 0, 1); g.insertNextPoint(a); g.insertNextPoints(m, k); g.insertNextPoint(c[0], c[1], c[2]); if (two) g.pushPointsToGrid(VTK_TETRA); else g.pushPointsToGrid();
  auto u = g.getUGrid(); sym_assert(u->GetNumberOfPoints() == 2 + k && g.getGrid() == (vtkDataSet *)u.Get(), "points"); at(u, 0, a[0], a[1], a[2]); for (int i = 0; i < k; i++) at(u, 1 + i, m[3 * i], m[3 * i + 1], m[3 * i + 2]); at(u, 1 + k, c[0], c[1], c[2]); sym_assert(!two || (u->type == VTK_TETRA && u->GetNumberOfCells() == 0), "no-cells"); }
HARNESS(points_double) { points<double>(); } HARNESS(points_float) { points<float>(); } HARNESS(points_int) { points<int>(); }
HARNESS(points_many) { balance b; grid g(1, 4); vector<double> m; int n = 40, s = sym_pick("s", 0, 39); for (int i = 0; i < 3 * n; i++) m.push_back(i == 3 * s + 1 ? sym_real("m") : i * 0.5); g.insertNextPoints(m.data(), n); g.pushPointsToGrid(); sym_assert(g.uGrid->GetNumberOfPoints() == n, "points"); for (int i = 0; i < n; i++) at(g.uGrid, i, m[3 * i], m[3 * i + 1], m[3 * i + 2]); }
template<class T> void vertices() { balance b; grid g; int n = sym_pick("n", 0, 4), type = sym_int("type"), whole = sym_pick("whole", 0, 1); T m[12]; for (T &x : m) x = any<T>("m"); if (whole) g.setPoints(m, n, type); else { for (int i = 0; i < n; i++) g.addPoint(m + 3 * i); g.pushPointsToGrid(type); } sym_assert(g.uGrid->GetNumberOfPoints() == n && g.uGrid->GetNumberOfCells() == n && g.uGrid->type == type, "vertices"); for (int i = 0; i < n; i++) { at(g.uGrid, i, m[3 * i], m[3 * i + 1], m[3 * i + 2]); sym_assert(cell(g.uGrid, i, {i}), "vertex-cell"); } }
HARNESS(vertices_double) { vertices<double>(); } HARNESS(vertices_float) { vertices<float>(); }
HARNESS(own_points) { balance b; grid g; auto p = vtkSmartPointer<vtkPoints>::New(); auto c = vtkSmartPointer<vtkCellArray>::New(); int type = sym_int("type"); double x = sym_real("x"); p->InsertNextPoint(x, 1, 2); vtkIdType z = 0; c->InsertNextCell(1, &z); g.setPoints(p, c, type); sym_assert(g.uGrid->GetPoints() == p.Get() && g.uGrid->GetCells() == c.Get() && g.uGrid->type == type, "own-points"); at(g.uGrid, 0, x, 1, 2); }
template<class T> void cells() { balance b; grid g; int n = sym_pick("n", 0, 3), type = sym_int("type"); vector<vector<vtkIdType>> want; for (int i = 0; i < n; i++) { int k = sym_pick("k", 0, 1) ? 8 : i; vector<T> ids; want.emplace_back(); for (int j = 0; j < k; j++) { T id = any<T>("id"); ids.push_back(id); want.back().push_back((vtkIdType)id); } g.insertNextCell(ids); } g.pushPointsToGrid(type); sym_assert(g.uGrid->GetNumberOfCells() == n && g.uGrid->type == type, "cells"); for (int i = 0; i < n; i++) sym_assert(cell(g.uGrid, i, want[i]), "cell"); }
HARNESS(cells_int) { cells<int>(); } HARNESS(cells_long) { cells<long>(); } HARNESS(cells_uchar) { cells<unsigned char>(); }
HARNESS(reset) { balance b; grid g; double m[6]; for (double &x : m) x = sym_real("m"); int push = sym_pick("push", 0, 1); g.addPoint(m); g.insertNextCell(vector<int>{0, 0}); if (push) g.pushPointsToGrid(1); ugrid first = g.getUGrid(); g.reset(); if (push) { sym_assert(first->GetNumberOfPoints() == 1, "pushed-kept"); at(first, 0, m[0], m[1], m[2]); } g.addPoint(m + 3); g.pushPointsToGrid(2); sym_assert(g.uGrid->GetNumberOfPoints() == 1 && g.uGrid->GetNumberOfCells() == 1 && cell(g.uGrid, 0, {0}), "reset"); at(g.uGrid, 0, m[3], m[4], m[5]); }
// data
static bool shape(vtkDataArray *a, int comps, int n) { return a && a->GetNumberOfComponents() == comps && a->GetNumberOfTuples() == n && a->GetNumberOfValues() == comps * n; }
static vtkDataArray *found(vtkUnstructuredGrid *g, int type, const char *name, int count = 1) { vtkFieldData *in = type == 0 ? (vtkFieldData *)g->GetPointData() : g->GetCellData(), *not_in = type == 0 ? (vtkFieldData *)g->GetCellData() : g->GetPointData(); sym_assert(in->GetNumberOfArrays() == count && not_in->GetNumberOfArrays() == 0 && g->GetFieldData()->GetNumberOfArrays() == 0, "one-array"); return in->GetArray(name); }
template<class T> void scalar() { balance b; ugrid u; { grid g; int n = sym_pick("n", 0, 4), type = sym_pick("type", 0, 2), alone = sym_pick("alone", 0, 1); string name(1, (char)sym_int_in("name", 1, 127)); name += "x"; T d[5]; for (T &x : d) x = any<T>("d"); u = g.getUGrid(); if (alone) vtk::setScalarData(name, d, n, type, u); else g.addScalarData(name, d, n, type); T keep[5]; std::copy(d, d + 5, keep); for (T &x : d) x = T(7); auto *a = found(u, type, name.c_str()); sym_assert(shape(a, 1, n), "scalar-shape"); for (int i = 0; i < n; i++) sym_eq(a->value(i), (double)keep[i], "scalar"); } sym_assert(u->GetReferenceCount() == 1, "grid-shared"); }
HARNESS(scalar_double) { scalar<double>(); } HARNESS(scalar_float) { scalar<float>(); } HARNESS(scalar_int) { scalar<int>(); } HARNESS(scalar_uchar) { scalar<unsigned char>(); }
HARNESS(scalar_many) { balance b; grid g; vector<double> d; int n = 300; for (int i = 0; i < n; i++) d.push_back(i * 0.25); d[n - 1] = sym_real("last"); g.addScalarData("density", d.data(), n, 1); auto *a = found(g.uGrid, 1, "density"); sym_assert(shape(a, 1, n), "scalar-shape"); for (int i = 0; i < n; i++) sym_eq(a->value(i), d[i], "scalar"); }
HARNESS(named_apart) { balance b; grid g; double p[2] = {sym_real("p"), 1}, q[3] = {sym_real("q"), 2, 3}; int same = sym_pick("same", 0, 1); g.addScalarData("pressure", p, 2, 1); g.addScalarData(same ? "pressure" : "Pressure", q, 3, 1); auto *a = found(g.uGrid, 1, "pressure", same ? 1 : 2); if (same) { sym_assert(shape(a, 1, 3), "replaced"); sym_eq(a->value(0), q[0], "replaced"); } else { sym_assert(shape(a, 1, 2), "kept"); sym_eq(a->value(0), p[0], "kept"); sym_eq(g.uGrid->GetCellData()->GetArray("Pressure")->value(0), q[0], "second"); } }
HARNESS(both_kinds) { balance b; grid g; double p[1] = {sym_real("p")}, q[1] = {sym_real("q")}; g.addScalarData("v", p, 1, 0); g.addScalarData("v", q, 1, 1); sym_eq(g.uGrid->GetPointData()->GetArray("v")->value(0), p[0], "point-data"); sym_eq(g.uGrid->GetCellData()->GetArray("v")->value(0), q[0], "cell-data"); }
template<class T> void columns() { balance b; grid g; int comps = sym_pick("comps", 1, 3), n = sym_pick("n", 0, 3), type = sym_pick("type", 0, 2), how = sym_pick("how", 0, 3); if (how == 1 || how == 3) comps = comps == 1 ? 9 : comps; vector<vector<T>> d(comps); for (auto &c : d) for (int i = 0; i < n; i++) c.push_back(any<T>("d")); if (how == 0) g.addVectorData("a name", d, n, type); if (how == 1) g.addTensorData("a name", d, n, type); if (how == 2) vtk::setVectorData("a name", d, n, type, g.uGrid); if (how == 3) vtk::setTensorData("a name", d, n, type, g.uGrid); auto *a = found(g.uGrid, type, "a name"); sym_assert(shape(a, comps, n), "vector-shape"); for (int i = 0; i < n; i++) for (int k = 0; k < comps; k++) sym_eq(a->value(i * comps + k), (double)d[k][i], "vector"); }
HARNESS(columns_double) { columns<double>(); } HARNESS(columns_int) { columns<int>(); }
HARNESS(three) { balance b; grid g; int n = sym_pick("n", 0, 3), type = sym_pick("type", 0, 2); double x[3], y[3], z[3]; for (int i = 0; i < 3; i++) { x[i] = sym_real("x"); y[i] = sym_real("y"); z[i] = sym_real("z"); } g.addVectorData("v", n, type, x, y, z); auto *a = found(g.uGrid, type, "v"); sym_assert(shape(a, 3, n), "three-shape"); for (int i = 0; i < n; i++) { sym_eq(a->value(3 * i), x[i], "three"); sym_eq(a->value(3 * i + 1), y[i], "three"); sym_eq(a->value(3 * i + 2), z[i], "three"); } }
HARNESS(interleaved) { balance b; vector<double> d(12); for (double &x : d) x = sym_real("d"); vector<double> keep = d; { grid g; int comps = sym_pick("comps", 1, 3), n = sym_pick("n", 1, 4), type = sym_pick("type", 0, 2); g.addVectorData("v", n, comps, type, d.data()); auto *a = found(g.uGrid, type, "v"); sym_assert(shape(a, comps, n), "interleaved-shape"); for (int i = 0; i < n * comps; i++) sym_eq(a->value(i), d[i], "interleaved"); } for (int i = 0; i < 12; i++) sym_eq(d[i], keep[i], "data-of-the-caller"); }
HARNESS(field) { balance b; double x = sym_real("x"), y = x; { grid g; g.addFieldData("time", &x); auto *a = g.uGrid->GetFieldData()->GetArray("time"); sym_assert(shape(a, 1, 1) && g.uGrid->GetPointData()->GetNumberOfArrays() == 0 && g.uGrid->GetCellData()->GetNumberOfArrays() == 0, "field"); sym_eq(a->value(0), x, "field-value"); } sym_eq(x, y, "data-of-the-caller"); }
// files
HARNESS(write) { balance b; vtk_files.clear(); grid g; int how = sym_pick("how", 0, 3), n = sym_int("n"), s = sym_int("s"), e = sym_int("e"); string f(1, (char)sym_int_in("f", 1, 127)); if (how == 0) g.write(f); if (how == 1) g.write(f, 1); if (how == 2) g.writeParts(n, s, e, f); if (how == 3) { g.setOutputSerial(); g.writeParts(n, s, e, f); } bool par = how == 1 || how == 2; sym_assert(vtk_files.size() == 1, "one-file"); auto &w = vtk_files[0]; sym_assert(w.name == f + (par ? ".pvtu" : ".vtu") && w.grid == g.uGrid.Get() && w.parallel == par && (!par || w.controlled), "file"); if (how == 2) sym_assert(w.pieces == n && w.first == s && w.last == e, "pieces"); g.write(f + "b", 0); sym_assert(vtk_files.size() == 2 && vtk_files[1].name == f + "b.vtu" && !vtk_files[1].parallel, "second-file"); }
HARNESS(write_alone) { balance b; vtk_files.clear(); auto u = ugrid::New(); int n = sym_int("n"), s = sym_int("s"), e = sym_int("e"); string f(1, (char)sym_int_in("f", 1, 127)); vtk::writeUnstructuredGrid(f, u, n, s, e); sym_assert(vtk_files.size() == 1, "one-file"); auto &w = vtk_files[0]; if (n > 1) sym_assert(w.parallel && w.controlled && w.name == f + ".pvtu" && w.pieces == n && w.first == s && w.last == e && w.grid == u.Get(), "parallel-file"); else sym_assert(!w.parallel && w.name == f + ".vtu" && w.grid == u.Get(), "serial-file"); }
// steps
static vector<string> some_scripts() { int n = sym_pick("scripts", 0, 3); vector<string> s; for (int i = 0; i < n; i++) s.push_back(string(1, (char)sym_int_in("s", 'a', 'z')) + (i ? ".py" : "/a_script_with_a_rather_long_name.py")); return s; }
template<class F> void steps(const vector<string> &s, bool strict, F go) { vtk_steps.clear(); auto u = ugrid::New(), v = ugrid::New(); int n = sym_pick("steps", 1, 2); for (int i = 0; i < n; i++) { double t = sym_real("time"); unsigned k = (unsigned)sym_int("step"); bool last = sym_pick("last", 0, 1); vtk_wanted = sym_pick("wanted", 0, 1); go(i ? v : u, t, k, last); sym_assert((int)vtk_steps.size() == i + 1, "asked-once"); auto &w = vtk_steps[i]; sym_eq(w.time, t, "time"); sym_assert(w.step == (vtkIdType)k, "step"); sym_assert(w.forced || !last, "last-forced"); if (strict) sym_assert(w.forced == last, "forced"); sym_assert(w.ran == (vtk_wanted || w.forced), "runs-when-wanted"); if (w.ran) sym_assert(w.grid == (i ? v.Get() : u.Get()) && w.scripts == s, "runs-on-the-grid"); } sym_assert(u->GetReferenceCount() == 1 && v->GetReferenceCount() == 1, "grid-shared"); }
HARNESS(adaptor) { balance b; auto s = some_scripts(); catalyst::adaptor_t a(s); steps(s, true, [&](vtkUnstructuredGrid *g, double t, unsigned k, bool last) { a.process(g, t, k, last); }); }
HARNESS(functions) { balance b; vtk_rank = sym_pick("rank", 0, 1); auto s = some_scripts(); auto *p = catalyst::initAdaptor(s); steps(s, false, [&](vtkUnstructuredGrid *g, double t, unsigned k, bool last) { catalyst::processCatalyst(p, g, t, k, last); }); sym_assert(catalyst::finalizeAdaptor(p) == nullptr, "finalized"); sym_assert(catalyst::finalizeAdaptor(nullptr) == nullptr, "nothing-to-finalize"); }
