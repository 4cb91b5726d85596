// FleCSI meshes handed to Catalyst: the VTK grid has the points, cells and faces of the mesh.
#include "sym.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <array>
#include <chrono>
#include <cstdio>
#ifdef ENCODED
extern "C" int putenv(char *) { return 0; }
#else
#include <unistd.h>
#endif
#ifndef DIMS
#define DIMS 3
#endif
// a mesh in the manner of the burton mesh of FleCSI specializations: entities with local numbers
namespace flecsi { enum part { owned, ghost }; }
namespace flecsi_sp { namespace burton {
struct burton_mesh_t { static constexpr std::size_t num_dimensions = DIMS; using real_t = double; using vector_t = std::array<double, DIMS>;
  template<int K> struct entity { burton_mesh_t *m; std::size_t i; std::size_t id() const { return i; } operator std::size_t() const { return i; } bool operator==(const entity &o) const { return i == o.i; } bool operator!=(const entity &o) const { return i != o.i; } vector_t &coordinates() const { return m->x[i]; } const entity *operator->() const { return this; } };
  using vertex = entity<0>; using face = entity<1>; using cell = entity<2>;
  std::vector<vector_t> x; std::vector<std::vector<std::size_t>> cv, cf, fv, fc; std::vector<int> mine; std::vector<std::size_t> order;
  template<class E> std::vector<E> make(const std::vector<std::size_t> &l) { std::vector<E> r; for (auto i : l) r.push_back(E{this, i}); return r; }
  std::size_t num_vertices() const { return x.size(); } std::size_t num_faces() const { return fv.size(); } std::size_t num_cells() const { return cv.size(); }
  std::vector<vertex> vertices() { return make<vertex>(order); } std::vector<vertex> vertices(const cell &c) { return make<vertex>(cv[c.i]); } std::vector<vertex> vertices(const face &f) { return make<vertex>(fv[f.i]); }
  std::vector<face> faces(const cell &c) { return make<face>(cf[c.i]); } std::vector<cell> cells(const face &f) { return make<cell>(fc[f.i]); }
  std::vector<cell> cells() { std::vector<cell> r; for (std::size_t i = 0; i < cv.size(); i++) r.push_back(cell{this, i}); return r; }
  std::vector<cell> cells(flecsi::part p) { std::vector<cell> r; for (std::size_t i = 0; i < cv.size(); i++) if (mine[i] == (p == flecsi::owned)) r.push_back(cell{this, i}); return r; } };
} }
static long now_ns;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(now_ns += 1000))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(now_ns += 1000))); }
#include <ristra/io/catalyst/flecsale_unstructuredGrid.h>
namespace C = ristra::io::catalyst; using std::vector; using std::string; typedef vtkSmartPointer<vtkUnstructuredGrid> ugrid; typedef flecsi_sp::burton::burton_mesh_t mesh;
struct quiet { std::ostringstream o; std::streambuf *p; quiet() : p(std::cout.rdbuf(o.rdbuf())) {} ~quiet() { std::cout.rdbuf(p); } };
struct balance { quiet q; long n = vtkObjectBase::live; ~balance() { sym_assert(vtkObjectBase::live == n, "objects-released"); } };
static std::size_t num(const char *n, int hi) { return (std::size_t)sym_int_in(n, 0, hi); }
static vector<std::size_t> nums(const char *n, int k, int hi) { vector<std::size_t> r; for (int i = 0; i < k; i++) r.push_back(num(n, hi)); return r; }
// two cells, three faces; the middle one is shared; numbers of the corners and the cell a face belongs to first are arbitrary
static mesh some(int nv, bool any_order) { mesh m; for (int i = 0; i < nv; i++) { mesh::vector_t v; for (auto &c : v) { c = sym_real("x"); sym_assume(c >= -1000); sym_assume(c <= 1000); } m.x.push_back(v); m.order.push_back(i); }
  if (any_order && nv > 1) { int k = sym_pick("order", 0, nv - 1); std::swap(m.order[0], m.order[k]); }
  int nc = sym_pick("cells", 0, 2); for (int c = 0; c < nc; c++) { int k = sym_pick("corners", 0, 1) ? 4 : 1; m.cv.push_back(nums("corner", k, nv - 1)); m.mine.push_back(sym_pick("mine", 0, 1)); m.cf.push_back(c ? vector<std::size_t>{1, 2} : vector<std::size_t>{0, 1}); }
  if (nc && sym_pick("lone", 0, 1)) m.cf[0].clear();
  for (int f = 0; f < 3; f++) { m.fv.push_back(nums("end", f == 1 ? 3 : 2, nv - 1)); m.fc.push_back(f == 1 ? vector<std::size_t>{num("first", 1)} : vector<std::size_t>{(std::size_t)(f / 2)}); if (f == 1) m.fc[1].push_back(1 - m.fc[1][0]); } return m; }
static void same_points(ugrid u, const mesh &m) { vtkPoints *p = u->GetPoints(); sym_assert(p && p->GetNumberOfPoints() == (vtkIdType)m.x.size(), "points"); if (!p) return; for (std::size_t i = 0; i < m.x.size(); i++) { double *q = p->GetPoint((vtkIdType)i); for (int d = 0; d < 3; d++) sym_near(q[d], d < DIMS ? m.x[i][(std::size_t)d] : 0., 1e-3, "point"); } }
static void same_cells(ugrid u, const mesh &m, bool all) { std::size_t n = 0; for (std::size_t c = 0; c < m.cv.size(); c++) { if (!all && !m.mine[c]) continue; sym_assert(n < u->shapes.size(), "cells"); if (n >= u->shapes.size()) return; auto &s = u->shapes[n++]; sym_assert(s.type == VTK_POLYHEDRON && s.nfaces == (vtkIdType)m.cf[c].size() && s.pts.size() == m.cv[c].size(), "shape");
    bool ok = s.pts.size() == m.cv[c].size(); for (std::size_t i = 0; ok && i < s.pts.size(); i++) sym_assert(s.pts[i] == (vtkIdType)m.cv[c][i], "corners");
    vector<vtkIdType> want; for (auto f : m.cf[c]) { auto v = m.fv[f]; bool turn = m.fc[f][0] != c; want.push_back((vtkIdType)v.size()); for (std::size_t i = 0; i < v.size(); i++) want.push_back((vtkIdType)v[turn ? v.size() - 1 - i : i]); }
    sym_assert(want.size() == s.faces.size(), "faces"); for (std::size_t i = 0; i < want.size() && i < s.faces.size(); i++) sym_assert(want[i] == s.faces[i], "face-corners"); }
  sym_assert(n == u->shapes.size(), "cells"); }
HARNESS(create) { balance b; mesh m = some(sym_pick("two", 0, 1) ? 4 : 1, false); vector<mesh::vector_t> keep = m.x; ugrid u = C::createMesh(m); same_points(u, m); same_cells(u, m, false); for (std::size_t i = 0; i < keep.size(); i++) sym_eq(m.x[i][DIMS - 1], keep[i][DIMS - 1], "mesh-kept"); }
HARNESS(create_many) { balance b; mesh m; int s = sym_pick("s", 0, 39); for (int i = 0; i < 40; i++) { m.x.push_back({}); m.x.back()[DIMS - 1] = i == s ? 7 : i; m.order.push_back(i); } vector<std::size_t> l; for (int i = 0; i < 20; i++) l.push_back((std::size_t)(39 - i)); for (int c = 0; c < 3; c++) { m.cv.push_back(l); m.mine.push_back(c != 1); m.cf.push_back({(std::size_t)c}); m.fv.push_back(l); m.fc.push_back({(std::size_t)(c == 2 ? 1 : c)}); } ugrid u = C::createMesh(m); same_points(u, m); same_cells(u, m, false); }
HARNESS(create_twice) { balance b; mesh m, k; m.x.push_back({}); m.x[0][0] = sym_int_in("x", -100, 100); m.order = {0}; k = m; k.x.push_back({}); k.order = {0, 1}; ugrid u = C::createMesh(m), v = C::createMesh(k); same_points(u, m); same_points(v, k); sym_assert(u.Get() != v.Get(), "own-grid"); }
HARNESS(points) { balance b; mesh m = some(4, true); ugrid u = ugrid::New(); C::writePointsToGrid(m, u); same_points(u, m); }
HARNESS(points_none) { balance b; mesh m; ugrid u = ugrid::New(); C::writePointsToGrid(m, u); same_points(u, m); }
HARNESS(cells) { balance b; mesh m = some(4, false); ugrid u = ugrid::New(); C::writeCellsToGrid(m, u); same_cells(u, m, true); }
HARNESS(init) { balance b; ugrid u; int had = sym_pick("had", 0, 1); if (had) u = ugrid::New(); vtkUnstructuredGrid *old = u.Get(); C::initVTKUnstructuredGrid(u); sym_assert(u.Get() && u.Get() != old, "new-grid"); }
// data
static vtkDataArray *found(vtkUnstructuredGrid *g, int type, const string &name) { vtkFieldData *in = type == 0 ? (vtkFieldData *)g->GetPointData() : g->GetCellData(), *not_in = type == 0 ? (vtkFieldData *)g->GetCellData() : g->GetPointData(); sym_assert(in->GetNumberOfArrays() == 1 && not_in->GetNumberOfArrays() == 0, "arrays"); return in->GetArray(name.c_str()); }
HARNESS(scalar) { balance b; ugrid u = ugrid::New(); int n = sym_pick("n", 0, 3), type = sym_pick("type", 0, 2); double d[3]; for (double &x : d) x = sym_real("d"); string name(1, (char)sym_int_in("name", 1, 127)); if (type == 2) C::addScalar(d, name, u, n); else C::addScalar(d, name, u, n, type); auto *a = found(u, type, name); sym_assert(a && a->GetNumberOfComponents() == 1 && a->GetNumberOfTuples() == n, "shape"); if (a) for (int i = 0; i < n; i++) sym_eq(a->value(i), d[i], "value"); }
template<class F> void columns(int comps, F add) { balance b; ugrid u = ugrid::New(); int n = sym_pick("n", 0, 3), type = sym_pick("type", 0, 2); vector<vector<double>> d(comps); for (auto &c : d) for (int i = 0; i < n; i++) c.push_back(sym_real("d")); string name(1, (char)sym_int_in("name", 1, 127)); add(d, name, u, n, type); auto *a = found(u, type, name); sym_assert(a && a->GetNumberOfComponents() == comps && a->GetNumberOfTuples() == n, "shape"); if (a) for (int i = 0; i < n; i++) for (int c = 0; c < comps; c++) sym_eq(a->value(i * comps + c), d[c][i], "value"); }
HARNESS(vectors) { columns(sym_pick("comps", 2, 3), [](auto &d, string name, ugrid &u, int n, int type) { if (type == 2) C::addVector(d, name, u, n); else C::addVector(d, name, u, n, type); }); }
HARNESS(tensors) { columns(9, [](auto &d, string name, ugrid &u, int n, int type) { if (type == 2) C::addTensor(d, name, u, n); else C::addTensor(d, name, u, n, type); }); }
// files
HARNESS(output) { balance b; vtk_files.clear(); ugrid u = ugrid::New(); string f(1, (char)sym_int_in("f", 1, 127)); C::outputVTKUnstructredGrid(f, u); sym_assert(vtk_files.size() == 1 && vtk_files[0].name == f && vtk_files[0].grid == u.Get() && vtk_files[0].binary, "file"); }
HARNESS(output_text) { balance b; string t; int n = sym_pick("n", 0, 3), before = sym_pick("before", 0, 1); for (int i = 0; i < n; i++) t += (char)sym_int("t"); string got;
#ifdef ENCODED
  string f = "/scratch/a"; if (before) { auto *k = std::fake_make(f.c_str()); k->text.n = 0; k->text.put("older text", 10); } C::outputFile(f, t); auto *k = std::fake_find(f.c_str()); sym_assert(k, "written"); if (k) got.assign(k->text.n ? k->text.p : "", k->text.n);
#else
  char d[] = "/tmp/mesh-check-XXXXXX"; string f = string(mkdtemp(d)) + "/a"; if (before) { std::ofstream o(f); o << "older text"; } C::outputFile(f, t); { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); got = s.str(); sym_assert((bool)i, "written"); } remove(f.c_str()); rmdir(d);
#endif
  sym_assert(got == t, "file-text"); }
HARNESS(output_nowhere) { balance b; C::outputFile("/nodir/nodir/a", "x"); string s = b.q.o.str(); sym_assert(s.find("/nodir/nodir/a") != string::npos, "reported"); }
