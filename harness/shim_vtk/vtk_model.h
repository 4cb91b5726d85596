// A small stand-in for the parts of VTK, Catalyst and MPI the adaptor uses (they are not installed), with VTK's
// reference counting and ownership rules. It records what it was given. Used in the encoding and in the replay.
#pragma once
#include <vector>
#include <string>
#include <cstdlib>
#include <cstddef>
#include <initializer_list>
#define VTK_MAJOR_VERSION 9
typedef long long vtkIdType; enum { VTK_VERTEX = 1, VTK_TETRA = 10, VTK_HEXAHEDRON = 12, VTK_POLYHEDRON = 42 };
struct vtkObjectBase { int refs = 1; static inline long live = 0; vtkObjectBase() { live++; } vtkObjectBase(const vtkObjectBase &) = delete; virtual ~vtkObjectBase() { live--; } void Register(vtkObjectBase *) { refs++; } void UnRegister(vtkObjectBase *) { if (--refs == 0) delete this; } void Delete() { UnRegister(nullptr); } int GetReferenceCount() { return refs; } void Modified() {} };
typedef vtkObjectBase vtkObject;
template<class T> struct vtkSmartPointer { T *p = nullptr; vtkSmartPointer() {} vtkSmartPointer(std::nullptr_t) {} vtkSmartPointer(T *q) : p(q) { if (p) p->Register(nullptr); } vtkSmartPointer(const vtkSmartPointer &o) : vtkSmartPointer(o.p) {} template<class U> vtkSmartPointer(const vtkSmartPointer<U> &o) : vtkSmartPointer(o.p) {} vtkSmartPointer &operator=(const vtkSmartPointer &o) { T *old = p; p = o.p; if (p) p->Register(nullptr); if (old) old->UnRegister(nullptr); return *this; } ~vtkSmartPointer() { if (p) p->UnRegister(nullptr); }
  static vtkSmartPointer New() { vtkSmartPointer r; r.p = T::New(); return r; } static vtkSmartPointer Take(T *q) { vtkSmartPointer r; r.p = q; return r; } void TakeReference(T *q) { *this = Take(q); } T *operator->() const { return p; } T &operator*() const { return *p; } operator T *() const { return p; } T *Get() const { return p; } T *GetPointer() const { return p; } };
template<class T> struct vtkNew { T *p; vtkNew() : p(T::New()) {} vtkNew(const vtkNew &) = delete; ~vtkNew() { p->Delete(); } T *operator->() const { return p; } T &operator*() const { return *p; } operator T *() const { return p; } T *Get() const { return p; } T *GetPointer() const { return p; } operator vtkSmartPointer<T>() const { return vtkSmartPointer<T>(p); } };
template<class T> void vtk_set(T *&a, T *b) { if (b) b->Register(nullptr); if (a) a->UnRegister(nullptr); a = b; }
struct vtkPoints : vtkObject { struct xyz { double v[3]; }; std::vector<xyz> p; static vtkPoints *New() { return new vtkPoints; }
  void SetNumberOfPoints(vtkIdType n) { p.resize((size_t)n); } vtkIdType GetNumberOfPoints() { return (vtkIdType)p.size(); } vtkIdType InsertNextPoint(double x, double y, double z) { p.push_back({{x, y, z}}); return (vtkIdType)p.size() - 1; } template<class T> vtkIdType InsertNextPoint(const T *q) { return InsertNextPoint(q[0], q[1], q[2]); } void SetPoint(vtkIdType i, double x, double y, double z) { p.data()[i] = {{x, y, z}}; } template<class T> void SetPoint(vtkIdType i, const T *q) { SetPoint(i, q[0], q[1], q[2]); } void InsertPoint(vtkIdType i, double x, double y, double z) { if ((size_t)i >= p.size()) p.resize((size_t)i + 1); SetPoint(i, x, y, z); } template<class T> void InsertPoint(vtkIdType i, const T *q) { InsertPoint(i, q[0], q[1], q[2]); } double *GetPoint(vtkIdType i) { return p.data()[i].v; } void Reset() { p.clear(); } void Initialize() { p.clear(); } };
struct vtkCellArray : vtkObject { std::vector<std::vector<vtkIdType>> c; static vtkCellArray *New() { return new vtkCellArray; } vtkIdType InsertNextCell(vtkIdType n, const vtkIdType *q) { c.emplace_back(q, q + n); return (vtkIdType)c.size() - 1; } vtkIdType InsertNextCell(int n) { c.emplace_back(); c.back().reserve((size_t)n); return (vtkIdType)c.size() - 1; } void InsertCellPoint(vtkIdType i) { c.back().push_back(i); } vtkIdType InsertNextCell(const std::initializer_list<vtkIdType> &l) { return InsertNextCell((vtkIdType)l.size(), l.begin()); } vtkIdType GetNumberOfCells() { return (vtkIdType)c.size(); } void Reset() { c.clear(); } void Initialize() { c.clear(); } };
struct vtkAbstractArray : vtkObject { std::string name; int comps = 1; void SetName(const char *n) { name = n; } const char *GetName() { return name.c_str(); } void SetNumberOfComponents(int n) { comps = n; } int GetNumberOfComponents() { return comps; } virtual size_t values() = 0; virtual double value(size_t i) = 0; vtkIdType GetNumberOfValues() { return (vtkIdType)values(); } vtkIdType GetNumberOfTuples() { return (vtkIdType)(values() / (size_t)comps); } };
typedef vtkAbstractArray vtkDataArray;
// values in order of the tuples; or memory of the caller (kept: left to the caller, else deleted with the array)
template<class T> struct vtk_values : vtkDataArray { std::vector<T> v; T *ext = nullptr; size_t n = 0; bool kept = true; int how = 0; size_t values() override { return ext ? n : v.size(); } double value(size_t i) override { return ext ? ext[i] : v.data()[i]; } void drop() { if (ext && !kept) { if (how == 1) delete[] ext; else free(ext); } ext = nullptr; } ~vtk_values() { drop(); }
  vtkIdType InsertNextValue(T x) { v.push_back(x); return (vtkIdType)v.size() - 1; } void SetValue(vtkIdType i, T x) { v.data()[i] = x; } T GetValue(vtkIdType i) { return ext ? ext[i] : v.data()[i]; } void SetNumberOfTuples(vtkIdType k) { v.resize((size_t)k * (size_t)comps); } void SetNumberOfValues(vtkIdType k) { v.resize((size_t)k); } void InsertNextTypedTuple(const T *q) { for (int i = 0; i < comps; i++) v.push_back(q[i]); } void SetTypedTuple(vtkIdType i, const T *q) { for (int k = 0; k < comps; k++) v.data()[i * comps + k] = q[k]; } void SetTypedComponent(vtkIdType i, int k, T x) { v.data()[i * comps + k] = x; } T GetTypedComponent(vtkIdType i, int k) { return GetValue(i * comps + k); } void SetComponent(vtkIdType i, int k, double x) { SetTypedComponent(i, k, (T)x); } void InsertTypedComponent(vtkIdType i, int k, T x) { size_t at = (size_t)(i * comps + k); if (v.size() <= at) v.resize(at + 1); v[at] = x; } vtkIdType Allocate(vtkIdType k) { v.reserve((size_t)k); return 1; } };
template<class T> struct vtkSOADataArrayTemplate : vtk_values<T> { static vtkSOADataArrayTemplate *New() { return new vtkSOADataArrayTemplate; } void SetArray(int, T *a, vtkIdType k, bool = false, bool save = false, int method = 0) { this->drop(); this->ext = a; this->n = (size_t)k; this->kept = save; this->how = method; } };
template<class T> struct vtkAOSDataArrayTemplate : vtk_values<T> { static vtkAOSDataArrayTemplate *New() { return new vtkAOSDataArrayTemplate; } void SetArray(T *a, vtkIdType k, int save, int method = 0) { this->drop(); this->ext = a; this->n = (size_t)k; this->kept = save; this->how = method; } };
#define VTK_ARRAY(n, T) struct n : vtkAOSDataArrayTemplate<T> { static n *New() { return new n; } };
VTK_ARRAY(vtkDoubleArray, double) VTK_ARRAY(vtkFloatArray, float) VTK_ARRAY(vtkIntArray, int) VTK_ARRAY(vtkLongArray, long) VTK_ARRAY(vtkLongLongArray, long long)
struct vtkFieldData : vtkObject { std::vector<vtkAbstractArray *> a; ~vtkFieldData() { for (auto *x : a) x->UnRegister(nullptr); } int AddArray(vtkAbstractArray *x) { for (size_t i = 0; i < a.size(); i++) if (a[i]->name == x->name) { vtk_set(a[i], x); return (int)i; } x->Register(nullptr); a.push_back(x); return (int)a.size() - 1; } int SetScalars(vtkDataArray *x) { return AddArray(x); } int GetNumberOfArrays() { return (int)a.size(); } vtkDataArray *GetArray(const char *n) { for (auto *x : a) if (x->name == n) return x; return nullptr; } vtkAbstractArray *GetAbstractArray(const char *n) { return GetArray(n); } bool HasArray(const char *n) { return GetArray(n); } };
struct vtkPointData : vtkFieldData {}; struct vtkCellData : vtkFieldData {};
struct vtkDataObject : vtkObject {};
struct vtkDataSet : vtkDataObject { vtkPointData *pd = new vtkPointData; vtkCellData *cd = new vtkCellData; vtkFieldData *fd = new vtkFieldData; ~vtkDataSet() { pd->Delete(); cd->Delete(); fd->Delete(); } vtkPointData *GetPointData() { return pd; } vtkCellData *GetCellData() { return cd; } vtkFieldData *GetFieldData() { return fd; } };
struct vtkUnstructuredGrid : vtkDataSet { vtkPoints *p = nullptr; vtkCellArray *c = nullptr; int type = 0; static vtkUnstructuredGrid *New() { return new vtkUnstructuredGrid; } ~vtkUnstructuredGrid() { vtk_set(p, (vtkPoints *)nullptr); vtk_set(c, (vtkCellArray *)nullptr); } void SetPoints(vtkPoints *q) { vtk_set(p, q); } vtkPoints *GetPoints() { return p; } void SetCells(int t, vtkCellArray *q) { type = t; vtk_set(c, q); } vtkCellArray *GetCells() { return c; } vtkIdType GetNumberOfCells() { return c ? c->GetNumberOfCells() : (vtkIdType)shapes.size(); } struct shape { int type; std::vector<vtkIdType> pts, faces; vtkIdType nfaces; }; std::vector<shape> shapes; vtkIdType InsertNextCell(int t, vtkIdType n, const vtkIdType *q, vtkIdType nf, const vtkIdType *f) { std::vector<vtkIdType> w; const vtkIdType *e = f; for (vtkIdType i = 0; i < nf; i++) { vtkIdType k = *e; for (vtkIdType j = 0; j <= k; j++) w.push_back(*e++); } shapes.push_back({t, std::vector<vtkIdType>(q, q + n), w, nf}); return (vtkIdType)shapes.size() - 1; } vtkIdType GetNumberOfPoints() { return p ? p->GetNumberOfPoints() : 0; } };
struct vtkMultiProcessController : vtkObject { static inline vtkMultiProcessController *global = nullptr; static void SetGlobalController(vtkMultiProcessController *c) { vtk_set(global, c); } static vtkMultiProcessController *GetGlobalController() { return global; } };
struct vtkMPIController : vtkMultiProcessController { bool ready = false, outside = false; static vtkMPIController *New() { return new vtkMPIController; } void Initialize(int *, char ***, int initialized_externally) { ready = true; outside = initialized_externally; } void Finalize() {} void Finalize(int) {} };
struct vtk_file { std::string name; vtkDataObject *grid; bool parallel, binary, compressed, controlled; int pieces, first, last; }; inline std::vector<vtk_file> vtk_files;
struct vtkWriterBase : vtkObject { std::string name; vtkDataObject *in = nullptr; bool binary = true, compressed = true; int pieces = 1, first = 0, last = 0; ~vtkWriterBase() { vtk_set(in, (vtkDataObject *)nullptr); } void SetFileName(const char *n) { name = n; } void SetInputData(vtkDataObject *g) { vtk_set(in, g); } void SetInputDataObject(vtkDataObject *g) { vtk_set(in, g); } void SetDataModeToBinary() { binary = true; } void SetDataModeToAppended() { binary = true; } void SetDataModeToAscii() { binary = false; } void SetFileTypeToBinary() { binary = true; } void SetCompressor(std::nullptr_t) { compressed = false; } };
struct vtkXMLUnstructuredGridWriter : vtkWriterBase { static vtkXMLUnstructuredGridWriter *New() { return new vtkXMLUnstructuredGridWriter; } int Write() { vtk_files.push_back({name, in, false, binary, compressed, false, 1, 0, 0}); return 1; } };
struct vtkUnstructuredGridWriter : vtkWriterBase { vtkUnstructuredGridWriter() { binary = false; } static vtkUnstructuredGridWriter *New() { return new vtkUnstructuredGridWriter; } int Write() { vtk_files.push_back({name, in, false, binary, false, false, 1, 0, 0}); return 1; } };
struct vtkXMLPUnstructuredGridWriter : vtkWriterBase { vtkMultiProcessController *c = nullptr; static vtkXMLPUnstructuredGridWriter *New() { return new vtkXMLPUnstructuredGridWriter; } ~vtkXMLPUnstructuredGridWriter() { vtk_set(c, (vtkMultiProcessController *)nullptr); } void SetNumberOfPieces(int n) { pieces = n; } void SetStartPiece(int n) { first = n; } void SetEndPiece(int n) { last = n; } void SetController(vtkMultiProcessController *q) { vtk_set(c, q); } int Write() { vtk_files.push_back({name, in, true, binary, compressed, c != nullptr, pieces, first, last}); return 1; } };
struct vtkCPInputDataDescription : vtkObject { vtkDataObject *grid = nullptr; ~vtkCPInputDataDescription() { SetGrid(nullptr); } void SetGrid(vtkDataObject *g) { vtk_set(grid, g); } vtkDataObject *GetGrid() { return grid; } };
struct vtkCPDataDescription : vtkObject { std::vector<std::pair<std::string, vtkCPInputDataDescription *>> in; double time = 0; vtkIdType step = 0; bool force = false, timed = false; static vtkCPDataDescription *New() { return new vtkCPDataDescription; } ~vtkCPDataDescription() { for (auto &i : in) i.second->Delete(); } void AddInput(const char *n) { for (auto &i : in) if (i.first == n) return; in.emplace_back(n, new vtkCPInputDataDescription); } void SetTimeData(double t, vtkIdType s) { time = t; step = s; timed = true; } void ForceOutputOn() { force = true; } void ForceOutputOff() { force = false; } void SetForceOutput(bool f) { force = f; } vtkCPInputDataDescription *GetInputDescriptionByName(const char *n) { for (auto &i : in) if (i.first == n) return i.second; return nullptr; } vtkCPInputDataDescription *GetInputDescription(unsigned i) { return in.at(i).second; } };
struct vtkCPPipeline : vtkObject {}; struct vtkCPPythonScriptPipeline : vtkCPPipeline { std::string script; static vtkCPPythonScriptPipeline *New() { return new vtkCPPythonScriptPipeline; } int Initialize(const char *n) { script = n; return 1; } };
// the pipelines want a step when vtk_wanted says so or output is forced
struct vtk_step { double time; vtkIdType step; bool forced, ran; vtkDataObject *grid; std::vector<std::string> scripts; }; inline std::vector<vtk_step> vtk_steps; inline bool vtk_wanted = false;
struct vtkCPProcessor : vtkObject { std::vector<vtkCPPipeline *> p; bool ready = false; static vtkCPProcessor *New() { return new vtkCPProcessor; } ~vtkCPProcessor() { for (auto *x : p) x->UnRegister(nullptr); } int Initialize() { ready = true; return 1; } int AddPipeline(vtkCPPipeline *x) { x->Register(nullptr); p.push_back(x); return 1; } int GetNumberOfPipelines() { return (int)p.size(); } int Finalize() { return 1; }
  int RequestDataDescription(vtkCPDataDescription *d) { if (!ready || !d->timed) return 0; vtk_steps.push_back({d->time, d->step, d->force, false, nullptr, {}}); return d->force || vtk_wanted; } int CoProcess(vtkCPDataDescription *d) { auto &s = vtk_steps.back(); s.ran = true; auto *i = d->GetInputDescriptionByName("input"); s.grid = i ? i->grid : nullptr; for (auto *x : p) s.scripts.push_back(static_cast<vtkCPPythonScriptPipeline *>(x)->script); return 1; } };
inline double MPI_Wtime() { return 0; } typedef int MPI_Comm; enum { MPI_COMM_WORLD = 91, MPI_SUCCESS = 0 }; inline int vtk_rank = 0, vtk_ranks = 1; inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = vtk_rank; return 0; } inline int MPI_Comm_size(MPI_Comm, int *n) { *n = vtk_ranks; return 0; }
