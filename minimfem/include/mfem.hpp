// Stand-in for MFEM (and the OpenSEMBA fork of it) used by the verification
// harness: meshes, discontinuous finite elements, forms, sub-meshes and their
// distributed versions.  Semantics follow MFEM's documentation; only the parts
// reachable from the solver are provided.
#pragma once

#include "mfem_la.hpp"

namespace mfem {

class Mesh;
class ParMesh;
class FiniteElement;
class FiniteElementSpace;
class ParFiniteElementSpace;
class GridFunction;
class ElementTransformation;

// ---------------------------------------------------------------- quadrature
class IntegrationPoint {
public:
  real_t x = 0, y = 0, z = 0, weight = 0;
  int index = 0;
  void Init(int i) { x = y = z = weight = 0; index = i; }
  void Set(const real_t* p, int dim) { x = p[0]; if (dim > 1) y = p[1]; if (dim > 2) z = p[2]; }
  void Get(real_t* p, int dim) const { if (dim > 0) p[0] = x; if (dim > 1) p[1] = y; if (dim > 2) p[2] = z; }
  void Set(real_t a, real_t b, real_t c, real_t w) { x = a; y = b; z = c; weight = w; }
  void Set3w(const real_t* p) { x = p[0]; y = p[1]; z = p[2]; weight = p[3]; }
  void Set3(real_t a, real_t b, real_t c) { x = a; y = b; z = c; }
  void Set3(const real_t* p) { x = p[0]; y = p[1]; z = p[2]; }
  void Set2w(real_t a, real_t b, real_t w) { x = a; y = b; weight = w; }
  void Set2(real_t a, real_t b) { x = a; y = b; }
  void Set1w(real_t a, real_t w) { x = a; weight = w; }
};

class IntegrationRule : public Array<IntegrationPoint> {
public:
  IntegrationRule() = default;
  explicit IntegrationRule(int n) : Array<IntegrationPoint>(n) { for (int i = 0; i < n; i++) (*this)[i].Init(i); }
  int GetOrder() const { return order_; }
  void SetOrder(int o) { order_ = o; }
  int GetNPoints() const { return Size(); }
  IntegrationPoint& IntPoint(int i) { return (*this)[i]; }
  const IntegrationPoint& IntPoint(int i) const { return (*this)[i]; }
  const Array<real_t>& GetWeights() const { w_.SetSize(Size()); for (int i = 0; i < Size(); i++) w_[i] = (*this)[i].weight; return w_; }
private:
  int order_ = 0;
  mutable Array<real_t> w_;
};

class Quadrature1D { public: enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, OpenUniform = 2, ClosedUniform = 3, OpenHalfUniform = 4, ClosedGL = 5 }; };

class IntegrationRules {
public:
  explicit IntegrationRules(int ref = 0, int type = Quadrature1D::GaussLegendre) : type_(type) { (void)ref; }
  const IntegrationRule& Get(int geom, int order);
private:
  int type_;
  std::map<std::pair<int, int>, std::unique_ptr<IntegrationRule>> cache_;
};
extern IntegrationRules IntRules;
extern IntegrationRules RefinedIntRules;

class Geometry {
public:
  enum Type { INVALID = -1, POINT = 0, SEGMENT, TRIANGLE, SQUARE, TETRAHEDRON, CUBE, PRISM, PYRAMID, NUM_GEOMETRIES };
  static const int NumGeom = NUM_GEOMETRIES;
  static const int Dimension[NumGeom];
  static const int DimStart[4 + 1];
  static const int NumVerts[NumGeom];
  static const int NumEdges[NumGeom];
  static const int NumFaces[NumGeom];
  static const real_t Volume[NumGeom];
  static const char* Name[NumGeom];
  Geometry();
  const IntegrationRule* GetVertices(int geom) const { return &v_[geom]; }
  const IntegrationPoint& GetCenter(int geom) const { return c_[geom]; }
  static bool CheckPoint(int geom, const IntegrationPoint& ip, real_t eps = 0);
private:
  std::vector<IntegrationRule> v_;
  std::vector<IntegrationPoint> c_;
};
extern Geometry Geometries;

class BasisType {
public:
  enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, Positive = 2, OpenUniform = 3, ClosedUniform = 4, OpenHalfUniform = 5, Serendipity = 6, ClosedGL = 7, IntegratedGLL = 8, NumBasisTypes = 9 };
};

class FunctionSpace { public: enum { Pk, Qk, rQk, Uk }; };

// ------------------------------------------------------------ finite elements
class FiniteElement {
public:
  enum MapType { UNKNOWN_MAP_TYPE = -1, VALUE, INTEGRAL, H_DIV, H_CURL };
  enum RangeType { UNKNOWN_RANGE_TYPE = -1, SCALAR, VECTOR };
  FiniteElement(Geometry::Type g, int dof, int order, int space) : geom_(g), dof_(dof), order_(order), space_(space), Nodes(dof) {}
  virtual ~FiniteElement() = default;
  int GetDim() const { return Geometry::Dimension[geom_]; }
  Geometry::Type GetGeomType() const { return geom_; }
  int GetDof() const { return dof_; }
  int GetOrder() const { return order_; }
  int Space() const { return space_; }
  int GetMapType() const { return VALUE; }
  int GetRangeType() const { return SCALAR; }
  const IntegrationRule& GetNodes() const { return Nodes; }
  virtual void CalcShape(const IntegrationPoint& ip, Vector& shape) const = 0;
  virtual void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const = 0;
  void CalcPhysShape(ElementTransformation& T, Vector& shape) const;
  void CalcPhysDShape(ElementTransformation& T, DenseMatrix& dshape) const;
protected:
  Geometry::Type geom_;
  int dof_, order_, space_;
  IntegrationRule Nodes;
};
using ScalarFiniteElement = FiniteElement;
using NodalFiniteElement = FiniteElement;

// Nodal Lagrange element with the given nodes.
class LagrangeElement : public FiniteElement {
public:
  LagrangeElement(Geometry::Type g, int p, int space, const std::vector<std::array<double, 3>>& nodes);
  void CalcShape(const IntegrationPoint& ip, Vector& shape) const override;
  void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const override;
private:
  void Modal(const IntegrationPoint& ip, std::vector<double>* v, std::vector<double>* d) const;
  std::vector<std::array<int, 3>> idx_;
  DenseMatrix vinv_;  // modal -> nodal
};

class PointFiniteElement : public FiniteElement {
public:
  PointFiniteElement() : FiniteElement(Geometry::POINT, 1, 0, FunctionSpace::Pk) {}
  void CalcShape(const IntegrationPoint&, Vector& s) const override { s.SetSize(1); s(0) = 1.0; }
  void CalcDShape(const IntegrationPoint&, DenseMatrix& d) const override { d.SetSize(1, 0); }
};

const FiniteElement* NodalElement(Geometry::Type g, int p, int basis);    // shared instances
const FiniteElement* LinearElement(Geometry::Type g);                     // vertex-based order 1
const std::vector<double>& Points1D(int p, int basis);

class FiniteElementCollection {
public:
  enum { CONTINUOUS, TANGENTIAL, NORMAL, DISCONTINUOUS };
  FiniteElementCollection(int p, int dim, int btype) : p_(p), dim_(dim), b_(btype) {}
  virtual ~FiniteElementCollection() = default;
  virtual const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const = 0;
  virtual int DofForGeometry(Geometry::Type g) const = 0;
  virtual const char* Name() const = 0;
  virtual int GetContType() const = 0;
  virtual FiniteElementCollection* Clone(int p) const = 0;
  int GetOrder() const { return p_; }
  int GetBasisType() const { return b_; }
  int GetDim() const { return dim_; }
  static FiniteElementCollection* New(const char* name);
protected:
  int p_, dim_, b_;
};

class L2_FECollection : public FiniteElementCollection {
public:
  L2_FECollection(const int p, const int dim, const int btype = BasisType::GaussLegendre, const int map_type = FiniteElement::VALUE);
  const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const override;
  int DofForGeometry(Geometry::Type g) const override { return Geometry::Dimension[g] == dim_ ? NodalElement(g, p_, b_)->GetDof() : 0; }
  const char* Name() const override { return name_.c_str(); }
  int GetContType() const override { return DISCONTINUOUS; }
  L2_FECollection* Clone(int p) const override { return new L2_FECollection(p, dim_, b_); }
private:
  std::string name_;
};
typedef L2_FECollection DG_FECollection;

class H1_FECollection : public FiniteElementCollection {
public:
  H1_FECollection(const int p, const int dim = 3, const int btype = BasisType::GaussLobatto);
  const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const override;
  int DofForGeometry(Geometry::Type) const override { return 0; }
  const char* Name() const override { return name_.c_str(); }
  int GetContType() const override { return CONTINUOUS; }
  H1_FECollection* Clone(int p) const override { return new H1_FECollection(p, dim_, b_); }
private:
  std::string name_;
};

// ------------------------------------------------------------ transformations
class ElementTransformation {
public:
  enum { ELEMENT = 1, BDR_ELEMENT = 2, EDGE = 3, FACE = 4, BDR_FACE = 5 };
  int Attribute = -1, ElementNo = -1, ElementType = ELEMENT;
  const Mesh* mesh = nullptr;
  virtual ~ElementTransformation() = default;
  void SetIntPoint(const IntegrationPoint* ip) { IntPoint = ip; dirty_ = 3; }
  const IntegrationPoint& GetIntPoint() { return *IntPoint; }
  void Reset() { dirty_ = 3; }
  virtual void Transform(const IntegrationPoint&, Vector&) = 0;
  virtual void Transform(const IntegrationRule&, DenseMatrix&) = 0;
  const DenseMatrix& Jacobian() { return EvalJacobian(); }
  real_t Weight();
  const DenseMatrix& InverseJacobian();
  const DenseMatrix& AdjugateJacobian();
  virtual const DenseMatrix& EvalJacobian() = 0;
  virtual int Order() const = 0;
  virtual int OrderJ() const = 0;
  virtual int OrderW() const = 0;
  virtual int OrderGrad(const FiniteElement* fe) const = 0;
  Geometry::Type GetGeometryType() const { return geom; }
  int GetDimension() const { return Geometry::Dimension[geom]; }
  virtual int GetSpaceDim() const = 0;
  int TransformBack(const Vector& pt, IntegrationPoint& ip);
protected:
  const IntegrationPoint* IntPoint = nullptr;
  Geometry::Type geom = Geometry::INVALID;
  DenseMatrix dFdx, invJ, adjJ;
  int dirty_ = 3;
};

class IsoparametricTransformation : public ElementTransformation {
public:
  void SetFE(const FiniteElement* fe) { FElem = fe; geom = fe->GetGeomType(); dirty_ = 3; }
  const FiniteElement* GetFE() const { return FElem; }
  DenseMatrix& GetPointMat() { dirty_ = 3; return PointMat; }
  const DenseMatrix& GetPointMat() const { return PointMat; }
  void SetIdentityTransformation(Geometry::Type g);
  void Transform(const IntegrationPoint&, Vector&) override;
  void Transform(const IntegrationPoint& a, IntegrationPoint& b);
  void Transform(const IntegrationRule&, DenseMatrix&) override;
  const DenseMatrix& EvalJacobian() override;
  int Order() const override { return FElem->GetOrder(); }
  int OrderJ() const override { return FElem->Space() == FunctionSpace::Qk ? FElem->GetOrder() : FElem->GetOrder() - 1; }
  int OrderW() const override;
  int OrderGrad(const FiniteElement* fe) const override;
  int GetSpaceDim() const override { return PointMat.Height(); }
  void Assign(const IsoparametricTransformation& o);
private:
  DenseMatrix PointMat, dshape;
  Vector shape;
  const FiniteElement* FElem = nullptr;
};

class IntegrationPointTransformation {
public:
  IsoparametricTransformation Transf;
  void Transform(const IntegrationPoint& a, IntegrationPoint& b) { Transf.Transform(a, b); b.weight = a.weight; b.index = a.index; }
  void Transform(const IntegrationRule& a, IntegrationRule& b) { for (int i = 0; i < a.Size(); i++) Transform(a[i], b[i]); }
};

class FaceElementTransformations : public IsoparametricTransformation {
public:
  enum ConfigMasks { HAVE_ELEM1 = 1, HAVE_ELEM2 = 2, HAVE_LOC1 = 4, HAVE_LOC2 = 8, HAVE_FACE = 16 };
  int Elem1No = -1, Elem2No = -1;
  Geometry::Type& FaceGeom;
  ElementTransformation *Elem1 = nullptr, *Elem2 = nullptr;
  ElementTransformation* Face;
  IntegrationPointTransformation Loc1, Loc2;
  FaceElementTransformations() : FaceGeom(this->geom), Face(this) {}
  FaceElementTransformations(const FaceElementTransformations&) = delete;
  void SetConfigurationMask(int m) { mask = m; }
  int GetConfigurationMask() const { return mask; }
  void SetGeometryType(Geometry::Type g) { geom = g; }
  void SetIntPoint(const IntegrationPoint* face_ip) { IsoparametricTransformation::SetIntPoint(face_ip); }
  void SetAllIntPoints(const IntegrationPoint* face_ip);
  const IntegrationPoint& GetElement1IntPoint() { return eip1; }
  const IntegrationPoint& GetElement2IntPoint() { return eip2; }
  ElementTransformation& GetElement1Transformation() { return *Elem1; }
  ElementTransformation& GetElement2Transformation() { return *Elem2; }
  IntegrationPointTransformation& GetIntPoint1Transformation() { return Loc1; }
  IntegrationPointTransformation& GetIntPoint2Transformation() { return Loc2; }
private:
  int mask = 0;
  IntegrationPoint eip1, eip2;
};

// ----------------------------------------------------------------------- mesh
class Element {
public:
  enum Type { POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID };
  Element(Geometry::Type g, const int* v, int attr) : g_(g), attr_(attr), v_(v, v + Geometry::NumVerts[g]) {}
  Type GetType() const { static const Type t[] = {POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID}; return t[g_]; }
  Geometry::Type GetGeometryType() const { return g_; }
  int GetAttribute() const { return attr_; }
  void SetAttribute(const int a) { attr_ = a; }
  void GetVertices(Array<int>& v) const { v.SetSize((int)v_.size()); for (int i = 0; i < v.Size(); i++) v[i] = v_[i]; }
  int* GetVertices() { return v_.data(); }
  const int* GetVertices() const { return v_.data(); }
  int GetNVertices() const { return (int)v_.size(); }
  int GetNEdges() const;
  const int* GetEdgeVertices(int i) const;
  int GetNFaces() const { return Geometry::Dimension[g_] == 3 ? Geometry::NumFaces[g_] : 0; }
  int GetNFaceVertices(int fi) const;
  const int* GetFaceVertices(int fi) const;
  Element* Duplicate(Mesh* = nullptr) const { return new Element(*this); }
private:
  Geometry::Type g_;
  int attr_;
  std::vector<int> v_;
};

class Point : public Element { public: explicit Point(const int* v, int a = 1) : Element(Geometry::POINT, v, a) {} };
class Segment : public Element { public: explicit Segment(const int* v, int a = 1) : Element(Geometry::SEGMENT, v, a) {} Segment(int i, int j, int a = 1) : Element(Geometry::SEGMENT, std::array<int, 2>{i, j}.data(), a) {} };
class Triangle : public Element { public: explicit Triangle(const int* v, int a = 1) : Element(Geometry::TRIANGLE, v, a) {} Triangle(int i, int j, int k, int a = 1) : Element(Geometry::TRIANGLE, std::array<int, 3>{i, j, k}.data(), a) {} };
class Quadrilateral : public Element { public: explicit Quadrilateral(const int* v, int a = 1) : Element(Geometry::SQUARE, v, a) {} };
class Tetrahedron : public Element { public: explicit Tetrahedron(const int* v, int a = 1) : Element(Geometry::TETRAHEDRON, v, a) {} };
class Hexahedron : public Element { public: explicit Hexahedron(const int* v, int a = 1) : Element(Geometry::CUBE, v, a) {} };

class Vertex {
public:
  Vertex() = default;
  Vertex(real_t x, real_t y = 0, real_t z = 0) : c{x, y, z} {}
  real_t* operator()() const { return const_cast<real_t*>(c); }
  real_t& operator()(int i) { return c[i]; }
  const real_t& operator()(int i) const { return c[i]; }
private:
  real_t c[3] = {0, 0, 0};
};

enum class FaceType : bool { Interior, Boundary };

class Mesh {
public:
  struct FaceInfo { int Elem1No = -1, Elem2No = -1, Elem1Inf = -1, Elem2Inf = -1, NCFace = -1; };
  enum class FaceTopology { Boundary, Conforming, Nonconforming, NA };
  enum class ElementLocation { Local, FaceNbr, NA };
  enum class FaceInfoTag { Boundary, LocalConforming, SharedConforming };
  struct FaceInformation {
    FaceTopology topology = FaceTopology::NA;
    struct { ElementLocation location = ElementLocation::NA; int index = -1, local_face_id = -1, orientation = -1; } element[2];
    FaceInfoTag tag = FaceInfoTag::Boundary;
    bool IsLocal() const { return element[1].location == ElementLocation::Local; }
    bool IsShared() const { return element[1].location == ElementLocation::FaceNbr; }
    bool IsInterior() const { return topology != FaceTopology::Boundary; }
    bool IsBoundary() const { return topology == FaceTopology::Boundary; }
  };

  Mesh() = default;
  explicit Mesh(const Mesh& m, bool copy_nodes) : Mesh(m) { (void)copy_nodes; }
  Mesh(const Mesh& m);
  Mesh(Mesh&& m);
  Mesh& operator=(Mesh&& m);
  Mesh& operator=(const Mesh& m);
  explicit Mesh(const std::string& file, int gen_edges = 1, int refine = 1, bool fix = true) { *this = LoadFromFile(file, gen_edges, refine, fix); }
  explicit Mesh(std::istream& in, int gen_edges = 0, int refine = 1, bool fix = true) { Load(in, gen_edges, refine, fix); }
  Mesh(int dim, int nvert, int nelem, int nbdr = 0, int spaceDim = -1);
  virtual ~Mesh();

  static Mesh LoadFromFile(const std::string& file, int gen_edges = 1, int refine = 1, bool fix_orientation = true);
  static Mesh LoadFromFileNoBdrFix(const std::string& file, int gen_edges = 1, int refine = 1, bool fix_orientation = true);
  static Mesh MakeCartesian1D(int n, real_t sx = 1.0);
  static Mesh MakeCartesian2D(int nx, int ny, Element::Type type, bool gen_edges = false, real_t sx = 1.0, real_t sy = 1.0, bool sfc = true);
  static Mesh MakeCartesian3D(int nx, int ny, int nz, Element::Type type, real_t sx = 1.0, real_t sy = 1.0, real_t sz = 1.0, bool sfc = true);

  int Dimension() const { return Dim; }
  int SpaceDimension() const { return spaceDim; }
  int GetNV() const { return (int)vertices.size(); }
  int GetNE() const { return (int)elements.size(); }
  int GetNBE() const { return (int)boundary.size(); }
  int GetNFaces() const { return Dim == 3 ? (int)faces.size() : 0; }
  int GetNumFaces() const { return (int)faces_info.size(); }
  int GetNFbyType(FaceType t) const { int n = 0; for (auto& f : faces_info) if ((t == FaceType::Interior) == (f.Elem2No >= 0)) n++; return n; }
  int GetNEdges() const { return Dim == 1 ? 0 : (int)edge_v.size(); }
  long long GetGlobalNE() const { return GetNE(); }

  // MFEM: number of (dim-1)-faces.
  int GetNF() const { return GetNumFaces(); }

  real_t* GetVertex(int i) { return vertices[i](); }
  const real_t* GetVertex(int i) const { return vertices[i](); }
  void GetVertices(Vector& v) const;
  Element* GetElement(int i) { return elements[i].get(); }
  const Element* GetElement(int i) const { return elements[i].get(); }
  Element* GetBdrElement(int i) { return boundary[i].get(); }
  const Element* GetBdrElement(int i) const { return boundary[i].get(); }
  const Element* GetFace(int i) const { return faces[i].get(); }
  Geometry::Type GetElementGeometry(int i) const { return elements[i]->GetGeometryType(); }
  Geometry::Type GetElementBaseGeometry(int i) const { return GetElementGeometry(i); }
  Geometry::Type GetBdrElementGeometry(int i) const { return boundary[i]->GetGeometryType(); }
  Geometry::Type GetFaceGeometry(int i) const { return faces[i]->GetGeometryType(); }
  Element::Type GetElementType(int i) const { return elements[i]->GetType(); }
  Element::Type GetBdrElementType(int i) const { return boundary[i]->GetType(); }
  void GetElementVertices(int i, Array<int>& v) const { elements[i]->GetVertices(v); }
  void GetBdrElementVertices(int i, Array<int>& v) const { boundary[i]->GetVertices(v); }
  void GetFaceVertices(int i, Array<int>& v) const { faces[i]->GetVertices(v); }
  void GetEdgeVertices(int i, Array<int>& v) const { v.SetSize(2); v[0] = edge_v[i][0]; v[1] = edge_v[i][1]; }
  void GetElementEdges(int i, Array<int>& e, Array<int>& cor) const;
  void GetElementFaces(int i, Array<int>& f, Array<int>& ori) const;
  const Table& ElementToElementTable();
  const Table& ElementToEdgeTable() const { return el_to_edge; }
  const Table& ElementToFaceTable() const { return el_to_face; }
  int GetAttribute(int i) const { return elements[i]->GetAttribute(); }
  void SetAttribute(int i, int a) { elements[i]->SetAttribute(a); }
  int GetBdrAttribute(int i) const { return boundary[i]->GetAttribute(); }
  void SetBdrAttribute(int i, int a) { boundary[i]->SetAttribute(a); }
  int GetBdrFace(int i) const { return be_to_face[i]; }
  int GetBdrElementEdgeIndex(int i) const { return be_to_face[i]; }
  int GetBdrElementFaceIndex(int i) const { return be_to_face[i]; }
  int GetBdrElementFaceIndex(int i) { return be_to_face[i]; }
  void GetBdrElementFace(int i, int* f, int* o) const;
  Array<int> GetFaceToBdrElMap() const;
  void GetFaceElements(int f, int* a, int* b) const { *a = faces_info[f].Elem1No; *b = faces_info[f].Elem2No; }
  void GetFaceInfos(int f, int* a, int* b) const { *a = faces_info[f].Elem1Inf; *b = faces_info[f].Elem2Inf; }
  FaceInformation GetFaceInformation(int f) const;
  bool FaceIsInterior(int f) const { return faces_info[f].Elem2No >= 0; }
  bool FaceIsTrueInterior(int f) const { return FaceIsInterior(f) || faces_info[f].Elem2Inf >= 0; }

  int AddVertex(real_t x, real_t y = 0, real_t z = 0) { vertices.emplace_back(x, y, z); return GetNV() - 1; }
  int AddVertex(const real_t* c) { Vertex v; for (int i = 0; i < spaceDim; i++) v(i) = c[i]; vertices.push_back(v); return GetNV() - 1; }
  int AddElement(Geometry::Type g, const int* v, int attr) { elements.push_back(std::make_unique<Element>(g, v, attr)); return GetNE() - 1; }
  int AddBdr(Geometry::Type g, const int* v, int attr) { boundary.push_back(std::make_unique<Element>(g, v, attr)); return GetNBE() - 1; }
  int AddSegment(int a, int b, int attr = 1) { int v[] = {a, b}; return AddElement(Geometry::SEGMENT, v, attr); }
  int AddSegment(const int* v, int attr = 1) { return AddElement(Geometry::SEGMENT, v, attr); }
  int AddTriangle(int a, int b, int c, int attr = 1) { int v[] = {a, b, c}; return AddElement(Geometry::TRIANGLE, v, attr); }
  int AddTriangle(const int* v, int attr = 1) { return AddElement(Geometry::TRIANGLE, v, attr); }
  int AddQuad(int a, int b, int c, int d, int attr = 1) { int v[] = {a, b, c, d}; return AddElement(Geometry::SQUARE, v, attr); }
  int AddQuad(const int* v, int attr = 1) { return AddElement(Geometry::SQUARE, v, attr); }
  int AddTet(int a, int b, int c, int d, int attr = 1) { int v[] = {a, b, c, d}; return AddElement(Geometry::TETRAHEDRON, v, attr); }
  int AddTet(const int* v, int attr = 1) { return AddElement(Geometry::TETRAHEDRON, v, attr); }
  int AddHex(const int* v, int attr = 1) { return AddElement(Geometry::CUBE, v, attr); }
  int AddElement(Element* e) { elements.emplace_back(e); return GetNE() - 1; }
  int AddBdrElement(Element* e) { boundary.emplace_back(e); return GetNBE() - 1; }
  int AddBdrPoint(int a, int attr = 1) { return AddBdr(Geometry::POINT, &a, attr); }
  int AddBdrSegment(int a, int b, int attr = 1) { int v[] = {a, b}; return AddBdr(Geometry::SEGMENT, v, attr); }
  int AddBdrTriangle(int a, int b, int c, int attr = 1) { int v[] = {a, b, c}; return AddBdr(Geometry::TRIANGLE, v, attr); }
  int AddBdrQuad(int a, int b, int c, int d, int attr = 1) { int v[] = {a, b, c, d}; return AddBdr(Geometry::SQUARE, v, attr); }
  void FinalizeMesh(int refine = 0, bool fix_orientation = true);
  void FinalizeTopology(bool generate_bdr = true);
  void Finalize(bool refine = false, bool fix_orientation = false);
  void FinalizeTriMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
  void FinalizeQuadMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
  void FinalizeTetMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
  void FinalizeHexMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
  virtual void SetAttributes();
  void GenerateBoundaryElements();
  int CheckElementOrientation(bool fix_it = true);
  int CheckBdrElementOrientation(bool fix_it = true);

  ElementTransformation* GetElementTransformation(int i);
  void GetElementTransformation(int i, IsoparametricTransformation* T) const;
  ElementTransformation* GetBdrElementTransformation(int i);
  void GetBdrElementTransformation(int i, IsoparametricTransformation* T) const;
  ElementTransformation* GetFaceTransformation(int f);
  void GetFaceTransformation(int f, IsoparametricTransformation* T) const;
  ElementTransformation* GetEdgeTransformation(int e);
  virtual FaceElementTransformations* GetFaceElementTransformations(int f, int mask = 31);
  FaceElementTransformations* GetInteriorFaceTransformations(int f) { return faces_info[f].Elem2No < 0 ? nullptr : GetFaceElementTransformations(f); }
  FaceElementTransformations* GetBdrFaceTransformations(int be);
  FaceElementTransformations* GetInternalBdrFaceTransformations(int be);

  real_t GetElementSize(ElementTransformation* T, int type = 0) const;
  real_t GetElementSize(int i, int type = 0);
  real_t GetElementVolume(int i);
  void GetElementCenter(int i, Vector& c);
  void GetBoundingBox(Vector& mn, Vector& mx, int ref = 2);
  void GetCharacteristics(real_t& hmin, real_t& hmax, real_t& kmin, real_t& kmax);
  virtual int FindPoints(DenseMatrix& pts, Array<int>& elem, Array<IntegrationPoint>& ips, bool warn = true, void* inv = nullptr);

  GridFunction* GetNodes() { return Nodes.get(); }
  const GridFunction* GetNodes() const { return Nodes.get(); }
  void GetNodes(GridFunction& nodes) const;
  const FiniteElementSpace* GetNodalFESpace() const;
  virtual void SetCurvature(int order, bool discont = false, int space_dim = -1, int ordering = 1);
  void EnsureNodes() { if (!Nodes) SetCurvature(1); }
  void Transform(std::function<void(const Vector&, Vector&)> f);
  void UniformRefinement(int = 0);
  int* GeneratePartitioning(int nparts, int part_method = 1);
  int* CartesianPartitioning(int nxyz[]);
  // Lets a driver choose the partitioning, and see the one a mesh is split with.
  static std::function<void(Mesh&, int nparts, int* part)>& partition_script();
  static std::function<void(const Mesh&, const int* part)>& partition_watch();

  virtual void Print(std::ostream& os = std::cout, const std::string& comments = "") const;
  virtual void Save(const std::string& fname, int precision = 16) const;
  void Load(std::istream& in, int gen_edges = 0, int refine = 1, bool fix = true);

  Array<int> attributes, bdr_attributes;

  // Used by the other classes of this stand-in.
  static void LocalFaceTransf(Geometry::Type elem, int info, IsoparametricTransformation& T);
  static int FaceOrientation(Geometry::Type g, const int* base, const int* test);
  const FaceInfo& FInfo(int f) const { return faces_info[f]; }
  FaceInfo& FInfo(int f) { return faces_info[f]; }

protected:
  friend class SubMesh;
  friend class ParMesh;
  friend class ParSubMesh;
  void CopyFrom(const Mesh& m);
  void RebindNodes();
  void GenerateTopology();
  void MarkTriMeshForRefinement();
  void ReadGmsh(std::istream& in, int& curved_order);
  void ReadMFEM(std::istream& in);
  static Mesh Load_(const std::string& file, int refine, bool fix, bool fix_bdr);
  void RemoveUnusedVertices();
  void SetNodesL2(int order, const std::vector<DenseMatrix>& per_elem, int basis);

  int Dim = 0, spaceDim = 0;
  std::vector<Vertex> vertices;
  std::vector<std::unique_ptr<Element>> elements, boundary, faces;
  std::vector<FaceInfo> faces_info;
  std::vector<std::array<int, 2>> edge_v;
  Table el_to_edge, el_to_face, el_to_el;
  std::vector<int> be_to_face;
  std::shared_ptr<FiniteElementCollection> nfec;
  std::unique_ptr<FiniteElementSpace> nfes;
  std::unique_ptr<GridFunction> Nodes;
  IsoparametricTransformation Transformation, Transformation2, BdrTransformation, FaceTransformation, EdgeTransformation;
  FaceElementTransformations FaceElemTr;
};

// ---------------------------------------------------------- spaces, functions
class DofTransformation {};
class Ordering { public: enum Type { byNODES, byVDIM }; };

class FiniteElementSpace {
public:
  FiniteElementSpace() = default;
  FiniteElementSpace(Mesh* m, const FiniteElementCollection* f, int vdim_ = 1, int ordering_ = Ordering::byNODES) : mesh(m), fec(f), vdim(vdim_), ordering(ordering_) { Build(); }
  FiniteElementSpace(const FiniteElementSpace& o) : FiniteElementSpace(o, nullptr) {}
  FiniteElementSpace(const FiniteElementSpace& o, Mesh* m, const FiniteElementCollection* f = nullptr) : mesh(m ? m : o.mesh), fec(f ? f : o.fec), vdim(o.vdim), ordering(o.ordering) { Build(); }
  FiniteElementSpace& operator=(const FiniteElementSpace&) = delete;
  virtual ~FiniteElementSpace() = default;
  Mesh* GetMesh() const { return mesh; }
  const FiniteElementCollection* FEColl() const { return fec; }
  int GetVDim() const { return vdim; }
  int GetOrdering() const { return ordering; }
  int GetNDofs() const { return off.empty() ? 0 : off.back(); }
  int GetVSize() const { return GetNDofs() * vdim; }
  virtual int GetTrueVSize() const { return GetVSize(); }
  int GetNE() const { return mesh->GetNE(); }
  int GetNBE() const { return mesh->GetNBE(); }
  int GetNF() const { return mesh->GetNumFaces(); }
  int GetAttribute(int i) const { return mesh->GetAttribute(i); }
  int GetBdrAttribute(int i) const { return mesh->GetBdrAttribute(i); }
  ElementTransformation* GetElementTransformation(int i) const { return mesh->GetElementTransformation(i); }
  ElementTransformation* GetBdrElementTransformation(int i) const { return mesh->GetBdrElementTransformation(i); }
  int GetMaxElementOrder() const { return fec->GetOrder(); }
  int GetElementOrder(int) const { return fec->GetOrder(); }
  int GetOrder(int) const { return fec->GetOrder(); }
  virtual const FiniteElement* GetFE(int i) const { return fec->FiniteElementForGeometry(mesh->GetElementGeometry(i)); }
  const FiniteElement* GetTypicalFE() const { return GetFE(0); }
  virtual DofTransformation* GetElementDofs(int i, Array<int>& d) const { d.SetSize(off[i + 1] - off[i]); for (int k = 0; k < d.Size(); k++) d[k] = off[i] + k; return nullptr; }
  DofTransformation* GetElementVDofs(int i, Array<int>& d) const { GetElementDofs(i, d); DofsToVDofs(d); return nullptr; }
  void DofsToVDofs(Array<int>& d) const;
  int DofToVDof(int dof, int vd) const { return ordering == Ordering::byNODES ? vd * GetNDofs() + dof : dof * vdim + vd; }
  const Table& GetElementToDofTable() const { return e2d; }
  void GetElementVertices(int i, Array<int>& v) const { mesh->GetElementVertices(i, v); }
  int GetElementForDof(int i) const { return int(std::upper_bound(off.begin(), off.end(), i) - off.begin()) - 1; }
  int GetLocalDofForDof(int i) const { return i - off[GetElementForDof(i)]; }
  void BuildDofToArrays() {}
  void Save(std::ostream& os) const;
  FiniteElementCollection* Load(Mesh* m, std::istream& in);
  void Update(bool = true) { Build(); }
protected:
  friend class Mesh;
  void Build();
  Mesh* mesh = nullptr;
  const FiniteElementCollection* fec = nullptr;
  int vdim = 1, ordering = Ordering::byNODES;
  std::vector<int> off;
  Table e2d;
};

class Coefficient {
public:
  virtual ~Coefficient() = default;
  virtual void SetTime(real_t t) { time = t; }
  real_t GetTime() const { return time; }
  virtual real_t Eval(ElementTransformation& T, const IntegrationPoint& ip) = 0;
protected:
  real_t time = 0.;
};
class ConstantCoefficient : public Coefficient { public: real_t constant; explicit ConstantCoefficient(real_t c = 1.0) : constant(c) {} real_t Eval(ElementTransformation&, const IntegrationPoint&) override { return constant; } };
class PWConstCoefficient : public Coefficient {
public:
  explicit PWConstCoefficient(int n = 0) : c(n) { c = 0.0; }
  explicit PWConstCoefficient(Vector& v) : c(v) {}
  real_t& operator()(int i) { return c(i - 1); }
  real_t Eval(ElementTransformation& T, const IntegrationPoint&) override { if (T.Attribute < 1 || T.Attribute > c.Size()) mfem_fail("PWConstCoefficient: attribute out of range"); return c(T.Attribute - 1); }
private:
  Vector c;
};
class FunctionCoefficient : public Coefficient {
public:
  explicit FunctionCoefficient(std::function<real_t(const Vector&)> f) : f_(std::move(f)) {}
  explicit FunctionCoefficient(std::function<real_t(const Vector&, real_t)> f) : td_(std::move(f)) {}
  real_t Eval(ElementTransformation& T, const IntegrationPoint& ip) override { Vector x; T.Transform(ip, x); return f_ ? f_(x) : td_(x, GetTime()); }
private:
  std::function<real_t(const Vector&)> f_;
  std::function<real_t(const Vector&, real_t)> td_;
};
class GridFunctionCoefficient : public Coefficient {
public:
  explicit GridFunctionCoefficient(const GridFunction* g, int comp = 1) : g_(g), c_(comp) {}
  real_t Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
private:
  const GridFunction* g_; int c_;
};
class ProductCoefficient : public Coefficient {
public:
  ProductCoefficient(real_t a, Coefficient& b) : a_(a), b_(&b) {}
  real_t Eval(ElementTransformation& T, const IntegrationPoint& ip) override { return a_ * b_->Eval(T, ip); }
private:
  real_t a_; Coefficient* b_;
};
class VectorCoefficient {
public:
  explicit VectorCoefficient(int vd) : vdim(vd) {}
  virtual ~VectorCoefficient() = default;
  virtual void SetTime(real_t t) { time = t; }
  int GetVDim() { return vdim; }
  virtual void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) = 0;
protected:
  int vdim; real_t time = 0;
};
class VectorConstantCoefficient : public VectorCoefficient { public: explicit VectorConstantCoefficient(const Vector& v) : VectorCoefficient(v.Size()), v_(v) {} void Eval(Vector& V, ElementTransformation&, const IntegrationPoint&) override { V = v_; } private: Vector v_; };
class VectorFunctionCoefficient : public VectorCoefficient {
public:
  VectorFunctionCoefficient(int d, std::function<void(const Vector&, Vector&)> f) : VectorCoefficient(d), f_(std::move(f)) {}
  VectorFunctionCoefficient(int d, std::function<void(const Vector&, real_t, Vector&)> f) : VectorCoefficient(d), td_(std::move(f)) {}
  void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override { Vector x; T.Transform(ip, x); V.SetSize(vdim); if (f_) f_(x, V); else td_(x, time, V); }
private:
  std::function<void(const Vector&, Vector&)> f_;
  std::function<void(const Vector&, real_t, Vector&)> td_;
};

class GridFunction : public Vector {
public:
  GridFunction() = default;
  GridFunction(const GridFunction& o) : Vector(o), fes(o.fes), own_fes(o.own_fes), own_fec(o.own_fec) {}
  explicit GridFunction(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) {}
  GridFunction(FiniteElementSpace* f, real_t* d) : Vector(d, f->GetVSize()), fes(f) {}
  GridFunction(FiniteElementSpace* f, Vector& base, int offset = 0) : Vector(base, offset, f->GetVSize()), fes(f) {}
  GridFunction(Mesh* m, std::istream& in);
  GridFunction& operator=(const GridFunction& o) { Vector::operator=((const Vector&)o); return *this; }
  GridFunction& operator=(real_t v) { Vector::operator=(v); return *this; }
  GridFunction& operator=(const Vector& v) { Vector::operator=(v); return *this; }
  virtual ~GridFunction() = default;
  FiniteElementSpace* FESpace() { return fes; }
  const FiniteElementSpace* FESpace() const { return fes; }
  virtual void SetSpace(FiniteElementSpace* f) { if (f != fes) { fes = f; } Destroy(); SetSize(f->GetVSize()); }
  using Vector::MakeRef;
  virtual void MakeRef(FiniteElementSpace* f, real_t* v) { fes = f; SetDataAndSize(v, f->GetVSize()); }
  virtual void MakeRef(FiniteElementSpace* f, Vector& v, int off) { fes = f; Vector::MakeRef(v, off, f->GetVSize()); }
  int VectorDim() const { return fes->GetVDim(); }
  real_t GetValue(int i, const IntegrationPoint& ip, int vdim = 1) const;
  real_t GetValue(ElementTransformation& T, const IntegrationPoint& ip, int comp = 1, Vector* tr = nullptr) const { (void)tr; return GetValue(T.ElementNo, ip, comp); }
  void GetVectorValue(int i, const IntegrationPoint& ip, Vector& v) const;
  void GetElementDofValues(int el, Vector& v) const { Array<int> d; fes->GetElementVDofs(el, d); GetSubVector(d, v); }
  virtual void ProjectCoefficient(Coefficient& c);
  virtual void ProjectCoefficient(VectorCoefficient& c);
  virtual real_t ComputeL2Error(Coefficient& c, const IntegrationRule* irs[] = nullptr) const;
  void GetTrueDofs(Vector& v) const { v = *this; }
  void SetFromTrueDofs(const Vector& v) { Vector::operator=(v); }
  virtual void Save(std::ostream& os) const;
  virtual void Save(const char* f, int precision = 16) const { std::ofstream o(f); o.precision(precision); Save(o); }
protected:
  friend class Mesh;
  FiniteElementSpace* fes = nullptr;
  std::shared_ptr<FiniteElementSpace> own_fes;
  std::shared_ptr<FiniteElementCollection> own_fec;
};

// ---------------------------------------------------------------- integrators
class NonlinearFormIntegrator {
public:
  virtual ~NonlinearFormIntegrator() = default;
  virtual void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
  void SetIntegrationRule(const IntegrationRule& ir) { IntRule = &ir; }
  const IntegrationRule* GetIntRule() const { return IntRule; }
protected:
  const IntegrationRule* IntRule = nullptr;
};
class BilinearFormIntegrator : public NonlinearFormIntegrator {
public:
  BilinearFormIntegrator() = default;
  virtual void AssembleElementMatrix(const FiniteElement&, ElementTransformation&, DenseMatrix&) { mfem_fail("AssembleElementMatrix not provided"); }
  virtual void AssembleElementMatrix2(const FiniteElement&, const FiniteElement&, ElementTransformation&, DenseMatrix&) { mfem_fail("AssembleElementMatrix2 not provided"); }
  virtual void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { mfem_fail("AssembleFaceMatrix not provided"); }
};
class TransposeIntegrator : public BilinearFormIntegrator {
public:
  explicit TransposeIntegrator(BilinearFormIntegrator* b, int own = 1) : b_(b), own_(own) {}
  ~TransposeIntegrator() override { if (own_) delete b_; }
  void AssembleElementMatrix(const FiniteElement& e, ElementTransformation& T, DenseMatrix& m) override { b_->AssembleElementMatrix(e, T, m); m.Transpose(); }
  void AssembleFaceMatrix(const FiniteElement& a, const FiniteElement& c, FaceElementTransformations& T, DenseMatrix& m) override { b_->AssembleFaceMatrix(a, c, T, m); m.Transpose(); }
private:
  BilinearFormIntegrator* b_; int own_;
};
class InverseIntegrator : public BilinearFormIntegrator {
public:
  explicit InverseIntegrator(BilinearFormIntegrator* b, int own = 1) : b_(b), own_(own) {}
  ~InverseIntegrator() override { if (own_) delete b_; }
  void AssembleElementMatrix(const FiniteElement& e, ElementTransformation& T, DenseMatrix& m) override { b_->AssembleElementMatrix(e, T, m); m.Invert(); }
private:
  BilinearFormIntegrator* b_; int own_;
};
class MassIntegrator : public BilinearFormIntegrator {
public:
  explicit MassIntegrator(const IntegrationRule* ir = nullptr) { IntRule = ir; }
  explicit MassIntegrator(Coefficient& q, const IntegrationRule* ir = nullptr) : Q(&q) { IntRule = ir; }
  void AssembleElementMatrix(const FiniteElement&, ElementTransformation&, DenseMatrix&) override;
private:
  Coefficient* Q = nullptr;
};
class DerivativeIntegrator : public BilinearFormIntegrator {
public:
  DerivativeIntegrator(Coefficient& q, int i) : Q(&q), xi(i) {}
  void AssembleElementMatrix(const FiniteElement& e, ElementTransformation& T, DenseMatrix& m) override { AssembleElementMatrix2(e, e, T, m); }
  void AssembleElementMatrix2(const FiniteElement&, const FiniteElement&, ElementTransformation&, DenseMatrix&) override;
private:
  Coefficient* Q; int xi;
};
class ConvectionIntegrator : public BilinearFormIntegrator {
public:
  explicit ConvectionIntegrator(VectorCoefficient& q, real_t a = 1.0) : Q(&q), alpha(a) {}
  void AssembleElementMatrix(const FiniteElement&, ElementTransformation&, DenseMatrix&) override;
private:
  VectorCoefficient* Q; real_t alpha;
};
class DGTraceIntegrator : public BilinearFormIntegrator {
public:
  DGTraceIntegrator(VectorCoefficient& u_, real_t a) : u(&u_), alpha(a), beta(0.5 * a) {}
  DGTraceIntegrator(VectorCoefficient& u_, real_t a, real_t b) : u(&u_), alpha(a), beta(b) {}
  void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) override;
private:
  VectorCoefficient* u; real_t alpha, beta;
};
class LinearFormIntegrator {
public:
  explicit LinearFormIntegrator(const IntegrationRule* ir = nullptr) : IntRule(ir) {}
  virtual ~LinearFormIntegrator() = default;
  virtual void AssembleRHSElementVect(const FiniteElement&, ElementTransformation&, Vector&) { mfem_fail("AssembleRHSElementVect(element) not provided"); }
  virtual void AssembleRHSElementVect(const FiniteElement&, FaceElementTransformations&, Vector&) { mfem_fail("AssembleRHSElementVect(face) not provided"); }
  virtual void AssembleRHSElementVect(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, Vector&) { mfem_fail("AssembleRHSElementVect(face2) not provided"); }
  virtual void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
  const IntegrationRule* GetIntRule() const { return IntRule; }
protected:
  const IntegrationRule* IntRule;
};
class DomainLFIntegrator : public LinearFormIntegrator {
public:
  explicit DomainLFIntegrator(Coefficient& q) : Q(q) {}
  void AssembleRHSElementVect(const FiniteElement&, ElementTransformation&, Vector&) override;
  using LinearFormIntegrator::AssembleRHSElementVect;
private:
  Coefficient& Q;
};

// ---------------------------------------------------------------------- forms
class BilinearForm : public Matrix {
public:
  BilinearForm() : Matrix(0) {}
  explicit BilinearForm(FiniteElementSpace* f) : Matrix(f->GetVSize()), fes(f) {}
  BilinearForm(const BilinearForm&) = delete;
  BilinearForm& operator=(const BilinearForm&) = delete;
  ~BilinearForm() override;
  int Size() const { return height; }
  real_t& Elem(int i, int j) override { return mat->Elem(i, j); }
  const real_t& Elem(int i, int j) const override { return static_cast<const SparseMatrix*>(mat)->Elem(i, j); }
  real_t& operator()(int i, int j) { return (*mat)(i, j); }
  void Mult(const Vector& x, Vector& y) const override { mat->Mult(x, y); }
  void AddMult(const Vector& x, Vector& y, const real_t a = 1.0) const override { mat->AddMult(x, y, a); }
  void MultTranspose(const Vector& x, Vector& y) const override { mat->MultTranspose(x, y); }
  void Finalize(int skip_zeros = 1) override { if (mat) mat->Finalize(skip_zeros); }
  const SparseMatrix& SpMat() const { if (!mat) mfem_fail("BilinearForm::SpMat: mat is NULL"); return *mat; }
  SparseMatrix& SpMat() { if (!mat) mfem_fail("BilinearForm::SpMat: mat is NULL"); return *mat; }
  bool HasSpMat() { return mat != nullptr; }
  SparseMatrix* LoseMat() { auto* m = mat; mat = nullptr; return m; }
  void AddDomainIntegrator(BilinearFormIntegrator* b) { domain_integs.push_back({b, nullptr}); }
  void AddDomainIntegrator(BilinearFormIntegrator* b, Array<int>& m) { domain_integs.push_back({b, &m}); }
  void AddBoundaryIntegrator(BilinearFormIntegrator* b) { boundary_integs.push_back({b, nullptr}); }
  void AddBoundaryIntegrator(BilinearFormIntegrator* b, Array<int>& m) { boundary_integs.push_back({b, &m}); }
  void AddInteriorFaceIntegrator(BilinearFormIntegrator* b) { interior_face_integs.push_back({b, nullptr}); }
  void AddInteriorFaceIntegrator(BilinearFormIntegrator* b, Array<int>& ignore) { interior_face_integs.push_back({b, &ignore}); }
  void AddBdrFaceIntegrator(BilinearFormIntegrator* b) { boundary_face_integs.push_back({b, nullptr}); }
  void AddBdrFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { boundary_face_integs.push_back({b, &m}); }
  void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b) { internal_bdr_integs.push_back({b, nullptr}); }
  void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { internal_bdr_integs.push_back({b, &m}); }
  void Assemble(int skip_zeros = 1);
  FiniteElementSpace* FESpace() { return fes; }
  const FiniteElementSpace* FESpace() const { return fes; }
  FiniteElementSpace* GetFES() { return fes; }
protected:
  struct Integ { BilinearFormIntegrator* b; Array<int>* marker; };
  bool IgnoredFace(const Array<int>& ignore, const std::map<int, int>& face2attr, int f) const { auto it = face2attr.find(f); return it != face2attr.end() && it->second - 1 < ignore.Size() && ignore[it->second - 1]; }
  std::map<int, int> FaceAttributes() const;
  SparseMatrix* mat = nullptr;
  FiniteElementSpace* fes = nullptr;
  std::vector<Integ> domain_integs, boundary_integs, interior_face_integs, boundary_face_integs, internal_bdr_integs;
  DenseMatrix elemmat;
  Array<int> vdofs;
};

class LinearForm : public Vector {
public:
  LinearForm() = default;
  explicit LinearForm(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) { Vector::operator=(0.0); }
  LinearForm(const LinearForm&) = delete;
  ~LinearForm() override;
  LinearForm& operator=(real_t v) { Vector::operator=(v); return *this; }
  FiniteElementSpace* FESpace() { return fes; }
  void AddDomainIntegrator(LinearFormIntegrator* l) { dom.push_back({l, nullptr}); }
  void AddBoundaryIntegrator(LinearFormIntegrator* l) { bdr.push_back({l, nullptr}); }
  void AddBoundaryIntegrator(LinearFormIntegrator* l, Array<int>& m) { bdr.push_back({l, &m}); }
  void AddBdrFaceIntegrator(LinearFormIntegrator* l) { bdrf.push_back({l, nullptr}); }
  void AddBdrFaceIntegrator(LinearFormIntegrator* l, Array<int>& m) { bdrf.push_back({l, &m}); }
  void AddInteriorFaceIntegrator(LinearFormIntegrator* l) { intf.push_back({l, nullptr}); }
  void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* l) { ibf.push_back({l, nullptr}); }
  void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* l, Array<int>& m) { ibf.push_back({l, &m}); }
  void Assemble();
  real_t operator()(const GridFunction& gf) const { return static_cast<const Vector&>(*this) * static_cast<const Vector&>(gf); }
  using Vector::operator();
protected:
  struct Integ { LinearFormIntegrator* l; Array<int>* marker; };
  FiniteElementSpace* fes = nullptr;
  std::vector<Integ> dom, bdr, bdrf, intf, ibf;
};

// ------------------------------------------------------------------ sub-meshes
class SubMesh : public Mesh {
public:
  enum class From { Boundary, Domain };
  static const int GENERATED_ATTRIBUTE = 900;
  SubMesh() = default;
  SubMesh(const SubMesh&) = default;
  SubMesh(SubMesh&&) = default;
  SubMesh& operator=(SubMesh&&) = default;
  static SubMesh CreateFromDomain(const Mesh& parent, const Array<int>& attrs);
  const Mesh* GetParent() const { return parent_; }
  From GetFrom() const { return from_; }
  const Array<int>& GetParentElementIDMap() const { return parent_element_ids; }
  const Array<int>& GetParentVertexIDMap() const { return parent_vertex_ids; }
  const Array<int>& GetParentFaceIDMap() const { return parent_face_ids; }
  static inline void Transfer(const GridFunction& s, GridFunction& d);
  static inline class TransferMap CreateTransferMap(const GridFunction& s, const GridFunction& d);
protected:
  friend class ParSubMesh;
  const Mesh* parent_ = nullptr;
  From from_ = From::Domain;
  Array<int> parent_element_ids, parent_vertex_ids, parent_face_ids;
};

namespace SubMeshUtils {
Array<int> BuildFaceMap(const Mesh& parent, const Mesh& sub, const Array<int>& parent_element_ids);
void BuildVdofToVdofMap(const FiniteElementSpace& subfes, const FiniteElementSpace& parentfes, const SubMesh::From& from, const Array<int>& parent_element_ids, Array<int>& map);
void BuildSubMesh(const Mesh& parent, const Array<int>& attrs, Mesh& out, Array<int>& elems, Array<int>& verts);
}

class TransferMap {
public:
  TransferMap(const GridFunction& src, const GridFunction& dst);
  TransferMap(const FiniteElementSpace& src, const FiniteElementSpace& dst);
  void Transfer(const GridFunction& src, GridFunction& dst) const;
private:
  void Build(const FiniteElementSpace& src, const FiniteElementSpace& dst);
  bool to_parent_ = false;
  Array<int> map_;
};

inline void SubMesh::Transfer(const GridFunction& s, GridFunction& d) { TransferMap(s, d).Transfer(s, d); }
inline TransferMap SubMesh::CreateTransferMap(const GridFunction& s, const GridFunction& d) { return TransferMap(s, d); }

// ------------------------------------------------------------------- parallel
class ParMesh : public Mesh {
public:
  ParMesh() = default;
  ParMesh(MPI_Comm comm, Mesh& mesh, const int* partitioning = nullptr, int part_method = 1);
  ParMesh(const ParMesh& p, bool copy_nodes = true) : Mesh(p) { (void)copy_nodes; CopyPar(p); }
  ParMesh(ParMesh&& p) : Mesh(std::move(static_cast<Mesh&>(p))) { CopyPar(p); }
  ParMesh& operator=(ParMesh&& p) { Mesh::operator=(std::move(static_cast<Mesh&>(p))); CopyPar(p); return *this; }
  ParMesh& operator=(const ParMesh& p) { if (this != &p) { Mesh::operator=(static_cast<const Mesh&>(p)); CopyPar(p); } return *this; }
  MPI_Comm GetComm() const { return comm_; }
  int GetNRanks() const { return nranks_; }
  int GetMyRank() const { return rank_; }
  long long GetGlobalNE() const;
  long long ReduceInt(int v) const;
  void ExchangeFaceNbrData();
  int GetNFaceNeighbors() const { return (int)nbr_ranks_.size(); }
  int GetNFaceNeighborElements() const { return (int)nbr_elems_.size(); }
  int GetNSharedFaces() const { return (int)shared_.size(); }
  int GetSharedFace(int sf) const { return shared_[sf].lface; }
  FaceElementTransformations* GetSharedFaceTransformations(int sf, bool fill2 = true);
  FaceElementTransformations* GetFaceElementTransformations(int f, int mask = 31) override { return Mesh::GetFaceElementTransformations(f, mask); }
  int FindPoints(DenseMatrix& pts, Array<int>& elem, Array<IntegrationPoint>& ips, bool warn = true, void* inv = nullptr) override;
  void ParPrint(std::ostream& os, const std::string& c = "") const { Print(os, c); }
  // Global numbers of local entities.
  int GlobalElement(int e) const { return l2g_elem_[e]; }

  struct NbrElem { int rank, remote_local, global; Geometry::Type geom; DenseMatrix pm; const FiniteElement* fe; int attr; };
  const NbrElem& Nbr(int i) const { return nbr_elems_[i]; }
  const std::vector<int>& NbrRanks() const { return nbr_ranks_; }
  // Local elements each neighbour rank needs from this rank, in its order.
  const std::vector<std::vector<int>>& SendElems() const { return send_; }
protected:
  void CopyPar(const ParMesh& p);
  struct Shared { int lface, nbr, inf2; };
  MPI_Comm comm_ = MPI_COMM_SELF;
  int nranks_ = 1, rank_ = 0;
  bool have_nbr_ = false;
  std::vector<int> l2g_elem_, nbr_ranks_;
  std::vector<NbrElem> nbr_elems_;
  std::vector<Shared> shared_;
  std::vector<std::vector<int>> send_;
};

class ParFiniteElementSpace : public FiniteElementSpace {
public:
  int num_face_nbr_dofs = -1;
  ParFiniteElementSpace(ParMesh* m, const FiniteElementCollection* f, int vd = 1, int ord = Ordering::byNODES) : FiniteElementSpace(m, f, vd, ord), pmesh(m) {}
  ParFiniteElementSpace(const ParFiniteElementSpace& o, ParMesh* m, const FiniteElementCollection* f = nullptr) : FiniteElementSpace(o, m, f), pmesh(m ? m : o.pmesh) {}
  ParFiniteElementSpace(const ParFiniteElementSpace& o) : ParFiniteElementSpace(o, nullptr) {}
  ParMesh* GetParMesh() const { return pmesh; }
  MPI_Comm GetComm() const { return pmesh->GetComm(); }
  int GetMyRank() const { return pmesh->GetMyRank(); }
  int GetNRanks() const { return pmesh->GetNRanks(); }
  int TrueVSize() const { return GetVSize(); }
  HYPRE_BigInt GlobalVSize() const { return (HYPRE_BigInt)pmesh->ReduceInt(GetVSize()); }
  HYPRE_BigInt GlobalTrueVSize() const { return GlobalVSize(); }
  void ExchangeFaceNbrData();
  int GetFaceNbrVSize() const { return num_face_nbr_dofs; }
  void GetFaceNbrElementVDofs(int i, Array<int>& d) const;
  const FiniteElement* GetFaceNbrFE(int i) const { return fec->FiniteElementForGeometry(pmesh->Nbr(i).geom); }
  const FiniteElement* GetFE(int i) const override { return i < mesh->GetNE() ? FiniteElementSpace::GetFE(i) : GetFaceNbrFE(i - mesh->GetNE()); }
private:
  ParMesh* pmesh = nullptr;
  std::vector<int> nbr_off;
};

class ParGridFunction : public GridFunction {
public:
  ParGridFunction() = default;
  explicit ParGridFunction(ParFiniteElementSpace* f) : GridFunction(f), pfes(f) {}
  ParGridFunction(ParFiniteElementSpace* f, real_t* d) : GridFunction(f, d), pfes(f) {}
  ParGridFunction(ParFiniteElementSpace* f, Vector& b, int off = 0) : GridFunction(f, b, off), pfes(f) {}
  ParGridFunction(const ParGridFunction& o) : GridFunction(o), pfes(o.pfes) {}
  ParGridFunction(ParMesh* m, std::istream& in);
  ParGridFunction& operator=(const ParGridFunction& o) { GridFunction::operator=(static_cast<const GridFunction&>(o)); return *this; }
  ParGridFunction& operator=(real_t v) { GridFunction::operator=(v); return *this; }
  ParGridFunction& operator=(const Vector& v) { GridFunction::operator=(v); return *this; }
  ParFiniteElementSpace* ParFESpace() const { return pfes; }
  void SetSpace(FiniteElementSpace* f) override { GridFunction::SetSpace(f); pfes = dynamic_cast<ParFiniteElementSpace*>(f); }
  void SetSpace(ParFiniteElementSpace* f) { GridFunction::SetSpace(f); pfes = f; }
  using GridFunction::MakeRef;
  void MakeRef(ParFiniteElementSpace* f, Vector& v, int off) { GridFunction::MakeRef(f, v, off); pfes = f; }
  void MakeRef(ParFiniteElementSpace* f, real_t* v) { GridFunction::MakeRef(f, v); pfes = f; }
  void ExchangeFaceNbrData();
  Vector& FaceNbrData() { return face_nbr_data; }
  const Vector& FaceNbrData() const { return face_nbr_data; }
  using GridFunction::ProjectCoefficient;
  real_t ComputeL2Error(Coefficient& c, const IntegrationRule* irs[] = nullptr) const override;
private:
  ParFiniteElementSpace* pfes = nullptr;
  Vector face_nbr_data;
};

class ParBilinearForm : public BilinearForm {
public:
  explicit ParBilinearForm(ParFiniteElementSpace* f) : BilinearForm(f), pfes(f) {}
  void KeepNbrBlock(bool k = true) { keep = k; }
  void Assemble(int skip_zeros = 1);
  ParFiniteElementSpace* ParFESpace() const { return pfes; }
protected:
  ParFiniteElementSpace* pfes;
  bool keep = false;
};
class ParLinearForm : public LinearForm {
public:
  explicit ParLinearForm(ParFiniteElementSpace* f) : LinearForm(f), pfes(f) {}
  using LinearForm::operator=;
private:
  ParFiniteElementSpace* pfes;
};

class ParSubMesh : public ParMesh {
public:
  using From = SubMesh::From;
  static ParSubMesh CreateFromDomain(const ParMesh& parent, const Array<int>& attrs);
  ParSubMesh(const ParSubMesh&) = default;
  ParSubMesh(ParSubMesh&&) = default;
  const ParMesh* GetParent() const { return parent_; }
  From GetFrom() const { return From::Domain; }
  const Array<int>& GetParentElementIDMap() const { return parent_element_ids; }
  const Array<int>& GetParentVertexIDMap() const { return parent_vertex_ids; }
  static TransferMap CreateTransferMap(const GridFunction& s, const GridFunction& d) { return TransferMap(s, d); }
private:
  ParSubMesh() = default;
  const ParMesh* parent_ = nullptr;
  Array<int> parent_element_ids, parent_vertex_ids;
};

// --------------------------------------------------------------------- output
enum class VTKFormat { ASCII, BINARY, BINARY32 };

class DataCollection {
public:
  enum Format { SERIAL_FORMAT = 0, PARALLEL_FORMAT = 1 };
  explicit DataCollection(const std::string& name_, Mesh* m = nullptr);
  virtual ~DataCollection() = default;
  virtual void RegisterField(const std::string& n, GridFunction* g) { fields[n] = g; }
  void DeregisterField(const std::string& n) { fields.erase(n); }
  GridFunction* GetField(const std::string& n) { auto it = fields.find(n); return it == fields.end() ? nullptr : it->second; }
  Mesh* GetMesh() { return mesh; }
  virtual void SetMesh(Mesh* m) { mesh = m; }
  void SetCycle(int c) { cycle = c; }
  void SetTime(real_t t) { time = t; }
  void SetTimeStep(real_t) {}
  int GetCycle() const { return cycle; }
  real_t GetTime() const { return time; }
  void SetPrecision(int p) { precision = p; }
  void SetFormat(int) {}
  void SetCompression(bool) {}
  void SetPrefixPath(const std::string& p) { prefix_path = p; if (!prefix_path.empty() && prefix_path.back() != '/') prefix_path += '/'; }
  const std::string& GetPrefixPath() const { return prefix_path; }
  const std::string& GetCollectionName() const { return name; }
  void SetPadDigits(int d) { pad = d; }
  virtual void Save();
protected:
  std::string name, prefix_path;
  Mesh* mesh;
  std::map<std::string, GridFunction*> fields;
  int cycle = -1, pad = 6, precision = 6;
  real_t time = 0;
  bool serial = true;
  int rank = 0;
};

class ParaViewDataCollection : public DataCollection {
public:
  explicit ParaViewDataCollection(const std::string& n, Mesh* m = nullptr) : DataCollection(n, m) {}
  void SetLevelsOfDetail(int l) { lod = l; }
  void SetHighOrderOutput(bool h) { ho = h; }
  void SetDataFormat(VTKFormat) {}
  void SetCompressionLevel(int) {}
  void Save() override;
private:
  int lod = 1;
  bool ho = false;
  bool started = false;
};

class VisItDataCollection : public DataCollection { public: using DataCollection::DataCollection; };

}  // namespace mfem
