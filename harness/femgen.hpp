// Random finite element problems and a small independent assembler, shared by
// the checks of the electromagnetic, thermal and generic integrators
#ifndef VERIF_FEMGEN_HPP
#define VERIF_FEMGEN_HPP
#include "pbt.hpp"
#include "mfem.hpp"
#include "meshgen.hpp"
#include "fdcheck.hpp"
#include "mpi_init.hpp"
#include "coefficient.hpp"
#include <memory>

namespace femgen
{
using namespace pbt;
using namespace mfem;

struct Quiet  // the code under test writes to stdout
{
   std::streambuf *b;
   std::ostringstream o;
   Quiet() : b(std::cout.rdbuf(o.rdbuf())) { }
   ~Quiet() { std::cout.rdbuf(b); }
};

// -------------------------------------------------------------------- meshes
struct MeshSpec
{
   int max2 = 2, max3 = 1;
   bool tensor = true;      // quadrilaterals and hexahedra too
   bool curved = true;      // second-order geometry too
   int attributes = 3;
   bool internal = false;   // boundary elements inside the domain
};
/// the mesh with boundary elements of one or two more attributes on some of
/// the faces inside
inline std::unique_ptr<Mesh> with_internal_boundary(Gen &g, Mesh &m)
{
   std::vector<std::pair<int, int>> at;  // face, attribute
   int top = m.bdr_attributes.Max(), kinds = g.irange(1, 2);
   for (int f = 0; f < m.GetNumFaces(); ++f)
      if (m.FaceIsInterior(f) && g.chance(2, 3)) { at.push_back({f, top + g.irange(1, kinds)}); }
   int dim = m.Dimension();
   std::unique_ptr<Mesh> n(new Mesh(dim, m.GetNV(), m.GetNE(), m.GetNBE() + int(at.size()), m.SpaceDimension()));
   for (int i = 0; i < m.GetNV(); ++i) { n->AddVertex(m.GetVertex(i)); }
   for (int i = 0; i < m.GetNE(); ++i) { n->AddElement(m.GetElement(i)->Duplicate(n.get())); }
   for (int i = 0; i < m.GetNBE(); ++i) { n->AddBdrElement(m.GetBdrElement(i)->Duplicate(n.get())); }
   Array<int> v;
   for (auto &fa : at)
   {
      m.GetFaceVertices(fa.first, v);
      if (v.Size() == 2) { n->AddBdrSegment(v, fa.second); }
      else if (v.Size() == 3) { n->AddBdrTriangle(v, fa.second); }
      else { n->AddBdrQuad(v, fa.second); }
   }
   n->FinalizeTopology();
   n->Finalize(false, false);
   return n;
}

struct FemMesh
{
   std::unique_ptr<Mesh> mesh;
   int dim = 2;
   bool simplex = true, affine = true;
   int order = 1;
   Vector &nodes() { return *mesh->GetNodes(); }
   FiniteElementSpace &fes() { return *mesh->GetNodes()->FESpace(); }
};

/// mesh with nodal coordinates of order 1 or 2, random attributes
inline FemMesh fem_mesh(Gen &g, int dim, const MeshSpec &s = MeshSpec())
{
   FemMesh r;
   r.dim = dim;
   r.simplex = !s.tensor || g.chance(2, 3);
   if (r.simplex)
   {
      MeshOpts o;
      o.max2 = s.max2;
      o.max3 = s.max3;
      r.mesh = simplex_mesh(g, dim, o);
   }
   else
   {
      if (dim == 2) { r.mesh.reset(new Mesh(Mesh::MakeCartesian2D(g.irange(1, s.max2), g.irange(1, s.max2), Element::QUADRILATERAL, true, 1.0, 1.0, false))); }
      else { r.mesh.reset(new Mesh(Mesh::MakeCartesian3D(g.irange(1, 2), 1, 1, Element::HEXAHEDRON, 1.0, 1.0, 1.0, false))); }
      r.affine = false;
      double amp = g.flip() ? 0.0 : 0.1 / s.max2;
      r.affine = amp == 0;
      for (int i = 0; i < r.mesh->GetNV(); ++i)
         for (int d = 0; d < dim; ++d) { r.mesh->GetVertex(i)[d] += g.sym(amp); }
   }
   if (s.internal && g.chance(3, 4)) { r.mesh = with_internal_boundary(g, *r.mesh); }
   Mesh &m = *r.mesh;
   for (int i = 0; i < m.GetNE(); ++i) { m.SetAttribute(i, g.irange(1, s.attributes)); }
   m.SetAttributes();
   r.order = s.curved && g.chance(1, 2) ? 2 : 1;
   m.SetCurvature(r.order, false, -1, g.flip() ? Ordering::byNODES : Ordering::byVDIM);
   if (r.order == 2)
   {
      Vector &x = *m.GetNodes();
      double amp = 0.03 / std::max(s.max2, s.max3);
      for (int i = 0; i < x.Size(); ++i) { x(i) += g.sym(amp); }
      r.affine = false;
   }
   g.label(str(dim, "D ", r.simplex ? "simplex" : "tensor", r.order == 2 ? " curved" : ""));
   return r;
}
inline Vector random_dir(Gen &g, int n, double a = 1.0)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = g.sym(a); }
   return v;
}
/// direction in which to move the mesh nodes: everything, or a single node
inline Vector node_dir(Gen &g, FemMesh &m)
{
   int n = m.nodes().Size();
   Vector v(n);
   v = 0.0;
   if (g.chance(1, 3)) { v(g.irange(0, n - 1)) = 1.0; }
   else { v = random_dir(g, n); }
   return v;
}

// -------------------------------------------------------------------- spaces
struct Space
{
   std::unique_ptr<FiniteElementCollection> fec;
   std::unique_ptr<FiniteElementSpace> fes;
   Space(Mesh &m, FiniteElementCollection *c, int vdim = 1, int ord = Ordering::byNODES) : fec(c), fes(new FiniteElementSpace(&m, c, vdim, ord)) { }
   static Space h1(Mesh &m, int p) { return Space(m, new H1_FECollection(p, m.Dimension())); }
   static Space nd(Mesh &m, int p) { return Space(m, new ND_FECollection(p, m.Dimension())); }
   static Space rt(Mesh &m, int p) { return Space(m, new RT_FECollection(p, m.Dimension())); }
   static Space l2(Mesh &m, int p) { return Space(m, new L2_FECollection(p, m.Dimension())); }
   GridFunction field(Gen &g, double a = 1.0)
   {
      GridFunction x(fes.get());
      for (int i = 0; i < x.Size(); ++i) { x(i) = g.sym(a); }
      return x;
   }
};

/// element values of a field, in the element's own basis
inline void local(const FiniteElementSpace &fes, int e, const Vector &u, Vector &ue, Array<int> &d, DofTransformation *&t)
{
   t = fes.GetElementVDofs(e, d);
   u.GetSubVector(d, ue);
   if (t) { t->InvTransformPrimal(ue); }
}

// ------------------------------------------------------------------ assembler
inline Vector dom_residual(NonlinearFormIntegrator &I, const FiniteElementSpace &fes, const Vector &u)
{
   Vector r(fes.GetVSize()), ue, re;
   r = 0.0;
   Array<int> d;
   DofTransformation *t;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      local(fes, e, u, ue, d, t);
      I.AssembleElementVector(*fes.GetFE(e), *fes.GetElementTransformation(e), ue, re);
      if (t) { t->TransformDual(re); }
      r.AddElementVector(d, re);
   }
   return r;
}
inline Vector dom_jacobian(NonlinearFormIntegrator &I, const FiniteElementSpace &fes, const Vector &u, const Vector &v)
{
   Vector r(fes.GetVSize()), ue, ve, re;
   r = 0.0;
   Array<int> d;
   DofTransformation *t;
   DenseMatrix A;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      local(fes, e, v, ve, d, t);
      local(fes, e, u, ue, d, t);
      I.AssembleElementGrad(*fes.GetFE(e), *fes.GetElementTransformation(e), ue, A);
      re.SetSize(A.Height());
      A.Mult(ve, re);
      if (t) { t->TransformDual(re); }
      r.AddElementVector(d, re);
   }
   return r;
}
inline double dom_energy(NonlinearFormIntegrator &I, const FiniteElementSpace &fes, const Vector &u)
{
   Vector ue;
   Array<int> d;
   DofTransformation *t;
   double s = 0;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      local(fes, e, u, ue, d, t);
      s += I.GetElementEnergy(*fes.GetFE(e), *fes.GetElementTransformation(e), ue);
   }
   return s;
}
inline Vector dom_linear(LinearFormIntegrator &I, const FiniteElementSpace &fes)
{
   Vector r(fes.GetVSize()), re;
   r = 0.0;
   Array<int> d;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      auto *t = fes.GetElementVDofs(e, d);
      I.AssembleRHSElementVect(*fes.GetFE(e), *fes.GetElementTransformation(e), re);
      if (t) { t->TransformDual(re); }
      r.AddElementVector(d, re);
   }
   return r;
}
// boundary faces, marked by attribute
typedef std::vector<bool> Marker;
inline bool on(const Marker &m, int a) { return m.empty() || m[a - 1]; }
inline Vector bdr_residual(NonlinearFormIntegrator &I, FiniteElementSpace &fes, const Vector &u, const Marker &m = Marker())
{
   Vector r(fes.GetVSize()), ue, re;
   r = 0.0;
   Array<int> d;
   DofTransformation *t;
   Mesh &mesh = *fes.GetMesh();
   for (int b = 0; b < mesh.GetNBE(); ++b)
   {
      auto *T = mesh.GetBdrFaceTransformations(b);
      if (!T || !on(m, mesh.GetBdrAttribute(b))) { continue; }
      local(fes, T->Elem1No, u, ue, d, t);
      const FiniteElement &fe = *fes.GetFE(T->Elem1No);
      I.AssembleFaceVector(fe, fe, *T, ue, re);
      if (t) { t->TransformDual(re); }
      r.AddElementVector(d, re);
   }
   return r;
}
inline Vector bdr_jacobian(NonlinearFormIntegrator &I, FiniteElementSpace &fes, const Vector &u, const Vector &v, const Marker &m = Marker())
{
   Vector r(fes.GetVSize()), ue, ve, re;
   r = 0.0;
   Array<int> d;
   DofTransformation *t;
   DenseMatrix A;
   Mesh &mesh = *fes.GetMesh();
   for (int b = 0; b < mesh.GetNBE(); ++b)
   {
      auto *T = mesh.GetBdrFaceTransformations(b);
      if (!T || !on(m, mesh.GetBdrAttribute(b))) { continue; }
      local(fes, T->Elem1No, v, ve, d, t);
      local(fes, T->Elem1No, u, ue, d, t);
      const FiniteElement &fe = *fes.GetFE(T->Elem1No);
      I.AssembleFaceGrad(fe, fe, *T, ue, A);
      re.SetSize(A.Height());
      A.Mult(ve, re);
      if (t) { t->TransformDual(re); }
      r.AddElementVector(d, re);
   }
   return r;
}
inline double bdr_energy(NonlinearFormIntegrator &I, FiniteElementSpace &fes, const Vector &u, const Marker &m = Marker())
{
   Vector ue;
   Array<int> d;
   DofTransformation *t;
   double s = 0;
   Mesh &mesh = *fes.GetMesh();
   for (int b = 0; b < mesh.GetNBE(); ++b)
   {
      auto *T = mesh.GetBdrFaceTransformations(b);
      if (!T || !on(m, mesh.GetBdrAttribute(b))) { continue; }
      local(fes, T->Elem1No, u, ue, d, t);
      const FiniteElement &fe = *fes.GetFE(T->Elem1No);
      s += I.GetFaceEnergy(fe, fe, *T, ue);
   }
   return s;
}
/// linear integrator on the faces of the marked boundary
inline Vector bdr_linear(LinearFormIntegrator &I, FiniteElementSpace &fes, const Marker &m = Marker())
{
   Vector r(fes.GetVSize()), re;
   r = 0.0;
   Array<int> d;
   Mesh &mesh = *fes.GetMesh();
   for (int b = 0; b < mesh.GetNBE(); ++b)
   {
      auto *T = mesh.GetBdrFaceTransformations(b);
      if (!T || !on(m, mesh.GetBdrAttribute(b))) { continue; }
      auto *t = fes.GetElementVDofs(T->Elem1No, d);
      I.AssembleRHSElementVect(*fes.GetFE(T->Elem1No), *T, re);
      if (t) { t->TransformDual(re); }
      r.AddElementVector(d, re);
   }
   return r;
}
/// linear integrator on the boundary elements themselves
inline Vector be_linear(LinearFormIntegrator &I, FiniteElementSpace &fes, const Marker &m = Marker())
{
   Vector r(fes.GetVSize()), re;
   r = 0.0;
   Array<int> d;
   Mesh &mesh = *fes.GetMesh();
   for (int b = 0; b < mesh.GetNBE(); ++b)
   {
      if (!on(m, mesh.GetBdrAttribute(b))) { continue; }
      auto *t = fes.GetBdrElementVDofs(b, d);
      I.AssembleRHSElementVect(*fes.GetBE(b), *fes.GetBdrElementTransformation(b), re);
      if (t) { t->TransformDual(re); }
      r.AddElementVector(d, re);
   }
   return r;
}
// interior faces (continuous or discontinuous spaces, no DOF transformations)
inline void face_dofs(const FiniteElementSpace &fes, FaceElementTransformations &T, Array<int> &d)
{
   Array<int> d2;
   fes.GetElementVDofs(T.Elem1No, d);
   fes.GetElementVDofs(T.Elem2No, d2);
   d.Append(d2);
}
template <typename F>
void each_interior(Mesh &mesh, F f)
{
   for (int i = 0; i < mesh.GetNumFaces(); ++i)
      if (auto *T = mesh.GetInteriorFaceTransformations(i)) { f(*T); }
}
inline Vector int_residual(NonlinearFormIntegrator &I, FiniteElementSpace &fes, const Vector &u)
{
   Vector r(fes.GetVSize()), ue, re;
   r = 0.0;
   Array<int> d;
   each_interior(*fes.GetMesh(), [&](FaceElementTransformations &T) {
      face_dofs(fes, T, d);
      u.GetSubVector(d, ue);
      I.AssembleFaceVector(*fes.GetFE(T.Elem1No), *fes.GetFE(T.Elem2No), T, ue, re);
      r.AddElementVector(d, re);
   });
   return r;
}
inline Vector int_jacobian(NonlinearFormIntegrator &I, FiniteElementSpace &fes, const Vector &u, const Vector &v)
{
   Vector r(fes.GetVSize()), ue, ve, re;
   r = 0.0;
   Array<int> d;
   DenseMatrix A;
   each_interior(*fes.GetMesh(), [&](FaceElementTransformations &T) {
      face_dofs(fes, T, d);
      u.GetSubVector(d, ue);
      v.GetSubVector(d, ve);
      I.AssembleFaceGrad(*fes.GetFE(T.Elem1No), *fes.GetFE(T.Elem2No), T, ue, A);
      re.SetSize(A.Height());
      A.Mult(ve, re);
      r.AddElementVector(d, re);
   });
   return r;
}
inline Vector int_linear(LinearFormIntegrator &I, FiniteElementSpace &fes)
{
   Vector r(fes.GetVSize()), re;
   r = 0.0;
   Array<int> d;
   each_interior(*fes.GetMesh(), [&](FaceElementTransformations &T) {
      face_dofs(fes, T, d);
      I.AssembleRHSElementVect(*fes.GetFE(T.Elem1No), *fes.GetFE(T.Elem2No), T, re);
      r.AddElementVector(d, re);
   });
   return r;
}

// --------------------------------------------------------------- derivatives
inline Vector one(double a)
{
   Vector v(1);
   v(0) = a;
   return v;
}
/// f: Vector of unknowns -> Vector; jv: claimed directional derivative
template <typename F>
bool dir_check(Gen &g, F f, const Vector &u, const Vector &v, const Vector &jv, double h, const std::string &key, double rtol = 1e-6)
{
   return fd_check(g, [&](const Vector &x, Vector &y) { y = f(x); }, u, v, jv, h, key, "", rtol, 1e-12);
}
/// scalar-valued f and its gradient
template <typename F>
bool grad_check(Gen &g, F f, const Vector &u, const Vector &v, const Vector &grad, double h, const std::string &key, double rtol = 1e-6)
{
   return fd_check(g, [&](const Vector &x, Vector &y) { y = one(f(x)); }, u, v, one(grad * v), h, key, "", rtol, 1e-12);
}
/// derivative of f() with respect to the node coordinates of the mesh
template <typename F>
bool mesh_check(Gen &g, FemMesh &m, F f, const Vector &grad, const std::string &key, double rtol = 1e-6)
{
   Vector x0(m.nodes()), d = node_dir(g, m);
   double h = 0.01 / std::max(1.0, d.Normlinf());
   g.check(grad.Size() == x0.Size(), key + " size", str(grad.Size(), " for ", x0.Size(), " node coordinates"));
   bool ok = fd_check(g, [&](const Vector &x, Vector &y) {
      m.nodes() = x;
      y = one(f());
   }, x0, d, one(grad * d), h, key, "", rtol, 1e-12);
   m.nodes() = x0;
   return ok;
}

// ------------------------------------------------------------------ materials
/// smooth law that depends on position through the attribute and, if asked
/// to, through the coordinates: a_attr (1 + k s + m s^2/(1+s^2)) (1 + c.x)
struct Law : public miso::StateCoefficient
{
   double a[8], k, m, c[3] = {0, 0, 0};
   explicit Law(Gen &g, bool odd = true, bool space = false, bool constant = false)
   {
      for (double &v : a) { v = g.real(0.5, 3); }
      k = constant || !odd ? 0 : g.real(0, 0.5);
      m = constant ? 0 : g.real(0, 2);
      if (space)
         for (double &v : c) { v = g.sym(0.2); }
   }
   double space(ElementTransformation &T, const IntegrationPoint &ip)
   {
      double b[3] = {0, 0, 0};
      Vector x(b, 3);
      T.Transform(ip, x);
      double s = 1;
      for (int d = 0; d < x.Size(); ++d) { s += c[d] * x(d); }
      return a[T.Attribute % 8] * s;
   }
   using miso::StateCoefficient::Eval;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return space(T, ip) * f(s); }
   double EvalStateDeriv(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return space(T, ip) * df(s); }
   double EvalState2ndDeriv(ElementTransformation &T, const IntegrationPoint &ip, const double s) override { return space(T, ip) * d2f(s); }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override
   {
      Vector xb(T.GetSpaceDim());
      for (int d = 0; d < xb.Size(); ++d) { xb(d) = q * a[T.Attribute % 8] * c[d] * f(s); }
      dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, xb, P);
   }
   double f(double s) const { return 1 + k * s + m * s * s / (1 + s * s); }
   double df(double s) const { return k + m * 2 * s / std::pow(1 + s * s, 2); }
   double d2f(double s) const { return m * (2 - 6 * s * s) / std::pow(1 + s * s, 3); }
};

/// positive coefficient a_attr (1 + c.x)
struct Spread : public mfem::Coefficient
{
   double a[8], c[3] = {0, 0, 0};
   Spread(Gen &g, bool space, double lo = 0.5, double hi = 2)
   {
      for (double &v : a) { v = g.real(lo, hi); }
      if (space)
         for (double &v : c) { v = g.sym(0.2); }
   }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double b[3] = {0, 0, 0}, s = 1;
      Vector x(b, 3);
      T.Transform(ip, x);
      for (int d = 0; d < x.Size(); ++d) { s += c[d] * x(d); }
      return a[T.Attribute % 8] * s;
   }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      Vector xb(T.GetSpaceDim());
      for (int d = 0; d < xb.Size(); ++d) { xb(d) = q * a[T.Attribute % 8] * c[d]; }
      dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, xb, P);
   }
};
/// fixed vector field v_i = a_i + sum_j A_ij x_j, with its mesh derivative
struct Stream : public mfem::VectorCoefficient
{
   double a[3], A[3][3];
   Stream(Gen &g, int dim, bool space) : mfem::VectorCoefficient(dim)
   {
      for (int i = 0; i < 3; ++i)
      {
         a[i] = g.sym(1);
         for (int j = 0; j < 3; ++j) { A[i][j] = space ? g.sym(0.5) : 0; }
      }
   }
   using mfem::VectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double b[3] = {0, 0, 0};
      Vector x(b, 3);
      T.Transform(ip, x);
      V.SetSize(vdim);
      for (int i = 0; i < vdim; ++i)
      {
         V(i) = a[i];
         for (int j = 0; j < x.Size(); ++j) { V(i) += A[i][j] * x(j); }
      }
   }
   void EvalRevDiff(const Vector &vb, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      Vector xb(T.GetSpaceDim());
      xb = 0.0;
      for (int j = 0; j < xb.Size(); ++j)
         for (int i = 0; i < vdim; ++i) { xb(j) += A[i][j] * vb(i); }
      dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, xb, P);
   }
};

/// points of a rule with physical weight
template <typename F>
void each_point(ElementTransformation &T, const IntegrationRule &ir, F f)
{
   for (int q = 0; q < ir.GetNPoints(); ++q)
   {
      const IntegrationPoint &ip = ir.IntPoint(q);
      T.SetIntPoint(&ip);
      f(ip, ip.weight * T.Weight());
   }
}
/// integration order given to an integrator, or none
struct Rule
{
   int order = -1;
   explicit Rule(Gen &g, bool deflt_too = true) { order = deflt_too && g.chance(1, 2) ? -1 : g.irange(0, 8); }
   template <typename I>
   void set(I &integ, Geometry::Type t) const
   {
      if (order >= 0) { integ.SetIntRule(&IntRules.Get(t, order)); }
   }
   bool given() const { return order >= 0; }
};
/// integral of f(T, ip) over the domain with rules of the given order
template <typename F>
double quad(Mesh &m, int order, F f)
{
   double s = 0;
   for (int e = 0; e < m.GetNE(); ++e)
   {
      auto &T = *m.GetElementTransformation(e);
      each_point(T, IntRules.Get(m.GetElementGeometry(e), order), [&](const IntegrationPoint &ip, double w) { s += w * f(T, ip); });
   }
   return s;
}
inline bool finite(const Vector &v)
{
   for (int i = 0; i < v.Size(); ++i)
      if (!std::isfinite(v(i))) { return false; }
   return true;
}
}  // namespace femgen
#endif
