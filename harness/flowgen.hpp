// Generators and small references shared by the flow-integrator checks
#ifndef VERIF_FLOWGEN_HPP
#define VERIF_FLOWGEN_HPP
#include "pbt.hpp"
#include "mfem.hpp"
#include "meshgen.hpp"
#include "fdcheck.hpp"
#include "mpi_init.hpp"
#include "sbp_fe.hpp"
#include "euler_integ.hpp"
#include <memory>

using namespace pbt;
using namespace mfem;
using namespace miso;
namespace
{
adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}

// ------------------------------------------------------------------ meshes
struct Setup
{
   std::unique_ptr<Mesh> mesh;
   std::unique_ptr<FiniteElementCollection> fec;
   std::unique_ptr<FiniteElementSpace> fes;
   int dim, p;
   bool curved = false;
   const SBPFiniteElement &sbp(int e) const { return dynamic_cast<const SBPFiniteElement &>(*fes->GetFE(e)); }
};

Setup setup(Gen &g, int dim, bool faces, bool allow_curved, int pmax = 4)
{
   Setup s;
   s.dim = dim;
   if (dim == 1)
   {
      int n = g.irange(1, 3);
      double len = g.logreal(0.1, 10);
      s.mesh.reset(new Mesh(Mesh::MakeCartesian1D(n, len)));
      for (int i = 1; i < n; ++i) { s.mesh->GetVertex(i)[0] += g.sym(0.3) * len / n; }
   }
   else
   {
      MeshOpts o;
      o.max2 = 2;
      o.max3 = 1;
      s.mesh = simplex_mesh(g, dim, o);
      // well away from the origin, for position-dependent terms
      for (int i = 0; i < s.mesh->GetNV(); ++i) { s.mesh->GetVertex(i)[0] += 8.0; }
   }
   if (dim == 3)
   {
      s.p = g.irange(0, 1);
      s.fec.reset(new SBPCollection(s.p, 3));
   }
   else if (dim == 1 || g.flip())
   {
      s.p = g.irange(dim == 2 ? 1 : 0, pmax);
      s.fec.reset(new SBPCollection(s.p, dim));
      g.label("sbp");
   }
   else
   {
      s.p = g.irange(dim == 2 ? 1 : 0, pmax);
      s.fec.reset(new DSBPCollection(s.p, dim));
      g.label("dsbp");
   }
   if (allow_curved && dim > 1 && g.flip())
   {
      s.curved = true;
      s.mesh->SetCurvature(2, false, -1, Ordering::byNODES);
      GridFunction &x = *s.mesh->GetNodes();
      for (int i = 0; i < x.Size(); ++i) { x(i) += g.sym(0.03); }
      g.label("curved");
   }
   s.fes.reset(new FiniteElementSpace(s.mesh.get(), s.fec.get(), dim + 2, Ordering::byVDIM));
   g.note(str("dim ", dim, " p ", s.p, " elements ", s.mesh->GetNE(), s.curved ? " curved" : ""));
   g.label(str("d", dim, "p", s.p));
   return s;
}

// ------------------------------------------------------------------ states
template <int dim>
void pack(double rho, const double *u, double p, double *q)
{
   double k = 0;
   q[0] = rho;
   for (int i = 0; i < dim; ++i) { q[i + 1] = rho * u[i]; k += u[i] * u[i]; }
   q[dim + 1] = p / euler::gami + 0.5 * rho * k;
}
template <int dim>
double pres(const double *q)
{
   double k = 0;
   for (int i = 0; i < dim; ++i) { k += q[i + 1] * q[i + 1]; }
   return 0.4 * (q[dim + 1] - 0.5 * k / q[0]);
}
template <int dim>
void to_w(const double *q, double *w)
{
   double p = pres<dim>(q), s = std::log(p / std::pow(q[0], 1.4)), k = 0;
   for (int i = 0; i < dim; ++i) { k += q[i + 1] * q[i + 1]; w[i + 1] = q[i + 1] / p; }
   w[0] = (1.4 - s) / 0.4 - 0.5 * k / q[0] / p;
   w[dim + 1] = -q[0] / p;
}
/// nodal states of one element, conservative, n x (dim+2) stored by nodes
template <int dim>
struct Field
{
   double rho, u[3], p, amp;
   Field(Gen &g)
   {
      rho = g.logreal(0.2, 5);
      p = g.logreal(0.2, 5);
      double a = std::sqrt(1.4 * p / rho);
      for (int i = 0; i < dim; ++i) { u[i] = g.sym(1.2) * a; }
      amp = g.pick(std::vector<double>{0.0, 1e-3, 0.1, 0.3, 0.3});
      g.nontrivial(amp > 0);
   }
   void node(Gen &g, double *q)
   {
      double v[3], a = std::sqrt(1.4 * p / rho);
      for (int i = 0; i < dim; ++i) { v[i] = u[i] + amp * a * g.sym(1.0); }
      double r = rho * (1 + amp * g.sym(1.0)), pp = p * (1 + amp * g.sym(1.0));
      pack<dim>(r, v, pp, q);
   }
   Vector el(Gen &g, int n)
   {
      Vector e(n * (dim + 2));
      for (int i = 0; i < n; ++i)
      {
         double q[5];
         node(g, q);
         for (int k = 0; k < dim + 2; ++k) { e(k * n + i) = q[k]; }
      }
      return e;
   }
};
template <int dim>
void node_get(const Vector &e, int n, int i, double *q)
{
   for (int k = 0; k < dim + 2; ++k) { q[k] = e(k * n + i); }
}
template <int dim>
Vector all_w(const Vector &e, int n)
{
   Vector r(e.Size());
   for (int i = 0; i < n; ++i)
   {
      double q[5], w[5];
      node_get<dim>(e, n, i, q);
      to_w<dim>(q, w);
      for (int k = 0; k < dim + 2; ++k) { r(k * n + i) = w[k]; }
   }
   return r;
}
/// the state in the variables the integrator works with
template <int dim, bool entvar>
Vector work(const Vector &e, int n) { return entvar ? all_w<dim>(e, n) : e; }

/// direction for derivatives: dense or a single entry, relative to the state
template <int dim>
Vector direction(Gen &g, const Vector &u, int n)
{
   Vector v(u.Size());
   v = 0.0;
   // sizes per variable
   double sz[5];
   for (int k = 0; k < dim + 2; ++k)
   {
      sz[k] = 0;
      for (int i = 0; i < n; ++i) { sz[k] = std::max(sz[k], std::fabs(u(k * n + i))); }
   }
   double mm = 0;
   for (int k = 1; k <= dim; ++k) { mm = std::max(mm, sz[k]); }
   double ms = std::max(mm, std::sqrt(std::fabs(sz[0] * sz[dim + 1])));
   for (int k = 1; k <= dim; ++k) { sz[k] = ms; }
   if (g.chance(1, 3))
   {
      int i = g.irange(0, u.Size() - 1);
      v(i) = sz[i / n];
   }
   else
   {
      for (int i = 0; i < u.Size(); ++i) { v(i) = g.sym(1.0) * sz[i / n]; }
   }
   return v;
}

void rel(Gen &g, const Vector &a, const Vector &b, double tol, double extra, const std::string &key, const std::string &msg = "")
{
   g.check(a.Size() == b.Size(), key + "-size", str(a.Size(), " vs ", b.Size()));
   double s = std::max({a.Normlinf(), b.Normlinf(), extra});
   for (int i = 0; i < a.Size(); ++i)
   {
      g.check(std::fabs(a(i) - b(i)) <= tol * s, key, str("entry ", i, ": ", fmt(a(i)), " vs ", fmt(b(i)), " scale ", fmt(s), " ", msg));
   }
}

/// flux magnitude for tolerances: |state| * (|u|+a)
template <int dim>
double fmax_(const Vector &e, int n)
{
   double m = 0;
   for (int i = 0; i < n; ++i)
   {
      double q[5];
      node_get<dim>(e, n, i, q);
      double k = 0;
      for (int d = 0; d < dim; ++d) { k += q[d + 1] * q[d + 1]; }
      m = std::max(m, (q[dim + 1] + q[0] + std::sqrt(k) + pres<dim>(q)) * (std::sqrt(k) / q[0] + std::sqrt(1.4 * pres<dim>(q) / q[0]) + 1));
   }
   return m;
}

// geometry of an element at a node: own evaluation of the mapping
struct Geo
{
   DenseMatrix J, adj;
   double det;
   Vector x;
};
Geo geo(ElementTransformation &T, const IntegrationPoint &ip)
{
   Geo r;
   T.SetIntPoint(&ip);
   r.J = T.Jacobian();
   int d = r.J.Height();
   r.adj.SetSize(d);
   CalcAdjugate(r.J, r.adj);
   r.det = r.J.Det();
   T.Transform(ip, r.x);
   return r;
}
// ---------------------------------------------------------------- faces
struct FaceNode { int j; double n[3], w; Vector x; };
/// face nodes of an element: index, scaled outward normal times weight, position
template <int dim>
std::vector<FaceNode> face_nodes(const Setup &s, FaceElementTransformations &F, int side)
{
   const FiniteElement *fe = s.fec->FiniteElementForGeometry(dim == 2 ? Geometry::SEGMENT : Geometry::TRIANGLE);
   auto &sbp = s.sbp(side == 0 ? F.Elem1No : F.Elem2No);
   std::vector<FaceNode> out;
   for (int i = 0; i < fe->GetDof(); ++i)
   {
      FaceNode fn;
      const IntegrationPoint &ip = fe->GetNodes().IntPoint(i);
      IntegrationPoint eip;
      (side == 0 ? F.Loc1 : F.Loc2).Transform(ip, eip);
      double best = 1e9;
      for (int k = 0; k < sbp.GetDof(); ++k)
      {
         auto &np = sbp.GetNodes().IntPoint(k);
         double dd = std::fabs(np.x - eip.x) + std::fabs(np.y - eip.y) + std::fabs(np.z - eip.z);
         if (dd < best) { best = dd; fn.j = k; }
      }
      F.Face->SetIntPoint(&ip);
      Vector nn(dim);
      CalcOrtho(F.Face->Jacobian(), nn);
      fn.w = ip.weight;
      for (int d = 0; d < dim; ++d) { fn.n[d] = nn(d) * ip.weight; }
      F.Face->Transform(ip, fn.x);
      out.push_back(fn);
   }
   return out;
}

}  // namespace
#endif
