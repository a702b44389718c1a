// P17: integrators of the magnetostatic residual and the field energies
#include "femgen.hpp"
#include "electromag_integ.hpp"

using namespace femgen;
using namespace miso;

namespace
{
struct Case
{
   FemMesh m;
   std::unique_ptr<Space> sp;
   int p;
   FiniteElementSpace &fes() { return *sp->fes; }
};
/// scalar H1 potential (2D or 3D), or L2
Case scalar_case(Gen &g, int dim, bool l2 = false, int pmax = 3)
{
   Case c;
   c.m = fem_mesh(g, dim);
   c.p = g.irange(1, dim == 2 ? pmax : std::min(pmax, 2));
   c.sp.reset(new Space(l2 ? Space::l2(*c.m.mesh, c.p) : Space::h1(*c.m.mesh, c.p)));
   g.label(str(l2 ? "L2 p" : "H1 p", c.p));
   return c;
}
Case nd_case(Gen &g, int dim)
{
   Case c;
   c.m = fem_mesh(g, dim);
   c.p = g.irange(1, 2);
   c.sp.reset(new Space(Space::nd(*c.m.mesh, c.p)));
   g.label(str("ND p", c.p));
   return c;
}
/// explicit quadrature rule, or none: the integrator's own choice
struct RuleChoice
{
   int order = -1;
   RuleChoice(Gen &g, bool deflt_too = true) { order = deflt_too && g.chance(1, 2) ? -1 : g.irange(0, 8); }
   template <typename I>
   void set(I &integ, Geometry::Type t) const
   {
      if (order >= 0) { integ.SetIntRule(&IntRules.Get(t, order)); }
   }
};
const IntegrationRule &high(Geometry::Type t) { return IntRules.Get(t, 12); }

/// state: random, zero on the whole domain, or zero on the support of some
/// elements; the flux is zero in all three
GridFunction state_field(Gen &g, Case &c, bool &zero, double amp = 0.4)
{
   GridFunction u = c.sp->field(g, amp);
   zero = false;
   if (g.chance(1, 6))
   {
      zero = true;
      g.label("zero state");
      if (g.flip() || c.fes().GetNE() < 2) { u = 0.0; }
      else
      {
         Array<int> d;
         c.fes().GetElementVDofs(g.irange(0, c.fes().GetNE() - 1), d);
         FiniteElementSpace::AdjustVDofs(d);
         for (int i : d) { u(i) = 0.0; }
      }
   }
   return u;
}

// ------------------------------------------------------------- domain pieces
/// sum over the elements of f(element transformation, point, weight)
template <typename F>
double integrate(Mesh &m, const RuleChoice *rc, F f)
{
   double s = 0;
   for (int e = 0; e < m.GetNE(); ++e)
   {
      auto &T = *m.GetElementTransformation(e);
      auto t = m.GetElementGeometry(e);
      const IntegrationRule &ir = rc && rc->order >= 0 ? IntRules.Get(t, rc->order) : high(t);
      each_point(T, ir, [&](const IntegrationPoint &ip, double w) { s += w * f(T, ip); });
   }
   return s;
}
Geometry::Type geom(Case &c) { return c.m.mesh->GetElementGeometry(0); }

void diffusion(Gen &g)
{
   Case c = scalar_case(g, g.chance(2, 3) ? 2 : 3);
   bool zero;
   int part = g.irange(0, 2);
   bool constant = part == 0 && g.flip();
   Law nu(g, true, part < 2, constant);
   if (constant) { nu.c[0] = nu.c[1] = nu.c[2] = 0; }
   double alpha = g.flip() ? 1.0 : g.sym(2);
   NonlinearDiffusionIntegrator I(nu, alpha);
   Quiet q;
   GridFunction u = state_field(g, c, zero), psi = c.sp->field(g);
   auto &fes = c.fes();
   if (zero) { nu.k = 0; }
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, geom(c));
      if (rc.order < 0 && !(c.m.affine && constant)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      g.nontrivial(!zero);
      double got = dom_residual(I, fes, u) * psi;
      double want = alpha * integrate(*c.m.mesh, &rc, [&](ElementTransformation &T, const IntegrationPoint &ip) {
         Vector a, b;
         u.GetGradient(T, a);
         psi.GetGradient(T, b);
         return nu.Eval(T, ip, a.Norml2()) * (a * b);
      });
      g.close(got, want, 1e-9 * (1 + std::fabs(want)), "diffusion value", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      g.nontrivial();
      Vector v = random_dir(g, u.Size());
      Vector jv = dom_jacobian(I, fes, u, v);
      dir_check(g, [&](const Vector &x) { return dom_residual(I, fes, x); }, u, v, jv, 0.02, "diffusion jacobian");
      // derivative of an energy: the Jacobian is symmetric
      double a = jv * psi, b = dom_jacobian(I, fes, u, psi) * v;
      g.close(a, b, 1e-9 * (1 + std::fabs(a)), "diffusion jacobian symmetric");
   }
   else
   {
      g.nontrivial();
      NonlinearDiffusionIntegratorMeshRevSens S(u, psi, I);
      Vector grad = dom_linear(S, c.m.fes());
      mesh_check(g, c.m, [&] { return dom_residual(I, fes, u) * psi; }, grad, "diffusion mesh sensitivity");
   }
}

void curlcurl(Gen &g)
{
   int part = g.irange(0, 3);
   Case c = nd_case(g, part == 3 || g.chance(2, 3) ? 3 : 2);
   bool zero;
   bool constant = part == 0 && g.flip();
   Law nu(g, true, part < 3, constant);
   if (constant) { nu.c[0] = nu.c[1] = nu.c[2] = 0; }
   double alpha = g.flip() ? 1.0 : g.sym(2);
   CurlCurlNLFIntegrator I(nu, alpha);
   GridFunction u = state_field(g, c, zero), psi = c.sp->field(g);
   if (zero) { nu.k = 0; }
   auto &fes = c.fes();
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, geom(c));
      if (rc.order < 0 && !(c.m.affine && constant)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      g.nontrivial(!zero);
      double got = dom_residual(I, fes, u) * psi;
      double want = alpha * integrate(*c.m.mesh, &rc, [&](ElementTransformation &T, const IntegrationPoint &ip) {
         Vector a, b;
         u.GetCurl(T, a);
         psi.GetCurl(T, b);
         return nu.Eval(T, ip, a.Norml2()) * (a * b);
      });
      g.close(got, want, 1e-9 * (1 + std::fabs(want)), "curl-curl value", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      g.nontrivial();
      Vector v = random_dir(g, u.Size());
      Vector jv = dom_jacobian(I, fes, u, v);
      dir_check(g, [&](const Vector &x) { return dom_residual(I, fes, x); }, u, v, jv, 0.02, "curl-curl jacobian");
      double a = jv * psi, b = dom_jacobian(I, fes, u, psi) * v;
      g.close(a, b, 1e-9 * (1 + std::fabs(a)), "curl-curl jacobian symmetric");
   }
   else if (part == 2)
   {
      g.nontrivial();
      CurlCurlNLFIntegratorStateRevSens R(u, psi, I);
      GridFunction v = c.sp->field(g);
      CurlCurlNLFIntegratorStateFwdSens F(u, v, I);
      Vector rev = dom_linear(R, fes), fwd = dom_linear(F, fes);
      g.close(rev * v, fwd * psi, 1e-9 * (1 + std::fabs(rev * v)), "curl-curl forward and reverse");
      dir_check(g, [&](const Vector &x) { return dom_residual(I, fes, x); }, u, v, fwd, 0.02, "curl-curl forward sensitivity");
   }
   else
   {
      g.nontrivial();
      CurlCurlNLFIntegratorMeshRevSens S(u, psi, I);
      Vector grad = dom_linear(S, c.m.fes());
      mesh_check(g, c.m, [&] { return dom_residual(I, fes, u) * psi; }, grad, "curl-curl mesh sensitivity");
   }
}

// ---------------------------------------------------------------- face pieces
struct Wall : public mfem::Coefficient
{
   double a, c[3];
   Wall(Gen &g, bool space) : a(g.sym(2))
   {
      for (double &v : c) { v = space ? g.sym(1) : 0; }
   }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double b[3] = {0, 0, 0};
      Vector x(b, 3);
      T.Transform(ip, x);
      double s = a;
      for (int d = 0; d < x.Size(); ++d) { s += c[d] * x(d); }
      return s;
   }
};
struct Side
{
   double u, v, nu, h;  // value of both fields, law, penalty length scale
   double un, vn;       // normal derivatives, with the face's measure
};
Side side(const GridFunction &u, const GridFunction &v, ElementTransformation &T, const IntegrationPoint &ip, const Vector &nor, Law &nu)
{
   Side s;
   T.SetIntPoint(&ip);
   Vector gu, gv;
   u.GetGradient(T, gu);
   v.GetGradient(T, gv);
   s.u = u.GetValue(T, ip);
   s.v = v.GetValue(T, ip);
   s.nu = nu.Eval(T, ip, gu.Norml2());
   s.un = gu * nor;
   s.vn = gv * nor;
   s.h = (nor * nor) / T.Weight();
   return s;
}
void dg_boundary(Gen &g)
{
   Case c = scalar_case(g, g.chance(2, 3) ? 2 : 3, g.flip());
   int part = g.irange(0, 2);
   bool zero;
   bool constant = part == 0 && g.flip();
   Law nu(g, true, part < 2, constant);
   if (constant) { nu.c[0] = nu.c[1] = nu.c[2] = 0; }
   Wall bc(g, part < 2 && !constant);
   double mu = g.real(0, 20), alpha = g.flip() ? 1.0 : g.sym(2);
   NonlinearDGDiffusionIntegrator I(nu, bc, mu, alpha);
   GridFunction u = state_field(g, c, zero), psi = c.sp->field(g);
   if (zero) { nu.k = 0; }
   Marker mk(c.m.mesh->bdr_attributes.Max());
   for (size_t i = 0; i < mk.size(); ++i) { mk[i] = i == 0 || g.flip(); }
   auto &fes = c.fes();
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, c.m.mesh->GetBdrElementBaseGeometry(0));
      if (rc.order < 0 && !(c.m.affine && constant)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      g.nontrivial(!zero);
      double got = bdr_residual(I, fes, u, mk) * psi, want = 0, mag = 0;
      for (int b = 0; b < c.m.mesh->GetNBE(); ++b)
      {
         if (!on(mk, c.m.mesh->GetBdrAttribute(b))) { continue; }
         auto &T = *c.m.mesh->GetBdrFaceTransformations(b);
         auto t = T.GetGeometryType();
         const IntegrationRule &ir = rc.order >= 0 ? IntRules.Get(t, rc.order) : high(t);
         for (int k = 0; k < ir.GetNPoints(); ++k)
         {
            T.SetAllIntPoints(&ir.IntPoint(k));
            Vector nor(c.m.dim);
            CalcOrtho(T.Jacobian(), nor);
            Side s = side(u, psi, *T.Elem1, T.GetElement1IntPoint(), nor, nu);
            double d = s.u - bc.Eval(*T.Elem1, T.GetElement1IntPoint());
            double w = alpha * ir.IntPoint(k).weight * s.nu;
            double t1 = -s.un * s.v, t2 = -d * s.vn, t3 = mu * s.h * d * s.v;
            want += w * (t1 + t2 + t3);
            mag += std::fabs(w) * (std::fabs(t1) + std::fabs(t2) + std::fabs(t3));
         }
      }
      g.close(got, want, 1e-10 * (1 + mag), "boundary penalty value", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      g.nontrivial();
      Vector v = random_dir(g, u.Size());
      Vector jv = bdr_jacobian(I, fes, u, v, mk);
      dir_check(g, [&](const Vector &x) { return bdr_residual(I, fes, x, mk); }, u, v, jv, 0.02, "boundary penalty jacobian");
   }
   else
   {
      g.nontrivial();
      NonlinearDGDiffusionIntegratorMeshRevSens S(c.m.fes(), u, psi, I);
      Vector grad = bdr_linear(S, c.m.fes(), mk);
      mesh_check(g, c.m, [&] { return bdr_residual(I, fes, u, mk) * psi; }, grad, "boundary penalty mesh sensitivity");
   }
}
void dg_interior(Gen &g)
{
   Case c = scalar_case(g, g.chance(2, 3) ? 2 : 3, g.chance(2, 3));
   int part = g.irange(0, 2);
   bool zero;
   bool constant = part == 0 && g.flip();
   Law nu(g, true, part < 2, constant);
   if (constant) { nu.c[0] = nu.c[1] = nu.c[2] = 0; }
   double mu = g.real(0, 20), alpha = g.flip() ? 1.0 : g.sym(2);
   DGInteriorFaceDiffusionIntegrator I(nu, mu, alpha);
   GridFunction u = state_field(g, c, zero), psi = c.sp->field(g);
   if (zero) { nu.k = 0; }
   auto &fes = c.fes();
   int n = 0;
   each_interior(*c.m.mesh, [&](FaceElementTransformations &) { ++n; });
   g.nontrivial(n > 0);
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, c.m.mesh->GetBdrElementBaseGeometry(0));
      if (rc.order < 0 && !(c.m.affine && c.m.simplex && constant)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double got = int_residual(I, fes, u) * psi, want = 0, mag = 0;
      each_interior(*c.m.mesh, [&](FaceElementTransformations &T) {
         auto t = T.GetGeometryType();
         const IntegrationRule &ir = rc.order >= 0 ? IntRules.Get(t, rc.order) : high(t);
         for (int k = 0; k < ir.GetNPoints(); ++k)
         {
            T.SetAllIntPoints(&ir.IntPoint(k));
            Vector nor(c.m.dim);
            CalcOrtho(T.Jacobian(), nor);
            Side a = side(u, psi, *T.Elem1, T.GetElement1IntPoint(), nor, nu);
            Side b = side(u, psi, *T.Elem2, T.GetElement2IntPoint(), nor, nu);
            double w = alpha * ir.IntPoint(k).weight;
            double ju = a.u - b.u, jv = a.v - b.v;
            double t1 = -0.5 * (a.nu * a.un + b.nu * b.un) * jv;
            double t2 = -0.5 * ju * (a.nu * a.vn + b.nu * b.vn);
            double t3 = mu * 0.5 * (a.h * a.nu + b.h * b.nu) * ju * jv;
            want += w * (t1 + t2 + t3);
            mag += std::fabs(w) * (std::fabs(t1) + std::fabs(t2) + std::fabs(t3));
         }
      });
      g.close(got, want, 1e-10 * (1 + mag), "interior penalty value", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      Vector v = random_dir(g, u.Size());
      Vector jv = int_jacobian(I, fes, u, v);
      dir_check(g, [&](const Vector &x) { return int_residual(I, fes, x); }, u, v, jv, 0.02, "interior penalty jacobian");
   }
   else
   {
      DGInteriorFaceDiffusionIntegratorMeshRevSens S(c.m.fes(), u, psi, I);
      Vector grad = int_linear(S, c.m.fes());
      mesh_check(g, c.m, [&] { return int_residual(I, fes, u) * psi; }, grad, "interior penalty mesh sensitivity");
   }
}

// ------------------------------------------------------------------- magnets
/// M(x, T) = (m + A x)(1 + b T + c T^2)
struct Magnet : public VectorStateCoefficient
{
   double m[3], A[3][3], b, c;
   Magnet(Gen &g, int dim) : VectorStateCoefficient(dim), b(g.sym(0.5)), c(g.sym(0.3))
   {
      for (int i = 0; i < 3; ++i)
      {
         m[i] = g.sym(2);
         for (int j = 0; j < 3; ++j) { A[i][j] = g.sym(0.5); }
      }
   }
   void at(ElementTransformation &T, const IntegrationPoint &ip, Vector &v)
   {
      double bx[3] = {0, 0, 0};
      Vector x(bx, 3);
      T.Transform(ip, x);
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i)
      {
         v(i) = m[i] * (1 + 0.1 * T.Attribute);
         for (int j = 0; j < vdim; ++j) { v(i) += A[i][j] * bx[j]; }
      }
   }
   double f(double t) const { return 1 + b * t + c * t * t; }
   using VectorStateCoefficient::Eval;
   using VectorStateCoefficient::EvalRevDiff;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double t) override
   {
      at(T, ip, v);
      v *= f(t);
   }
   void EvalStateDeriv(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double t) override
   {
      at(T, ip, v);
      v *= b + 2 * c * t;
   }
   void EvalRevDiff(const Vector &vb, ElementTransformation &T, const IntegrationPoint &ip, double t, DenseMatrix &P) override
   {
      Vector xb(vdim);
      xb = 0.0;
      for (int i = 0; i < vdim; ++i)
         for (int j = 0; j < vdim; ++j) { xb(j) += f(t) * vb(i) * A[i][j]; }
      dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, xb, P);
   }
};
void magnet2d(Gen &g)
{
   Case c = scalar_case(g, 2);
   int pt = g.irange(1, 2);
   Space ts = Space::h1(*c.m.mesh, pt);
   GridFunction temp = ts.field(g, 2), psi = c.sp->field(g);
   Magnet M(g, 2);
   double alpha = g.flip() ? 1.0 : g.sym(2);
   MagnetizationSource2DIntegrator I(M, temp, alpha);
   auto &fes = c.fes();
   int part = g.irange(0, 2);
   g.nontrivial();
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, geom(c));
      if (rc.order < 0)
      {
         // exact for magnetization linear in space
         M.b = M.c = 0;
         if (!c.m.affine) { return g.discard(); }
      }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double mag = 0;
      double want = integrate(*c.m.mesh, &rc, [&](ElementTransformation &T, const IntegrationPoint &ip) {
         Vector dp, mv;
         psi.GetGradient(T, dp);
         M.Eval(mv, T, ip, temp.GetValue(T, ip));
         double v = alpha * (mv(1) * dp(0) - mv(0) * dp(1));
         mag += std::fabs(v);
         return v;
      });
      g.close(dom_linear(I, fes) * psi, want, 1e-10 * (1 + mag), "magnetization source value", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      MagnetizationSource2DIntegratorMeshRevSens S(psi, I);
      Vector grad = dom_linear(S, c.m.fes());
      mesh_check(g, c.m, [&] { return dom_linear(I, fes) * psi; }, grad, "magnetization source mesh sensitivity");
   }
   else
   {
      MagnetizationSource2DIntegratorTemperatureSens S(psi, I);
      Vector grad = dom_linear(S, *ts.fes), t0(temp);
      grad_check(g, [&](const Vector &x) {
         static_cast<Vector &>(temp) = x;
         return dom_linear(I, fes) * psi;
      }, t0, random_dir(g, temp.Size()), grad, 0.05, "magnetization source temperature sensitivity");
   }
}

// ------------------------------------------------------------------ energies
void energy_density(Gen &g)
{
   FemMesh m = fem_mesh(g, 2);
   Law nu(g, true, true);
   auto &T = *m.mesh->GetElementTransformation(g.irange(0, m.mesh->GetNE() - 1));
   IntegrationPoint ip;
   ip.Set2(g.real(0.05, 0.5), g.real(0.05, 0.45));
   T.SetIntPoint(&ip);
   double B = g.chance(1, 8) ? 0.0 : g.real(0, 2);
   double A = nu.space(T, ip);
   g.nontrivial(B > 0);
   double l = std::log1p(B * B);
   double W = A * (B * B / 2 + nu.k * B * B * B / 3 + nu.m * (B * B - l) / 2);
   double dW = A * B * nu.f(B), d2W = A * (nu.f(B) + B * nu.df(B));
   double tol = 1e-7 * std::fabs(A);
   g.close(calcMagneticEnergy(T, ip, nu, B), W, tol, "energy density");
   g.close(calcMagneticEnergyDot(T, ip, nu, B), dW, tol, "energy density derivative");
   g.close(calcMagneticEnergyDoubleDot(T, ip, nu, B), d2W, 10 * tol, "energy density second derivative");
}
void energy(Gen &g)
{
   int part = g.irange(0, 3);
   bool three = g.flip();
   Case c = three ? nd_case(g, 3) : scalar_case(g, 2);
   bool zero;
   Law nu(g, true, part < 3, false);
   MagneticEnergyIntegrator I(nu);
   GridFunction u = state_field(g, c, zero, 0.2);
   if (zero) { nu.k = 0; }
   auto &fes = c.fes();
   auto field = [&](ElementTransformation &T) {
      Vector b;
      if (three) { u.GetCurl(T, b); }
      else { u.GetGradient(T, b); }
      return b.Norml2();
   };
   g.nontrivial(!zero || part > 0);
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, geom(c));
      if (rc.order < 0)
      {
         nu = Law(g, true, false, true);
         if (!c.m.affine) { return g.discard(); }
      }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double got = dom_energy(I, fes, u);
      double want = integrate(*c.m.mesh, &rc, [&](ElementTransformation &T, const IntegrationPoint &ip) {
         return calcMagneticEnergy(T, ip, nu, field(T));
      });
      g.close(got, want, 1e-10 * (1 + std::fabs(want)), "magnetic energy value", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      Vector grad = dom_residual(I, fes, u);
      g.check(finite(grad), "magnetic energy gradient finite");
      grad_check(g, [&](const Vector &x) { return dom_energy(I, fes, x); }, u, random_dir(g, u.Size()), grad, 0.02, "magnetic energy gradient");
   }
   else if (part == 2)
   {
      // the residual of magnetostatics is the gradient of the energy
      RuleChoice rc(g, false);
      rc.set(I, geom(c));
      CurlCurlNLFIntegrator R3(nu);
      NonlinearDiffusionIntegrator R2(nu);
      rc.set(R3, geom(c));
      rc.set(R2, geom(c));
      Vector a = dom_residual(I, fes, u), b = three ? dom_residual(R3, fes, u) : dom_residual(R2, fes, u);
      double mag = b.Normlinf(), bmax = 0;
      for (int e = 0; e < fes.GetNE(); ++e)
      {
         auto &T = *fes.GetElementTransformation(e);
         each_point(T, IntRules.Get(geom(c), rc.order), [&](const IntegrationPoint &, double) { bmax = std::max(bmax, field(T)); });
      }
      // the energy density is itself a quadrature: accurate for moderate fields
      if (bmax > 2.5) { return g.discard(); }
      for (int i = 0; i < a.Size(); ++i) { g.close(a(i), b(i), 1e-6 * (0.01 + mag), "residual is the gradient of the energy"); }
   }
   else
   {
      MagneticEnergyIntegratorMeshSens S(u, I);
      Vector grad = dom_linear(S, c.m.fes());
      g.check(finite(grad), "magnetic energy mesh sensitivity finite");
      mesh_check(g, c.m, [&] { return dom_energy(I, fes, u); }, grad, "magnetic energy mesh sensitivity");
   }
}
/// the norms of the flux, weighted or not; all of them for 3D edge elements
void bnorm(Gen &g)
{
   Case c = nd_case(g, 3);
   auto &fes = c.fes();
   Law nu(g, true, false);
   GridFunction u = c.sp->field(g, 0.4);
   g.nontrivial();
   int which = g.irange(0, 4), part = g.irange(0, 2);
   RuleChoice rc(g, false);
   auto value = [&](NonlinearFormIntegrator &I, std::function<double(double, ElementTransformation &, const IntegrationPoint &)> f, const char *key) {
      rc.set(I, geom(c));
      double want = integrate(*c.m.mesh, &rc, [&](ElementTransformation &T, const IntegrationPoint &ip) {
         Vector b;
         u.GetCurl(T, b);
         return f(b.Norml2(), T, ip);
      });
      g.close(dom_energy(I, fes, u), want, 1e-10 * (1 + std::fabs(want)), key);
   };
   auto gradient = [&](NonlinearFormIntegrator &I, const char *key) {
      Vector grad = dom_residual(I, fes, u);
      grad_check(g, [&](const Vector &x) { return dom_energy(I, fes, x); }, u, random_dir(g, u.Size()), grad, 0.01, key);
   };
   auto mesh = [&](NonlinearFormIntegrator &I, LinearFormIntegrator &S, const char *key) {
      Vector grad = dom_linear(S, c.m.fes());
      mesh_check(g, c.m, [&] { return dom_energy(I, fes, u); }, grad, key);
   };
   if (which == 0)
   {
      BNormIntegrator I;
      if (part == 0) { value(I, [&](double b, ElementTransformation &, const IntegrationPoint &) { return b; }, "flux norm value"); }
      else if (part == 1) { gradient(I, "flux norm gradient"); }
      else
      {
         BNormdJdx S(u);
         mesh(I, S, "flux norm mesh sensitivity");
      }
   }
   else if (which == 1)
   {
      BNormSquaredIntegrator I;
      value(I, [&](double b, ElementTransformation &, const IntegrationPoint &) { return b * b; }, "squared flux norm value");
   }
   else if (which == 2)
   {
      nuBNormIntegrator I(&nu);
      if (part < 2) { gradient(I, "weighted flux norm gradient"); }
      else
      {
         nuBNormdJdx S(u, &nu);
         mesh(I, S, "weighted flux norm mesh sensitivity");
      }
   }
   else
   {
      nuFuncIntegrator I(&u, &nu);
      mesh(I, I, "reluctivity integral mesh sensitivity");
   }
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"diffusion", diffusion, 300, 60000},
       {"curl-curl", curlcurl, 250, 50000},
       {"boundary-penalty", dg_boundary, 300, 60000},
       {"interior-penalty", dg_interior, 300, 60000},
       {"magnetization-2d", magnet2d, 250, 50000},
       {"energy-density", energy_density, 300, 3000},
       {"energy", energy, 300, 60000},
       {"flux-norms", bnorm, 200, 40000},
   };
   Runner r("P17", props, "the integrand is not identically zero (state with nonzero flux, at least one face)");
   r.assumptions = {
       "the MFEM additions MISO needs are stand-ins (shim/odl.hpp)",
       "material laws depend on position through the element attribute only where a mesh sensitivity is checked",
       "derivatives are compared with extrapolated central differences (relative tolerance 1e-6)",
   };
   return r.main(argc, argv);
}
