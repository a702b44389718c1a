// P19: generic integrals (volume, mass, averages, maxima by induced
// exponentials, boundary flux) and the mesh sensitivities of the standard
// bilinear and linear forms
#include "femgen.hpp"
namespace miso
{
class DomainResIntegrator;
class MassResIntegrator;
class DiffusionResIntegrator;
class BoundaryNormalResIntegrator;
}  // namespace miso
#include "mfem_common_integ.hpp"
#include "demag_flux_coefficient.hpp"

using namespace femgen;
using namespace miso;

namespace
{
const int FINE = 14;
struct Base
{
   FemMesh m;
   int p;
   std::unique_ptr<Space> s;
   GridFunction u;
   Base(Gen &g, int kind, const MeshSpec &spec = MeshSpec())  // 0: H1, 1: L2, 2: curl (H1 in 2D, ND in 3D)
   {
      int dim = g.chance(2, 3) ? 2 : 3;
      m = fem_mesh(g, dim, spec);
      p = g.irange(1, dim == 2 ? 3 : 2);
      if (kind == 1) { s.reset(new Space(Space::l2(*m.mesh, g.irange(0, p)))); }
      else if (kind == 2 && dim == 3) { s.reset(new Space(Space::nd(*m.mesh, p))); }
      else { s.reset(new Space(Space::h1(*m.mesh, p))); }
      g.label(s->fec->Name());
      u.SetSpace(s->fes.get());
      u = s->field(g, 0.7);
   }
   FiniteElementSpace &fes() { return *s->fes; }
   Geometry::Type geom() { return m.mesh->GetElementGeometry(0); }
};
bool pick_curl(Gen &g, Base &b, double shift, bool &zero)
{
   // nodal potential: add a slope so the curl rarely vanishes; or no curl at all
   zero = g.chance(1, 8);
   if (zero) { b.u = b.m.dim == 2 && g.flip() ? 1.5 : 0.0; }
   else if (b.m.dim == 2)
   {
      FunctionCoefficient f([&](const Vector &x) { return shift * (x(0) + 0.5 * x(1)); });
      GridFunction w(b.s->fes.get());
      w.ProjectCoefficient(f);
      b.u *= 0.2;
      b.u += w;
   }
   return zero;
}
double curl_size(Base &b, ElementTransformation &T)
{
   Vector c;
   if (b.m.dim == 2) { b.u.GetGradient(T, c); }
   else { b.u.GetCurl(T, c); }
   return c.Norml2();
}
template <typename I>
double energy(I &i, Base &b) { return dom_energy(i, b.fes(), b.u); }
template <typename I>
void state_check(Gen &g, I &i, Base &b, const std::string &key, double h = 0.02)
{
   Vector u0 = b.u, grad = dom_residual(i, b.fes(), u0);
   grad_check(g, [&](const Vector &x) { return dom_energy(i, b.fes(), x); }, u0, random_dir(g, u0.Size()), grad, h, key);
}
template <typename S, typename I>
void node_check(Gen &g, I &i, Base &b, const std::string &key, const Rule *r = nullptr)
{
   S sens(b.u, i);
   if (r) { r->set(sens, b.geom()); }
   Vector grad = dom_linear(sens, b.m.fes());
   mesh_check(g, b.m, [&] { return energy(i, b); }, grad, key);
}
void same(Gen &g, double got, double want, const std::string &key, const std::string &msg = "", double tol = 1e-10)
{
   g.close(got, want, tol * (1 + std::fabs(want)), key, msg);
}

// --------------------------------------------------------- volume, mass, mean
void volume(Gen &g)
{
   Base b(g, g.irange(0, 1));
   bool space = g.flip();
   Spread dens(g, space), other(g, space);
   mfem::Coefficient *rho = &dens;
   int how = g.irange(0, 2);  // none, empty slot, coefficient
   if (how == 1) { rho = nullptr; }
   std::unique_ptr<VolumeIntegrator> I(how == 0 ? new VolumeIntegrator : new VolumeIntegrator(&rho));
   g.label(how == 0 ? "volume" : how == 1 ? "empty density slot" : "mass");
   Rule r(g);
   r.set(*I, b.geom());
   g.nontrivial();
   int part = g.irange(0, 2);
   if (how == 2 && g.flip()) { rho = &other; }  // the slot is read when evaluating
   auto dens_at = [&](ElementTransformation &T, const IntegrationPoint &ip) { return how == 2 ? rho->Eval(T, ip) : 1.0; };
   if (part == 0)
   {
      if (!r.given() && how == 2 && space) { return g.discard(); }
      double want = quad(*b.m.mesh, r.given() ? r.order : FINE, dens_at);
      same(g, energy(*I, b), want, "volume integral", str("rule ", r.order, ", kind ", how));
      Vector z = dom_residual(*I, b.fes(), b.u);
      g.check(z.Normlinf() == 0, "volume depends on the state");
      VolumeIntegratorFillFactorSens F(*I);
      r.set(F, b.geom());
      same(g, dom_energy(F, b.fes(), b.u), want, "fill factor integral", str("rule ", r.order, ", kind ", how));
   }
   else { node_check<VolumeIntegratorMeshSens>(g, *I, b, "volume mesh sensitivity", &r); }
}
void state_integral(Gen &g)
{
   Base b(g, g.irange(0, 1));
   StateIntegrator I;
   g.nontrivial();
   switch (g.irange(0, 2))
   {
   case 0:
   {
      if (g.chance(1, 4)) { b.u = 1.0; }
      double want = quad(*b.m.mesh, FINE, [&](ElementTransformation &T, const IntegrationPoint &ip) { return b.u.GetValue(T, ip); });
      same(g, energy(I, b), want, "state integral");
      break;
   }
   case 1: state_check(g, I, b, "state integral gradient"); break;
   default: node_check<StateIntegratorMeshSens>(g, I, b, "state integral mesh sensitivity");
   }
}
void curl_magnitude(Gen &g)
{
   Base b(g, 2);
   bool zero;
   pick_curl(g, b, 1.5, zero);
   g.label(zero ? "no curl" : "curl");
   g.nontrivial(!zero);
   MagnitudeCurlStateIntegrator I;
   Rule r(g);
   r.set(I, b.geom());
   int part = g.irange(0, 2);
   if (part == 0)
   {
      if (!r.given() && !zero)
      {
         if (b.m.dim == 3 || b.p > 1 || !b.m.simplex || !b.m.affine) { return g.discard(); }
      }
      double want = quad(*b.m.mesh, r.given() ? r.order : 2, [&](ElementTransformation &T, const IntegrationPoint &ip) { return curl_size(b, T); });
      same(g, energy(I, b), want, "curl magnitude integral", str("rule ", r.order));
   }
   else if (part == 1)
   {
      if (zero)
      {
         Vector z = dom_residual(I, b.fes(), b.u);
         g.check(finite(z), "curl magnitude gradient not finite", "where the curl vanishes");
         return;
      }
      state_check(g, I, b, "curl magnitude gradient");
   }
   else
   {
      if (zero)
      {
         MagnitudeCurlStateIntegratorMeshSens S(b.u, I);
         r.set(S, b.geom());
         Vector z = dom_linear(S, b.m.fes());
         g.check(finite(z), "curl magnitude mesh sensitivity not finite", "where the curl vanishes");
         g.check(z.Normlinf() <= 1e-12, "curl magnitude mesh sensitivity", "of a field without curl");
         return;
      }
      node_check<MagnitudeCurlStateIntegratorMeshSens>(g, I, b, "curl magnitude mesh sensitivity", &r);
   }
}

// --------------------------------------------------------- smooth maxima
/// options and inputs given in several steps, some never
template <typename N, typename D>
void rho_history(Gen &g, N &n, D &d, double &rho)
{
   int rounds = g.irange(0, 3);
   for (int i = 0; i < rounds; ++i)
   {
      nlohmann::json o;
      if (g.chance(2, 3))
      {
         rho = g.real(0.1, 4);
         o["rho"] = rho;
      }
      else { o["unrelated"] = 3; }
      setOptions(n, o);
      setOptions(d, o);
   }
}
template <typename N, typename D>
void max_history(Gen &g, N &n, D &d, double &tm)
{
   int rounds = g.irange(0, 3);
   for (int i = 0; i < rounds; ++i)
   {
      MISOInputs in;
      if (g.chance(2, 3))
      {
         tm = g.sym(2);
         in.emplace("true_max", tm);
      }
      if (g.flip()) { in.emplace("other", 5.0); }
      setInputs(n, in);
      setInputs(d, in);
   }
}
void aggregate(Gen &g)
{
   Base b(g, g.irange(0, 1));
   double rho = g.real(0.1, 4), tm = 1.0;
   IEAggregateIntegratorNumerator N(rho);
   IEAggregateIntegratorDenominator D(rho);
   rho_history(g, N, D, rho);
   max_history(g, N, D, tm);
   g.nontrivial();
   int part = g.irange(0, 4);
   if (part == 0)
   {
      int order = 2 * b.fes().GetFE(0)->GetOrder();
      bool flat = g.chance(1, 4);
      double c = g.sym(2);
      if (flat) { b.u = c; }
      double lo = 1e300, hi = -1e300;
      auto at = [&](bool num) {
         return quad(*b.m.mesh, order, [&](ElementTransformation &T, const IntegrationPoint &ip) {
            double v = b.u.GetValue(T, ip), e = std::exp(rho * (v - tm));
            lo = std::min(lo, v);
            hi = std::max(hi, v);
            return num ? v * e : e;
         });
      };
      double n = energy(N, b), d = energy(D, b);
      same(g, n, at(true), "aggregate numerator", str("rho ", fmt(rho), " max ", fmt(tm)));
      same(g, d, at(false), "aggregate denominator", str("rho ", fmt(rho), " max ", fmt(tm)));
      g.check(n / d >= lo - 1e-9 && n / d <= hi + 1e-9, "aggregate outside the range of the field", str(fmt(n / d), " not in ", fmt(lo), " .. ", fmt(hi)));
      if (flat) { g.close(n / d, c, 1e-10, "aggregate of a constant"); }
      // a larger rho is closer to the maximum
      nlohmann::json o;
      o["rho"] = rho * 2;
      setOptions(N, o);
      setOptions(D, o);
      double q = energy(N, b) / energy(D, b);
      g.check(q >= n / d - 1e-9 && q <= hi + 1e-9, "aggregate does not grow with rho", str(fmt(n / d), " -> ", fmt(q), ", max ", fmt(hi)));
   }
   else if (part == 1) { state_check(g, N, b, "aggregate numerator gradient"); }
   else if (part == 2) { state_check(g, D, b, "aggregate denominator gradient"); }
   else if (part == 3) { node_check<IEAggregateIntegratorNumeratorMeshSens>(g, N, b, "aggregate numerator mesh sensitivity"); }
   else { node_check<IEAggregateIntegratorDenominatorMeshSens>(g, D, b, "aggregate denominator mesh sensitivity"); }
}
void curl_aggregate(Gen &g)
{
   Base b(g, 2);
   bool zero;
   pick_curl(g, b, 1.0, zero);
   g.label(zero ? "no curl" : "curl");
   g.nontrivial(!zero);
   double rho = g.real(0.1, 2), top = g.flip() ? 1.0 : g.real(0.8, 4);
   IECurlMagnitudeAggregateIntegratorNumerator N(rho, top);
   IECurlMagnitudeAggregateIntegratorDenominator D(rho, top);
   rho_history(g, N, D, rho);
   Rule r(g);
   r.set(N, b.geom());
   r.set(D, b.geom());
   int part = zero ? g.pick({0, 5}) : g.irange(0, 4);
   if (part == 0)
   {
      if (!r.given() && !zero && (b.m.dim == 3 || b.p > 1 || !b.m.simplex || !b.m.affine)) { return g.discard(); }
      auto at = [&](bool num) {
         return quad(*b.m.mesh, r.given() ? r.order : 2, [&](ElementTransformation &T, const IntegrationPoint &) {
            double v = curl_size(b, T), e = std::exp(rho * v / top);
            return num ? v * e : e;
         });
      };
      same(g, energy(N, b), at(true), "curl aggregate numerator", str("rule ", r.order), 1e-9);
      if (r.given() || b.m.affine) { same(g, energy(D, b), at(false), "curl aggregate denominator", str("rule ", r.order), 1e-9); }
   }
   else if (part == 1) { state_check(g, N, b, "curl aggregate numerator gradient", 0.005); }
   else if (part == 2) { state_check(g, D, b, "curl aggregate denominator gradient", 0.005); }
   else if (part == 3) { node_check<IECurlMagnitudeAggregateIntegratorNumeratorMeshSens>(g, N, b, "curl aggregate numerator mesh sensitivity", &r); }
   else if (part == 4) { node_check<IECurlMagnitudeAggregateIntegratorDenominatorMeshSens>(g, D, b, "curl aggregate denominator mesh sensitivity", &r); }
   else
   {
      Vector a = dom_residual(N, b.fes(), b.u), c = dom_residual(D, b.fes(), b.u);
      g.check(finite(a) && finite(c), "curl aggregate gradient not finite", "where the curl vanishes");
      IECurlMagnitudeAggregateIntegratorNumeratorMeshSens SN(b.u, N);
      IECurlMagnitudeAggregateIntegratorDenominatorMeshSens SD(b.u, D);
      a = dom_linear(SN, b.m.fes());
      c = dom_linear(SD, b.m.fes());
      g.check(finite(a) && finite(c), "curl aggregate mesh sensitivity not finite", "where the curl vanishes");
      g.check(a.Normlinf() < 1e-12, "curl aggregate numerator mesh sensitivity", "of a field without curl");
   }
}
struct Pole : public VectorStateCoefficient
{
   double ang[8], mag, k;
   Pole(Gen &g) : VectorStateCoefficient(2)
   {
      for (double &a : ang) { a = g.real(0, 6.28); }
      mag = g.real(0.3, 2);
      k = g.real(0, 0.5);
   }
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override { Eval(V, T, ip, 0.0); }
   using VectorStateCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      V.SetSize(2);
      double a = ang[T.Attribute % 8] + 0.001 * k * s;
      V(0) = mag * std::cos(a);
      V(1) = mag * std::sin(a);
   }
   void EvalStateDeriv(Vector &, ElementTransformation &, const IntegrationPoint &, double) override { }
   void EvalRevDiff(const Vector &, ElementTransformation &, const IntegrationPoint &, DenseMatrix &) override { }
   void EvalRevDiff(const Vector &, ElementTransformation &, const IntegrationPoint &, double, DenseMatrix &) override { }
};
struct Knee : public StateCoefficient
{
   double a[8], k;
   explicit Knee(Gen &g)
   {
      for (double &v : a) { v = g.real(-0.5, 0.5); }
      k = g.real(0, 1e-3);
   }
   using StateCoefficient::Eval;
   double Eval(ElementTransformation &T, const IntegrationPoint &, double s) override { return a[T.Attribute % 8] + k * s; }
   double EvalStateDeriv(ElementTransformation &, const IntegrationPoint &, double) override { return k; }
   double EvalState2ndDeriv(ElementTransformation &, const IntegrationPoint &, const double) override { return 0; }
   void EvalRevDiff(double, ElementTransformation &, const IntegrationPoint &, double, DenseMatrix &) override { }
};
/// proximity to demagnetization: knee flux minus flux along the magnetization
void demag_aggregate(Gen &g)
{
   FemMesh m = fem_mesh(g, 2);
   int p = g.irange(1, 2);
   Space s = Space::h1(*m.mesh, p), ts = Space::h1(*m.mesh, g.irange(1, 2));
   Space bs(*m.mesh, g.flip() ? (FiniteElementCollection *)new L2_FECollection(g.irange(0, 2), 2) : new H1_FECollection(g.irange(1, 2), 2), 2, g.flip() ? Ordering::byNODES : Ordering::byVDIM);
   GridFunction u = s.field(g), T = ts.field(g, 60), B = bs.field(g, 1);
   T += 350;
   Knee knee(g);
   Pole pole(g);
   bool hot = g.chance(3, 4);
   double rho = g.real(0.1, 3), tm = 1.0;
   IEAggregateDemagIntegratorNumerator N(rho, knee, pole, hot ? &T : nullptr, &B);
   IEAggregateDemagIntegratorDenominator D(rho, knee, pole, hot ? &T : nullptr, &B);
   rho_history(g, N, D, rho);
   max_history(g, N, D, tm);
   g.nontrivial();
   g.label(hot ? "temperature field" : "default temperature");
   auto at = [&](bool num) {
      return quad(*m.mesh, 2 * p, [&](ElementTransformation &E, const IntegrationPoint &ip) {
         double t = hot ? T.GetValue(E, ip) : 373.15;
         Vector M(2), b(2);
         pole.Eval(M, E, ip, t);
         B.GetVectorValue(E, ip, b);
         double v = knee.Eval(E, ip, t) - (b(0) * M(0) + b(1) * M(1)) / std::hypot(M(0), M(1));
         double e = std::exp(rho * (v - tm));
         return num ? v * e : e;
      });
   };
   same(g, dom_energy(N, *s.fes, u), at(true), "demagnetization aggregate numerator", str("rho ", fmt(rho), " max ", fmt(tm)));
   same(g, dom_energy(D, *s.fes, u), at(false), "demagnetization aggregate denominator", str("rho ", fmt(rho), " max ", fmt(tm)));
}

// ------------------------------------------------------------- boundary flux
void boundary_flux(Gen &g)
{
   Base b(g, g.irange(0, 1));
   Spread kappa(g, g.flip());
   BoundaryNormalIntegrator I(kappa);
   Mesh &m = *b.m.mesh;
   Marker mk;
   if (g.flip())
      for (int i = 0; i < m.bdr_attributes.Max(); ++i) { mk.push_back(g.flip()); }
   g.nontrivial();
   auto bg = m.GetBdrElementGeometry(0);
   int order = g.chance(1, 2) ? -1 : g.irange(0, 6);
   if (order >= 0) { I.SetIntRule(&IntRules.Get(bg, order)); }
   int part = g.irange(0, 2);
   auto flux = [&](int o) {
      double f = 0;
      for (int i = 0; i < m.GetNBE(); ++i)
      {
         auto *T = m.GetBdrFaceTransformations(i);
         if (!T || !on(mk, m.GetBdrAttribute(i))) { continue; }
         auto &ir = IntRules.Get(bg, o);
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            T->SetAllIntPoints(&ir.IntPoint(q));
            Vector n(b.m.dim), gr;
            CalcOrtho(T->Jacobian(), n);
            b.u.GetGradient(*T->Elem1, gr);
            double k = kappa.Eval(*T->Elem1, T->GetElement1IntPoint());
            f -= ir.IntPoint(q).weight * k * (gr * n);
         }
      }
      return f;
   };
   if (part == 0)
   {
      if (order < 0)
      {
         // constant conductivity per element, affine simplices: integrand of degree p-1
         for (double &c : kappa.c) { c = 0; }
         if (!b.m.affine || !b.m.simplex) { return g.discard(); }
      }
      same(g, bdr_energy(I, b.fes(), b.u, mk), flux(order < 0 ? 8 : order), "boundary flux", str("rule ", order));
   }
   else if (part == 1)
   {
      Vector u0 = b.u, grad = bdr_residual(I, b.fes(), u0, mk);
      grad_check(g, [&](const Vector &x) { return bdr_energy(I, b.fes(), x, mk); }, u0, random_dir(g, u0.Size()), grad, 0.02, "boundary flux gradient");
   }
   else
   {
      // uniform conductivity, linear field: a uniform flux leaves nothing behind
      if (!b.m.affine || b.fes().GetFE(0)->GetOrder() < 1) { return g.discard(); }
      for (double &c : kappa.c) { c = 0; }
      for (double &a : kappa.a) { a = kappa.a[0]; }
      double s[3] = {g.sym(2), g.sym(2), g.sym(2)};
      FunctionCoefficient f([&](const Vector &x) {
         double v = 1;
         for (int d = 0; d < x.Size(); ++d) { v += s[d] * x(d); }
         return v;
      });
      b.u.ProjectCoefficient(f);
      g.close(bdr_energy(I, b.fes(), b.u), 0, 1e-10, "uniform flux does not balance", str("rule ", order));
   }
}

// ------------------------------------- sensitivities of the standard forms
/// psi^T A u for a bilinear form integrator
double product(BilinearFormIntegrator &I, FiniteElementSpace &a, const GridFunction &u, FiniteElementSpace &t, const GridFunction &psi)
{
   Vector ue, pe, r;
   Array<int> d;
   DofTransformation *tr;
   DenseMatrix A;
   double s = 0;
   for (int e = 0; e < a.GetNE(); ++e)
   {
      local(a, e, u, ue, d, tr);
      local(t, e, psi, pe, d, tr);
      auto &T = *a.GetElementTransformation(e);
      if (&a == &t) { I.AssembleElementMatrix(*a.GetFE(e), T, A); }
      else { I.AssembleElementMatrix2(*a.GetFE(e), *t.GetFE(e), T, A); }
      r.SetSize(A.Height());
      A.Mult(ue, r);
      s += r * pe;
   }
   return s;
}
void bilinear(Gen &g)
{
   int dim = g.chance(1, 2) ? 2 : 3;
   FemMesh m = fem_mesh(g, dim);
   int p = g.irange(1, 2), kind = g.irange(0, 2);
   Space h1 = Space::h1(*m.mesh, p), nd = Space::nd(*m.mesh, p), l2 = Space::l2(*m.mesh, p);
   Rule r(g);
   auto geom = m.mesh->GetElementGeometry(0);
   g.nontrivial();
   if (kind == 0)
   {
      Space &s = g.flip() ? h1 : l2;
      GridFunction u = s.field(g), psi = s.field(g);
      mfem::DiffusionIntegrator I;
      DiffusionIntegratorMeshSens S;
      r.set(I, geom);
      r.set(S, geom);
      S.setState(u);
      S.setAdjoint(psi);
      g.label("diffusion");
      mesh_check(g, m, [&] { return product(I, *s.fes, u, *s.fes, psi); }, dom_linear(S, m.fes()), "diffusion mesh sensitivity");
   }
   else if (kind == 1)
   {
      GridFunction u = nd.field(g), psi = h1.field(g);
      VectorFEWeakDivergenceIntegrator I;
      VectorFEWeakDivergenceIntegratorMeshSens S;
      r.set(I, geom);
      r.set(S, geom);
      S.setState(u);
      S.setAdjoint(psi);
      g.label("weak divergence");
      mesh_check(g, m, [&] { return product(I, *nd.fes, u, *h1.fes, psi); }, dom_linear(S, m.fes()), "weak divergence mesh sensitivity");
   }
   else
   {
      GridFunction u = nd.field(g), psi = nd.field(g);
      double alpha = g.flip() ? 1.0 : g.pick({-1.0, 0.5, 2.5});
      VectorFEMassIntegrator I;
      VectorFEMassIntegratorMeshSens S(alpha);
      r.set(I, geom);
      r.set(S, geom);
      S.setState(u);
      S.setAdjoint(psi);
      g.label(alpha == 1 ? "mass" : "scaled mass");
      mesh_check(g, m, [&] { return alpha * product(I, *nd.fes, u, *nd.fes, psi); }, dom_linear(S, m.fes()), str("vector mass mesh sensitivity", alpha == 1 ? "" : " with a factor"));
   }
}
void linear(Gen &g)
{
   int dim = g.chance(1, 2) ? 2 : 3;
   FemMesh m = fem_mesh(g, dim);
   int p = g.irange(1, dim == 2 ? 3 : 2), kind = g.irange(0, dim == 3 ? 2 : 1);
   bool space = g.flip();
   double alpha = g.flip() ? 1.0 : g.pick({-1.0, 0.5, 2.5});
   g.nontrivial();
   if (kind == 0)
   {
      Space s = Space::h1(*m.mesh, p);
      GridFunction psi = s.field(g);
      Spread f(g, space);
      miso::DomainLFIntegrator I(f, alpha);
      g.label("source");
      auto value = [&] { return dom_linear(I, *s.fes) * psi; };
      if (g.chance(1, 3))
      {
         Rule r(g, false);
         r.set(I, m.mesh->GetElementGeometry(0));
         double want = alpha * quad(*m.mesh, r.order, [&](ElementTransformation &T, const IntegrationPoint &ip) { return f.Eval(T, ip) * psi.GetValue(T, ip); });
         same(g, value(), want, "source", str("rule ", r.order, " factor ", alpha));
         return;
      }
      DomainLFIntegratorMeshRevSens S(psi, I);
      Rule r(g);
      r.set(I, m.mesh->GetElementGeometry(0));
      r.set(S, m.mesh->GetElementGeometry(0));
      g.label(r.given() ? "given rule" : "own rule");
      mesh_check(g, m, value, dom_linear(S, m.fes()), "source mesh sensitivity");
   }
   else if (kind == 1)
   {
      Space s = Space::nd(*m.mesh, p);
      GridFunction psi = s.field(g);
      Stream f(g, dim, space);
      mfem::VectorFEDomainLFIntegrator I(f);
      VectorFEDomainLFIntegratorMeshSens S(f, alpha);
      S.setAdjoint(psi);
      Rule r(g);
      r.set(I, m.mesh->GetElementGeometry(0));
      r.set(S, m.mesh->GetElementGeometry(0));
      g.label("vector source");
      mesh_check(g, m, [&] { return alpha * (dom_linear(I, *s.fes) * psi); }, dom_linear(S, m.fes()), "vector source mesh sensitivity");
   }
   else
   {
      Space s = Space::nd(*m.mesh, p);
      GridFunction psi = s.field(g);
      Stream f(g, dim, space);
      miso::VectorFEDomainLFCurlIntegrator I(f, alpha);
      g.label("curl source");
      auto value = [&] { return dom_linear(I, *s.fes) * psi; };
      Rule r(g);
      r.set(I, m.mesh->GetElementGeometry(0));
      if (g.chance(1, 3) && r.given())
      {
         double want = alpha * quad(*m.mesh, r.order, [&](ElementTransformation &T, const IntegrationPoint &ip) {
            Vector c, v;
            psi.GetCurl(T, c);
            f.Eval(v, T, ip);
            return c * v;
         });
         same(g, value(), want, "curl source", str("rule ", r.order, " factor ", alpha));
         return;
      }
      VectorFEDomainLFCurlIntegratorMeshSens S(I);
      S.setAdjoint(psi);
      r.set(S, m.mesh->GetElementGeometry(0));
      mesh_check(g, m, value, dom_linear(S, m.fes()), "curl source mesh sensitivity");
   }
}
/// mesh derivative of psi^T R for residuals put together from source, mass,
/// diffusion and boundary flux terms
template <typename Source, typename Mass, typename Diffusion, typename Flux>
void residual_terms_of(Gen &g)
{
   int dim = g.chance(1, 2) ? 2 : 3;
   FemMesh m = fem_mesh(g, dim);
   int p = g.irange(1, dim == 2 ? 3 : 2), kind = g.irange(0, 3);
   Space s = kind < 2 && g.chance(1, 3) ? Space::l2(*m.mesh, g.irange(0, p)) : Space::h1(*m.mesh, p);
   GridFunction u = s.field(g), psi = s.field(g);
   auto geom = m.mesh->GetElementGeometry(0);
   g.nontrivial();
   // rule given to the constructor, to the integrator, or the own one
   Rule r(g);
   const IntegrationRule *ir = r.given() ? &IntRules.Get(geom, r.order) : nullptr;
   bool built = g.flip();
   auto own = [&](int e) { return 2 * s.fes->GetFE(e)->GetOrder() + m.mesh->GetElementTransformation(e)->OrderW(); };
   auto sum = [&](auto order, auto f) {
      double v = 0;
      for (int e = 0; e < m.mesh->GetNE(); ++e)
      {
         auto &T = *m.mesh->GetElementTransformation(e);
         each_point(T, r.given() ? *ir : IntRules.Get(geom, order(e)), [&](const IntegrationPoint &ip, double w) { v += w * f(T, ip); });
      }
      return v;
   };
   g.label(r.given() ? built ? "rule built in" : "rule set" : "own rule");
   if (kind == 0)
   {
      g.label("source term");
      Spread f(g, g.flip());
      int a = g.irange(1, 2), b = g.irange(0, 2);
      bool deflt = g.flip();
      if (deflt) { a = 2, b = 0; }
      std::unique_ptr<Source> I(r.given() && built ? new Source(f, &psi, ir) : deflt ? new Source(f, &psi) : new Source(f, &psi, a, b));
      if (!built) { r.set(*I, geom); }
      mesh_check(g, m, [&] { return sum([&](int e) { return a * s.fes->GetFE(e)->GetOrder() + b; }, [&](ElementTransformation &T, const IntegrationPoint &ip) { return f.Eval(T, ip) * psi.GetValue(T, ip); }); },
                 dom_residual(*I, m.fes(), m.nodes()), "source term mesh derivative");
   }
   else if (kind == 1)
   {
      g.label("mass term");
      Spread f(g, false);
      bool unit = g.chance(1, 3);
      const IntegrationRule *given = built ? ir : nullptr;
      std::unique_ptr<Mass> I(unit ? new Mass(&u, &psi, given) : new Mass(f, &u, &psi, given));
      if (!built) { r.set(*I, geom); }
      mesh_check(g, m, [&] { return sum(own, [&](ElementTransformation &T, const IntegrationPoint &ip) { return (unit ? 1.0 : f.Eval(T, ip)) * u.GetValue(T, ip) * psi.GetValue(T, ip); }); },
                 dom_residual(*I, m.fes(), m.nodes()), "mass term mesh derivative");
   }
   else if (kind == 2)
   {
      g.label("diffusion term");
      Spread f(g, false);
      Diffusion I(f, &u, &psi, built ? ir : nullptr);
      if (!built)
      {
         r.set(static_cast<NonlinearFormIntegrator &>(I), geom);
         r.set(static_cast<LinearFormIntegrator &>(I), geom);
      }
      bool nonlinear = g.flip();
      mesh_check(g, m, [&] {
         return sum(own, [&](ElementTransformation &T, const IntegrationPoint &ip) {
            Vector gu, gp;
            u.GetGradient(T, gu);
            psi.GetGradient(T, gp);
            return f.Eval(T, ip) * (gu * gp);
         });
      }, nonlinear ? dom_residual(I, m.fes(), m.nodes()) : dom_linear(I, m.fes()), str("diffusion term mesh derivative", nonlinear ? "" : " as a linear form"));
   }
   else
   {
      g.label("boundary flux term");
      Stream f(g, dim, false);
      Marker mk;
      int na = m.mesh->bdr_attributes.Size() ? m.mesh->bdr_attributes.Max() : 0;
      if (g.flip())
         for (int i = 0; i < na; ++i) { mk.push_back(g.flip()); }
      int a = g.irange(1, 2), b = g.irange(0, 2);
      bool deflt = g.flip();
      if (deflt) { a = 2, b = 0; }
      std::unique_ptr<Flux> I(deflt ? new Flux(f, &u, &psi) : new Flux(f, &u, &psi, a, b));
      int order = a * p + b;
      Geometry::Type face = dim == 2 ? Geometry::SEGMENT : m.simplex ? Geometry::TRIANGLE : Geometry::SQUARE;
      if (r.given())
      {
         order = r.order;
         I->SetIntRule(&IntRules.Get(face, order));
      }
      mesh_check(g, m, [&] {
         double v = 0;
         Vector n(dim), q;
         for (int e = 0; e < m.mesh->GetNBE(); ++e)
         {
            auto *T = m.mesh->GetBdrFaceTransformations(e);
            if (!T || !on(mk, m.mesh->GetBdrAttribute(e))) { continue; }
            const IntegrationRule &fr = IntRules.Get(face, order);
            for (int i = 0; i < fr.GetNPoints(); ++i)
            {
               T->SetAllIntPoints(&fr.IntPoint(i));
               CalcOrtho(T->Jacobian(), n);
               f.Eval(q, *T, fr.IntPoint(i));
               v += fr.IntPoint(i).weight * (q * n) * psi.GetValue(*T->Elem1, T->GetElement1IntPoint());
            }
         }
         return v;
      }, bdr_linear(*I, m.fes(), mk), "boundary flux term mesh derivative");
   }
}
// those integrators are marked as to be removed: do without them if they are
template <typename T, typename = void>
struct complete : std::false_type { };
template <typename T>
struct complete<T, std::void_t<decltype(sizeof(T))>> : std::true_type { };
template <typename... T>
void residual_terms_if(Gen &g)
{
   if constexpr ((complete<T>::value && ...)) { residual_terms_of<T...>(g); }
   else { g.nontrivial(); }
}
void residual_terms(Gen &g) { residual_terms_if<DomainResIntegrator, MassResIntegrator, DiffusionResIntegrator, BoundaryNormalResIntegrator>(g); }
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"volume", volume, 250, 50000},
       {"state-integral", state_integral, 250, 50000},
       {"curl-magnitude", curl_magnitude, 300, 50000},
       {"aggregate", aggregate, 300, 50000},
       {"curl-aggregate", curl_aggregate, 300, 50000},
       {"demagnetization-aggregate", demag_aggregate, 150, 30000},
       {"boundary-flux", boundary_flux, 300, 50000},
       {"bilinear-forms", bilinear, 250, 50000},
       {"linear-forms", linear, 300, 50000},
       {"residual-terms", residual_terms, 300, 50000},
   };
   Runner r("P19", props, "the field has a curl (curl integrals); every other case counts, as fields, coefficients and meshes are random");
   r.assumptions = {
       "the MFEM additions MISO needs are stand-ins (shim/odl.hpp)",
       "derivatives are compared with extrapolated central differences (relative tolerance 1e-6)",
   };
   return r.main(argc, argv);
}
