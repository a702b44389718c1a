// P22: integrators of the thermal residual: projection, interface resistance,
// internal convection, convection and outflux walls
#include "femgen.hpp"
#include "thermal_integ.hpp"

using namespace femgen;
using namespace miso;

namespace
{
struct Case
{
   FemMesh m;
   std::unique_ptr<Space> sp;
   int p;
   FiniteElementSpace &fes() { return *sp->fes; }
};
Case scalar_case(Gen &g, bool l2)
{
   Case c;
   int dim = g.chance(2, 3) ? 2 : 3;
   c.m = fem_mesh(g, dim);
   c.p = g.irange(l2 ? 0 : 1, dim == 2 ? 3 : 2);
   c.sp.reset(new Space(l2 ? Space::l2(*c.m.mesh, c.p) : Space::h1(*c.m.mesh, c.p)));
   g.label(str(l2 ? "L2 p" : "H1 p", c.p));
   return c;
}
const IntegrationRule &high(Geometry::Type t) { return IntRules.Get(t, 12); }
Geometry::Type face_type(Case &c) { return c.m.mesh->GetBdrElementBaseGeometry(0); }

// --------------------------------------------------------------- projection
void projection(Gen &g)
{
   Case c = scalar_case(g, g.flip());
   int part = g.irange(0, 3);
   bool constant = part == 0 && g.flip();
   Spread target(g, !constant);
   double alpha = g.flip() ? 1.0 : g.sym(2);
   L2ProjectionIntegrator I(target, alpha);
   GridFunction u = c.sp->field(g), psi = c.sp->field(g);
   Rule r(g);
   auto t = c.m.mesh->GetElementBaseGeometry(0);
   r.set(I, t);
   auto &fes = c.fes();
   g.nontrivial();
   if (part == 0)
   {
      if (!r.given() && !(c.m.affine && constant)) { return g.discard(); }
      double mag = 0;
      double want = alpha * quad(*c.m.mesh, r.given() ? r.order : 12, [&](ElementTransformation &T, const IntegrationPoint &ip) {
         double v = (u.GetValue(T, ip) - target.Eval(T, ip)) * psi.GetValue(T, ip);
         mag += std::fabs(v);
         return v;
      });
      g.close(dom_residual(I, fes, u) * psi, want, 1e-11 * (1 + mag), "projection value", str("rule ", r.order));
   }
   else if (part == 1)
   {
      Vector v = random_dir(g, u.Size());
      dir_check(g, [&](const Vector &x) { return dom_residual(I, fes, x); }, u, v, dom_jacobian(I, fes, u, v), 0.02, "projection jacobian");
   }
   else if (part == 2)
   {
      L2ProjectionIntegratorMeshRevSens S(u, psi, I);
      r.set(S, t);
      Vector grad = dom_linear(S, c.m.fes());
      mesh_check(g, c.m, [&] { return dom_residual(I, fes, u) * psi; }, grad, "projection mesh sensitivity");
   }
   else
   {
      // the residual vanishes where the field is the target
      if (c.p < 1 || !c.m.affine) { return g.discard(); }
      GridFunction x(&fes);
      struct Linear : public mfem::Coefficient
      {
         double a, c[3];
         double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
         {
            double b[3] = {0, 0, 0}, s = a;
            Vector x(b, 3);
            T.Transform(ip, x);
            for (int d = 0; d < x.Size(); ++d) { s += c[d] * x(d); }
            return s;
         }
      } lin;
      lin.a = g.sym(2);
      for (double &v : lin.c) { v = g.sym(1); }
      L2ProjectionIntegrator L(lin, alpha);
      x.ProjectCoefficient(lin);
      g.close(dom_residual(L, fes, x).Normlinf(), 0.0, 1e-11, "projection of the target");
   }
}

// ------------------------------------------------------------ boundary terms
/// coefficients an integrator has now; the inputs set so far
struct Wall
{
   double h, theta, flux, alpha;
};
template <typename I, typename MeshSens, typename Flux>
void wall(Gen &g, I &integ, double alpha, Flux flux, const std::string &key, Case &c, const std::function<void()> &change,
          const std::function<void(GridFunction &, GridFunction &, const Marker &, const Rule &)> &scalars)
{
   GridFunction u = c.sp->field(g), psi = c.sp->field(g);
   Marker mk(c.m.mesh->bdr_attributes.Max());
   for (size_t i = 0; i < mk.size(); ++i) { mk[i] = i == 0 || g.flip(); }
   auto &fes = c.fes();
   Rule r(g);
   r.set(integ, face_type(c));
   for (int k = g.irange(0, 3); k > 0; --k) { change(); }
   g.nontrivial();
   int part = g.irange(0, 3);
   if (part == 0)
   {
      if (!r.given() && !c.m.affine) { return g.discard(); }
      g.label(r.given() ? "given rule" : "own rule");
      double got = bdr_residual(integ, fes, u, mk) * psi, want = 0, mag = 0;
      for (int b = 0; b < c.m.mesh->GetNBE(); ++b)
      {
         if (!on(mk, c.m.mesh->GetBdrAttribute(b))) { continue; }
         auto &T = *c.m.mesh->GetBdrFaceTransformations(b);
         auto t = T.GetGeometryType();
         const IntegrationRule &ir = r.given() ? IntRules.Get(t, r.order) : high(t);
         for (int k = 0; k < ir.GetNPoints(); ++k)
         {
            T.SetAllIntPoints(&ir.IntPoint(k));
            Vector nor(c.m.dim);
            CalcOrtho(T.Jacobian(), nor);
            double v = alpha * ir.IntPoint(k).weight * nor.Norml2() * flux(u.GetValue(*T.Elem1, T.GetElement1IntPoint())) *
                       psi.GetValue(*T.Elem1, T.GetElement1IntPoint());
            want += v;
            mag += std::fabs(v);
         }
      }
      g.close(got, want, 1e-10 * (1 + mag), key + " value", str("rule ", r.order));
   }
   else if (part == 1)
   {
      Vector v = random_dir(g, u.Size());
      Vector jv = bdr_jacobian(integ, fes, u, v, mk);
      dir_check(g, [&](const Vector &x) { return bdr_residual(integ, fes, x, mk); }, u, v, jv, 0.02, key + " jacobian");
   }
   else if (part == 2)
   {
      MeshSens S(u, psi, integ);
      r.set(S, face_type(c));
      Vector grad = be_linear(S, c.m.fes(), mk);
      mesh_check(g, c.m, [&] { return bdr_residual(integ, fes, u, mk) * psi; }, grad, key + " mesh sensitivity");
   }
   else { scalars(u, psi, mk, r); }
}
/// change of an integrator's value as one named input changes
template <typename I, typename F>
void scalar_check(Gen &g, I &integ, const std::string &name, double at, F value, double claimed, const std::string &key)
{
   fd_check(g, [&](const Vector &x, Vector &y) {
      setInputs(integ, MISOInputs{{name, x(0)}});
      y = one(value());
   }, one(at), one(1.0), one(claimed), 0.1, key, "", 1e-6, 1e-12);
}
/// sets some of the named numbers; the others keep their value
template <typename I>
void some_inputs(Gen &g, I &integ, std::map<std::string, double *> named)
{
   MISOInputs in;
   for (auto &kv : named)
      if (g.flip())
      {
         *kv.second = g.sym(3);
         in.emplace(kv.first, *kv.second);
      }
   if (g.flip()) { in.emplace("unrelated", 7.0); }
   setInputs(integ, in);
}
void convection(Gen &g)
{
   Case c = scalar_case(g, g.flip());
   double alpha = g.flip() ? 1.0 : g.sym(2), h = g.real(0.1, 3), theta = g.sym(3);
   std::unique_ptr<ConvectionBCIntegrator> I;
   if (g.chance(1, 4))
   {
      I.reset(new ConvectionBCIntegrator(alpha));
      setInputs(*I, {{"h", h}, {"fluid_temp", theta}});
   }
   else { I.reset(new ConvectionBCIntegrator(h, theta, alpha)); }
   wall<ConvectionBCIntegrator, ConvectionBCIntegratorMeshRevSens>(
       g, *I, alpha, [&](double u) { return h * (u - theta); }, "convection", c, [&] { some_inputs(g, *I, {{"h", &h}, {"fluid_temp", &theta}}); },
       [&](GridFunction &u, GridFunction &psi, const Marker &mk, const Rule &r) {
          auto value = [&] { return bdr_residual(*I, c.fes(), u, mk) * psi; };
          if (g.flip())
          {
             ConvectionBCIntegratorHRevSens S(psi, *I);
             r.set(S, face_type(c));
             scalar_check(g, *I, "h", h, value, bdr_energy(S, c.fes(), u, mk), "convection h sensitivity");
          }
          else
          {
             ConvectionBCIntegratorFluidTempRevSens S(psi, *I);
             r.set(S, face_type(c));
             scalar_check(g, *I, "fluid_temp", theta, value, bdr_energy(S, c.fes(), u, mk), "convection fluid temperature sensitivity");
          }
       });
}
void outflux(Gen &g)
{
   Case c = scalar_case(g, g.flip());
   double alpha = g.flip() ? 1.0 : g.sym(2), q = g.sym(3);
   OutfluxBCIntegrator I(q, alpha);
   wall<OutfluxBCIntegrator, OutfluxBCIntegratorMeshRevSens>(
       g, I, alpha, [&](double) { return q; }, "outflux", c, [&] { some_inputs(g, I, {{"outflux", &q}}); },
       [&](GridFunction &u, GridFunction &psi, const Marker &mk, const Rule &) {
          // the total over the wall is the flux times its area
          GridFunction ones(psi);
          ones = 1.0;
          double area = 0;
          for (int b = 0; b < c.m.mesh->GetNBE(); ++b)
          {
             if (!on(mk, c.m.mesh->GetBdrAttribute(b))) { continue; }
             auto &T = *c.m.mesh->GetBdrElementTransformation(b);
             each_point(T, high(T.GetGeometryType()), [&](const IntegrationPoint &, double w) { area += w; });
          }
          if (!c.m.affine) { return g.discard(); }
          OutfluxBCIntegrator J(q, alpha);
          g.close(bdr_residual(J, c.fes(), u, mk) * ones, alpha * q * area, 1e-10 * (1 + area), "outflux total");
       });
}
void test_wall(Gen &g)
{
   Case c = scalar_case(g, g.flip());
   TestBCIntegrator I;
   GridFunction u = c.sp->field(g), psi = c.sp->field(g);
   Marker mk(c.m.mesh->bdr_attributes.Max());
   for (size_t i = 0; i < mk.size(); ++i) { mk[i] = i == 0 || g.flip(); }
   g.nontrivial();
   TestBCIntegratorMeshRevSens S(u, psi, I);
   Vector grad = be_linear(S, c.m.fes(), mk);
   mesh_check(g, c.m, [&] { return bdr_residual(I, c.fes(), u, mk) * psi; }, grad, "test wall mesh sensitivity");
}

// ----------------------------------------------------------- interface terms
double int_energy(NonlinearFormIntegrator &I, FiniteElementSpace &fes, const Vector &u)
{
   Vector ue;
   Array<int> d;
   double s = 0;
   each_interior(*fes.GetMesh(), [&](FaceElementTransformations &T) {
      face_dofs(fes, T, d);
      u.GetSubVector(d, ue);
      s += I.GetFaceEnergy(*fes.GetFE(T.Elem1No), *fes.GetFE(T.Elem2No), T, ue);
   });
   return s;
}
/// pair(u1, u2, v1, v2): integrand of the form
template <typename I, typename MeshSens, typename Pair>
void interface(Gen &g, I &integ, double alpha, Pair pair, const std::string &key, Case &c, const std::function<void()> &change,
               const std::function<void(GridFunction &, GridFunction &, const Rule &)> &scalars)
{
   GridFunction u = c.sp->field(g), psi = c.sp->field(g);
   auto &fes = c.fes();
   int n = 0;
   each_interior(*c.m.mesh, [&](FaceElementTransformations &) { ++n; });
   g.nontrivial(n > 0);
   Rule r(g);
   r.set(integ, face_type(c));
   for (int k = g.irange(0, 3); k > 0; --k) { change(); }
   int part = g.irange(0, 4);
   if (part == 0)
   {
      if (!r.given() && !c.m.affine) { return g.discard(); }
      g.label(r.given() ? "given rule" : "own rule");
      double got = int_residual(integ, fes, u) * psi, want = 0, mag = 0;
      each_interior(*c.m.mesh, [&](FaceElementTransformations &T) {
         auto t = T.GetGeometryType();
         const IntegrationRule &ir = r.given() ? IntRules.Get(t, r.order) : high(t);
         for (int k = 0; k < ir.GetNPoints(); ++k)
         {
            T.SetAllIntPoints(&ir.IntPoint(k));
            Vector nor(c.m.dim);
            CalcOrtho(T.Jacobian(), nor);
            double u1 = u.GetValue(*T.Elem1, T.GetElement1IntPoint()), u2 = u.GetValue(*T.Elem2, T.GetElement2IntPoint());
            double v1 = psi.GetValue(*T.Elem1, T.GetElement1IntPoint()), v2 = psi.GetValue(*T.Elem2, T.GetElement2IntPoint());
            double v = alpha * ir.IntPoint(k).weight * nor.Norml2() * pair(u1, u2, v1, v2);
            want += v;
            mag += std::fabs(v);
         }
      });
      g.close(got, want, 1e-10 * (1 + mag), key + " value", str("rule ", r.order));
   }
   else if (part == 1)
   {
      Vector v = random_dir(g, u.Size());
      Vector jv = int_jacobian(integ, fes, u, v);
      dir_check(g, [&](const Vector &x) { return int_residual(integ, fes, x); }, u, v, jv, 0.02, key + " jacobian");
   }
   else if (part == 2)
   {
      MeshSens S(c.m.fes(), u, psi, integ);
      r.set(S, face_type(c));
      Vector grad = int_linear(S, c.m.fes());
      mesh_check(g, c.m, [&] { return int_residual(integ, fes, u) * psi; }, grad, key + " mesh sensitivity");
   }
   else { scalars(u, psi, r); }
}
void contact(Gen &g)
{
   Case c = scalar_case(g, g.chance(3, 4));
   double alpha = g.flip() ? 1.0 : g.sym(2), h = g.real(0.1, 3);
   std::string name = g.flip() ? "" : g.flip() ? "gap" : "liner", key = name.empty() ? "h" : "h:" + name;
   ThermalContactResistanceIntegrator I(h, name, alpha);
   g.check(I.getName() == name, "contact name", I.getName());
   auto change = [&] {
      some_inputs(g, I, {{key, &h}});
      if (g.flip()) { setInputs(I, MISOInputs{{name.empty() ? "h:gap" : "h", 99.0}, {"h:other", 98.0}}); }
   };
   interface<ThermalContactResistanceIntegrator, ThermalContactResistanceIntegratorMeshRevSens>(
       g, I, alpha, [&](double u1, double u2, double v1, double v2) { return h * (u1 - u2) * (v1 - v2); }, "contact resistance", c, change,
       [&](GridFunction &u, GridFunction &psi, const Rule &r) {
          ThermalContactResistanceIntegratorHRevSens S(u, psi, I);
          r.set(S, face_type(c));
          scalar_check(g, I, key, h, [&] { return int_residual(I, c.fes(), u) * psi; }, int_energy(S, c.fes(), u), "contact resistance h sensitivity");
       });
}
void internal_convection(Gen &g)
{
   Case c = scalar_case(g, g.chance(3, 4));
   double alpha = g.flip() ? 1.0 : g.sym(2), h = g.real(0.1, 3), theta = g.sym(3);
   std::string name = g.flip() ? "" : g.flip() ? "gap" : "liner", s = name.empty() ? "" : ":" + name;
   InternalConvectionInterfaceIntegrator I(h, theta, name, alpha);
   g.check(I.getName() == name, "internal convection name", I.getName());
   auto change = [&] {
      some_inputs(g, I, {{"h" + s, &h}, {"fluid_temp" + s, &theta}});
      if (g.flip()) { setInputs(I, MISOInputs{{name.empty() ? "h:gap" : "h", 99.0}, {"fluid_temp:other", 98.0}}); }
   };
   interface<InternalConvectionInterfaceIntegrator, InternalConvectionInterfaceIntegratorMeshRevSens>(
       g, I, alpha, [&](double u1, double u2, double v1, double v2) { return h * ((u1 - theta) * v1 + (u2 - theta) * v2); }, "internal convection", c, change,
       [&](GridFunction &u, GridFunction &psi, const Rule &r) {
          auto value = [&] { return int_residual(I, c.fes(), u) * psi; };
          if (g.flip())
          {
             InternalConvectionInterfaceIntegratorHRevSens S(u, psi, I);
             r.set(S, face_type(c));
             scalar_check(g, I, "h" + s, h, value, int_energy(S, c.fes(), u), "internal convection h sensitivity");
          }
          else
          {
             InternalConvectionInterfaceIntegratorFluidTempRevSens S(psi, I);
             r.set(S, face_type(c));
             scalar_check(g, I, "fluid_temp" + s, theta, value, int_energy(S, c.fes(), u), "internal convection fluid temperature sensitivity");
          }
       });
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"projection", projection, 300, 60000},
       {"convection", convection, 300, 60000},
       {"outflux", outflux, 250, 50000},
       {"test-wall", test_wall, 150, 20000},
       {"contact-resistance", contact, 300, 60000},
       {"internal-convection", internal_convection, 300, 60000},
   };
   Runner r("P22", props, "the domain, wall or interface integrated over is not empty");
   r.assumptions = {"the MFEM additions MISO needs are stand-ins (shim/odl.hpp)", "derivatives are compared with extrapolated central differences (relative tolerance 1e-6)"};
   return r.main(argc, argv);
}
