// P18: copper and core losses, their heat distributions, virtual-work forces
// and torques, demagnetization functional
#include "femgen.hpp"
#include "electromag_integ.hpp"

using namespace femgen;
using namespace miso;

namespace
{
struct RuleChoice
{
   int order = -1;
   RuleChoice(Gen &g, bool deflt_too = true) { order = deflt_too && g.chance(1, 2) ? -1 : g.irange(0, 8); }
   template <typename I>
   void set(I &integ, Geometry::Type t) const
   {
      if (order >= 0) { integ.SetIntRule(&IntRules.Get(t, order)); }
   }
};
template <typename F>
double integrate(Mesh &m, const RuleChoice &rc, F f)
{
   double s = 0;
   for (int e = 0; e < m.GetNE(); ++e)
   {
      auto &T = *m.GetElementTransformation(e);
      auto t = m.GetElementGeometry(e);
      each_point(T, IntRules.Get(t, rc.order >= 0 ? rc.order : 12), [&](const IntegrationPoint &ip, double w) { s += w * f(T, ip); });
   }
   return s;
}

/// temperature (H1), peak flux (L2 or H1), adjoint of the temperature
struct Fields
{
   FemMesh m;
   int p, q;
   std::unique_ptr<Space> ts, fs;
   GridFunction T, B, psi;
   explicit Fields(Gen &g)
   {
      int dim = g.chance(2, 3) ? 2 : 3;
      m = fem_mesh(g, dim);
      p = g.irange(1, dim == 2 ? 3 : 2);
      q = g.irange(0, 2);
      ts.reset(new Space(Space::h1(*m.mesh, p)));
      fs.reset(new Space(q == 0 || g.flip() ? Space::l2(*m.mesh, q) : Space::h1(*m.mesh, q)));
      g.label(str("temperature H1 p", p));
      g.label(str("flux ", fs->fec->Name()));
      T.SetSpace(ts->fes.get());
      psi.SetSpace(ts->fes.get());
      B.SetSpace(fs->fes.get());
      T = ts->field(g, 0.5);
      B = fs->field(g, 0.5);
      B += 0.8;
      psi = ts->field(g, 1);
      if (g.chance(1, 8)) { B = 0.0; }
   }
   Geometry::Type geom() { return m.mesh->GetElementGeometry(0); }
   double temp(ElementTransformation &E, const IntegrationPoint &ip) { return T.GetValue(E, ip); }
   double flux(ElementTransformation &E, const IntegrationPoint &ip) { return B.GetValue(E, ip); }
   double adj(ElementTransformation &E, const IntegrationPoint &ip) { return psi.GetValue(E, ip); }
};
/// named inputs set in several calls, some of them never
struct Inputs
{
   std::map<std::string, double> v;
   template <typename I>
   void set(Gen &g, I &integ, const std::vector<std::string> &names, double lo = 0.5, double hi = 2.5)
   {
      for (auto &n : names) { v[n] = 1.0; }
      int rounds = g.irange(0, 3);
      for (int r = 0; r < rounds; ++r)
      {
         MISOInputs in;
         for (auto &n : names)
         {
            if (!g.chance(3, 4)) { continue; }
            v[n] = g.real(lo, hi);
            in.emplace(n, v[n]);
         }
         if (g.flip()) { in.emplace("unrelated", 7.0); }
         setInputs(integ, in);
      }
   }
   double operator[](const std::string &n) const { return v.at(n); }
   /// derivative with respect to one input
   template <typename I, typename F>
   void check(Gen &g, I &integ, const std::string &n, F f, double claimed, const std::string &key)
   {
      Vector x = one(v.at(n)), d = one(1.0);
      fd_check(g, [&](const Vector &y, Vector &r) {
         setInputs(integ, MISOInputs{{n, y(0)}});
         r = one(f());
      }, x, d, one(claimed), 0.02, key, "", 1e-6, 1e-12);
      setInputs(integ, MISOInputs{{n, x(0)}});
   }
};
std::string pick_name(Gen &g, const std::vector<std::string> &n) { return n[g.irange(0, (int)n.size() - 1)]; }

// -------------------------------------------------------------- copper losses
void dc_functional(Gen &g)
{
   Fields f(g);
   int part = g.irange(0, 2);
   bool constant = part == 0 && g.flip();
   Law sigma(g, true, !constant, constant);
   DCLossFunctionalIntegrator I(sigma, f.T);
   GridFunction state = f.fs->field(g);
   auto &fes = *f.fs->fes;
   g.nontrivial();
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, f.geom());
      if (rc.order < 0 && !(constant && f.m.affine)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) { return 1 / sigma.Eval(E, ip, f.temp(E, ip)); });
      g.close(dom_energy(I, fes, state), want, 1e-10 * (1 + std::fabs(want)), "resistivity integral", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      DCLossFunctionalIntegratorTemperatureSens S(state, I);
      Vector grad = dom_linear(S, *f.ts->fes), T0 = f.T;
      grad_check(g, [&](const Vector &x) { f.T.Vector::operator=(x); return dom_energy(I, fes, state); }, T0, random_dir(g, T0.Size()), grad, 0.02, "resistivity temperature sensitivity");
   }
   else
   {
      DCLossFunctionalIntegratorMeshSens S(state, I);
      Vector grad = dom_linear(S, f.m.fes());
      mesh_check(g, f.m, [&] { return dom_energy(I, fes, state); }, grad, "resistivity mesh sensitivity");
   }
}
template <typename S, typename I>
double scalar_sens(Fields &f, I &integ)
{
   S s(f.psi, integ);
   return dom_energy(s, *f.ts->fes, f.T);
}
void dc_distribution(Gen &g)
{
   Fields f(g);
   int part = g.irange(0, 4);
   bool constant = part == 0 && g.flip();
   Law sigma(g, true, !constant && part != 2, constant);
   DCLossDistributionIntegrator I(sigma, f.T);
   static const std::vector<std::string> names = {"wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length", "winding_volume"};
   Inputs in;
   in.set(g, I, names);
   auto &fes = *f.ts->fes;
   auto value = [&] { return dom_linear(I, fes) * f.psi; };
   g.nontrivial();
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, f.geom());
      if (rc.order < 0 && !(constant && f.m.affine)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) {
         double area = M_PI * in["strand_radius"] * in["strand_radius"];
         double R = in["wire_length"] / (area * in["strands_in_hand"] * sigma.Eval(E, ip, f.temp(E, ip)));
         return f.adj(E, ip) * std::sqrt(2.0) * in["rms_current"] * in["rms_current"] * R / (in["winding_volume"] * in["stack_length"]);
      });
      g.close(value(), want, 1e-10 * (1 + std::fabs(want)), "direct-current heat", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      DCLossDistributionIntegratorTemperatureRevSens S(f.psi, I);
      Vector grad = dom_linear(S, fes), T0 = f.T;
      grad_check(g, [&](const Vector &x) { f.T.Vector::operator=(x); return value(); }, T0, random_dir(g, T0.Size()), grad, 0.02, "direct-current heat temperature sensitivity");
   }
   else if (part == 2)
   {
      DCLossDistributionIntegratorMeshRevSens S(f.psi, I);
      Vector grad = dom_linear(S, f.m.fes());
      mesh_check(g, f.m, value, grad, "direct-current heat mesh sensitivity");
   }
   else
   {
      std::string n = pick_name(g, names);
      double d = n == "wire_length" ? scalar_sens<DCLossDistributionIntegratorWireLengthRevSens>(f, I)
               : n == "rms_current" ? scalar_sens<DCLossDistributionIntegratorCurrentRevSens>(f, I)
               : n == "strand_radius" ? scalar_sens<DCLossDistributionIntegratorStrandRadiusRevSens>(f, I)
               : n == "strands_in_hand" ? scalar_sens<DCLossDistributionIntegratorStrandsInHandRevSens>(f, I)
               : n == "stack_length" ? scalar_sens<DCLossDistributionIntegratorStackLengthRevSens>(f, I)
               : scalar_sens<DCLossDistributionIntegratorWindingVolumeRevSens>(f, I);
      g.label(n);
      in.check(g, I, n, value, d, "direct-current heat " + n + " sensitivity");
   }
}
void ac_functional(Gen &g)
{
   Fields f(g);
   int part = g.irange(0, 3);
   bool constant = part == 0 && g.flip();
   Law sigma(g, true, !constant, constant);
   ACLossFunctionalIntegrator I(sigma, f.T);
   auto &fes = *f.fs->fes;
   g.nontrivial(f.B.Normlinf() > 0);
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, f.geom());
      bool flat = f.q == 0 && f.m.affine && constant;
      if (rc.order < 0 && !flat) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) { return sigma.Eval(E, ip, f.temp(E, ip)) * std::pow(f.flux(E, ip), 2); });
      g.close(dom_energy(I, fes, f.B), want, 1e-10 * (1 + std::fabs(want)), "eddy loss integral", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      ACLossFunctionalIntegratorPeakFluxSens S(f.B, I);
      Vector grad = dom_linear(S, fes), B0 = f.B;
      grad_check(g, [&](const Vector &x) { return dom_energy(I, fes, x); }, B0, random_dir(g, B0.Size()), grad, 0.02, "eddy loss flux sensitivity");
   }
   else if (part == 2)
   {
      ACLossFunctionalIntegratorTemperatureSens S(f.B, I);
      Vector grad = dom_linear(S, *f.ts->fes), T0 = f.T;
      grad_check(g, [&](const Vector &x) { f.T.Vector::operator=(x); return dom_energy(I, fes, f.B); }, T0, random_dir(g, T0.Size()), grad, 0.02, "eddy loss temperature sensitivity");
   }
   else
   {
      ACLossFunctionalIntegratorMeshSens S(f.B, I);
      Vector grad = dom_linear(S, f.m.fes());
      mesh_check(g, f.m, [&] { return dom_energy(I, fes, f.B); }, grad, "eddy loss mesh sensitivity");
   }
}
void ac_distribution(Gen &g)
{
   Fields f(g);
   int part = g.irange(0, 5);
   bool constant = part == 0 && g.flip();
   Law sigma(g, true, !constant && part != 3, constant);
   ACLossDistributionIntegrator I(f.B, f.T, sigma);
   static const std::vector<std::string> names = {"frequency", "strand_radius", "strands_in_hand", "num_turns", "num_slots", "winding_volume"};
   Inputs in;
   in.set(g, I, names);
   auto &fes = *f.ts->fes;
   auto value = [&] { return dom_linear(I, fes) * f.psi; };
   g.nontrivial(f.B.Normlinf() > 0);
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, f.geom());
      if (rc.order < 0 && !(constant && f.m.affine && f.q == 0)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) {
         double rate = 2 * M_PI * in["frequency"] * f.flux(E, ip);
         double strand = M_PI * std::pow(in["strand_radius"], 4) * rate * rate * sigma.Eval(E, ip, f.temp(E, ip)) / 8;
         return f.adj(E, ip) * strand * 2 * in["strands_in_hand"] * in["num_turns"] * in["num_slots"] / in["winding_volume"];
      });
      g.close(value(), want, 1e-10 * (1 + std::fabs(want)), "alternating-current heat", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      ACLossDistributionIntegratorTemperatureRevSens S(f.psi, I);
      Vector grad = dom_linear(S, fes), T0 = f.T;
      grad_check(g, [&](const Vector &x) { f.T.Vector::operator=(x); return value(); }, T0, random_dir(g, T0.Size()), grad, 0.02, "alternating-current heat temperature sensitivity");
   }
   else if (part == 2)
   {
      ACLossDistributionIntegratorPeakFluxRevSens S(f.psi, I);
      Vector grad = dom_linear(S, *f.fs->fes), B0 = f.B;
      grad_check(g, [&](const Vector &x) { f.B.Vector::operator=(x); return value(); }, B0, random_dir(g, B0.Size()), grad, 0.02, "alternating-current heat flux sensitivity");
   }
   else if (part == 3)
   {
      ACLossDistributionIntegratorMeshRevSens S(f.psi, I);
      Vector grad = dom_linear(S, f.m.fes());
      mesh_check(g, f.m, value, grad, "alternating-current heat mesh sensitivity");
   }
   else
   {
      std::string n = pick_name(g, names);
      double d = n == "frequency" ? scalar_sens<ACLossDistributionIntegratorFrequencyRevSens>(f, I)
               : n == "strand_radius" ? scalar_sens<ACLossDistributionIntegratorStrandRadiusRevSens>(f, I)
               : n == "strands_in_hand" ? scalar_sens<ACLossDistributionIntegratorStrandsInHandRevSens>(f, I)
               : n == "num_turns" ? scalar_sens<ACLossDistributionIntegratorNumTurnsRevSens>(f, I)
               : n == "num_slots" ? scalar_sens<ACLossDistributionIntegratorNumSlotsRevSens>(f, I)
               : scalar_sens<ACLossDistributionIntegratorWindingVolumeRevSens>(f, I);
      g.label(n);
      in.check(g, I, n, value, d, "alternating-current heat " + n + " sensitivity");
   }
}

// ---------------------------------------------------------------- core losses
void steinmetz(Gen &g)
{
   Fields f(g);
   Quiet quiet;
   int part = g.irange(0, 4);
   bool space = g.flip();
   if (part == 0) { space = true; }
   Spread rho(g, space), ks(g, space), alpha(g, space, 0.8, 1.8), beta(g, space, 1.2, 2.2);
   std::string name = g.flip() ? "" : "stator";
   std::string mf = name.empty() ? "max_flux_magnitude" : "max_flux_magnitude:" + name;
   g.label(name.empty() ? "unnamed" : "named");
   g.nontrivial();
   auto loss = [&](Inputs &in, ElementTransformation &E, const IntegrationPoint &ip) {
      return rho.Eval(E, ip) * ks.Eval(E, ip) * std::pow(in["frequency"], alpha.Eval(E, ip)) * std::pow(in[mf], beta.Eval(E, ip));
   };
   if (part <= 3)
   {
      SteinmetzLossIntegrator I(rho, ks, alpha, beta, name);
      Inputs in;
      in.set(g, I, {"frequency", mf});
      // another component's value is not this one's
      if (g.flip()) { setInputs(I, MISOInputs{{name.empty() ? "max_flux_magnitude:rotor" : "max_flux_magnitude", 17.0}}); }
      auto &fes = *f.ts->fes;
      auto value = [&] { return dom_energy(I, fes, f.T); };
      if (part == 0)
      {
         RuleChoice rc(g, false);
         rc.set(I, f.geom());
         double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) { return loss(in, E, ip); });
         g.close(value(), want, 1e-10 * (1 + std::fabs(want)), "Steinmetz loss");
      }
      else if (part == 1)
      {
         SteinmetzLossIntegratorFreqSens S(I);
         in.check(g, I, "frequency", value, dom_energy(S, fes, f.T), "Steinmetz loss frequency sensitivity");
      }
      else if (part == 2)
      {
         SteinmetzLossIntegratorMaxFluxSens S(I);
         in.check(g, I, mf, value, dom_energy(S, fes, f.T), "Steinmetz loss flux sensitivity");
      }
      else
      {
         SteinmetzLossIntegratorMeshSens S(f.T, I);
         Vector grad = dom_linear(S, f.m.fes());
         mesh_check(g, f.m, value, grad, "Steinmetz loss mesh sensitivity");
      }
   }
   else
   {
      SteinmetzLossDistributionIntegrator I(rho, ks, alpha, beta, name);
      Inputs in;
      in.set(g, I, {"frequency", mf, "stack_length"});
      RuleChoice rc(g, false);
      rc.set(I, f.geom());
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) { return f.adj(E, ip) * loss(in, E, ip); });
      g.close(dom_linear(I, *f.ts->fes) * f.psi, want, 1e-10 * (1 + std::fabs(want)), "Steinmetz heat");
   }
}
/// smooth law of three states, scaled by the attribute
struct Law3 : public ThreeStateCoefficient
{
   Law l[3];
   Law3(Gen &g, bool constant) : l{Law(g, true, false, constant), Law(g, true, false, constant), Law(g, true, false, constant)} { }
   using ThreeStateCoefficient::Eval;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return l[0].Eval(T, ip, a) * l[1].f(b) * l[2].f(c); }
   double EvalDerivS1(ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return l[0].EvalStateDeriv(T, ip, a) * l[1].f(b) * l[2].f(c); }
   double EvalDerivS2(ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return l[0].Eval(T, ip, a) * l[1].df(b) * l[2].f(c); }
   double EvalDerivS3(ElementTransformation &T, const IntegrationPoint &ip, double a, double b, double c) override { return l[0].Eval(T, ip, a) * l[1].f(b) * l[2].df(c); }
};
struct Law2 : public TwoStateCoefficient
{
   Law l[2];
   explicit Law2(Gen &g, bool constant) : l{Law(g, true, !constant, constant), Law(g, true, false, constant)} { }
   using TwoStateCoefficient::Eval;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double a, double b) override { return l[0].Eval(T, ip, a) * l[1].f(b); }
   double EvalDerivS1(ElementTransformation &T, const IntegrationPoint &ip, double a, double b) override { return l[0].EvalStateDeriv(T, ip, a) * l[1].f(b); }
   double EvalDerivS2(ElementTransformation &T, const IntegrationPoint &ip, double a, double b) override { return l[0].Eval(T, ip, a) * l[1].df(b); }
};
template <typename I>
struct CoreLoss
{
   Spread rho;
   Law3 kh, ke;
   I integ;
   Inputs in;
   CoreLoss(Gen &g, Fields &f, bool constant, bool space) : rho(g, space), kh(g, constant), ke(g, constant), integ(rho, kh, ke, f.B, f.T)
   {
      in.set(g, integ, {"frequency"});
   }
   double density(Fields &f, ElementTransformation &E, const IntegrationPoint &ip)
   {
      double w = in["frequency"], b = f.flux(E, ip), t = f.temp(E, ip);
      return rho.Eval(E, ip) * (kh.Eval(E, ip, t, w, b) * w + ke.Eval(E, ip, t, w, b) * w * w) * b * b;
   }
};
void cal2_functional(Gen &g)
{
   Fields f(g);
   int part = g.irange(0, 4);
   bool constant = part == 0 && g.flip();
   CoreLoss<CAL2CoreLossIntegrator> c(g, f, constant, !constant && part < 4);
   auto &I = c.integ;
   auto &fes = g.flip() ? *f.ts->fes : *f.fs->fes;
   Vector dummy(fes.GetVSize());
   dummy = 0.0;
   auto value = [&] { return dom_energy(I, fes, dummy); };
   g.nontrivial(f.B.Normlinf() > 0);
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, f.geom());
      if (rc.order < 0 && !(constant && f.m.affine && f.q == 0)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) { return c.density(f, E, ip); });
      g.close(value(), want, 1e-10 * (1 + std::fabs(want)), "core loss", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      CAL2CoreLossIntegratorFreqSens S(I);
      c.in.check(g, I, "frequency", value, dom_energy(S, fes, dummy), "core loss frequency sensitivity");
   }
   else if (part == 2)
   {
      CAL2CoreLossIntegratorPeakFluxSens S(I);
      Vector grad = dom_linear(S, *f.fs->fes), B0 = f.B;
      grad_check(g, [&](const Vector &x) { f.B.Vector::operator=(x); return value(); }, B0, random_dir(g, B0.Size()), grad, 0.02, "core loss flux sensitivity");
   }
   else if (part == 3)
   {
      CAL2CoreLossIntegratorTemperatureSens S(I);
      Vector grad = dom_linear(S, *f.ts->fes), T0 = f.T;
      grad_check(g, [&](const Vector &x) { f.T.Vector::operator=(x); return value(); }, T0, random_dir(g, T0.Size()), grad, 0.02, "core loss temperature sensitivity");
   }
   else
   {
      CAL2CoreLossIntegratorMeshSens S(I);
      Vector grad = dom_linear(S, f.m.fes());
      mesh_check(g, f.m, value, grad, "core loss mesh sensitivity");
   }
}
void cal2_distribution(Gen &g)
{
   Fields f(g);
   int part = g.irange(0, 4);
   bool constant = part == 0 && g.flip();
   CoreLoss<CAL2CoreLossDistributionIntegrator> c(g, f, constant, !constant && part < 4);
   auto &I = c.integ;
   auto &fes = *f.ts->fes;
   auto value = [&] { return dom_linear(I, fes) * f.psi; };
   g.nontrivial(f.B.Normlinf() > 0);
   if (part == 0)
   {
      RuleChoice rc(g);
      rc.set(I, f.geom());
      if (rc.order < 0 && !(constant && f.m.affine && f.q == 0)) { return g.discard(); }
      g.label(rc.order < 0 ? "own rule" : "given rule");
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) { return f.adj(E, ip) * c.density(f, E, ip); });
      g.close(value(), want, 1e-10 * (1 + std::fabs(want)), "core heat", str("rule ", rc.order));
   }
   else if (part == 1)
   {
      CAL2CoreLossDistributionIntegratorFrequencyRevSens S(f.psi, I);
      c.in.check(g, I, "frequency", value, dom_energy(S, fes, f.T), "core heat frequency sensitivity");
   }
   else if (part == 2)
   {
      CAL2CoreLossDistributionIntegratorPeakFluxRevSens S(f.psi, I);
      Vector grad = dom_linear(S, *f.fs->fes), B0 = f.B;
      grad_check(g, [&](const Vector &x) { f.B.Vector::operator=(x); return value(); }, B0, random_dir(g, B0.Size()), grad, 0.02, "core heat flux sensitivity");
   }
   else if (part == 3)
   {
      CAL2CoreLossDistributionIntegratorTemperatureRevSens S(f.psi, I);
      Vector grad = dom_linear(S, fes), T0 = f.T;
      grad_check(g, [&](const Vector &x) { f.T.Vector::operator=(x); return value(); }, T0, random_dir(g, T0.Size()), grad, 0.02, "core heat temperature sensitivity");
   }
   else
   {
      CAL2CoreLossDistributionIntegratorMeshRevSens S(f.psi, I);
      Vector grad = dom_linear(S, f.m.fes());
      mesh_check(g, f.m, value, grad, "core heat mesh sensitivity");
   }
}
void demag(Gen &g)
{
   Fields f(g);
   Quiet quiet;
   bool constant = g.chance(1, 3), temp = g.flip();
   Law2 law(g, constant);
   PMDemagIntegrator I(law, temp ? &f.T : nullptr);
   RuleChoice rc(g);
   rc.set(I, f.geom());
   if (rc.order < 0 && !(constant && f.m.affine)) { return g.discard(); }
   auto &fes = *f.fs->fes;
   GridFunction w = f.fs->field(g);
   auto density = [&](ElementTransformation &E, const IntegrationPoint &ip) { return law.Eval(E, ip, f.flux(E, ip), temp ? f.temp(E, ip) : 373.15); };
   g.nontrivial();
   g.label(rc.order < 0 ? "own rule" : "given rule");
   if (g.flip())
   {
      double want = -integrate(*f.m.mesh, rc, density);
      g.close(dom_energy(I, fes, f.B), want, 1e-10 * (1 + std::fabs(want)), "demagnetization functional", str("rule ", rc.order));
   }
   else
   {
      if (rc.order < 0 && f.q > 1) { return g.discard(); }
      if (rc.order < 0 && !(f.q == 0 || !f.m.simplex)) { return g.discard(); }
      double want = integrate(*f.m.mesh, rc, [&](ElementTransformation &E, const IntegrationPoint &ip) { return w.GetValue(E, ip) * density(E, ip); });
      g.close(dom_residual(I, fes, f.B) * w, want, 1e-10 * (1 + std::fabs(want)), "demagnetization distribution", str("rule ", rc.order));
   }
}

// --------------------------------------------------------------- virtual work
void force(Gen &g)
{
   bool three = g.flip();
   FemMesh m = fem_mesh(g, three ? 3 : 2);
   int p = g.irange(1, 2);
   Space sp = three ? Space::nd(*m.mesh, p) : Space::h1(*m.mesh, p);
   auto &fes = *sp.fes;
   g.label(str(three ? "ND p" : "H1 p", p));
   Law nu(g, true, false);
   GridFunction u = sp.field(g, 0.2);
   if (g.chance(1, 8))
   {
      g.label("zero state");
      nu.k = 0;
      if (g.flip() || fes.GetNE() < 2) { u = 0.0; }
      else
      {
         Array<int> d;
         fes.GetElementVDofs(g.irange(0, fes.GetNE() - 1), d);
         FiniteElementSpace::AdjustVDofs(d);
         for (int i : d) { u(i) = 0.0; }
      }
   }
   std::unordered_set<int> attrs;
   if (g.chance(1, 2))
      for (int a = 1; a <= 3; ++a)
         if (g.chance(1, 3)) { attrs.insert(a); }
   g.label(attrs.empty() ? "every region" : "regions left out");
   GridFunction v(&m.fes());
   int part = g.irange(0, 3);
   int motion = part == 3 ? g.irange(0, 1) : g.irange(0, 3);
   Vector x = m.nodes();
   if (motion <= 1)
   {
      // translation or rotation of everything
      Vector a = random_dir(g, 3);
      VectorFunctionCoefficient f(m.dim, [&](const Vector &y, Vector &r) {
         if (motion == 0) { for (int d = 0; d < r.Size(); ++d) { r(d) = a(d); } }
         else if (three)
         {
            r(0) = a(1) * y(2) - a(2) * y(1);
            r(1) = a(2) * y(0) - a(0) * y(2);
            r(2) = a(0) * y(1) - a(1) * y(0);
         }
         else
         {
            r(0) = -a(2) * y(1);
            r(1) = a(2) * y(0);
         }
      });
      v.ProjectCoefficient(f);
   }
   else
   {
      v = 0.0;
      Vector d = node_dir(g, m);
      v.Vector::operator=(d);
   }
   g.label(motion == 0 ? "translation" : motion == 1 ? "rotation" : "deformation");
   ForceIntegrator3 I(nu, v, attrs);
   auto energy = [&] {
      double s = 0;
      for (int e = 0; e < m.mesh->GetNE(); ++e)
      {
         auto &T = *m.mesh->GetElementTransformation(e);
         if (attrs.count(T.Attribute)) { continue; }
         const FiniteElement &fe = *fes.GetFE(e);
         auto t = m.mesh->GetElementGeometry(e);
         int o = fe.Space() == FunctionSpace::Pk ? 2 * fe.GetOrder() - 2 : 2 * fe.GetOrder();
         each_point(T, IntRules.Get(t, o), [&](const IntegrationPoint &ip, double w) {
            Vector b;
            if (three) { u.GetCurl(T, b); }
            else { u.GetGradient(T, b); }
            s += w * calcMagneticEnergy(T, ip, nu, b.Norml2());
         });
      }
      return s;
   };
   double F = dom_energy(I, fes, u);
   g.check(std::isfinite(F), "virtual work finite", str(F));
   g.nontrivial(u.Normlinf() > 0);
   double mag = 1 + energy();
   if (part == 0)
   {
      // minus the rate of change of the energy as the nodes move along v
      double h = 0.01 / std::max(1.0, v.Normlinf());
      Vector dir(v);
      fd_check(g, [&](const Vector &y, Vector &r) {
         m.nodes() = y;
         r = one(-energy());
      }, x, dir, one(F), h, "virtual work is minus the energy rate", "", 1e-6, 1e-12);
      m.nodes() = x;
   }
   else if (part == 1)
   {
      Vector grad = dom_residual(I, fes, u);
      g.check(finite(grad), "virtual work gradient finite");
      grad_check(g, [&](const Vector &y) { return dom_energy(I, fes, y); }, u, random_dir(g, u.Size()), grad, 0.01, "virtual work gradient");
   }
   else if (part == 2)
   {
      ForceIntegratorMeshSens3 S(u, I);
      Vector grad = dom_linear(S, m.fes());
      g.check(finite(grad), "virtual work mesh sensitivity finite");
      mesh_check(g, m, [&] { return dom_energy(I, fes, u); }, grad, "virtual work mesh sensitivity");
   }
   else
   {
      // rigid motions of the whole domain do no work on an isotropic medium
      g.close(F, 0, 1e-9 * mag, motion == 0 ? "no net force" : "no net torque");
   }
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"dc-functional", dc_functional, 200, 40000},
       {"dc-distribution", dc_distribution, 300, 50000},
       {"ac-functional", ac_functional, 200, 40000},
       {"ac-distribution", ac_distribution, 300, 50000},
       {"steinmetz", steinmetz, 250, 50000},
       {"cal2-functional", cal2_functional, 250, 50000},
       {"cal2-distribution", cal2_distribution, 250, 50000},
       {"demagnetization", demag, 200, 40000},
       {"virtual-work", force, 400, 60000},
   };
   Runner r("P18", props, "the loss or the field does not vanish");
   r.assumptions = {
       "the MFEM additions MISO needs are stand-ins (shim/odl.hpp)",
       "laws of core losses depend on position through the element attribute only; so does the reluctivity of forces",
       "derivatives are compared with extrapolated central differences (relative tolerance 1e-6)",
   };
   return r.main(argc, argv);
}
