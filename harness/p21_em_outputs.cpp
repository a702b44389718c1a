// P21: outputs of the electromagnetic solver: energy, force, torque, copper
// and core losses, heat sources, demagnetization: values and forward and
// reverse derivatives over histories of inputs and options
#include "outgen.hpp"
#include "electromag_outputs.hpp"
#include "cal2_kh_coefficient.hpp"
#include "cal2_ke_coefficient.hpp"
#include "pm_demag_constraint_coeff.hpp"
#include <unistd.h>

using namespace outgen;
using miso::MISOOutput;

namespace
{
int a_dim(Gen &g) { return g.chance(2, 3) ? 2 : 3; }
void same(Gen &g, double got, double want, const std::string &key, const std::string &msg = "", double tol = 1e-9)
{
   g.close(got, want, tol * (1e-3 + std::fabs(want)), key, msg);
}
struct Scratch
{
   char dir[32] = "/tmp/pbtXXXXXX";
   char old[4096];
   Scratch()
   {
      if (!getcwd(old, sizeof old) || !mkdtemp(dir) || chdir(dir)) { abort(); }
   }
   ~Scratch()
   {
      if (chdir(old)) { abort(); }
      if (system(("rm -rf " + std::string(dir)).c_str())) { abort(); }
   }
};
/// what the electromagnetic solver keeps: a potential, a temperature, the
/// peak flux, and numbers
struct Motor
{
   World w;
   std::vector<int> attrs;
   json opts;
   Motor(Gen &g, int dim, bool select = true) : w(g, dim)
   {
      w.add("state", dim == 2 ? "H1" : "nedelec", g.irange(1, 2));
      w.add("temperature", "H1", g.irange(1, 2));
      int q = g.irange(0, 2);
      w.add("peak_flux", q == 0 || g.flip() ? "DG" : "H1", q);
      randomize(g);
      if (select && g.chance(2, 3))
      {
         attrs = w.some_attrs(g);
         opts["attributes"] = attrs;
      }
      g.label(str(dim, "D", attrs.empty() ? "" : " attributes"));
   }
   void randomize(Gen &g)
   {
      int k = g.irange(0, 7);
      if (k & 1 || k == 0) { w.random(g, "state", 0.7); }
      if (k & 2 || k == 0) { w.random(g, "temperature", 0.5); }
      if (k & 4 || k == 0) { w.random(g, "peak_flux", 0.5, 0.8); }
   }
   double num(const std::string &n) { return w.num.count(n) ? w.num[n] : 1.0; }
   void numbers(Gen &g, const std::vector<std::string> &names)
   {
      for (auto &n : names)
         if (g.flip())
         {
            w.num[n] = g.real(0.5, 2.5);
            w.dirty.insert(n);
         }
   }
   std::vector<std::string> names()
   {
      std::vector<std::string> r{"state", "temperature", "peak_flux", "mesh_coords"};
      for (auto &[n, v] : w.num) { r.push_back(n); }
      return r;
   }
   Inputs in() { return w.inputs(names()); }
};
/// random evaluations of a scalar output, then derivatives
template <typename Ref>
void history(Gen &g, Motor &c, MISOOutput &out, Ref ref, const std::vector<std::string> &numbers, const std::vector<std::string> &wrts, const std::string &key, bool attr_changes,
             const std::vector<std::string> &needed, double h = 0.02, const std::function<void()> &extra = nullptr)
{
   World &w = c.w;
   g.check(getSize(out) == 1, key + " size", str(getSize(out)));
   auto eval = [&] { return calcOutput(out, c.in()); };
   int steps = g.irange(0, 3);
   c.numbers(g, numbers);
   for (int k = 0; k <= steps; ++k)
   {
      if (k)
      {
         switch (g.irange(0, 3))
         {
         case 0: c.randomize(g); break;
         case 1: w.move_nodes(g, 0.01); break;
         case 2:
            if (extra) { extra(); }
            else if (attr_changes && !c.attrs.empty())
            {
               c.attrs = w.some_attrs(g);
               setOptions(out, json{{"attributes", c.attrs}});
            }
            break;
         default: c.numbers(g, numbers);
         }
      }
      double want = ref();
      if (g.flip())
      {
         Inputs in = c.in();
         setInputs(out, in);
      }
      // what is not named keeps its value
      if (k && g.flip()) { same(g, calcOutput(out, w.changes(g, c.names(), needed)), want, key + " value", str("step ", k, ", changed inputs only")); }
      else { same(g, eval(), want, key + " value", str("step ", k)); }
   }
   g.nontrivial();
   std::vector<std::string> all = wrts;
   for (auto &n : numbers)
      if (w.num.count(n)) { all.push_back(n); }
   if (all.empty()) { return; }
   std::string wrt = all[g.irange(0, int(all.size()) - 1)];
   g.label("d/d" + wrt);
   bool by_set = g.flip();
   auto prepare = [&] {
      if (by_set)
      {
         Inputs in = c.in();
         setInputs(out, in);
      }
      else { eval(); }
   };
   output_derivative(g, w, out, wrt, eval, prepare, h, key + " d/d" + wrt);
   same(g, eval(), ref(), key + " value", "after derivatives");
}

void dc_loss(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   Law sigma(g, true, false);
   MISOOutput out(miso::DCLossFunctional(c.w.fields, sigma, c.opts));
   auto ref = [&] {
      miso::DCLossFunctionalIntegrator I(sigma, c.w.at("temperature").gridFunc());
      double r = sum(c.w, I, c.attrs, "state"), R = c.num("wire_length") * r / (M_PI * std::pow(c.num("strand_radius"), 2) * c.num("strands_in_hand"));
      return std::sqrt(2.0) * std::pow(c.num("rms_current"), 2) * R / c.w.volume(c.attrs);
   };
   history(g, c, out, ref, {"wire_length", "rms_current", "strand_radius", "strands_in_hand"}, {"mesh_coords", "temperature"}, "direct-current loss", true, {});
}
void ac_loss(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   Law sigma(g, true, false);
   MISOOutput out(miso::ACLossFunctional(c.w.fields, sigma, c.opts));
   auto ref = [&] {
      miso::ACLossFunctionalIntegrator I(sigma, c.w.at("temperature").gridFunc());
      double b2 = sum(c.w, I, c.attrs, "peak_flux");
      double n = 2 * c.num("strands_in_hand") * c.num("num_turns") * c.num("num_slots");
      return n * c.num("stack_length") * M_PI * std::pow(c.num("strand_radius"), 4) * std::pow(2 * M_PI * c.num("frequency"), 2) / 8 * b2 / c.w.volume(c.attrs);
   };
   history(g, c, out, ref, {"strand_radius", "frequency", "stack_length", "strands_in_hand", "num_turns", "num_slots"}, {"mesh_coords", "temperature", "peak_flux"}, "alternating-current loss", true, {"peak_flux"});
}
// materials with a core loss model, some components without
struct Core
{
   json components, materials;
   std::unique_ptr<miso::MeshDependentCoefficient> rho;
   std::unique_ptr<miso::CAL2khCoefficient> kh;
   std::unique_ptr<miso::CAL2keCoefficient> ke;
   explicit Core(Gen &g)
   {
      for (int a = 1; a <= 3; ++a)
      {
         std::string m = "m" + std::to_string(a);
         materials[m]["rho"] = g.real(0.5, 3);
         for (std::string k : {"ke", "kh"})
            if (g.flip()) { materials[m][k] = g.real(0.1, 2); }
         json cal2;
         cal2["T0"] = g.real(-0.5, 0.2);
         cal2["T1"] = g.real(0.5, 2);
         for (std::string k : {"kh_T0", "kh_T1", "ke_T0", "ke_T1"})
         {
            std::vector<double> v;
            int n = g.irange(1, 4);
            for (int i = 0; i < n; ++i) { v.push_back(g.sym(1.5)); }
            cal2[k] = v;
         }
         materials[m]["core_loss"]["CAL2"] = cal2;
         json comp{{"attr", a}, {"material", {{"name", m}}}};
         if (g.chance(3, 4)) { comp["material"]["core_loss"] = json::object(); }
         components["c" + std::to_string(a)] = comp;
      }
      rho = miso::constructMaterialCoefficient("rho", components, materials);
      kh.reset(new miso::CAL2khCoefficient(components, materials));
      ke.reset(new miso::CAL2keCoefficient(components, materials));
   }
};
void core_loss(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   Core core(g);
   MISOOutput out(miso::CoreLossFunctional(c.w.fields, core.components, core.materials, c.opts));
   auto ref = [&] {
      miso::CAL2CoreLossIntegrator I(*core.rho, *core.kh, *core.ke, c.w.at("peak_flux").gridFunc(), c.w.at("temperature").gridFunc());
      setInputs(I, {{"frequency", c.num("frequency")}});
      return sum(c.w, I, c.attrs, "peak_flux");
   };
   history(g, c, out, ref, {"frequency"}, {"mesh_coords", "temperature", "peak_flux"}, "core loss", true, {});
}
void demag(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   json components, materials;
   for (int a = 1; a <= 3; ++a)
   {
      std::string m = "m" + std::to_string(a);
      materials[m]["Demag"] = {{"T0", g.real(280, 320)},           {"alpha_B_r", g.real(-0.3, 0.0)},  {"B_r_T0", g.real(0.5, 2)},
                               {"alpha_H_ci", g.real(-0.8, 0)},    {"H_ci_T0", -g.logreal(10, 1e3)},  {"alpha_B_knee", g.real(0.0005, 0.01)},
                               {"beta_B_knee", -g.real(0.5, 4)},   {"alpha_H_knee", g.sym(5)},        {"beta_H_knee", -g.logreal(10, 1e3)}};
      json comp{{"attr", a}, {"material", {{"name", m}}}};
      if (g.chance(3, 4)) { comp["material"]["Demag"] = json::object(); }
      components["c" + std::to_string(a)] = comp;
   }
   bool temp = g.flip();
   if (!temp)
   {
      c.w.fields.erase("temperature");
      c.w.tv.erase("temperature");
   }
   g.label(temp ? "temperature" : "no temperature");
   miso::PMDemagConstraintCoefficient law(components, materials);
   MISOOutput out(miso::PMDemagOutput(c.w.fields, components, materials, c.opts));
   World &w = c.w;
   int steps = g.irange(0, 2);
   bool bare = g.flip();
   g.nontrivial();
   for (int k = 0; k <= steps; ++k)
   {
      if (k)
      {
         w.random(g, "peak_flux", 0.5, 0.8);
         w.random(g, "state", 0.7);
         if (temp && g.flip()) { w.random(g, "temperature", 0.5); }
         if (g.flip()) { w.move_nodes(g, 0.01); }
         if (!c.attrs.empty() && g.flip())
         {
            c.attrs = w.some_attrs(g);
            setOptions(out, json{{"attributes", c.attrs}});
         }
      }
      miso::PMDemagIntegrator I(law, temp ? &w.at("temperature").gridFunc() : nullptr);
      double want = sum(w, I, c.attrs, "peak_flux");
      Vector state = w.at("state").gridFunc();
      std::vector<std::string> n{"peak_flux", "mesh_coords"};
      if (temp) { n.push_back("temperature"); }
      if (!bare) { n.push_back("state"); }
      Inputs in = w.inputs(n);
      if (g.flip()) { setInputs(out, in); }
      same(g, calcOutput(out, in), want, "demagnetization value", str("step ", k));
      Vector now = w.at("state").gridFunc();
      now -= state;
      g.check(now.Normlinf() == 0, "the potential changed when the demagnetization was evaluated");
   }
}

// ------------------------------------------------------------ heat sources
/// the load of each source on the temperature, with the names of its numbers
const std::vector<std::string> DC{"wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length"};
const std::vector<std::string> AC{"frequency", "strand_radius", "strands_in_hand", "num_turns", "num_slots"};
template <typename I>
void give(I &i, Motor &c, const std::vector<std::string> &names)
{
   for (auto &n : names) { setInputs(i, Inputs{{n, c.num(n)}}); }
}
Vector dc_load(Motor &c, Law &sigma, const std::vector<int> &attrs)
{
   miso::DCLossDistributionIntegrator I(sigma, c.w.at("temperature").gridFunc());
   give(I, c, DC);
   setInputs(I, Inputs{{"winding_volume", c.w.volume(attrs)}});
   return load(c.w, I, attrs, "temperature");
}
Vector ac_load(Motor &c, Law &sigma, const std::vector<int> &attrs)
{
   miso::ACLossDistributionIntegrator I(c.w.at("peak_flux").gridFunc(), c.w.at("temperature").gridFunc(), sigma);
   give(I, c, AC);
   setInputs(I, Inputs{{"winding_volume", c.w.volume(attrs)}});
   return load(c.w, I, attrs, "temperature");
}
Vector core_load(Motor &c, Core &core, const std::vector<int> &attrs)
{
   miso::CAL2CoreLossDistributionIntegrator I(*core.rho, *core.kh, *core.ke, c.w.at("peak_flux").gridFunc(), c.w.at("temperature").gridFunc());
   give(I, c, {"frequency"});
   return load(c.w, I, attrs, "temperature");
}
template <typename Ref>
void vector_history(Gen &g, Motor &c, MISOOutput &out, Ref ref, const std::vector<std::string> &numbers, const std::vector<std::string> &wrts, const std::string &key)
{
   World &w = c.w;
   int n = w.at("temperature").space().GetTrueVSize();
   g.check(getSize(out) == n, key + " size", str(getSize(out), " of ", n));
   auto eval_at = [&](const Inputs &in) {
      Vector y(n);
      y = 3.0;
      calcOutput(out, in, y);
      return y;
   };
   auto eval = [&] { return eval_at(c.in()); };
   c.numbers(g, numbers);
   int steps = g.irange(0, 2);
   for (int k = 0; k <= steps; ++k)
   {
      if (k)
      {
         switch (g.irange(0, 2))
         {
         case 0: c.randomize(g); break;
         case 1: w.move_nodes(g, 0.01); break;
         default: c.numbers(g, numbers);
         }
      }
      Vector want = ref();
      Vector got = k && g.flip() ? eval_at(w.changes(g, c.names(), {})) : eval();
      double s = want.Normlinf();
      for (int i = 0; i < n; ++i)
      {
         if (!(std::fabs(got(i) - want(i)) <= 1e-10 * (s + 1e-3))) { g.check(false, key + " value", str("step ", k, ": entry ", i, " is ", got(i), ", expected ", want(i))); }
      }
      g.check(true, key + " value");
   }
   g.nontrivial();
   std::vector<std::string> all = wrts;
   for (auto &m : numbers)
      if (w.num.count(m)) { all.push_back(m); }
   std::string wrt = all[g.irange(0, int(all.size()) - 1)];
   g.label("d/d" + wrt);
   vector_output_derivative(g, w, out, wrt, eval, [&] { eval(); }, 0.02, key + " d/d" + wrt);
}
void dc_heat(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   Law sigma(g, true, false);
   MISOOutput out(miso::DCLossDistribution(c.w.fields, sigma, c.opts));
   vector_history(g, c, out, [&] { return dc_load(c, sigma, c.attrs); }, DC, {"mesh_coords", "temperature"}, "direct-current heat");
}
void ac_heat(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   Law sigma(g, true, false);
   MISOOutput out(miso::ACLossDistribution(c.w.fields, sigma, c.opts));
   vector_history(g, c, out, [&] { return ac_load(c, sigma, c.attrs); }, AC, {"mesh_coords", "temperature", "peak_flux"}, "alternating-current heat");
}
void core_heat(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   Core core(g);
   MISOOutput out(miso::CAL2CoreLossDistribution(c.w.fields, core.components, core.materials, c.opts));
   vector_history(g, c, out, [&] { return core_load(c, core, c.attrs); }, {"frequency"}, {"mesh_coords", "temperature", "peak_flux"}, "core heat");
}
void all_heat(Gen &g)
{
   Scratch dir;
   Quiet q;
   Motor c(g, 2, false);
   Core core(g);
   Law sigma(g, true, false);
   std::vector<int> at[3];
   json o;
   const char *n[] = {"dc_loss", "ac_loss", "core_loss"};
   for (int i = 0; i < 3; ++i)
   {
      o[n[i]] = json::object();
      if (g.chance(2, 3))
      {
         at[i] = c.w.some_attrs(g);
         o[n[i]]["attributes"] = at[i];
      }
   }
   MISOOutput out(miso::EMHeatSourceOutput(c.w.fields, sigma, core.components, core.materials, o));
   auto ref = [&] {
      Vector v = dc_load(c, sigma, at[0]);
      v += ac_load(c, sigma, at[1]);
      v += core_load(c, core, at[2]);
      return v;
   };
   std::vector<std::string> numbers(DC);
   for (auto &s : {"frequency", "num_turns", "num_slots"}) { numbers.push_back(s); }
   vector_history(g, c, out, ref, numbers, {"mesh_coords", "temperature", "peak_flux"}, "heat source");
}

// -------------------------------------------------------- energy and forces
void energy(Gen &g)
{
   Quiet q;
   Motor c(g, a_dim(g));
   Law nu(g, true, false);
   miso::FunctionalOutput f(c.w.at("state").space(), c.w.fields);
   if (c.attrs.empty()) { f.addOutputDomainIntegrator(new miso::MagneticEnergyIntegrator(nu)); }
   else { f.addOutputDomainIntegrator(new miso::MagneticEnergyIntegrator(nu), c.attrs); }
   MISOOutput out(std::move(f));
   auto ref = [&] {
      miso::MagneticEnergyIntegrator I(nu);
      return sum(c.w, I, c.attrs, "state");
   };
   history(g, c, out, ref, {}, {"mesh_coords", "state"}, "energy", true, {"state"}, 0.01);
   // partial derivatives are the reverse derivatives
   for (std::string wrt : {"state", "mesh_coords"})
   {
      int n = c.w.tv[wrt].Size();
      Vector partial(n), bar(n);
      bar = 0.0;
      // the inputs are new to the output: c.in() spoils the fields
      calcOutput(out, c.in());
      vectorJacobianProduct(out, one(1.0), wrt, bar);
      calcOutputPartial(out, wrt, c.in(), partial);
      double s = bar.Normlinf();
      bar -= partial;
      g.close(bar.Normlinf(), 0, 1e-11 * (1 + s), "energy partial derivative by " + wrt);
   }
}
/// displacement at the nodes: of those regions, moved as asked; the others stay
template <typename F>
void displace(World &w, const std::vector<int> &attrs, miso::FiniteElementState &v, F f)
{
   auto &fes = v.space();
   auto &x = w.at("mesh_coords").gridFunc();
   v.gridFunc() = 0.0;
   Array<int> dofs;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      if (!std::count(attrs.begin(), attrs.end(), fes.GetAttribute(e))) { continue; }
      fes.GetElementDofs(e, dofs);
      for (int d : dofs)
      {
         double p[3] = {0, 0, 0}, r[3] = {0, 0, 0};
         for (int k = 0; k < w.dim; ++k) { p[k] = x(fes.DofToVDof(d, k)); }
         f(p, r);
         for (int k = 0; k < w.dim; ++k) { v.gridFunc()(fes.DofToVDof(d, k)) = r[k]; }
      }
   }
}
void moving(Gen &g, bool torque)
{
   Quiet q;
   Motor c(g, a_dim(g), false);
   World &w = c.w;
   auto &mesh_fes = w.at("mesh_coords").space();
   std::string name = torque ? "vtorque" : "vforce";
   w.fields.emplace(std::piecewise_construct, std::forward_as_tuple(name), std::forward_as_tuple(*w.mesh, mesh_fes, name));
   miso::FiniteElementState mine(*w.mesh, mesh_fes, "mine");
   std::vector<int> attrs = w.some_attrs(g), air;
   json o;
   std::vector<double> axis, about;
   auto options = [&] {
      axis.clear();
      about.clear();
      for (int k = 0; k < (torque ? 3 : w.dim); ++k) { axis.push_back(torque && w.dim == 2 && k < 2 ? 0.0 : g.sym(2)); }
      if (torque && w.dim == 2 && std::fabs(axis[2]) < 0.1) { axis[2] = 1; }
      if (torque && w.dim == 3) { axis[g.irange(0, 2)] = 1; }
      for (int k = 0; k < w.dim; ++k) { about.push_back(g.sym(1)); }
      if (g.flip()) { for (double &a : about) { a = 0; } }
      o["attributes"] = attrs;
      o["axis"] = axis;
      if (torque) { o["about"] = about; }
      double a[3] = {0, 0, 0}, n = 0;
      for (size_t k = 0; k < axis.size(); ++k)
      {
         a[k] = axis[k];
         n += a[k] * a[k];
      }
      n = std::sqrt(n);
      displace(w, attrs, mine, [&](const double *p, double *r) {
         if (!torque)
         {
            for (int k = 0; k < w.dim; ++k) { r[k] = a[k]; }
            return;
         }
         double y[3] = {0, 0, 0};
         for (int k = 0; k < w.dim; ++k) { y[k] = p[k] - about[k]; }
         r[0] = (a[1] * y[2] - a[2] * y[1]) / n;
         r[1] = (a[2] * y[0] - a[0] * y[2]) / n;
         r[2] = (a[0] * y[1] - a[1] * y[0]) / n;
      });
   };
   options();
   if (torque && g.flip())
   {
      air = w.some_attrs(g);
      o["air_attributes"] = air;
      g.label("air");
   }
   Law nu(g, true, false);
   auto &fes = w.at("state").space();
   std::unique_ptr<MISOOutput> out;
   if (torque) { out.reset(new MISOOutput(miso::TorqueFunctional(fes, w.fields, o, nu))); }
   else { out.reset(new MISOOutput(miso::ForceFunctional(fes, w.fields, o, nu))); }
   std::unordered_set<int> moved(attrs.begin(), attrs.end());
   auto ref = [&] {
      miso::ForceIntegrator3 I(nu, mine.gridFunc(), moved);
      return sum(w, I, air, "state");
   };
   // another axis or centre for the same body
   auto change = [&] {
      json was = o;
      options();
      o.erase("air_attributes");
      setOptions(*out, o);
   };
   history(g, c, *out, ref, {}, {"state", "mesh_coords"}, torque ? "torque" : "force", false, {"state"}, 0.01, change);
   std::string wrt = g.flip() ? "state" : "mesh_coords";
   int size = w.tv[wrt].Size();
   Vector partial(size), bar(size);
   partial = 7.0;
   bar = 0.0;
   if (g.flip()) { w.random(g, "state", 0.7); }
   calcOutput(*out, c.in());
   vectorJacobianProduct(*out, one(1.0), wrt, bar);
   calcOutputPartial(*out, wrt, c.in(), partial);
   double scale = bar.Normlinf();
   bar -= partial;
   g.close(bar.Normlinf(), 0, 1e-10 * (1 + scale), str(torque ? "torque" : "force", " partial derivative by ", wrt));
}
void force(Gen &g) { moving(g, false); }
void torque(Gen &g) { moving(g, true); }
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props{
       {"energy", energy, 300, 6000},
       {"force", force, 300, 6000},
       {"torque", torque, 300, 6000},
       {"direct-current-loss", dc_loss, 400, 8000},
       {"alternating-current-loss", ac_loss, 500, 10000},
       {"core-loss", core_loss, 300, 6000},
       {"demagnetization", demag, 200, 4000},
       {"direct-current-heat", dc_heat, 400, 8000},
       {"alternating-current-heat", ac_heat, 400, 8000},
       {"core-heat", core_heat, 300, 6000},
       {"heat-source", all_heat, 100, 1500},
   };
   Runner r("P21", props, "an output was evaluated on a random mesh with random inputs and compared with its reference");
   r.assumptions = {"one MPI rank", "the inputs name every field", "integrals and loads of the single integrators are those of P18", "conductivity and reluctivity depend on position through the element attribute only"};
   return r.main(argc, argv);
}
