// P20: volumes, masses, averages and smooth maxima as outputs: values and
// forward and reverse derivatives over histories of inputs and options
#include "outgen.hpp"
#include "common_outputs.hpp"
#include "mfem_common_integ.hpp"
#include "demag_flux_coefficient.hpp"

using namespace outgen;
using miso::MISOOutput;

namespace
{
const int FINE = 12;
struct Case
{
   World w;
   std::string kind;       // basis of the state
   std::vector<int> attrs; // selected attributes, empty: all
   json opts;
   std::vector<std::string> names{"state", "mesh_coords"};  // inputs always given
   Case(Gen &g, int dim, const std::string &kind, int p) : w(g, dim), kind(kind)
   {
      w.add("state", kind, p);
      w.random(g, "state", 0.7);
      if (g.flip())
      {
         attrs = w.some_attrs(g);
         opts["attributes"] = attrs;
      }
      g.label(str(kind, p, attrs.empty() ? "" : " attributes"));
   }
   Inputs in() { return w.inputs(names); }
   Inputs in(const std::vector<std::string> &n) { return w.inputs(n); }
};
int a_dim(Gen &g) { return g.chance(2, 3) ? 2 : 3; }
int a_degree(Gen &g, int dim, int lo = 1) { return g.irange(lo, dim == 2 ? 3 : 2); }
void same(Gen &g, double got, double want, const std::string &key, const std::string &msg = "", double tol = 1e-9)
{
   g.close(got, want, tol * (1e-3 + std::fabs(want)), key, msg);
}
/// a few evaluations with changing fields, options and forms of the inputs,
/// each compared with the reference; then derivatives at the last point
template <typename Ref>
void history(Gen &g, Case &c, MISOOutput &out, Ref ref, const std::function<void()> &change, const std::vector<std::string> &wrts, const std::string &key, double h,
             bool forward_scalar = true)
{
   World &w = c.w;
   g.check(getSize(out) == 1, key + " size", str(getSize(out)));
   int steps = g.irange(0, 3);
   auto eval = [&] { return calcOutput(out, c.in()); };
   for (int k = 0; k <= steps; ++k)
   {
      if (k)
      {
         switch (g.irange(0, 4))
         {
         case 0: w.random(g, "state", 0.7); break;
         case 1: w.move_nodes(g, 0.01); break;
         case 2:
            if (!c.attrs.empty())
            {
               c.attrs = w.some_attrs(g);
               json o{{"attributes", c.attrs}};
               setOptions(out, o);
            }
            break;
         case 3: setOptions(out, json{{"unrelated", 1}}); break;
         default: change();
         }
      }
      double want = ref();
      if (g.flip()) { same(g, eval(), want, key + " value", str("step ", k)); }
      else
      {
         // set some inputs ahead of the evaluation
         setInputs(out, c.in());
         same(g, eval(), want, key + " value", str("step ", k, ", inputs set before"));
      }
   }
   g.nontrivial();
   if (wrts.empty()) { return; }
   std::string wrt = wrts[g.irange(0, int(wrts.size()) - 1)];
   g.label("d/d" + wrt);
   bool by_set = g.flip();
   auto prepare = [&] {
      if (g.chance(1, 4))
      {
         // a different point, visited before
         Vector keep = w.tv["state"];
         Vector other = random_dir(g, keep.Size(), 0.7);
         w.set("state", other);
         Inputs in = c.in();
         setInputs(out, in);
         w.set("state", keep);
      }
      if (by_set)
      {
         Inputs in = c.in();
         setInputs(out, in);
      }
      else { eval(); }
   };
   output_derivative(g, w, out, wrt, eval, prepare, h, key + " d/d" + wrt, !w.num.count(wrt) || forward_scalar);
}

void volume(Gen &g)
{
   Quiet q;
   int dim = a_dim(g);
   Case c(g, dim, g.flip() ? "H1" : "DG", a_degree(g, dim));
   MISOOutput out(miso::VolumeFunctional(c.w.fields, c.opts));
   if (g.flip()) { c.names = {"mesh_coords"}; }
   history(g, c, out, [&] { return c.w.volume(c.attrs); }, [] {}, {"mesh_coords"}, "volume", 0.02);
}
void mass(Gen &g)
{
   Quiet q;
   int dim = a_dim(g);
   Case c(g, dim, g.flip() ? "H1" : "DG", a_degree(g, dim));
   // materials: plain, absent density, mixtures of two others
   json materials, components;
   std::map<int, std::function<double(double)>> dens;
   double ra = g.real(0.5, 8), rb = g.real(0.5, 8);
   materials["m1"]["rho"] = ra;
   materials["m2"]["rho"] = rb;
   materials["m1"]["drho_df"] = 0.0;  // not a mixture
   materials["none"]["kappa"] = 1.0;
   json mix{{"materials", {"m1", "m2"}}, {"weighted_by", "fill_factor"}, {"weight", "average"}};
   materials["mix"]["rho"] = mix;
   mix["weight"] = "daverage";
   mix["materials"] = {"m1", "m2"};
   materials["m1"]["rho"] = ra;
   json dmix = mix;
   materials["mix"]["drho_df"] = dmix;
   // the derivative mixture reads the constituents' "drho_df" entries
   materials["m1"]["drho_df"] = ra;
   materials["m2"]["drho_df"] = rb;
   bool any_mix = false;
   int kinds = 0;
   double hi = std::max(ra, rb), lo = std::min(ra, rb);
   for (int a = 1; a <= 3; ++a)
   {
      std::string name = "part" + std::to_string(a);
      int k = g.irange(0, 2);
      json comp;
      std::string mat = k == 0 ? "solid" + std::to_string(a) : k == 1 ? "none" : "mix";
      if (k == 0)
      {
         double r = g.real(0.5, 8);
         materials[mat]["rho"] = r;
         dens[a] = [r](double) { return r; };
      }
      else if (k == 1) { dens[a] = [](double) { return 0.0; }; }
      else
      {
         dens[a] = [hi, lo](double f) { return f * hi + (1 - f) * lo; };
         any_mix = true;
      }
      if (g.flip()) { comp["attr"] = a; }
      else { comp["attrs"] = {a}; }
      if (g.flip()) { comp["material"] = mat; }
      else { comp["material"]["name"] = mat; }
      components[name] = comp;
      ++kinds;
   }
   g.label(any_mix ? "mixture" : "plain");
   double ff = 0.5;
   MISOOutput out(miso::MassFunctional(c.w.fields, components, materials, c.opts));
   std::vector<std::string> base = g.flip() ? std::vector<std::string>{"mesh_coords"} : std::vector<std::string>{"state", "mesh_coords"};
   c.names = base;
   auto change = [&] {
      ff = g.real(0, 1);
      c.w.num["fill_factor"] = ff;
      c.names = base;
      c.names.push_back("fill_factor");
   };
   if (g.chance(2, 3)) { change(); }
   auto ref = [&] { return c.w.integral(8, c.attrs, [&](ElementTransformation &T, const IntegrationPoint &) { return dens.at(T.Attribute)(ff); }); };
   std::vector<std::string> wrts{"mesh_coords"};
   if (c.w.num.count("fill_factor")) { wrts.push_back("fill_factor"); }
   history(g, c, out, ref, change, wrts, "mass", 0.02);
   // the value is unaffected by having asked for derivatives
   same(g, calcOutput(out, c.in()), ref(), "mass value", "after derivatives");
}
void average(Gen &g)
{
   Quiet q;
   int dim = a_dim(g);
   Case c(g, dim, g.flip() ? "H1" : "DG", a_degree(g, dim, 1));
   // the average of the state or of another field
   std::string field = "state";
   if (g.chance(1, 3))
   {
      field = "temperature";
      c.w.add(field, g.flip() ? "H1" : "DG", a_degree(g, dim, 1));
      c.w.random(g, field, 0.7, 0.2);
      c.opts["state"] = field;
      c.names.push_back(field);
      if (g.flip()) { c.names.erase(std::find(c.names.begin(), c.names.end(), "state")); }
      g.label("other field");
   }
   MISOOutput out(miso::StateAverageFunctional(c.w.at(field).space(), c.w.fields, c.opts));
   auto ref = [&] {
      return c.w.integral(FINE, c.attrs, [&](ElementTransformation &T, const IntegrationPoint &ip) { return c.w.value(field, T, ip); }) / c.w.volume(c.attrs);
   };
   history(g, c, out, ref, [&] { c.w.random(g, field, 0.7, 0.2); }, {"mesh_coords", field}, "state average", 0.02);
   if (g.chance(1, 4))
   {
      Vector s = c.w.tv[field];
      double v = g.sym(3);
      s = v;
      c.w.set(field, s);
      same(g, calcOutput(out, c.in()), v, "average of a constant");
   }
}
/// a potential whose curl does not come close to zero
void sloped(Gen &g, World &w)
{
   if (w.dim == 2)
   {
      double a = g.real(1, 2), b = g.real(0.5, 1);
      FunctionCoefficient f([=](const Vector &x) { return a * x(0) + b * x(1); });
      auto &s = w.at("state");
      Vector tv;
      s.project(f, tv);
      tv += random_dir(g, tv.Size(), 0.05);
      w.set("state", tv);
   }
   else { w.random(g, "state", 0.7); }
}
void curl_average(Gen &g)
{
   Quiet q;
   int dim = a_dim(g);
   Case c(g, dim, dim == 2 ? "H1" : "nedelec", a_degree(g, dim, 1));
   sloped(g, c.w);
   MISOOutput out(miso::AverageMagnitudeCurlState(c.w.at("state").space(), c.w.fields, c.opts));
   auto ref = [&] {
      miso::MagnitudeCurlStateIntegrator I;
      return sum(c.w, I, c.attrs, "state") / c.w.volume(c.attrs);
   };
   history(g, c, out, ref, [&] { sloped(g, c.w); }, {"mesh_coords", "state"}, "curl average", 0.01);
}
double field_max(World &w, const std::string &n) { return w.tv[n].Max(); }
void maximum(Gen &g)
{
   Quiet q;
   int dim = a_dim(g);
   Case c(g, dim, g.flip() ? "H1" : "DG", a_degree(g, dim, 1));
   double rho = g.real(0.5, 10);
   c.opts["rho"] = rho;
   // the maximum of the state or of another field
   std::string field = "state";
   if (g.chance(1, 3))
   {
      field = "temperature";
      c.w.add(field, "H1", a_degree(g, dim, 1));
      c.w.random(g, field, 0.7, 0.2);
      c.opts["state"] = field;
      c.names.push_back(field);
      if (g.flip()) { c.names.erase(std::find(c.names.begin(), c.names.end(), "state")); }
      g.label("other field");
   }
   MISOOutput out(miso::IEAggregateFunctional(c.w.at(field).space(), c.w.fields, c.opts));
   auto ref = [&] {
      // invariant under the shift by the largest value
      miso::IEAggregateIntegratorNumerator N(rho);
      miso::IEAggregateIntegratorDenominator D(rho);
      setInputs(N, {{"true_max", field_max(c.w, field)}});
      setInputs(D, {{"true_max", field_max(c.w, field)}});
      return sum(c.w, N, c.attrs, field) / sum(c.w, D, c.attrs, field);
   };
   auto change = [&] {
      if (g.flip())
      {
         rho = g.real(0.5, 10);
         setOptions(out, json{{"rho", rho}});
      }
      else { c.w.random(g, field, 0.7, 0.2); }
   };
   history(g, c, out, ref, change, {"mesh_coords", field}, "maximum", 0.01);
   if (g.chance(1, 3))
   {
      double m = calcOutput(out, c.in()), lo = 1e300, hi = -1e300;
      // an average of the state's values, however large the state
      for (int e = 0; e < c.w.mesh->GetNE(); ++e)
      {
         if (!c.w.in(c.w.mesh->GetAttribute(e), c.attrs)) { continue; }
         auto &T = *c.w.mesh->GetElementTransformation(e);
         each_point(T, IntRules.Get(c.w.mesh->GetElementGeometry(e), 12), [&](const IntegrationPoint &ip, double) {
            double v = c.w.value(field, T, ip);
            lo = std::min(lo, v);
            hi = std::max(hi, v);
         });
      }
      double pad = 0.2 * (hi - lo) + 1e-9;
      g.check(m >= lo - pad && m <= hi + pad, "maximum outside the field's range", str(m, " not in [", lo, ", ", hi, "]"));
      // large fields do not overflow
      Vector v = c.w.tv[field], v0 = v;
      double sh = g.real(100, 1000);
      v += sh;
      c.w.set(field, v);
      same(g, calcOutput(out, c.in()), m + sh, "maximum of a shifted field", str("shift ", sh), 1e-7);
      c.w.set(field, v0);
   }
}
void curl_maximum(Gen &g)
{
   Quiet q;
   int dim = a_dim(g);
   Case c(g, dim, dim == 2 ? "H1" : "nedelec", a_degree(g, dim, 1));
   sloped(g, c.w);
   double rho = g.real(0.5, 6);
   c.opts["rho"] = rho;
   MISOOutput out(miso::IECurlMagnitudeAggregateFunctional(c.w.at("state").space(), c.w.fields, c.opts));
   auto ref = [&] {
      miso::IECurlMagnitudeAggregateIntegratorNumerator N(rho);
      miso::IECurlMagnitudeAggregateIntegratorDenominator D(rho);
      return sum(c.w, N, c.attrs, "state") / sum(c.w, D, c.attrs, "state");
   };
   auto change = [&] {
      if (g.flip())
      {
         rho = g.real(0.5, 6);
         setOptions(out, json{{"rho", rho}});
      }
      else { sloped(g, c.w); }
   };
   history(g, c, out, ref, change, {"mesh_coords", "state"}, "curl maximum", 0.005);
}
/// a functional put together by hand: terms on regions and on boundaries, both
/// following the "attributes" option
void functional(Gen &g)
{
   Quiet q;
   int dim = a_dim(g);
   Case c(g, dim, g.flip() ? "H1" : "DG", a_degree(g, dim, 1));
   World &w = c.w;
   std::vector<int> sides(w.mesh->bdr_attributes.begin(), w.mesh->bdr_attributes.end());
   if (sides.empty()) { g.discard(); }
   auto choose = [&](const std::vector<int> &from) {
      std::vector<int> a;
      for (int k : from)
         if (g.flip()) { a.push_back(k); }
      if (a.empty()) { a.push_back(g.pick(from)); }
      return a;
   };
   Spread kappa(g, false);
   auto &fes = w.at("state").space();
   std::vector<int> on_sides, in_parts;      // empty: everywhere
   bool parts = g.flip(), flux = !parts || g.chance(2, 3), two = flux && g.chance(1, 3);
   std::vector<int> second;
   Spread kappa2(g, false);
   miso::FunctionalOutput f(fes, w.fields);
   if (flux)
   {
      if (g.chance(1, 4)) { f.addOutputBdrFaceIntegrator(new miso::BoundaryNormalIntegrator(kappa)); }
      else { f.addOutputBdrFaceIntegrator(new miso::BoundaryNormalIntegrator(kappa), on_sides = choose(sides)); }
   }
   if (parts)
   {
      if (g.chance(1, 4)) { f.addOutputDomainIntegrator(new miso::StateIntegrator()); }
      else { f.addOutputDomainIntegrator(new miso::StateIntegrator(), in_parts = choose(w.attrs)); }
   }
   if (two) { f.addOutputBdrFaceIntegrator(new miso::BoundaryNormalIntegrator(kappa2), second = choose(sides)); }
   g.label(str(parts ? "regions " : "", flux ? "sides" : "", two ? " twice" : ""));
   MISOOutput out(std::move(f));
   auto on = [&](Spread &k, const std::vector<int> &a) {
      Marker m;
      if (!a.empty())
      {
         m.assign(w.mesh->bdr_attributes.Max(), false);
         for (int j : a) { m[j - 1] = true; }
      }
      miso::BoundaryNormalIntegrator I(k);
      return bdr_energy(I, fes, w.at("state").gridFunc(), m);
   };
   auto ref = [&] {
      double s = 0;
      if (flux) { s += on(kappa, on_sides); }
      if (two) { s += on(kappa2, second); }
      miso::StateIntegrator I;
      if (parts) { s += sum(w, I, in_parts, "state"); }
      return s;
   };
   // attributes that both regions and boundaries may have
   std::vector<int> common;
   int top = std::min(w.mesh->bdr_attributes.Max(), w.mesh->attributes.Max());
   for (int k = 1; k <= top; ++k) { common.push_back(k); }
   auto change = [&] {
      auto a = choose(common);
      json o{{"attributes", a}};
      setOptions(out, o);
      if (flux && !on_sides.empty()) { on_sides = a; }
      if (two) { second = a; }
      if (parts && !in_parts.empty()) { in_parts = a; }
   };
   c.attrs.clear();
   std::vector<std::string> wrts{"state"};
   if (!flux) { wrts.push_back("mesh_coords"); }
   history(g, c, out, ref, change, wrts, "functional", 0.02);
   // the partial derivative, at inputs the output sees for the first time
   if (g.flip()) { w.random(g, "state", 0.7); }
   else { w.move_nodes(g, 0.01); }
   std::string wrt = g.pick(wrts);
   Vector x = w.tv.at(wrt), partial(x.Size()), bar(x.Size());
   partial = 7.0;
   bar = 0.0;
   calcOutput(out, c.in());
   vectorJacobianProduct(out, one(1.0), wrt, bar);
   calcOutputPartial(out, wrt, c.in(), partial);
   partial -= bar;
   g.close(partial.Normlinf(), 0.0, 1e-9 * (1e-3 + bar.Normlinf()), "functional partial", "d/d" + wrt);
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props{
       {"volume", volume, 300, 6000},
       {"mass", mass, 400, 8000},
       {"state-average", average, 400, 8000},
       {"curl-average", curl_average, 300, 6000},
       {"maximum", maximum, 400, 8000},
       {"curl-maximum", curl_maximum, 300, 6000},
       {"functional", functional, 300, 6000},
   };
   Runner r("P20", props, "an output was evaluated on a random mesh with random inputs and compared with its reference");
   r.assumptions = {"one MPI rank", "inputs name the state and the mesh coordinates whenever derivatives of ratios are asked for", "integrals of the single integrators are those of P19"};
   return r.main(argc, argv);
}
