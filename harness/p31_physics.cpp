// P31: see p31_ranks.cpp
#include "ranks.hpp"
#include "outgen.hpp"
#include "electromag_integ.hpp"
#include "magnetostatic.hpp"
#include "thermal.hpp"
#include "irrotational_projector.hpp"
#include "div_free_projector.hpp"
#include "evolvergen.hpp"
#include "mesh_warper.hpp"
using namespace outgen;
using namespace ranks;
using namespace miso;

namespace
{
typedef std::vector<int> Attrs;
typedef std::vector<std::string> Names;
const double NU = 1 / (4e-7 * M_PI);

/// a smooth function of position, with as many components as asked for
struct Wave
{
   double k[6][3], c[6], a, b;
   Wave(Gen &g, double amp, double shift, double freq)
   {
      for (auto &r : k)
         for (double &x : r) { x = g.sym(freq); }
      for (double &x : c) { x = g.sym(3); }
      a = amp;
      b = shift;
   }
   double at(const Vector &x, int i = 0) const
   {
      double s = c[i];
      for (int d = 0; d < x.Size(); ++d) { s += k[i][d] * x(d); }
      return b + a * std::sin(s);
   }
};
/// a wave in a space of the field, as true values
Vector in_space(ParFiniteElementSpace &fes, const Wave &w)
{
   ParGridFunction gf(&fes);
   bool vec = fes.GetNE() == 0 ? false : fes.GetFE(0)->GetRangeType() == FiniteElement::VECTOR;
   int n = vec ? fes.GetParMesh()->SpaceDimension() : fes.GetVDim();
   if (n == 1 && !vec)
   {
      FunctionCoefficient c([&](const Vector &x) { return w.at(x); });
      gf.ProjectCoefficient(c);
   }
   else
   {
      VectorFunctionCoefficient c(n, [&](const Vector &x, Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = w.at(x, i); } });
      gf.ProjectCoefficient(c);
   }
   Vector t;
   gf.GetTrueDofs(t);
   return t;
}
/// a wave as a load: paired with the basis functions
Vector load_of(ParFiniteElementSpace &fes, const Wave &w)
{
   ParLinearForm l(&fes);
   FunctionCoefficient c([&](const Vector &x) { return w.at(x); });
   l.AddDomainIntegrator(new mfem::DomainLFIntegrator(c));
   l.Assemble();
   std::unique_ptr<HypreParVector> v(l.ParallelAssemble());
   return Vector(*v);
}
Attrs some(Gen &g, const Attrs &from, int num = 1, int den = 2)
{
   Attrs a;
   for (int k : from)
      if (g.chance(num, den)) { a.push_back(k); }
   return a;
}
void boundary_attrs(Mesh &m, Attrs &outer, Attrs &inner)
{
   for (int b = 0; b < m.GetNBE(); ++b)
   {
      int f = m.Dimension() == 2 ? m.GetBdrElementEdgeIndex(b) : m.GetBdrFace(b), a = m.GetBdrAttribute(b);
      Attrs &l = m.FaceIsInterior(f) ? inner : outer;
      if (!std::count(l.begin(), l.end(), a)) { l.push_back(a); }
   }
   std::sort(outer.begin(), outer.end());
   std::sort(inner.begin(), inner.end());
}
bool spread(Mesh &m)
{
   int n = world();
   if (m.GetNE() < n) { return false; }
   Mesh c(m);
   int *p = c.GeneratePartitioning(n);
   std::vector<int> k(n);
   for (int i = 0; i < c.GetNE(); ++i) { ++k[p[i]]; }
   delete[] p;
   return !std::count(k.begin(), k.end(), 0);
}
struct Scratch
{
   char dir[32] = "/tmp/pbtXXXXXX";
   char old[4096];
   Scratch()
   {
      if (!getcwd(old, sizeof old) || !mkdtemp(dir) || chdir(dir)) { abort(); }
   }
   ~Scratch()
   {
      if (chdir(old)) { abort(); }
      if (system(("rm -rf " + std::string(dir)).c_str())) { abort(); }
   }
};
json basics(const std::string &basis, int p)
{
   json o;
   o["silent"] = true;
   o["print-options"] = false;
   o["mesh"]["file"] = "generated.mesh";
   o["paraview"]["log"] = false;
   o["space-dis"] = {{"basis-type", basis}, {"degree", p}};
   o["lin-prec"] = {{"type", "none"}, {"printlevel", 0}};
   o["lin-solver"] = {{"type", "gmres"}, {"printlevel", 0}, {"maxiter", 600}, {"abstol", 1e-15}, {"reltol", 1e-14}, {"kdim", 300}};
   o["adj-solver"] = o["lin-solver"];
   o["nonlin-solver"] = {{"type", "newton"}, {"printlevel", -1}, {"maxiter", 40}, {"abstol", 1e-12}, {"reltol", 1e-15}};
   return o;
}
template <typename S>
struct Open : S
{
   using S::S;
   using S::fields;
   using S::mesh;
   ParFiniteElementSpace &space() { return S::state().space(); }
};
struct Out
{
   std::string name;
   json opt = json::object();
   bool implicit = true, vector = false;
   Names wrt;
};
/// solve and differentiate
template <typename S>
void life(Gen &g, Obs &o, const json &opt, const Mesh &mesh, const Names &fields, std::map<std::string, double> num, const Names &rev, const std::vector<Out> &outs, bool dg)
{
   Open<S> s(o.comm, opt, std::make_unique<Mesh>(mesh));
   auto &fes = s.space();
   int n = s.getStateSize();
   o.add("size of the state", o.sum(n), 1);
   Wave bc(g, 1, 0.3, 2);
   std::map<std::string, Vector> tv;
   s.getMeshCoordinates(tv["mesh_coords"]);
   for (auto &f : fields)
   {
      if (f == "thermal_load")
      {
         tv[f] = load_of(fes, Wave(g, 0.5, 0.2, 4));
         continue;
      }
      Wave w(g, f == "peak_flux" ? 0.3 : 1.5, f == "peak_flux" ? 1 : 0, 3);
      tv[f] = in_space(s.fields.at(f).space(), w);
   }
   std::vector<Vector> tests;
   for (int i = 0; i < 3; ++i) { tests.push_back(in_space(fes, Wave(g, 1, 0, 12))); }
   Vector move = in_space(*dynamic_cast<ParFiniteElementSpace *>(s.mesh().GetNodes()->FESpace()), Wave(g, 1, 0, 9));
   for (auto &out : outs) { s.createOutput(out.name, out.opt); }
   auto f = [&](const Vector &x) { return bc.at(x); };
   Vector u(n);
   u = 0.0;
   s.setState(f, u);
   for (auto &t : tests) { o.dot("state from a function", u, t); }
   Wave other(g, 1, 0, 3);
   auto f2 = [&](const Vector &x) { return other.at(x); };
   o.add("error of the state", s.calcStateError(f2, u));
   Inputs in;
   for (auto &[k, v] : tv) { in.emplace(k, v); }
   for (auto &[k, v] : num) { in.emplace(k, v); }
   Vector r(n);
   auto with = [&] {
      Inputs i(in);
      i["state"] = u;
      return i;
   };
   s.calcResidual(with(), r);
   for (auto &t : tests) { o.dot("residual", r, t, 1e-3); }
   o.add("norm of the residual", s.calcResidualNorm(with()), 1e-3);
   s.solveForState(in, u);
   // solved up to the tolerance of the solver
   for (auto &t : tests) { o.dot("solved state", u, t, 1e2); }
   for (auto &out : outs)
   {
      Vector v(out.vector ? s.getOutputSize(out.name) : 1);
      v = 0.0;
      s.calcOutput(out.name, with(), v);
      if (!out.vector) { o.add(out.name, v(0), 1e1); }
      else
      {
         double a = v * v, b = 0;
         for (double x : v) { b += x * x * x * x; }
         o.add(out.name, o.sum(a), 1);
         o.add(out.name + " 4", o.sum(b), 1);
      }
   }
   for (auto &out : outs)
   {
      if (out.vector) { continue; }
      Vector bar(1), ubar(n), psi(n), v(1);
      bar = 1.0;
      s.calcOutput(out.name, with(), v);
      for (auto &w : out.wrt)
      {
         Vector x(num.count(w) ? 1 : tv[w].Size());
         x = 0.0;
         s.outputVectorJacobianProduct(out.name, with(), bar, w, x);
         std::string key = "d " + out.name + "/d " + w;
         if (w == "mesh_coords") { o.dot(key, x, move, 1e1); }
         else { o.dot(key, x, in_space(s.fields.at(w).space(), Wave(g, 1, 0, 9)), 1e1); }
      }
      if (!out.implicit) { continue; }
      ubar = 0.0;
      psi = 0.0;
      s.outputVectorJacobianProduct(out.name, with(), bar, "state", ubar);
      for (auto &t : tests) { o.dot("d " + out.name + "/d state", ubar, t, 1e1); }
      s.linearize(with());
      s.solveForAdjoint(with(), ubar, psi);
      for (auto &t : tests) { o.dot("adjoint of " + out.name, psi, t, 1e2); }
      s.linearize(with());
      for (auto &w : rev)
      {
         std::string key = "adjoint d " + out.name + "/d " + w;
         if (num.count(w)) { o.add(key, o.sum(s.vectorJacobianProduct(psi, w)), 1e2); }
         else
         {
            Vector x(tv[w].Size());
            x = 0.0;
            s.vectorJacobianProduct(psi, w, x);
            if (w == "mesh_coords") { o.dot(key, x, move, 1e2); }
            else if (w == "thermal_load") { o.dot(key, x, load_of(fes, Wave(g, 1, 0, 9)), 1e2); }
            else { o.dot(key, x, in_space(s.fields.at(w).space(), Wave(g, 1, 0, 9)), 1e2); }
         }
      }
   }
   g.nontrivial();
}
std::unique_ptr<Mesh> a_mesh(Gen &g, int dim, bool internal)
{
   MeshSpec ms;
   ms.internal = internal;
   ms.max2 = 4;
   ms.max3 = 2;
   auto m = std::move(fem_mesh(g, dim, ms).mesh);
   if (!spread(*m)) { g.discard(); }
   return m;
}
void thermal_case(Gen &g, Obs &o)
{
   Quiet q;
   int dim = g.chance(3, 4) ? 2 : 3;
   bool dg = false;   // terms on shared faces are the stand-in's business
   auto mesh = a_mesh(g, dim, dg);
   int p = g.irange(1, dim == 2 ? 2 : 1);
   Attrs outer, inner, attrs(mesh->attributes.begin(), mesh->attributes.end());
   boundary_attrs(*mesh, outer, inner);
   json opt = basics(dg ? "dg" : "h1", p);
   std::map<std::string, double> num;
   Names rev, fields;
   for (size_t i = 0; i < attrs.size(); ++i)
   {
      json &c = opt["components"][str("part", i)];
      c["attrs"] = Attrs{attrs[i]};
      c["material"] = {{"name", str("stuff", i)}, {"kappa", g.real(0.5, 3)}};
   }
   bool strong = !dg && g.flip();
   Attrs fixed = some(g, outer, 2, 3), conv = some(g, outer);
   if (fixed.empty()) { fixed = {outer[0]}; }
   opt["bcs"][strong ? "essential" : "weak-essential"] = fixed;
   if (!conv.empty())
   {
      opt["bcs"]["convection"] = {{"attrs", conv}, {"h", num["h"] = g.real(0.2, 3)}, {"fluid_temp", num["fluid_temp"] = g.sym(2)}};
      rev = {"h", "fluid_temp"};
   }
   Attrs out = some(g, outer);
   if (!out.empty() && g.flip()) { opt["bcs"]["outflux"] = {{"attrs", out}, {"flux", g.sym(2)}}; }
   Attrs gap = some(g, inner, 2, 3);
   if (!gap.empty())
   {
      opt["interfaces"]["thermal_contact_resistance"]["gap"] = {{"attrs", gap}, {"h", num["h:gap"] = g.real(0.5, 3)}};
      rev.push_back("h:gap");
      g.label("contact");
   }
   rev.push_back("mesh_coords");
   if (g.flip())
   {
      fields = {"thermal_load"};
      rev.push_back("thermal_load");
   }
   std::vector<Out> outs;
   {
      Out x;
      x.name = "thermal_flux";
      Attrs a = some(g, outer, 2, 3);
      if (!a.empty()) { x.opt["attributes"] = a; }
      outs.push_back(x);
   }
   for (std::string k : {"max_state", "average_state"})
   {
      Out x;
      x.name = k;
      Attrs a = some(g, attrs, 2, 3);
      if (!a.empty() && g.flip()) { x.opt["attributes"] = a; }
      if (k == "max_state") { x.opt["rho"] = g.real(0.5, 5); }
      x.wrt = {"mesh_coords"};
      outs.push_back(x);
   }
   g.label(str(dim, "D ", dg ? "DG" : "H1", strong ? " strong" : ""));
   g.note(opt.dump());
   life<ThermalSolver>(g, o, opt, *mesh, fields, num, rev, outs, dg);
}
void thermal(Gen &g) { both(g, thermal_case, 1e-8); }

void magneto_case(Gen &g, Obs &o)
{
   Quiet q;
   Scratch scratch;
   bool dg = false;
   auto mesh = a_mesh(g, 2, false);
   int p = g.irange(1, 2);
   Attrs outer, inner, attrs(mesh->attributes.begin(), mesh->attributes.end());
   boundary_attrs(*mesh, outer, inner);
   json opt = basics(dg ? "dg" : "h1", p);
   std::map<std::string, double> num;
   Names rev, fields{"temperature", "peak_flux"};
   Attrs magnet = some(g, attrs, 1, 3);
   for (size_t k = 0; k < attrs.size(); ++k)
   {
      json m{{"name", str("stuff", k)}, {"mu_r", NU / g.real(0.5, 2)}, {"rho", g.real(0.5, 3)}, {"sigma", g.real(0.5, 2)}, {"ks", g.real(0.1, 2)}, {"alpha", g.real(1, 2)}, {"beta", g.real(1, 2)}};
      json cal2{{"T0", g.real(-0.5, 0.2)}, {"T1", g.real(0.5, 2)}};
      for (std::string s : {"kh_T0", "kh_T1", "ke_T0", "ke_T1"}) { cal2[s] = std::vector<double>{g.sym(1.5), g.sym(1.5)}; }
      m["core_loss"]["CAL2"] = cal2;
      bool mag = std::count(magnet.begin(), magnet.end(), attrs[k]);
      if (mag)
      {
         m["B_r_T_ref"] = g.real(0.5, 1.5);
         m["alpha_B_r"] = g.sym(0.3);
         m["T_ref"] = g.real(0, 2);
         opt["magnets"][str("stuff", k)][g.flip() ? "x" : "y"] = Attrs{attrs[k]};
         g.label("magnets");
      }
      opt["components"][str("part", k)] = {{"attrs", Attrs{attrs[k]}}, {"material", m}};
   }
   if (!magnet.empty()) { rev.push_back("temperature"); }
   bool strong = !dg && g.flip();
   Attrs fixed = some(g, outer, 2, 3);
   if (fixed.empty()) { fixed = {outer[0]}; }
   opt["bcs"][strong ? "essential" : "weak-essential"] = fixed;
   Attrs current = some(g, attrs, 2, 3);
   if (!current.empty())
   {
      opt["current"]["phase"][g.flip() ? "z" : "-z"] = current;
      num["current_density:phase"] = g.real(0.5, 2);
      rev.push_back("current_density:phase");
   }
   rev.push_back("mesh_coords");
   std::vector<Out> outs;
   Names kinds{"energy", "flux_density", "flux_magnitude", "average_flux_magnitude", "max_flux_magnitude", "max_state", "mass", "volume", "core_loss"};
   if (!dg) { kinds.insert(kinds.end(), {"force", "torque"}); }
   if (!current.empty()) { kinds.insert(kinds.end(), {"dc_loss", "ac_loss", "heat_source"}); }
   for (auto &k : kinds)
   {
      if (!g.flip()) { continue; }
      Out x;
      x.name = k;
      x.wrt = {"mesh_coords"};
      Attrs s = some(g, attrs, 2, 3);
      if (s.empty()) { s = {attrs[0]}; }
      x.vector = k == "flux_density" || k == "flux_magnitude" || k == "heat_source";
      if (!x.vector && k.find("c_loss") == std::string::npos && (g.flip() || k == "force" || k == "torque")) { x.opt["attributes"] = s; }
      x.implicit = !(k == "mass" || k == "volume" || k == "core_loss" || k == "dc_loss" || k == "ac_loss" || k == "heat_source");
      if (k == "force") { x.opt["axis"] = std::vector<double>{g.sym(2), g.sym(2)}; }
      if (k == "torque")
      {
         x.opt["axis"] = std::vector<double>{0, 0, 1};
         x.opt["about"] = std::vector<double>{g.sym(1), g.sym(1), 0};
      }
      if (k.rfind("max", 0) == 0) { x.opt["rho"] = g.real(0.5, 4); }
      if (k == "dc_loss" || k == "ac_loss")
         for (std::string y : k == "dc_loss" ? Names{"wire_length", "rms_current", "strand_radius", "strands_in_hand"} : Names{"strand_radius", "frequency", "stack_length", "strands_in_hand", "num_turns", "num_slots"})
            if (!num.count(y)) { num[y] = g.real(0.5, 2); }
      if (k == "heat_source")
         for (std::string y : {"dc_loss", "ac_loss", "core_loss"}) { x.opt[y] = json::object(); }
      outs.push_back(x);
   }
   g.label(str(dg ? "DG" : "H1", strong ? " strong" : ""));
   g.note(opt.dump());
   for (auto &x : outs) { g.label(x.name); }
   life<MagnetostaticSolver>(g, o, opt, *mesh, fields, num, rev, outs, dg);
}
void magnetostatic(Gen &g) { both(g, magneto_case, 1e-8); }

// ---------------------------------------------------------- fields, potentials
void fields_case(Gen &g, Obs &o)
{
   Quiet q;
   int dim = g.chance(2, 3) ? 2 : 3;
   MeshSpec ms;
   ms.max2 = 3;
   auto serial = std::move(fem_mesh(g, dim, ms).mesh);
   auto mesh = distribute(g, *serial, o.comm);
   std::string kind = g.pick(Names{"H1", "DG", "nedelec", "RT"});
   bool vec = kind == "nedelec" || kind == "RT";
   int p = g.irange(1, 2), vdim = vec ? 1 : g.irange(1, 2);
   FiniteElementState s(*mesh, json{{"degree", p}, {"basis-type", kind}}, vdim, "field");
   g.label(str(kind, vec ? "" : vdim > 1 ? " vector" : ""));
   Wave w(g, 1, 0.2, 4), e(g, 1, 0, 4);
   int n = vec ? dim : vdim;
   auto f = [&](const Vector &x) { return w.at(x); };
   auto fv = [&](const Vector &x, Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = w.at(x, i); } };
   VectorFunctionCoefficient ev(n, [&](const Vector &x, Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = e.at(x, i); } });
   FunctionCoefficient es([&](const Vector &x) { return e.at(x); });
   Vector t(s.space().GetTrueVSize());
   t = 0.0;
   if (n == 1 && !vec)
   {
      if (g.flip()) { s.project(f, t); }
      else
      {
         FunctionCoefficient c(f);
         s.project(c, t);
      }
   }
   else
   {
      VectorFunctionCoefficient c(n, fv);
      s.project(c, t);
   }
   s.distributeSharedDofs(t);
   Vector back(t.Size());
   s.setTrueVec(back);
   back -= t;
   o.add("there and back", o.sum(back.Norml1()), 1);
   double pn = g.pick(std::vector<double>{1, 2, 3, std::numeric_limits<double>::infinity()});
   if (!vec && vdim == 1)
   {
      o.add("norm", calcLpNorm(s, pn));
      o.add("L2 error", calcL2Error(s, static_cast<Coefficient &>(es)));
      o.add("Lp error", calcLpError(s, static_cast<Coefficient &>(es), pn));
   }
   else
   {
      o.add("L2 error", calcL2Error(s, static_cast<VectorCoefficient &>(ev), g.irange(-1, n - 1)));
      o.add("Lp error", calcLpError(s, static_cast<VectorCoefficient &>(ev), pn));
   }
   o.add("global size", o.sum(t.Size()), 1);
   g.nontrivial();
}
void fields(Gen &g) { both(g, fields_case, 1e-10); }

void projector_case(Gen &g, Obs &o)
{
   Quiet q;
   int dim = g.chance(1, 2) ? 2 : 3, p = dim == 2 ? g.irange(1, 2) : 1;
   MeshSpec ms;
   ms.max2 = 3;
   ms.max3 = 2;
   auto serial = std::move(fem_mesh(g, dim, ms).mesh);
   auto mesh = distribute(g, *serial, o.comm);
   ND_FECollection ndc(p, dim);
   H1_FECollection h1c(p, dim);
   ParFiniteElementSpace nd(mesh.get(), &ndc), h1(mesh.get(), &h1c);
   bool free = g.flip();
   int order = 2 * p + 2 + g.irange(0, 2);
   g.label(free ? "divergence-free" : "irrotational");
   ParGridFunction x(&nd), y(&nd), a(&nd);
   x.SetFromTrueDofs(in_space(nd, Wave(g, 1, 0, 4)));
   y = 0.0;
   std::unique_ptr<IrrotationalProjector> irr;
   std::unique_ptr<DivergenceFreeProjector> div;
   if (free)
   {
      div.reset(new DivergenceFreeProjector(h1, nd, order));
      div->Mult(x, y);
   }
   else
   {
      irr.reset(new IrrotationalProjector(h1, nd, order));
      irr->Mult(x, y);
   }
   for (int i = 0; i < 3; ++i)
   {
      Wave w(g, 1, 0, 8);
      VectorFunctionCoefficient c(dim, [&](const Vector &z, Vector &v) { for (int k = 0; k < v.Size(); ++k) { v(k) = w.at(z, k); } });
      ParLinearForm l(&nd);
      l.AddDomainIntegrator(new mfem::VectorFEDomainLFIntegrator(c));
      l.Assemble();
      std::unique_ptr<HypreParVector> lv(l.ParallelAssemble());
      Vector t;
      y.GetTrueDofs(t);
      o.dot("projection", t, *lv, 1);
   }
   g.nontrivial();
}
void projector(Gen &g) { both(g, projector_case, 1e-7); }
// ------------------------------------------------- slopes of evolving systems
void evolver_case(Gen &g, Obs &o)
{
   Quiet q;
   bool implicit = g.flip();
   int dim = g.chance(2, 3) ? 2 : 3, p = g.irange(1, dim == 2 ? 2 : 1);
   bool pa = !implicit && g.chance(1, 3), pak = !implicit && g.chance(1, 3);
   std::unique_ptr<Mesh> serial;
   if (pa || pak)   // partial assembly only exists for these
   {
      serial.reset(new Mesh(dim == 2 ? Mesh::MakeCartesian2D(g.irange(2, 4), g.irange(2, 3), Element::QUADRILATERAL, true, g.real(0.5, 2), 1.0, false)
                                     : Mesh::MakeCartesian3D(g.irange(2, 3), 2, 1, Element::HEXAHEDRON, g.real(0.5, 2), 1.0, 1.0, false)));
   }
   else
   {
      MeshSpec ms;
      ms.max2 = 3;
      serial = std::move(fem_mesh(g, dim, ms).mesh);
   }
   auto mesh = distribute(g, *serial, o.comm);
   H1_FECollection fec(p, dim);
   ParFiniteElementSpace fes(mesh.get(), &fec);
   int n = fes.GetTrueVSize();
   Array<int> ess_bdr(serial->bdr_attributes.Size() ? serial->bdr_attributes.Max() : 1), ess;
   ess_bdr = 0;
   if (g.chance(2, 3))
      for (int &e : ess_bdr) { e = g.chance(1, 3); }
   fes.GetEssentialTrueDofs(ess_bdr, ess);
   int kind = implicit ? g.irange(0, 2) : 0;
   bool has_k = g.flip(), has_r = kind == 2 || g.chance(2, 3), set_ess = has_r && g.flip();
   ConstantCoefficient mc(g.logreal(0.1, 10)), kc(g.logreal(0.1, 3));
   auto bil = [&](bool mass, bool partial) {
      std::unique_ptr<ParBilinearForm> f(new ParBilinearForm(&fes));
      if (partial) { f->SetAssemblyLevel(AssemblyLevel::PARTIAL); }
      if (mass) { f->AddDomainIntegrator(new mfem::MassIntegrator(mc)); }
      else { f->AddDomainIntegrator(new mfem::DiffusionIntegrator(kc)); }
      f->Assemble();
      if (!partial) { f->Finalize(); }
      return f;
   };
   auto form = [&](double k, double a, double b) {
      std::unique_ptr<ParNonlinearForm> f(new ParNonlinearForm(&fes));
      f->AddDomainIntegrator(new evolvergen::Cubic(k, a, b));
      return f;
   };
   std::unique_ptr<ParBilinearForm> mass, stiff;
   std::unique_ptr<ParNonlinearForm> res, nlmass, ent;
   if (kind == 0) { mass = bil(true, pa); }
   if (has_k) { stiff = bil(false, pak); }
   if (has_r)
   {
      double ka = g.flip() ? g.logreal(0.1, 3) : 0.0, a = g.real(0.2, 2);
      res = form(ka, a, g.flip() ? g.real(0.1, 2) : 0.0);
      if (set_ess) { res->SetEssentialBC(ess_bdr); }
   }
   if (kind == 1)
   {
      double a = g.logreal(0.3, 3);
      nlmass = form(0, a, g.flip() ? g.real(0.1, 2) : 0.0);
   }
   double ek = g.real(0, 1), ea = g.sym(2);
   ent = form(ek, ea, g.sym(1));
   auto l = std::make_shared<Vector>(load_of(fes, Wave(g, 1, 0, 4)));
   bool has_l = g.chance(2, 3);
   MISOLoad load(evolvergen::Load{l});
   g.label(str(implicit ? "implicit" : "explicit", kind == 0 ? " mass" : kind == 1 ? " nlmass" : " nomass", pa || pak ? " partial" : ""));
   std::ostringstream out;
   MISOEvolver e(ess_bdr, nlmass.get(), mass.get(), res.get(), stiff.get(), has_l ? &load : nullptr, ent.get(), out, 0.0,
                 implicit ? TimeDependentOperator::IMPLICIT : TimeDependentOperator::EXPLICIT, false);
   GMRESSolver lin(o.comm);
   lin.SetRelTol(1e-13);
   lin.SetAbsTol(1e-300);
   lin.SetMaxIter(1000);
   lin.SetKDim(300);
   lin.SetPrintLevel(-1);
   NewtonSolver newt(o.comm);
   newt.SetSolver(lin);
   newt.SetRelTol(0);
   newt.SetAbsTol(1e-11);
   newt.SetMaxIter(60);
   newt.SetPrintLevel(-1);
   if (implicit)
   {
      e.SetLinearSolver(&lin);
      e.SetNewtonSolver(&newt);
   }
   int steps = g.irange(1, 3);
   for (int s = 0; s < steps; ++s)
   {
      if (has_l && s && g.flip()) { *l = load_of(fes, Wave(g, 1, 0, 4)); }
      Vector x = in_space(fes, Wave(g, 0.5, 0, 4)), k(n), t = load_of(fes, Wave(g, 1, 0, 8));
      k = 0.0;
      double dt = g.pick(std::vector<double>{0.3, 0.1, 0.02, 0.6});
      if (implicit)
      {
         e.ImplicitSolve(dt, x, k);
         if (!newt.GetConverged())
         {
            g.label("Newton did not converge");
            break;
         }
         Vector d = in_space(fes, Wave(g, 1, 0, 4)), y = in_space(fes, Wave(g, 1, 0, 4)), Jd(n);
         for (int i : ess) { d(i) = y(i) = 0.0; }
         e.GetGradient(y).Mult(d, Jd);
         o.dot("gradient", Jd, in_space(fes, Wave(g, 1, 0, 8)), 1e-6);
      }
      else { e.Mult(x, k); }
      o.dot("slope", k, t, 1e-4);
      double worst = 0;
      for (int i : ess) { worst = std::max(worst, std::fabs(k(i))); }
      o.add("slope at essential degrees of freedom", o.max(worst), 1);
      o.add("entropy", e.Entropy(x), 1e-2);
      if (res) { o.add("entropy change", e.EntropyChange(dt, x, k), 1e-2); }
   }
   g.nontrivial();
}
void evolver(Gen &g) { both(g, evolver_case, 1e-6); }
// -------------------------------------------------------------- mesh movement
void warper_case(Gen &g, Obs &o)
{
   Quiet q;
   Scratch scratch;
   int dim = g.chance(2, 3) ? 2 : 3, p = g.irange(1, dim == 2 ? 2 : 1);
   MeshSpec ms;
   ms.max2 = 4;
   ms.max3 = 2;
   ms.curved = false;
   auto m = std::move(fem_mesh(g, dim, ms).mesh);
   if (!spread(*m)) { g.discard(); }
   m->SetCurvature(p, false, -1, Ordering::byVDIM);
   if (p > 1 && g.flip())
   {
      Wave w(g, 0.02, 0, 4);
      VectorFunctionCoefficient c(dim, [&](const Vector &x, Vector &v) { for (int i = 0; i < dim; ++i) { v(i) = x(i) + w.at(x, i); } });
      m->GetNodes()->ProjectCoefficient(c);
   }
   auto lin = [&] { return json{{"type", "gmres"}, {"printlevel", -1}, {"maxiter", 400}, {"kdim", 400}, {"abstol", 1e-15}, {"reltol", 1e-14}}; };
   json opt = {{"print-options", false}, {"mesh", {{"file", "any.mesh"}}}, {"space-dis", {{"degree", p}, {"basis-type", "H1"}}}, {"lin-solver", lin()}, {"adj-solver", lin()},
               {"nonlin-solver", {{"type", "newton"}, {"printlevel", -1}, {"maxiter", 6}, {"reltol", 1e-13}, {"abstol", 1e-13}}}, {"lin-prec", {{"printlevel", 0}}}, {"bcs", {{"essential", "all"}}}};
   g.label(str(dim, "D p", p));
   MeshWarper w(o.comm, opt, std::move(m));
   Vector v0, s0;
   Array<int> idx;
   w.getInitialVolumeCoords(v0);
   w.getInitialSurfaceCoords(s0);
   w.getSurfCoordIndices(idx);
   int n = v0.Size(), ns = s0.Size();
   o.add("volume size", o.sum(w.getVolumeCoordsSize()), 1);
   o.add("surface size", o.sum(w.getSurfaceCoordsSize()), 1);
   auto field = [&](double amp, double freq) {
      Wave f(g, amp, 0, freq);
      Vector v(n), x(dim);
      for (int i = 0; i < n; i += dim)
      {
         for (int d = 0; d < dim; ++d) { x(d) = v0(i + d); }
         for (int d = 0; d < dim; ++d) { v(i + d) = f.at(x, d); }
      }
      return v;
   };
   auto surface = [&](const Vector &v) {
      Vector s;
      v.GetSubVector(idx, s);
      return s;
   };
   o.dot("initial volume", v0, field(1, 9));
   o.dot("initial surface", s0, surface(field(1, 9)));
   Vector x(v0), s(s0);
   int steps = g.irange(1, 4);
   for (int k = 0; k < steps; ++k)
   {
      int op = k == 0 ? 0 : g.irange(0, 3);
      Vector t = field(1, 9);
      if (op == 0)
      {
         s = s0;
         s += surface(field(0.1, 3));
         Vector y(g.flip() ? x : v0);
         for (int i = 0; i < idx.Size(); ++i) { y(idx[i]) = s(i); }
         Inputs in;
         if (g.flip()) { in.emplace("surf_mesh_coords", s); }
         w.solveForState(in, y);
         x = y;
         o.dot("solved volume", x, t, 1e2);
      }
      else if (op == 1)
      {
         Vector y(x), r(n);
         if (g.flip()) { y += field(1, 3); }
         Inputs in{{"state", y}};
         if (g.flip()) { in.emplace("surf_mesh_coords", s); }
         w.calcResidual(in, r);
         o.dot("residual", r, t, 1);
         o.add("norm of the residual", w.calcResidualNorm(in), 1);
      }
      else
      {
         Inputs in{{"state", x}, {"surf_mesh_coords", s}};
         w.linearize(in);
         Vector jv(n), wb(n), js(n), sb(ns), psi = field(1, 5);
         jv = 0.0;
         wb = 0.0;
         js = 0.0;
         sb = 0.0;
         w.jacobianVectorProduct(field(1, 5), "state", jv);
         w.vectorJacobianProduct(psi, "state", wb);
         w.jacobianVectorProduct(surface(field(1, 5)), "surf_mesh_coords", js);
         o.dot("state forward", jv, t, 1);
         o.dot("state reverse", wb, t, 1);
         o.dot("surface forward", js, t, 1);
         if (op == 3)
         {
            Vector bar = field(1, 9);
            psi = 0.0;
            w.solveForAdjoint(in, bar, psi);
            o.dot("adjoint", psi, t, 1e2);
         }
         w.vectorJacobianProduct(psi, "surf_mesh_coords", sb);
         o.dot("surface reverse", sb, surface(t), 1e2);
      }
   }
   g.nontrivial();
}
void warper(Gen &g) { both(g, warper_case, 1e-8); }
}  // namespace

namespace physics
{
void add(std::vector<Prop> &props)
{
   auto put = [&](const std::string &n, Fn f, long q, long t) {
      cases()[n] = f;
      props.push_back({n, remote(n), q, t});
   };
   put("thermal", thermal, 2000, 20000);
   put("magnetostatic", magnetostatic, 1500, 20000);
   put("fields", fields, 3000, 40000);
   put("projector", projector, 1500, 20000);
   put("evolver", evolver, 3000, 40000);
   put("warper", warper, 1500, 20000);
}
}
