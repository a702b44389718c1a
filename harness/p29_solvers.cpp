// P29: the thermal and magnetostatic solvers: solved states, outputs by name,
// and total derivatives through the adjoint, over histories of inputs
#include "outgen.hpp"
#include "common_outputs.hpp"
#include "electromag_integ.hpp"
#include "electromag_outputs.hpp"
#include "l2_transfer_operator.hpp"
#include "magnetostatic.hpp"
#include "mfem_common_integ.hpp"
#include "thermal.hpp"
#include <unistd.h>

using namespace outgen;
using namespace miso;
typedef std::vector<int> Attrs;
typedef std::vector<std::string> Names;

namespace
{
const double NU = 1 / (4e-7 * M_PI);

template <typename S>
struct Open : S
{
   using S::S;
   using S::fields;
   using S::materials;
   using S::mesh;
   ParFiniteElementSpace &space() { return S::state().space(); }
};

Attrs some(Gen &g, const Attrs &from, int num = 1, int den = 2)
{
   Attrs a;
   for (int k : from)
      if (g.chance(num, den)) { a.push_back(k); }
   return a;
}
void boundary_attrs(Mesh &m, Attrs &outer, Attrs &inner)
{
   for (int b = 0; b < m.GetNBE(); ++b)
   {
      int f = m.Dimension() == 2 ? m.GetBdrElementEdgeIndex(b) : m.GetBdrFace(b), a = m.GetBdrAttribute(b);
      Attrs &l = m.FaceIsInterior(f) ? inner : outer;
      if (!std::count(l.begin(), l.end(), a)) { l.push_back(a); }
   }
   std::sort(outer.begin(), outer.end());
   std::sort(inner.begin(), inner.end());
}
json krylov(Gen &g) { return {{"type", g.flip() ? "gmres" : "fgmres"}, {"printlevel", 0}, {"maxiter", 600}, {"abstol", 1e-15}, {"reltol", 1e-14}, {"kdim", 300}}; }
json basics(Gen &g, const std::string &basis, int p)
{
   json o;
   o["silent"] = true;
   o["print-options"] = false;
   o["mesh"]["file"] = "generated.mesh";
   o["paraview"]["log"] = false;
   o["space-dis"] = {{"basis-type", basis}, {"degree", p}};
   o["lin-prec"] = {{"type", "none"}, {"printlevel", 0}};
   o["lin-solver"] = krylov(g);
   o["adj-solver"] = krylov(g);
   o["nonlin-solver"] = {{"type", g.flip() ? "newton" : "relaxednewton"}, {"printlevel", -1}, {"maxiter", 40}, {"abstol", 1e-12}, {"reltol", 1e-15}};
   if (o["nonlin-solver"]["type"] == "relaxednewton")
   {
      o["nonlin-solver"]["linesearch"] = {{"type", "backtracking"}, {"mu", 1e-4}, {"rhohi", 0.9}, {"rholo", 0.1}, {"interp-order", 3}};
   }
   return o;
}

/// one output of a solver
struct Output
{
   std::string name;
   json opt;
   bool implicit = false;                 // depends on the state
   bool vector = false;
   bool partial = false;                  // has partial derivatives, not only products
   Names no;                              // inputs it has no derivatives for
   Names wrt;                             // explicit dependencies to ask for
   std::unique_ptr<MISOOutput> own;       // built apart from the solver
   std::function<double(const Inputs &)> value;   // independent value, if any
};

template <typename S>
struct Case
{
   typedef Open<S> Solver;
   json opt;
   std::unique_ptr<Mesh> mesh;
   std::unique_ptr<Solver> a, b;     // the one with a history, and a fresh one
   std::map<std::string, Vector> tv;
   std::map<std::string, double> num;
   std::set<std::string> dirty;
   Names rev;                        // inputs that the residual depends on
   std::vector<Output> outs;
   std::function<void(Gen &, const std::string &)> change;
   double wobble = 0;                // how far nodes may move

   std::unique_ptr<Solver> fresh()
   {
      Quiet q;
      return std::make_unique<Solver>(MPI_COMM_WORLD, opt, std::make_unique<Mesh>(*mesh));
   }
   Inputs inputs() const
   {
      Inputs in;
      for (auto &[n, v] : tv) { in.emplace(n, v); }
      for (auto &[n, v] : num) { in.emplace(n, v); }
      return in;
   }
   Inputs with(const Vector &state) const
   {
      Inputs in = inputs();
      in.emplace("state", state);
      return in;
   }
   Inputs changes(Gen &g)
   {
      Inputs in;
      for (auto &[n, v] : tv)
         if (dirty.count(n) || g.chance(1, 4)) { in.emplace(n, v); }
      for (auto &[n, v] : num)
         if (dirty.count(n) || g.chance(1, 4)) { in.emplace(n, v); }
      dirty.clear();
      return in;
   }
   void random_change(Gen &g)
   {
      for (auto &[n, v] : tv)
      {
         if (!g.chance(1, 3)) { continue; }
         dirty.insert(n);
         if (n == "mesh_coords") { v += random_dir(g, v.Size(), wobble); }
         else { v = random_dir(g, v.Size(), n == "peak_flux" ? 0.3 : 2); }
         if (n == "peak_flux") { v += 1; }
      }
      for (auto &[n, v] : num)
         if (g.chance(1, 3))
         {
            dirty.insert(n);
            v = g.real(0.3, 2.5);
         }
   }
   Vector solve(Solver &s, const Inputs &in, const Vector &start)
   {
      Quiet q;
      Vector u(start);
      s.solveForState(in, u);
      return u;
   }
};

template <typename S>
Vector value(Open<S> &s, Output &o, const Inputs &in)
{
   Quiet q;
   Vector v(o.vector ? s.getOutputSize(o.name) : 1);
   v = 0.0;
   s.calcOutput(o.name, in, v);
   return v;
}

/// the checks common to both solvers
template <typename S>
void life(Gen &g, Case<S> &c)
{
   typedef Open<S> Solver;
   Solver &a = *c.a, &b = *c.b;
   int n = a.getStateSize();
   ParFiniteElementSpace &fes = a.space();
   g.check(n == fes.GetTrueVSize(), "state size");
   Array<int> ess;
   if (c.opt.contains("bcs") && c.opt["bcs"].contains("essential"))
   {
      Array<int> mk(c.mesh->bdr_attributes.Size() ? c.mesh->bdr_attributes.Max() : 0);
      mk = 0;
      for (int k : c.opt["bcs"]["essential"].template get<Attrs>()) { mk[k - 1] = 1; }
      fes.GetEssentialTrueDofs(mk, ess);
   }
   for (auto &o : c.outs)
   {
      Quiet q;
      if (o.opt.is_null() && g.flip()) { a.createOutput(o.name); }
      else { a.createOutput(o.name, o.opt.is_null() ? json::object() : o.opt); }
      b.createOutput(o.name, o.opt.is_null() ? json::object() : o.opt);
      bool twice = false;
      try { a.createOutput(o.name, o.opt); }
      catch (const std::exception &) { twice = true; }
      g.check(twice, "an output was created twice", o.name);
   }
   // conditions on the boundary come from the state set from a function, or
   // as an input
   Vector u(n), v(n), bc(n);
   u = 0.0;
   {
      Quiet q;
      double k0 = g.sym(1), k1 = g.sym(2), k2 = g.sym(2);
      auto f = [=](const Vector &x) { return k0 + k1 * x(0) + k2 * x(0) * x(1); };
      if (g.flip())
      {
         a.setState(f, u);
         b.setState(f, v);
      }
      else
      {
         FunctionCoefficient fc(f);
         a.setState(fc, u);
         b.setState(f, v);
      }
      ParGridFunction gf(&fes);
      FunctionCoefficient fc(f);
      gf.ProjectCoefficient(fc);
      gf.GetTrueDofs(bc);
      Vector d(u);
      d -= bc;
      g.close(d.Normlinf(), 0, 1e-12 * (1 + bc.Normlinf()), "state set from a function");
      g.close(a.calcStateError(f, u), a.calcStateError(fc, bc), 1e-12, "error of the state");
   }
   auto residual = [&](Solver &s, const Vector &x) {
      Quiet q;
      Vector r(n);
      s.calcResidual(c.with(x), r);
      return r;
   };
   auto same = [&](const Vector &x, const Vector &y, double tol, const std::string &key, const std::string &m = "") {
      g.check(x.Size() == y.Size(), key + " size", m);
      double e = 0, s = 1e-3;
      for (int i = 0; i < x.Size(); ++i)
      {
         e = std::isfinite(x(i) - y(i)) ? std::max(e, std::fabs(x(i) - y(i))) : 1e300;
         s = std::max(s, std::fabs(y(i)));
      }
      g.close(e, 0, tol * s, key, m);
   };
   auto total = [&](Output &o, const std::string &wrt) {
      bool scalar = c.num.count(wrt);
      Vector bar = random_dir(g, o.vector ? a.getOutputSize(o.name) : 1);
      bool explicit_ = std::count(o.wrt.begin(), o.wrt.end(), wrt), res = o.implicit && std::count(c.rev.begin(), c.rev.end(), wrt);
      Vector x0 = scalar ? one(c.num[wrt]) : c.tv[wrt], dx(x0.Size());
      dx = 0.0;
      Inputs in = c.with(u);
      {
         Quiet q;
         // the losses take the volume of the windings from the last evaluation
         if (o.name.rfind("heat_source", 0) == 0) { value(a, o, in); }
         if (explicit_)
         {
            if (o.partial && g.flip())
            {
               if (scalar)
               {
                  double p = 0;
                  a.calcOutputPartial(o.name, wrt, in, p);
                  dx(0) = bar(0) * p;
               }
               else
               {
                  Vector p(x0.Size());
                  p = 0.0;
                  a.calcOutputPartial(o.name, wrt, in, p);
                  dx.Set(bar(0), p);
               }
            }
            else { a.outputVectorJacobianProduct(o.name, in, bar, wrt, dx); }
         }
         if (res)
         {
            Vector ubar(n), psi(n);
            ubar = 0.0;
            psi = 0.0;
            if (o.partial && g.flip())
            {
               a.calcOutputPartial(o.name, "state", in, ubar);
               ubar *= bar(0);
            }
            else { a.outputVectorJacobianProduct(o.name, in, bar, "state", ubar); }
            Vector keep(ubar), keep_u(u);
            // the solver linearizes itself; asked for products, it has to be
            // told to
            bool before = g.flip();
            a.linearize(in);
            a.solveForAdjoint(in, ubar, psi);
            if (!before) { a.linearize(in); }
            keep -= ubar;
            g.check(keep.Normlinf() == 0, "the adjoint changed its right-hand side");
            keep_u -= u;
            g.check(keep_u.Normlinf() == 0, "the adjoint changed the state");
            Vector rx(x0.Size());
            rx = 0.0;
            if (scalar) { rx(0) = a.vectorJacobianProduct(psi, wrt); }
            else { a.vectorJacobianProduct(psi, wrt, rx); }
            dx -= rx;
            // forward and reverse agree
            if ((wrt == "thermal_load" || wrt.rfind("current_density", 0) == 0) && g.flip())
            {
               Vector rd(n), xd = random_dir(g, x0.Size());
               rd = 0.0;
               a.jacobianVectorProduct(xd, wrt, rd);
               g.close(rd * psi, rx * xd, 1e-9 * (rd.Norml2() * psi.Norml2() + 1e-6), "forward and reverse products", wrt);
            }
         }
      }
      Vector d = random_dir(g, x0.Size());
      auto f = [&](const Vector &x, Vector &y) {
         if (scalar) { c.num[wrt] = x(0); }
         else { c.tv[wrt] = x; }
         Vector s = res ? c.solve(b, c.inputs(), u) : u;
         y = one(value(b, o, c.with(s)) * bar);
      };
      std::string kind = o.name.substr(0, o.name.find(':'));
      g.label(str("d ", kind, "/d ", wrt.substr(0, wrt.find(':'))));
      fd_check(g, f, x0, d, one(dx * d), wrt == "mesh_coords" ? 0.01 : 0.1, "total derivative of " + kind + " by " + wrt.substr(0, wrt.find(':')), str(res, explicit_), 2e-6, 1e-9);
      if (scalar) { c.num[wrt] = x0(0); }
      else { c.tv[wrt] = x0; }
   };

   int steps = g.irange(1, 4);
   bool own_bc = g.flip();
   if (own_bc) { c.tv["dirichlet_bc"] = bc; }
   Names all = c.rev;
   for (auto &o : c.outs)
      for (auto &w : o.wrt)
         if (!std::count(all.begin(), all.end(), w)) { all.push_back(w); }
   for (auto &[k, x] : c.tv) { c.dirty.insert(k); }
   for (auto &[k, x] : c.num) { c.dirty.insert(k); }
   for (int step = 0; step < steps; ++step)
   {
      if (step) { c.random_change(g); }
      std::string m = str("step ", step);
      Vector start(u);
      if (g.flip()) { start += random_dir(g, n, 0.5); }
      if (!own_bc)
         for (int i : ess) { start(i) = bc(i); }
      {
         bool part = step > 0 && g.flip();
         Inputs in = part ? c.changes(g) : c.inputs();
         if (!part) { c.dirty.clear(); }
         Vector other = random_dir(g, n);
         if (g.chance(1, 4)) { in.emplace("state", other); }
         u = start;
         Quiet q;
         if (in.empty()) { a.solveForState(u); }
         else { a.solveForState(in, u); }
      }
      v = c.solve(b, c.inputs(), start);
      Vector r = residual(b, u), r0 = residual(b, start);
      g.check(u.CheckFinite() == 0, "solved state", m);
      if (residual(b, v).Norml2() > 1e-9 * (1 + r0.Norml2())) { g.discard(); }
      g.close(r.Norml2(), 0, 1e-8 * (1 + r0.Norml2()), "residual of the solved state", m);
      same(u, v, 1e-6, "solved state", m);
      const Vector &want = own_bc ? c.tv["dirichlet_bc"] : bc;
      double e = 0;
      for (int i : ess) { e = std::max(e, std::fabs(u(i) - want(i))); }
      g.close(e, 0, 1e-9 * (1 + want.Normlinf()), "strong boundary conditions", m);
      Vector ra(n);
      {
         Quiet q;
         a.calcResidual(c.with(start), ra);
         g.close(a.calcResidualNorm(c.with(start)), ra.Norml2(), 1e-12 * (1 + ra.Norml2()), "norm of the residual");
      }
      same(ra, r0, 1e-9, "residual", m);
      // any outputs at the solved state
      for (auto &o : c.outs)
      {
         if (!g.chance(2, 3)) { continue; }
         Inputs in = c.with(u);
         Vector got = value(a, o, in), fresh = value(b, o, in);
         std::string kind = o.name.substr(0, o.name.find(':'));
         same(got, fresh, 1e-9, "output " + kind + " of a fresh solver", m);
         if (o.own)
         {
            Quiet q;
            setInputs(*o.own, in);
            Vector w(got.Size());
            w = 0.0;
            if (o.vector) { calcOutput(*o.own, in, w); }
            else { w(0) = calcOutput(*o.own, in); }
            same(got, w, 1e-9, "output " + kind, m);
         }
         if (o.value) { g.close(got(0), o.value(in), 1e-8 * (1e-3 + std::fabs(got(0))), "output " + kind + " by quadrature", m); }
         g.label(kind);
      }
      if (g.chance(1, 3) && !c.outs.empty() && !all.empty())
      {
         Output &o = c.outs[g.irange(0, int(c.outs.size()) - 1)];
         Names w;
         for (auto &x : all)
            if (!std::count(o.no.begin(), o.no.end(), x))
            if (std::count(o.wrt.begin(), o.wrt.end(), x) || (o.implicit && std::count(c.rev.begin(), c.rev.end(), x))) { w.push_back(x); }
         if (!w.empty()) { total(o, g.pick(w)); }
      }
   }
   g.nontrivial();
}

// ------------------------------------------------------------------- thermal
std::unique_ptr<Mesh> a_mesh(Gen &g, int dim, bool internal, double &wobble, int max2 = 3)
{
   MeshSpec ms;
   ms.internal = internal;
   ms.max2 = max2;
   FemMesh m = fem_mesh(g, dim, ms);
   wobble = 0.01;
   return std::move(m.mesh);
}
void thermal(Gen &g)
{
   Case<ThermalSolver> c;
   int dim = g.chance(3, 4) ? 2 : 3;
   bool dg = g.flip();
   c.mesh = a_mesh(g, dim, dg, c.wobble);
   int p = g.irange(1, dim == 2 ? 2 : 1);
   Mesh &mesh = *c.mesh;
   Attrs outer, inner, attrs(mesh.attributes.begin(), mesh.attributes.end());
   boundary_attrs(mesh, outer, inner);
   json &opt = c.opt = basics(g, dg ? "dg" : "h1", p);
   if (g.flip()) { opt["space-dis"]["sipg-penalty"] = g.real(2, 3) * std::pow(p + 1, 2); }
   int nc = std::min<int>(g.irange(1, 2), attrs.size());
   for (int k = 0; k < nc; ++k)
   {
      std::string name = str("part", k);
      for (size_t i = k; i < attrs.size(); i += nc) { opt["components"][name]["attrs"].push_back(attrs[i]); }
      if (g.chance(1, 5)) { opt["components"][name]["material"] = g.pick(Names{"copper", "2024_T3", "aluminum", "iron", "silver", "Nd2Fe14B", "hiperco50"}); }
      else { opt["components"][name]["material"] = {{"name", g.flip() ? "stuff" + name : std::string("copper")}, {"kappa", g.real(0.5, 3)}}; }
   }
   Attrs fixed = some(g, outer), conv;
   bool strong = !dg && g.flip();
   if (g.chance(2, 3))
   {
      conv = some(g, outer);
      if (!conv.empty())
      {
         opt["bcs"]["convection"] = {{"attrs", conv}, {"h", c.num["h"] = g.real(0.2, 3)}, {"fluid_temp", c.num["fluid_temp"] = g.sym(2)}};
         c.rev = {"h", "fluid_temp"};
      }
   }
   if (conv.empty() && fixed.empty()) { fixed = {outer[0]}; }
   if (!fixed.empty()) { opt["bcs"][strong ? "essential" : "weak-essential"] = fixed; }
   if (g.chance(1, 3))
   {
      Attrs out = some(g, outer);
      if (!out.empty()) { opt["bcs"]["outflux"] = {{"attrs", out}, {"flux", g.sym(2)}}; }
   }
   if (!inner.empty() && g.chance(2, 3))
   {
      Attrs f = some(g, inner, 2, 3);
      if (!f.empty())
      {
         opt["interfaces"]["thermal_contact_resistance"]["gap"] = {{"attrs", f}, {"h", c.num["h:gap"] = g.real(0.5, 3)}};
         c.rev.push_back("h:gap");
         g.label("contact");
      }
   }
   c.rev.push_back("mesh_coords");
   bool another = g.chance(1, 3);   // a field besides the state, of another degree or kind
   if (another) { opt["external-fields"]["other"] = {{"basis-type", g.flip() ? "H1" : "DG"}, {"degree", g.irange(1, 2)}, {"num-states", 1}}; }
   g.label(str(dim, "D ", dg ? "DG" : "H1", strong ? " strong" : ""));
   g.note(opt.dump());
   c.a = c.fresh();
   c.b = c.fresh();
   c.a->getMeshCoordinates(c.tv["mesh_coords"]);
   g.check(c.tv["mesh_coords"].Size() == c.a->getFieldSize("mesh_coords"), "size of the mesh coordinates");
   if (g.flip())
   {
      c.tv["thermal_load"] = random_dir(g, c.a->getFieldSize("thermal_load"), 0.2);
      c.rev.push_back("thermal_load");
      g.label("load");
   }
   if (another)
   {
      Vector &v = c.tv["other"];
      v = random_dir(g, c.a->getFieldSize("other"), 0.7);
      v += g.sym(1);
   }
   auto kappa = constructMaterialCoefficient("kappa", c.a->materials.is_null() ? opt["components"] : opt["components"], c.b->materials);
   auto &fes = c.b->space();
   auto &fields = c.b->fields;
   int no = g.irange(1, 3);
   for (int k = 0; k < no; ++k)
   {
      Output o;
      o.implicit = true;
      o.wrt = {"mesh_coords"};
      o.opt = json::object();
      int kind = g.irange(0, 2);
      std::string tag = g.flip() ? "" : str(":", k);
      if (kind == 0)
      {
         o.name = "thermal_flux" + tag;
         o.wrt.clear();
         o.partial = true;
         o.no = {"mesh_coords"};   // says that it is not implemented
         Attrs a = some(g, outer, 2, 3);
         FunctionalOutput own(fes, fields);
         if (a.empty())
         {
            if (g.flip()) { o.opt = json(); }
            own.addOutputBdrFaceIntegrator(new miso::BoundaryNormalIntegrator(*kappa));
         }
         else
         {
            o.opt["attributes"] = a;
            own.addOutputBdrFaceIntegrator(new miso::BoundaryNormalIntegrator(*kappa), a);
         }
         o.own.reset(new MISOOutput(std::move(own)));
      }
      else
      {
         if (g.flip()) { o.opt["attributes"] = some(g, attrs, 2, 3); }
         if (o.opt.contains("attributes") && o.opt["attributes"].empty()) { o.opt.erase("attributes"); }
         auto *space = &fes;
         if (another && g.flip())
         {
            o.opt["state"] = "other";
            o.implicit = false;
            o.wrt.push_back("other");
            space = &fields.at("other").space();
            g.label("output of another field");
         }
         else if (g.flip()) { o.opt["state"] = "state"; }
         if (kind == 1)
         {
            o.name = "max_state" + tag;
            o.opt["rho"] = g.real(0.5, 5);
            o.own.reset(new MISOOutput(IEAggregateFunctional(*space, fields, o.opt)));
         }
         else
         {
            o.name = "average_state" + tag;
            o.own.reset(new MISOOutput(StateAverageFunctional(*space, fields, o.opt)));
         }
      }
      bool have = false;
      for (auto &x : c.outs) { have = have || x.name == o.name; }
      if (!have) { c.outs.push_back(std::move(o)); }
   }
   bool thrown = false;
   try { c.a->createOutput("no such output"); }
   catch (const std::exception &) { thrown = true; }
   g.check(thrown, "unknown outputs are refused");
   life(g, c);
}

// -------------------------------------------------------------- magnetostatic
json soft(Gen &g)
{
   std::vector<double> cps(4), knots{0, 0, 0, 0, 20, 20, 20, 20};
   cps[0] = g.sym(0.3);
   for (int i = 1; i < 4; ++i) { cps[i] = cps[i - 1] + g.real(0, 0.4); }
   return {{"model", "lognu"}, {"cps", cps}, {"knots", knots}, {"degree", 3}};
}
struct Scratch
{
   char dir[32] = "/tmp/pbtXXXXXX";
   char old[4096];
   Scratch()
   {
      if (!getcwd(old, sizeof old) || !mkdtemp(dir) || chdir(dir)) { abort(); }
   }
   ~Scratch()
   {
      if (chdir(old)) { abort(); }
      if (system(("rm -rf " + std::string(dir)).c_str())) { abort(); }
   }
};
void magnetostatic(Gen &g)
{
   Scratch scratch;   // the heat source writes files
   Case<MagnetostaticSolver> c;
   bool dg = g.chance(1, 3);
   c.mesh = a_mesh(g, 2, false, c.wobble);
   int p = g.irange(1, 2);
   Mesh &mesh = *c.mesh;
   Attrs outer, inner, attrs(mesh.attributes.begin(), mesh.attributes.end());
   boundary_attrs(mesh, outer, inner);
   json &opt = c.opt = basics(g, dg ? "dg" : "h1", p);
   if (g.flip()) { opt["space-dis"]["sipg-penalty"] = g.real(2, 3) * std::pow(p + 1, 3); }
   bool linear = true;
   std::map<int, double> nu_of;
   json comps, mats;
   for (size_t k = 0; k < attrs.size(); ++k)
   {
      std::string name = str("part", k), mat = str("stuff", k);
      double nu = g.real(0.5, 2);
      nu_of[attrs[k]] = nu;
      json m{{"name", mat}, {"mu_r", NU / nu}, {"rho", g.real(0.5, 3)}, {"sigma", g.real(0.5, 2)}};
      if (g.chance(1, 3))
      {
         m["reluctivity"] = soft(g);
         linear = false;
      }
      for (std::string s : {"ke", "kh"})
         if (g.flip()) { m[s] = g.real(0.1, 2); }
      if (g.chance(2, 3))
      {
         json cal2{{"T0", g.real(-0.5, 0.2)}, {"T1", g.real(0.5, 2)}};
         for (std::string s : {"kh_T0", "kh_T1", "ke_T0", "ke_T1"})
         {
            std::vector<double> v;
            for (int i = g.irange(1, 4); i > 0; --i) { v.push_back(g.sym(1.5)); }
            cal2[s] = v;
         }
         m["core_loss"]["CAL2"] = cal2;
      }
      json &comp = comps[name];
      if (g.flip()) { comp["attr"] = attrs[k]; }
      else { comp["attrs"] = Attrs{attrs[k]}; }
      comp["material"] = m;
   }
   opt["components"] = comps;
   Attrs fixed = some(g, outer, 2, 3);
   if (fixed.empty()) { fixed = {outer[0]}; }
   bool strong = !dg && g.flip();
   opt["bcs"][strong ? "essential" : "weak-essential"] = fixed;
   Attrs current;
   if (g.chance(3, 4))
   {
      Attrs left = attrs;
      for (int i = g.irange(1, 2); i > 0 && !left.empty(); --i)
      {
         Attrs s = some(g, left);
         if (s.empty()) { s = {left[0]}; }
         std::string name = str("phase", i), in = "current_density:" + name;
         opt["current"][name][g.flip() ? "z" : "-z"] = s;
         c.num[in] = g.real(0.5, 2);
         c.rev.push_back(in);
         Attrs rest;
         for (int k : left)
            if (!std::count(s.begin(), s.end(), k)) { rest.push_back(k); }
         left = rest;
         current.insert(current.end(), s.begin(), s.end());
      }
      g.label("current");
   }
   bool magnets = g.flip();
   if (magnets)
   {
      Attrs s = some(g, attrs);
      if (s.empty()) { s = {attrs[0]}; }
      for (int k : s)
      {
         std::string part = str("part", int(std::find(attrs.begin(), attrs.end(), k) - attrs.begin())), mat = opt["components"][part]["material"]["name"];
         auto &m = opt["components"][part]["material"];
         // the magnets' reluctivity must be constant: its magnetization is
         // computed from the reluctivity at the temperature
         m.erase("reluctivity");
         m["B_r_T_ref"] = g.real(0.5, 1.5);
         m["alpha_B_r"] = g.sym(0.3);
         m["T_ref"] = g.real(0, 2);
         opt["magnets"][mat][g.flip() ? "x" : "y"] = Attrs{k};
      }
      c.rev.push_back("temperature");
      g.label("magnets");
   }
   linear = true;
   for (auto &[k, comp] : opt["components"].items()) { linear = linear && !comp["material"].contains("reluctivity"); }
   c.rev.push_back("mesh_coords");
   g.label(str(dg ? "DG" : "H1", strong ? " strong" : "", linear ? " linear" : " nonlinear"));
   if (g.flip()) { opt["external-fields"]["temperature"] = {{"basis-type", "H1"}, {"degree", g.irange(1, 2)}, {"num-states", 1}}; }
   g.note(opt.dump());
   c.a = c.fresh();
   c.b = c.fresh();
   c.a->getMeshCoordinates(c.tv["mesh_coords"]);
   c.tv["temperature"] = random_dir(g, c.a->getFieldSize("temperature"), 2);
   c.tv["peak_flux"] = random_dir(g, c.a->getFieldSize("peak_flux"), 0.3);
   c.tv["peak_flux"] += 1;
   auto nu = std::make_shared<ReluctivityCoefficient>(opt, c.b->materials);
   auto sigma = std::make_shared<ConductivityCoefficient>(opt, c.b->materials);
   auto &fes = c.b->space();
   auto &fields = c.b->fields;
   std::vector<std::unique_ptr<FiniteElementState>> mine;
   int no = g.irange(1, 4), last = -1;
   for (int k = 0; k < no; ++k)
   {
      Output o;
      o.wrt = {"mesh_coords"};
      o.opt = json::object();
      std::string tag = g.flip() ? "" : str(":", k);
      int kind = last >= 0 && g.chance(1, 3) ? last : g.irange(0, 13);
      last = kind;
      std::string names[14] = {"energy", "force", "torque", "flux_density", "flux_magnitude", "average_flux_magnitude", "max_flux_magnitude", "max_state", "dc_loss", "ac_loss", "mass", "volume", "core_loss", "heat_source"};
      o.name = names[kind] + tag;
      bool have = false;
      for (auto &x : c.outs) { have = have || x.name == o.name; }
      if (have || (current.empty() && (kind == 8 || kind == 9)) || (dg && (kind == 1 || kind == 2))) { continue; }
      Attrs s = some(g, attrs, 2, 3);
      bool sel = kind == 1 || kind == 2 || g.flip();
      if (s.empty()) { s = {attrs[0]}; }
      if (sel && kind != 3 && kind != 4 && kind != 8 && kind != 9 && kind != 13) { o.opt["attributes"] = s; }
      o.implicit = kind < 8;
      o.partial = kind < 3;
      auto has = [=](int a) { return !sel || std::count(s.begin(), s.end(), a) > 0; };
      switch (kind)
      {
      case 0:
      {
         FunctionalOutput own(fes, fields);
         if (sel) { own.addOutputDomainIntegrator(new MagneticEnergyIntegrator(*nu), s); }
         else { own.addOutputDomainIntegrator(new MagneticEnergyIntegrator(*nu)); }
         o.own.reset(new MISOOutput(std::move(own)));
         if (linear)
         {
            o.value = [&c, &fes, has, nu_of](const Inputs &) {
               // the inputs were given to the fresh solver just before
               auto &gf = c.b->getState().gridFunc();
               double sum = 0;
               Vector d;
               for (int e = 0; e < fes.GetNE(); ++e)
               {
                  auto &T = *fes.GetElementTransformation(e);
                  if (!has(T.Attribute)) { continue; }
                  auto &ir = IntRules.Get(fes.GetFE(e)->GetGeomType(), 2 * fes.GetFE(e)->GetOrder() + T.OrderW() + 6);
                  for (int i = 0; i < ir.GetNPoints(); ++i)
                  {
                     T.SetIntPoint(&ir.IntPoint(i));
                     gf.GetGradient(T, d);
                     sum += ir.IntPoint(i).weight * T.Weight() * 0.5 * nu_of.at(T.Attribute) * (d * d);
                  }
               }
               return sum;
            };
            if (fes.GetParMesh()->GetNodes()->FESpace()->GetMaxElementOrder() > 1 || mesh.GetElementType(0) != Element::TRIANGLE) { o.value = nullptr; }
         }
         break;
      }
      case 1:
      case 2:
      {
         std::vector<double> axis{g.sym(2), g.sym(2)}, about{g.sym(1), g.sym(1)};
         if (kind == 2) { axis = {0, 0, g.flip() ? 1.0 : -2.0}; }
         o.opt["axis"] = axis;
         if (kind == 2)
         {
            about.push_back(0);
            o.opt["about"] = about;
            if (g.flip()) { o.opt["air_attributes"] = some(g, attrs, 1, 2); }
            if (o.opt.contains("air_attributes") && o.opt["air_attributes"].empty()) { o.opt.erase("air_attributes"); }
         }
         break;
      }
      case 3:
      case 4: o.vector = true; break;
      case 5: o.own.reset(new MISOOutput(AverageMagnitudeCurlState(fes, fields, o.opt))); break;
      case 6:
         o.opt["rho"] = g.real(0.5, 4);
         o.own.reset(new MISOOutput(IECurlMagnitudeAggregateFunctional(fes, fields, o.opt)));
         break;
      case 7:
      {
         o.opt["rho"] = g.real(0.5, 4);
         bool other = g.chance(1, 3);
         if (other)
         {
            o.opt["state"] = "peak_flux";
            o.implicit = false;
            o.wrt.push_back("peak_flux");
         }
         o.own.reset(new MISOOutput(IEAggregateFunctional(other ? fields.at("peak_flux").space() : fes, fields, o.opt)));
         break;
      }
      case 8:
      case 9:
      {
         json oo{{"attributes", current}};
         if (g.flip()) { o.opt["attributes"] = s; }
         if (kind == 8) { o.own.reset(new MISOOutput(DCLossFunctional(fields, *sigma, oo))); }
         else { o.own.reset(new MISOOutput(ACLossFunctional(fields, *sigma, oo))); }
         o.wrt.push_back("temperature");
         if (kind == 9) { o.wrt.push_back("peak_flux"); }
         Names n = kind == 8 ? Names{"wire_length", "rms_current", "strand_radius", "strands_in_hand"} : Names{"strand_radius", "frequency", "stack_length", "strands_in_hand", "num_turns", "num_slots"};
         for (auto &x : n)
            if (g.flip())
            {
               if (!c.num.count(x)) { c.num[x] = g.real(0.5, 2); }
               o.wrt.push_back(x);
            }
         break;
      }
      case 10: o.own.reset(new MISOOutput(MassFunctional(fields, opt["components"], c.b->materials, o.opt))); break;
      case 11: o.own.reset(new MISOOutput(VolumeFunctional(fields, o.opt))); break;
      case 12:
         o.own.reset(new MISOOutput(CoreLossFunctional(fields, opt["components"], c.b->materials, o.opt)));
         for (std::string x : {"temperature", "peak_flux"}) { o.wrt.push_back(x); }
         if (g.flip())
         {
            c.num["frequency"] = g.real(0.5, 2);
            o.wrt.push_back("frequency");
         }
         break;
      case 13:
         o.vector = true;
         for (std::string x : {"temperature", "peak_flux"}) { o.wrt.push_back(x); }
         for (std::string x : {"dc_loss", "ac_loss", "core_loss"})
         {
            o.opt[x] = json::object();
            Attrs t = some(g, attrs, 2, 3);
            if (!t.empty() && g.flip()) { o.opt[x]["attributes"] = t; }
         }
         o.own.reset(new MISOOutput(EMHeatSourceOutput(fields, *sigma, opt["components"], c.b->materials, o.opt)));
         break;
      }
      if (kind == 1 || kind == 2)
      {
         std::string mine = str("mine", k);
         fields.emplace(std::piecewise_construct, std::forward_as_tuple(mine), std::forward_as_tuple(c.b->mesh(), fields.at("mesh_coords").space()));
         if (kind == 1) { o.own.reset(new MISOOutput(ForceFunctional(fes, fields, o.opt, *nu, mine))); }
         else { o.own.reset(new MISOOutput(TorqueFunctional(fes, fields, o.opt, *nu, mine))); }
      }
      c.outs.push_back(std::move(o));
   }
   bool thrown = false;
   try { c.a->createOutput("no such output"); }
   catch (const std::exception &) { thrown = true; }
   g.check(thrown, "unknown outputs are refused");
   life(g, c);
}

// ------------------------------------------------- linear fields are solutions
template <typename S>
void patch(Gen &g, json opt, std::unique_ptr<Mesh> mesh, const Attrs &outer, double k, const std::string &which)
{
   int dim = mesh->Dimension();
   double a[4] = {g.sym(1), g.sym(2), g.sym(2), g.sym(2)};
   auto f = [=](const Vector &x) {
      double r = a[0];
      for (int i = 0; i < x.Size(); ++i) { r += a[i + 1] * x(i); }
      return r;
   };
   Quiet q;
   Open<S> s(MPI_COMM_WORLD, opt, std::move(mesh));
   Vector u(s.getStateSize());
   s.setState(f, u);
   Vector want(u);
   bool strong = opt["bcs"].contains("essential");
   Vector start = random_dir(g, u.Size(), 1);
   if (strong)
   {
      Array<int> mk(s.mesh().bdr_attributes.Max()), ess;
      mk = 0;
      for (int b : outer) { mk[b - 1] = 1; }
      s.space().GetEssentialTrueDofs(mk, ess);
      for (int i : ess) { start(i) = u(i); }
   }
   u = start;
   s.solveForState(u);
   g.nontrivial();
   g.close(s.calcStateError(f, u), 0, 1e-8, which + ": a linear field");
   Vector d(u);
   d -= want;
   g.close(d.Normlinf(), 0, 1e-7, which + ": a linear field", "degrees of freedom");
}
void patches(Gen &g)
{
   int dim = g.chance(2, 3) ? 2 : 3;
   double w;
   auto mesh = a_mesh(g, dim, false, w);
   // the space has to contain linear functions of the coordinates
   int p = std::max(mesh->GetNodes()->FESpace()->GetMaxElementOrder(), g.irange(1, dim == 2 ? 3 : 2));
   Attrs outer, inner, attrs(mesh->attributes.begin(), mesh->attributes.end());
   boundary_attrs(*mesh, outer, inner);
   bool em = dim == 2 && g.flip(), dg = g.flip();
   json opt = basics(g, dg ? "dg" : "h1", p);
   double k = g.real(0.5, 2);
   json m{{"name", "stuff"}};
   if (em) { m["mu_r"] = NU / k; }
   else { m["kappa"] = k; }
   opt["components"]["all"] = {{"attrs", attrs}, {"material", m}};
   opt["bcs"][!dg && g.flip() ? "essential" : "weak-essential"] = outer;
   g.note(opt.dump());
   g.label(str(dim, "D ", em ? "magnetostatic " : "thermal ", dg ? "DG" : "H1"));
   if (em) { patch<MagnetostaticSolver>(g, opt, std::move(mesh), outer, k, "magnetostatic"); }
   else { patch<ThermalSolver>(g, opt, std::move(mesh), outer, k, "thermal"); }
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P29",
            {{"thermal", thermal, 300, 20000}, {"magnetostatic", magnetostatic, 400, 25000}, {"linear-fields", patches, 200, 10000}},
            "a case counts if the solver was built, solved and compared at least once");
   r.assumptions = {"one MPI rank", "problems with a unique solution, solved by Krylov methods to rounding", "residuals and single outputs are those of P20-P23 and P28"};
   return r.main(argc, argv);
}
