// P23: whole residuals (thermal, magnetostatic, nonlinear forms): assembled
// from their integrators, sources and boundary conditions, over histories of
// inputs, with their Jacobians, sensitivities and adjoint systems
#include "outgen.hpp"
#include "coefficient.hpp"
#include "electromag_integ.hpp"
#include "mfem_common_integ.hpp"
#include "thermal_integ.hpp"
#include "magnetic_source_functions.hpp"
#include "current_source_functions.hpp"
#include "miso_load.hpp"
#include "miso_nonlinearform.hpp"
#include "miso_linearform.hpp"
#include "magnetostatic_residual.hpp"
#include "thermal_residual.hpp"

using namespace outgen;
using namespace miso;

namespace
{
adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}
/// a dense solver
struct Dense : public Solver
{
   DenseMatrix A, lu;
   std::vector<int> piv;
   bool singular = false;
   void SetOperator(const Operator &op) override
   {
      width = height = op.Height();
      A.SetSize(height);
      Vector e(height), c(height);
      for (int j = 0; j < height; ++j)
      {
         e = 0.0;
         e(j) = 1.0;
         op.Mult(e, c);
         A.SetCol(j, c);
      }
      lu = A;
      piv.resize(height);
      singular = false;
      double big = A.MaxMaxNorm();
      for (int k = 0; k < height; ++k)
      {
         int r = k;
         for (int i = k + 1; i < height; ++i)
            if (std::abs(lu(i, k)) > std::abs(lu(r, k))) { r = i; }
         piv[k] = r;
         if (!(std::abs(lu(r, k)) > 1e-8 * big))
         {
            singular = true;
            return;
         }
         if (r != k)
            for (int j = 0; j < height; ++j) { std::swap(lu(r, j), lu(k, j)); }
         for (int i = k + 1; i < height; ++i)
         {
            double f = lu(i, k) /= lu(k, k);
            if (f != 0)
               for (int j = k + 1; j < height; ++j) { lu(i, j) -= f * lu(k, j); }
         }
      }
   }
   void Mult(const Vector &b, Vector &x) const override
   {
      x = b;
      if (singular) { return; }
      for (int k = 0; k < height; ++k) { std::swap(x(k), x(piv[k])); }
      for (int k = 0; k < height; ++k)
         for (int i = k + 1; i < height; ++i) { x(i) -= lu(i, k) * x(k); }
      for (int k = height - 1; k >= 0; --k)
      {
         for (int j = k + 1; j < height; ++j) { x(k) -= lu(k, j) * x(j); }
         x(k) /= lu(k, k);
      }
   }
};
typedef std::vector<int> Attrs;
bool has(const Attrs &a, int k) { return std::count(a.begin(), a.end(), k) > 0; }

/// sums of element, wall and interface terms on true degrees of freedom
struct Sum
{
   ParFiniteElementSpace &fes;
   Vector u, r;
   std::map<int, int> inner;  // boundary attribute of a face inside
   Sum(ParFiniteElementSpace &f, const GridFunction &x) : fes(f), u(x), r(f.GetVSize())
   {
      r = 0.0;
      Mesh &m = *fes.GetMesh();
      for (int b = 0; b < m.GetNBE(); ++b)
      {
         int face = m.GetBdrElementEdgeIndex(b);
         if (m.FaceIsInterior(face)) { inner[face] = m.GetBdrAttribute(b); }
      }
   }
   Marker marker(const Attrs &a)
   {
      Marker mk(fes.GetMesh()->bdr_attributes.Max());
      for (int k : a) { mk[k - 1] = true; }
      return mk;
   }
   void domain(NonlinearFormIntegrator &&I) { r += dom_residual(I, fes, u); }
   void domain(NonlinearFormIntegrator &I, const Attrs &a)
   {
      Array<int> d;
      DofTransformation *t;
      Vector ue, re;
      for (int e = 0; e < fes.GetNE(); ++e)
      {
         if (!has(a, fes.GetAttribute(e))) { continue; }
         local(fes, e, u, ue, d, t);
         I.AssembleElementVector(*fes.GetFE(e), *fes.GetElementTransformation(e), ue, re);
         if (t) { t->TransformDual(re); }
         r.AddElementVector(d, re);
      }
   }
   void load(LinearFormIntegrator &&I, const Attrs &a, double scale = 1)
   {
      Array<int> d;
      Vector re;
      for (int e = 0; e < fes.GetNE(); ++e)
      {
         if (!has(a, fes.GetAttribute(e))) { continue; }
         auto *t = fes.GetElementVDofs(e, d);
         I.AssembleRHSElementVect(*fes.GetFE(e), *fes.GetElementTransformation(e), re);
         if (t) { t->TransformDual(re); }
         re *= scale;
         r.AddElementVector(d, re);
      }
   }
   void wall(NonlinearFormIntegrator &&I, const Attrs &a) { r += bdr_residual(I, fes, u, marker(a)); }
   void inside(NonlinearFormIntegrator &&I) { r += int_residual(I, fes, u); }
   void interface(NonlinearFormIntegrator &&I, const Attrs &a)
   {
      Array<int> d;
      Vector ue, re;
      each_interior(*fes.GetMesh(), [&](FaceElementTransformations &T) {
         auto it = inner.find(T.ElementNo);
         if (it == inner.end() || !has(a, it->second)) { return; }
         T.Attribute = it->second;
         face_dofs(fes, T, d);
         u.GetSubVector(d, ue);
         I.AssembleFaceVector(*fes.GetFE(T.Elem1No), *fes.GetFE(T.Elem2No), T, ue, re);
         r.AddElementVector(d, re);
      });
   }
   Vector get()
   {
      Vector t(fes.GetTrueVSize());
      fes.GetProlongationMatrix()->MultTranspose(r, t);
      return t;
   }
};

struct Problem
{
   ParFiniteElementSpace *fes;
   Array<int> ess;
   std::function<Vector()> interior;   // residual at the current values, no strong conditions
   std::vector<std::string> all;       // every input
   std::vector<std::string> rev;       // reverse derivatives exist for these
   std::vector<std::string> both;      // and forward ones for these
   std::function<void()> change;
   int elements = 0;
};
template <typename R>
void check_residual(Gen &g, World &w, R &res, Problem &p)
{
   auto &state = w.at("state");
   int n = p.fes->GetTrueVSize();
   g.check(getSize(res) == n, "size");
   auto full = [&]() {
      Vector r = p.interior(), &u = w.tv["state"], &bc = w.tv["dirichlet_bc"];
      for (int i : p.ess) { r(i) = u(i) - bc(i); }
      return r;
   };
   auto at = [&](const Vector &u) {
      w.set("state", u);
      return full();
   };
   // the caller's arrays must stay as they are
   auto give = [&](Inputs in) {
      auto before = w.tv;
      {
         Quiet q;
         setInputs(res, in);
      }
      bool same = true;
      for (auto &kv : before)
      {
         Vector d(w.tv[kv.first]);
         d -= kv.second;
         same = same && d.Normlinf() == 0;
      }
      if (!same) { w.tv = before; }
      g.check(same, "inputs left as they were");
   };
   auto value = [&](const Inputs &in) {
      Vector r = random_dir(g, n);
      Quiet q;
      evaluate(res, in, r);
      return r;
   };
   // fresh values for everything, and what the residual says
   auto again = [&]() {
      Inputs in = w.changes(g, p.all, {"state"});
      give(in);
      return value(in);
   };
   auto jacobian = [&](bool lin) {
      Inputs in = w.changes(g, p.all, {"state"});
      Quiet q;
      if (lin) { linearize(res, in); }
      else
      {
         setInputs(res, in);
         getJacobian(res, in, "state");
      }
   };
   int part = g.irange(0, 5), steps = g.irange(1, 4);
   for (int k = 0; k < steps; ++k)
   {
      if (k > 0) { p.change(); }
      if (k + 1 == steps) { break; }
      int op = g.irange(0, 3);
      if (op == 0) { again(); }
      else if (op == 1) { jacobian(g.flip()); }
      else
      {
         give(w.changes(g, p.all, {"state"}));
         if (op == 2)
         {
            // somebody else's adjoint, or a trial state
            Vector x = random_dir(g, n);
            value(Inputs{{"state", x}});
         }
      }
   }
   g.nontrivial(steps > 1);
   Vector u0 = w.tv["state"];
   auto size = [](const Vector &v) { return 1 + v.Normlinf(); };
   g.label(str("steps ", steps));
   g.note(str("part ", part, " steps ", steps, " strong ", p.ess.Size()));
   auto free_dir = [&] {
      Vector v = random_dir(g, n);
      for (int i : p.ess) { v(i) = 0; }
      return v;
   };
   if (part == 0)
   {
      Vector got = again(), want = full();
      got -= want;
      g.close(got.Normlinf(), 0.0, 1e-10 * size(want), "value");
      // another state, everything else as set before
      Vector u1 = random_dir(g, n);
      got = value(Inputs{{"state", u1}});
      want = at(u1);
      got -= want;
      g.close(got.Normlinf(), 0.0, 1e-10 * size(want), "value at a trial state");
   }
   else if (part == 1)
   {
      Inputs in = w.changes(g, p.all, {"state"});
      give(in);
      Operator *J;
      {
         Quiet q;
         J = &getJacobian(res, in, "state");
      }
      Vector v = free_dir(), jv(n);
      J->Mult(v, jv);
      dir_check(g, at, u0, v, jv, 0.02, "jacobian");
      w.set("state", u0);
      for (int i : p.ess)
      {
         // rows of strong conditions: du = r
         Vector e(n), je(n);
         e = 0.0;
         e(i) = 1;
         J->Mult(e, je);
         g.close(je(i), 1.0, 1e-12, "jacobian strong row");
         g.close(jv(i), 0.0, 1e-12, "jacobian strong row");
      }
      Operator *T;
      {
         Quiet q;
         T = &getJacobianTranspose(res, in, "state");
      }
      Vector a = random_dir(g, n), b = random_dir(g, n), ja(n), tb(n);
      J->Mult(a, ja);
      T->Mult(b, tb);
      g.close(ja * b, tb * a, 1e-10 * (1 + ja.Norml1()), "jacobian transpose");
   }
   else if (part == 2)
   {
      jacobian(g.flip());
      Vector v = random_dir(g, n), psi = random_dir(g, n), was = random_dir(g, n), jv(was), wasb = random_dir(g, n), wb(wasb);
      bool rev_first = g.flip();
      for (int k = 0; k < 2; ++k)
      {
         Quiet q;
         if ((k == 0) == rev_first) { vectorJacobianProduct(res, psi, "state", wb); }
         else { jacobianVectorProduct(res, v, "state", jv); }
      }
      jv -= was;
      wb -= wasb;
      dir_check(g, at, u0, v, jv, 0.02, "forward derivative");
      g.close(wb * v, psi * jv, 1e-10 * (1 + jv.Norml1()), "reverse derivative");
   }
   else if (part == 3 || part == 4)
   {
      std::vector<std::string> wrts(p.rev);
      for (auto &s : p.both) { wrts.push_back(s); }
      if (wrts.empty()) { return g.discard(); }
      std::string wrt = g.pick(wrts), kind = wrt.substr(0, wrt.find(':'));
      g.label("wrt " + kind);
      bool fwd = std::count(p.both.begin(), p.both.end(), wrt) > 0;
      Vector psi = random_dir(g, n);
      if (g.chance(1, 3)) { jacobian(g.flip()); }
      else { give(w.changes(g, p.all, {"state"})); }
      if (w.num.count(wrt))
      {
         double x0 = w.num[wrt], vj = 0;
         Vector was = random_dir(g, n), jv(was);
         double d = g.sym(1);
         bool fwd_first = g.flip();
         // the state alone is named: everything else keeps its value, before
         // and after either product
         auto unchanged = [&] {
            if (!g.flip()) { return; }
            Vector got = value(Inputs{{"state", w.tv["state"]}}), want = full();
            got -= want;
            g.close(got.Normlinf(), 0.0, 1e-10 * size(want), "value right after a derivative by " + kind);
         };
         for (int k = 0; k < 2; ++k)
         {
            if ((k == 0) == fwd_first)
            {
               if (!fwd) { continue; }
               Quiet q;
               jacobianVectorProduct(res, one(d), wrt, jv);
            }
            else
            {
               Quiet q;
               vj = vectorJacobianProduct(res, psi, wrt);
            }
            unchanged();
         }
         auto f = [&](const Vector &x) {
            w.num[wrt] = x(0);
            w.dirty.insert(wrt);
            return again();
         };
         fd_check(g, [&](const Vector &x, Vector &y) { y = one(f(x) * psi); }, one(x0), one(1.0), one(vj), 0.1, "scalar " + kind + " reverse", "", 1e-6, 1e-12);
         if (fwd)
         {
            jv -= was;
            dir_check(g, f, one(x0), one(d), jv, 0.1, "scalar " + kind + " forward");
         }
         // ... and nothing else has changed
         w.num[wrt] = x0;
         w.dirty.insert(wrt);
         Vector got = again(), want = full();
         got -= want;
         g.close(got.Normlinf(), 0.0, 1e-10 * size(want), "value after a derivative");
         return;
      }
      Vector x0 = w.tv[wrt], d = random_dir(g, x0.Size());
      if (g.chance(1, 3))
      {
         d = 0.0;
         d(g.irange(0, d.Size() - 1)) = 1;
      }
      Vector was = random_dir(g, x0.Size()), wb(was), wasf = random_dir(g, n), jv(wasf);
      {
         Quiet q;
         vectorJacobianProduct(res, psi, wrt, wb);
         if (fwd) { jacobianVectorProduct(res, d, wrt, jv); }
      }
      wb -= was;
      auto f = [&](const Vector &x) {
         if (w.fields.count(wrt)) { w.set(wrt, x); }
         else
         {
            w.tv[wrt] = x;
            w.dirty.insert(wrt);
         }
         return again();
      };
      double h = wrt == "mesh_coords" ? 0.005 : 0.05;
      fd_check(g, [&](const Vector &x, Vector &y) { y = one(f(x) * psi); }, x0, d, one(wb * d), h, kind + " reverse", "", 1e-6, 1e-12);
      if (fwd)
      {
         jv -= wasf;
         dir_check(g, f, x0, d, jv, h, kind + " forward");
      }
   }
   else
   {
      Inputs in = w.changes(g, p.all, {"state"});
      give(in);
      Vector bar = random_dir(g, n), b(bar), psi = random_dir(g, n);
      if (g.flip())
      {
         Quiet q;
         linearize(res, in);
      }
      else
      {
         Quiet q;
         getJacobian(res, in, "state");
      }
      Dense s;
      {
         Quiet q;
         setUpAdjointSystem(res, s, in, b, psi);
         s.Mult(b, psi);
         finalizeAdjointSystem(res, s, in, b, psi);
      }
      if (s.singular)
      {
         g.label("singular");
         return g.discard();
      }
      Vector got(n);
      got = 0.0;
      vectorJacobianProduct(res, psi, "state", got);
      got -= bar;
      g.close(got.Normlinf(), 0.0, 1e-8 * (1 + bar.Normlinf() + s.A.MaxMaxNorm() * psi.Normlinf()), "adjoint");
   }
   (void)state;
}
Array<int> strong(ParFiniteElementSpace &fes, const Attrs &a)
{
   Array<int> mk(fes.GetMesh()->bdr_attributes.Max()), l;
   mk = 0;
   for (int k : a) { mk[k - 1] = 1; }
   fes.GetEssentialTrueDofs(mk, l);
   return l;
}
/// boundary attributes around and inside the domain
void boundary_attrs(Mesh &m, Attrs &outer, Attrs &inner)
{
   for (int b = 0; b < m.GetNBE(); ++b)
   {
      int f = m.GetBdrElementEdgeIndex(b), a = m.GetBdrAttribute(b);
      Attrs &l = m.FaceIsInterior(f) ? inner : outer;
      if (!has(l, a)) { l.push_back(a); }
   }
   std::sort(outer.begin(), outer.end());
   std::sort(inner.begin(), inner.end());
}
Attrs some(Gen &g, const Attrs &from, int num = 1, int den = 2)
{
   Attrs a;
   for (int k : from)
      if (g.chance(num, den)) { a.push_back(k); }
   return a;
}
std::string basis(Gen &g, bool dg)
{
   if (dg) { return g.pick(std::vector<std::string>{"L2", "l2", "DG", "dg"}); }
   return g.pick(std::vector<std::string>{"H1", "h1"});
}
json prec(Gen &g) { return g.flip() ? json{{"type", "hypreboomeramg"}, {"printlevel", 0}} : json{{"type", "none"}, {"printlevel", 0}}; }

// ------------------------------------------------------------------- thermal
void thermal(Gen &g)
{
   MeshSpec ms;
   ms.internal = true;
   World w(g, g.chance(2, 3) ? 2 : 3, ms);
   bool dg = g.flip();
   int p = g.irange(1, w.dim == 2 ? 2 : 1);
   w.add("state", dg ? "DG" : "H1", p);
   w.add("dirichlet_bc", dg ? "DG" : "H1", p);
   auto &fes = w.at("state").space();
   Attrs outer, inner;
   boundary_attrs(*w.mesh, outer, inner);
   g.label(str(w.dim, "D ", dg ? "DG" : "H1", inner.empty() ? "" : " interfaces"));

   // materials, one of which may be a mixture
   json opt, mats = json::object();
   int nc = std::min<int>(g.irange(1, 3), w.attrs.size());
   for (int c = 0; c < nc; ++c)
   {
      std::string name = str("part", c);
      for (size_t i = c; i < w.attrs.size(); i += nc) { opt["components"][name]["attrs"].push_back(w.attrs[i]); }
      if (g.flip()) { opt["components"][name]["material"] = name; }
      else { opt["components"][name]["material"]["name"] = name; }
      mats[name] = {{"kappa", g.real(0.5, 3)}, {"rho", g.real(1, 2)}};
   }
   opt["space-dis"] = {{"basis-type", basis(g, dg)}, {"degree", p}};
   double mu = std::pow(p + 1, 2);
   if (g.flip()) { opt["space-dis"]["sipg-penalty"] = mu = g.real(2, 20); }
   opt["lin-prec"] = prec(g);
   Attrs conv, out, ess, weak;
   if (g.flip())
   {
      conv = some(g, outer);
      w.num["h"] = 1;
      w.num["fluid_temp"] = 1;
      if (g.flip()) { opt["bcs"]["convection"] = conv; }
      else
      {
         opt["bcs"]["convection"]["attrs"] = conv;
         if (g.flip()) { opt["bcs"]["convection"]["h"] = w.num["h"] = g.real(0.2, 3); }
         if (g.flip()) { opt["bcs"]["convection"]["fluid_temp"] = w.num["fluid_temp"] = g.sym(3); }
      }
   }
   if (g.flip())
   {
      out = some(g, outer);
      w.num["outflux"] = 1;
      if (g.flip()) { opt["bcs"]["outflux"] = out; }
      else
      {
         opt["bcs"]["outflux"]["attrs"] = out;
         if (g.flip()) { opt["bcs"]["outflux"]["flux"] = w.num["outflux"] = g.sym(3); }
      }
   }
   if (g.chance(2, 3)) { opt["bcs"]["essential"] = ess = some(g, outer); }
   if (g.chance(1, 3)) { opt["bcs"]["weak-essential"] = weak = some(g, outer); }
   struct Face
   {
      bool contact;
      std::string h, t;
      Attrs a;
   };
   std::vector<Face> faces;
   if (!inner.empty())
   {
      for (int k = g.irange(0, 2); k > 0; --k)
      {
         Face f;
         f.contact = g.flip();
         std::string kind = f.contact ? "thermal_contact_resistance" : "convection", name = g.pick(std::vector<std::string>{"gap", "liner"});
         if (opt.contains("interfaces") && opt["interfaces"].contains(kind) && opt["interfaces"][kind].contains(name)) { continue; }
         f.a = some(g, inner, 2, 3);
         f.h = "h:" + name;
         f.t = "fluid_temp:" + name;
         json o{{"attrs", f.a}};
         // a number shared by two interfaces is given before its first use
         if (w.num.count(f.h)) { w.dirty.insert(f.h); }
         o["h"] = w.num[f.h] = g.real(0.2, 3);
         if (!f.contact) { o["fluid_temp"] = w.num[f.t] = g.sym(3); }
         opt["interfaces"][kind][name] = o;
         faces.push_back(f);
         g.label(kind);
      }
   }
   w.random(g, "state", 2);
   w.random(g, "dirichlet_bc", 2);
   std::unique_ptr<ThermalResidual> res;
   {
      Quiet q;
      g.note(opt.dump());
      res.reset(new ThermalResidual(fes, w.fields, opt, mats));
      setOptions(*res, opt);
   }
   auto kappa = constructMaterialCoefficient("kappa", opt["components"], mats);
   bool with_load = g.flip();
   if (with_load)
   {
      w.tv["thermal_load"] = random_dir(g, fes.GetTrueVSize());
      w.dirty.insert("thermal_load");
   }
   Problem pr;
   pr.fes = &fes;
   pr.ess = strong(fes, ess);
   pr.all = {"mesh_coords", "state", "dirichlet_bc"};
   pr.rev = {"mesh_coords"};
   for (auto &kv : w.num)
   {
      pr.all.push_back(kv.first);
      if (kv.first != "outflux") { pr.rev.push_back(kv.first); }
   }
   if (with_load)
   {
      pr.all.push_back("thermal_load");
      pr.both.push_back("thermal_load");
   }
   pr.interior = [&]() {
      Sum s(fes, w.at("state").gridFunc());
      mfem::GridFunctionCoefficient bc(&w.at("dirichlet_bc").gridFunc());
      s.domain(NonlinearDiffusionIntegrator(*kappa));
      if (dg) { s.inside(DGInteriorFaceDiffusionIntegrator(*kappa, mu)); }
      if (!conv.empty()) { s.wall(ConvectionBCIntegrator(w.num["h"], w.num["fluid_temp"]), conv); }
      if (!out.empty()) { s.wall(OutfluxBCIntegrator(w.num["outflux"], 1.0), out); }
      if (dg && !ess.empty()) { s.wall(NonlinearDGDiffusionIntegrator(*kappa, bc, mu), ess); }
      if (!weak.empty()) { s.wall(NonlinearDGDiffusionIntegrator(*kappa, bc, mu), weak); }
      for (auto &f : faces)
      {
         s.interface(DGInteriorFaceDiffusionIntegrator(*kappa, mu, -1), f.a);
         if (f.contact) { s.interface(ThermalContactResistanceIntegrator(w.num[f.h]), f.a); }
         else { s.interface(InternalConvectionInterfaceIntegrator(w.num[f.h], w.num[f.t]), f.a); }
      }
      Vector r = s.get();
      if (with_load) { r -= w.tv["thermal_load"]; }
      return r;
   };
   pr.change = [&] {
      if (g.flip()) { w.random(g, "state", 2); }
      if (g.chance(1, 3)) { w.random(g, "dirichlet_bc", 2); }
      if (g.chance(1, 3)) { w.move_nodes(g); }
      for (auto &kv : w.num)
         if (g.flip())
         {
            kv.second = g.real(0.2, 3);
            w.dirty.insert(kv.first);
         }
      if (with_load && g.flip())
      {
         w.tv["thermal_load"] = random_dir(g, fes.GetTrueVSize());
         w.dirty.insert("thermal_load");
      }
   };
   check_residual(g, w, *res, pr);
}

// -------------------------------------------------------------- magnetostatic
void sources(Gen &g, World &w, json &opt, json &mats, Attrs &current, Attrs &magnets, bool currents_too = true)
{
   Attrs left = w.attrs;
   if (currents_too && g.chance(2, 3))
   {
      int n = g.irange(1, 2);
      for (int i = 0; i < n; ++i)
      {
         Attrs a = some(g, left);
         if (a.empty()) { continue; }
         std::string name = str("phase", i);
         std::vector<std::string> kinds{"z", "-z"};
         opt["current"][name][g.pick(kinds)] = a;
         w.num["current_density:" + name] = 1.0;
         Attrs rest;
         for (int k : left)
            if (!has(a, k)) { rest.push_back(k); }
         left = rest;
         current.insert(current.end(), a.begin(), a.end());
         g.label("current");
      }
   }
   if (g.chance(2, 3))
   {
      magnets = some(g, w.attrs, 2, 3);
      if (!magnets.empty())
      {
         std::string name = "magnet";
         mats[name] = {{"B_r_T_ref", g.real(0.5, 1.5)}, {"alpha_B_r", g.sym(0.5)}, {"T_ref", g.real(0, 3)}};
         std::vector<std::string> dirs{"x", "y"};
         for (int a : magnets) { opt["magnets"][name][g.pick(dirs)].push_back(a); }
         g.label("magnets");
      }
   }
}
void magnetostatic2d(Gen &g)
{
   World w(g, 2);
   bool dg = g.chance(1, 3);
   int p = g.irange(1, 2);
   w.add("state", dg ? "DG" : "H1", p);
   w.add("dirichlet_bc", dg ? "DG" : "H1", p);
   auto &fes = w.at("state").space();
   Attrs outer, inner, cur, mag, ess, weak;
   boundary_attrs(*w.mesh, outer, inner);
   g.label(dg ? "DG" : "H1");
   json opt, mats = json::object();
   opt["space-dis"] = {{"basis-type", basis(g, dg)}, {"degree", p}};
   double mu = std::pow(p + 1, 3);
   if (g.flip()) { opt["space-dis"]["sipg-penalty"] = mu = g.real(2, 20); }
   opt["lin-prec"] = prec(g);
   if (g.chance(2, 3)) { opt["bcs"]["essential"] = ess = some(g, outer); }
   if (g.chance(1, 3)) { opt["bcs"]["weak-essential"] = weak = some(g, outer); }
   sources(g, w, opt, mats, cur, mag);
   if (!mag.empty() || g.flip())
   {
      w.add("temperature", "H1", g.irange(1, 2));
      w.random(g, "temperature", 2);
   }
   w.random(g, "state", 2);
   w.random(g, "dirichlet_bc", 2);
   Law nu(g);
   std::unique_ptr<MagnetostaticResidual> res;
   {
      Quiet q;
      g.note(opt.dump());
      res.reset(new MagnetostaticResidual(stack(), fes, w.fields, opt, mats, nu));
   }
   std::unique_ptr<CurrentDensityCoefficient2D> J;
   if (!cur.empty()) { J.reset(new CurrentDensityCoefficient2D(stack(), opt["current"])); }
   std::unique_ptr<MagnetizationCoefficient> M;
   std::unique_ptr<miso::ScalarVectorProductCoefficient> nuM;
   if (!mag.empty())
   {
      M.reset(new MagnetizationCoefficient(stack(), opt["magnets"], mats, 2));
      nuM.reset(new miso::ScalarVectorProductCoefficient(nu, *M));
   }
   Problem pr;
   pr.fes = &fes;
   pr.ess = strong(fes, ess);
   pr.all = {"mesh_coords", "state", "dirichlet_bc"};
   pr.rev = {"mesh_coords"};
   if (w.fields.count("temperature"))
   {
      pr.all.push_back("temperature");
      if (!mag.empty()) { pr.rev.push_back("temperature"); }
   }
   for (auto &kv : w.num)
   {
      pr.all.push_back(kv.first);
      pr.both.push_back(kv.first);
   }
   pr.interior = [&]() {
      Sum s(fes, w.at("state").gridFunc());
      mfem::GridFunctionCoefficient bc(&w.at("dirichlet_bc").gridFunc());
      s.domain(NonlinearDiffusionIntegrator(nu));
      if (dg) { s.inside(DGInteriorFaceDiffusionIntegrator(nu, mu)); }
      if (dg && !ess.empty()) { s.wall(NonlinearDGDiffusionIntegrator(nu, bc, mu), ess); }
      if (!weak.empty()) { s.wall(NonlinearDGDiffusionIntegrator(nu, bc, mu), weak); }
      if (J)
      {
         Inputs in;
         for (auto &kv : w.num) { in.emplace(kv.first, kv.second); }
         setInputs(*J, in);
         s.load(miso::DomainLFIntegrator(*J), cur);
      }
      if (M) { s.load(MagnetizationSource2DIntegrator(*nuM, w.at("temperature").gridFunc()), mag); }
      return s.get();
   };
   pr.change = [&] {
      if (g.flip()) { w.random(g, "state", 2); }
      if (g.chance(1, 3)) { w.random(g, "dirichlet_bc", 2); }
      if (g.chance(1, 3)) { w.move_nodes(g); }
      if (w.fields.count("temperature") && g.flip()) { w.random(g, "temperature", 2); }
      for (auto &kv : w.num)
         if (g.flip())
         {
            kv.second = g.sym(3);
            w.dirty.insert(kv.first);
         }
   };
   check_residual(g, w, *res, pr);
}
void magnetostatic3d(Gen &g)
{
   MeshSpec ms;
   ms.internal = true;
   World w(g, 3, ms);
   int p = w.simplex && w.mesh->GetNE() > 6 ? 1 : g.irange(1, 2);
   w.add("state", "nedelec", p);
   w.add("dirichlet_bc", "nedelec", p);
   auto &fes = w.at("state").space();
   Attrs outer, inner, cur, mag, ess;
   boundary_attrs(*w.mesh, outer, inner);
   json opt, mats = json::object();
   opt["space-dis"] = {{"basis-type", "nedelec"}, {"degree", p}};
   opt["lin-prec"] = {{"type", "none"}};
   if (g.chance(2, 3)) { opt["bcs"]["essential"] = ess = some(g, outer); }
   sources(g, w, opt, mats, cur, mag, false);
   w.random(g, "state", 2);
   w.random(g, "dirichlet_bc", 2);
   Law nu(g);
   std::unique_ptr<MagnetostaticResidual> res;
   {
      Quiet q;
      g.note(opt.dump());
      res.reset(new MagnetostaticResidual(stack(), fes, w.fields, opt, mats, nu));
   }
   std::unique_ptr<MagnetizationCoefficient> M;
   std::unique_ptr<mfem::ScalarVectorProductCoefficient> nuM;
   if (!mag.empty())
   {
      M.reset(new MagnetizationCoefficient(stack(), opt["magnets"], mats, 3));
      nuM.reset(new mfem::ScalarVectorProductCoefficient(nu, *M));
   }
   Problem pr;
   pr.fes = &fes;
   pr.ess = strong(fes, ess);
   pr.all = {"mesh_coords", "state", "dirichlet_bc"};
   pr.rev = {"mesh_coords"};
   pr.interior = [&]() {
      Sum s(fes, w.at("state").gridFunc());
      s.domain(CurlCurlNLFIntegrator(nu));
      if (M) { s.load(miso::VectorFEDomainLFCurlIntegrator(*nuM), w.attrs, -1.0); }
      return s.get();
   };
   pr.change = [&] {
      if (g.flip()) { w.random(g, "state", 2); }
      if (g.chance(1, 3)) { w.random(g, "dirichlet_bc", 2); }
      if (g.chance(1, 3)) { w.move_nodes(g); }
   };
   check_residual(g, w, *res, pr);
}

// ---------------------------------------------------------------------- forms
void form(Gen &g)
{
   MeshSpec ms;
   ms.internal = true;
   World w(g, g.chance(2, 3) ? 2 : 3, ms);
   bool dg = g.flip();
   int p = g.irange(1, w.dim == 2 ? 2 : 1);
   w.add("state", dg ? "DG" : "H1", p);
   w.add("dirichlet_bc", dg ? "DG" : "H1", p);
   auto &fes = w.at("state").space();
   Attrs outer, inner;
   boundary_attrs(*w.mesh, outer, inner);
   w.random(g, "state", 2);
   w.random(g, "dirichlet_bc", 2);
   std::string adjoint = g.flip() ? "adjoint" : "psi";
   MISONonlinearForm f(fes, w.fields, adjoint);
   g.check(w.fields.count(adjoint) == 1, "adjoint field");
   std::vector<std::function<void(Sum &)>> terms;
   std::vector<std::unique_ptr<Law>> laws;
   auto law = [&]() -> Law & {
      laws.emplace_back(new Law(g));
      return *laws.back();
   };
   int n = g.irange(1, 4);
   double mu = g.real(2, 10);
   bool mesh = true;
   for (int k = 0; k < n; ++k)
   {
      int kind = g.irange(0, 7);
      if (kind == 4 && !inner.empty()) { kind = 3; }
      if ((kind == 5 || kind == 6) && inner.empty()) { kind = 1; }
      g.note(str("term ", kind, dg ? " DG" : " H1"));
      if (kind == 0)
      {
         Law &l = law();
         f.addDomainIntegrator(new NonlinearDiffusionIntegrator(l));
         terms.push_back([&](Sum &s) { s.domain(NonlinearDiffusionIntegrator(l)); });
      }
      else if (kind == 1)
      {
         Law &l = law();
         Attrs a = w.some_attrs(g);
         f.addDomainIntegrator(new NonlinearDiffusionIntegrator(l), a);
         terms.push_back([&l, a](Sum &s) {
            NonlinearDiffusionIntegrator I(l);
            s.domain(I, a);
         });
         g.label("part of the domain");
      }
      else if (kind == 2)
      {
         Law &l = law();
         f.addInteriorFaceIntegrator(new DGInteriorFaceDiffusionIntegrator(l, mu));
         terms.push_back([&l, mu](Sum &s) { s.inside(DGInteriorFaceDiffusionIntegrator(l, mu)); });
      }
      else if (kind == 3)
      {
         Attrs a = some(g, outer);
         double h = g.real(0.2, 2), t = g.sym(2);
         if (!w.num.count("h"))
         {
            w.num["h"] = h;
            w.num["fluid_temp"] = t;
         }
         f.addBdrFaceIntegrator(new ConvectionBCIntegrator(w.num["h"], w.num["fluid_temp"]), a);
         terms.push_back([&w, a](Sum &s) { s.wall(ConvectionBCIntegrator(w.num["h"], w.num["fluid_temp"]), a); });
      }
      else if (kind == 4)
      {
         // every wall
         if (!w.num.count("outflux")) { w.num["outflux"] = g.sym(2); }
         f.addBdrFaceIntegrator(new OutfluxBCIntegrator(w.num["outflux"], 1.0));
         terms.push_back([&](Sum &s) { s.wall(OutfluxBCIntegrator(w.num["outflux"], 1.0), outer); });
      }
      else if (kind == 5)
      {
         std::string name = g.flip() ? "" : "gap", key = name.empty() ? "h" : "h:gap";
         if (!w.num.count(key)) { w.num[key] = g.real(0.2, 2); }
         Attrs a = inner;
         if (g.flip()) { f.addInternalBoundaryFaceIntegrator(new ThermalContactResistanceIntegrator(w.num[key], name)); }
         else
         {
            a = some(g, inner);
            f.addInternalBoundaryFaceIntegrator(new ThermalContactResistanceIntegrator(w.num[key], name), a);
         }
         terms.push_back([&w, a, key](Sum &s) { s.interface(ThermalContactResistanceIntegrator(w.num[key]), a); });
         g.label("interface");
      }
      else if (kind == 6)
      {
         std::string name = g.flip() ? "" : "gap", h = name.empty() ? "h" : "h:gap", t = name.empty() ? "fluid_temp" : "fluid_temp:gap";
         if (!w.num.count(h)) { w.num[h] = g.real(0.2, 2); }
         if (!w.num.count(t)) { w.num[t] = g.sym(2); }
         Attrs a = inner;
         if (g.flip()) { f.addInternalBoundaryFaceIntegrator(new InternalConvectionInterfaceIntegrator(w.num[h], w.num[t], name)); }
         else
         {
            a = some(g, inner);
            f.addInternalBoundaryFaceIntegrator(new InternalConvectionInterfaceIntegrator(w.num[h], w.num[t], name), a);
         }
         terms.push_back([&w, a, h, t](Sum &s) { s.interface(InternalConvectionInterfaceIntegrator(w.num[h], w.num[t]), a); });
         g.label("interface");
      }
      else
      {
         mesh = false;  // its mesh sensitivity is only used directly
         auto *c = new Spread(g, false);
         static std::vector<std::unique_ptr<Spread>> keep;
         keep.emplace_back(c);
         double alpha = g.sym(2);
         f.addDomainIntegrator(new L2ProjectionIntegrator(*c, alpha));
         terms.push_back([c, alpha](Sum &s) { s.domain(L2ProjectionIntegrator(*c, alpha)); });
      }
   }
   // numbers shared by several terms take one value once they are given
   for (auto &kv : w.num) { w.dirty.insert(kv.first); }
   Attrs ess;
   json opt = json::object();
   if (g.chance(2, 3)) { opt["bcs"]["essential"] = ess = some(g, outer); }
   {
      Quiet q;
      setOptions(f, opt);
   }
   Problem pr;
   pr.fes = &fes;
   pr.ess = strong(fes, ess);
   pr.all = {"mesh_coords", "state", "dirichlet_bc"};
   if (mesh) { pr.rev = {"mesh_coords"}; }
   for (auto &kv : w.num)
   {
      pr.all.push_back(kv.first);
      if (kv.first != "outflux") { pr.rev.push_back(kv.first); }
   }
   pr.interior = [&]() {
      Sum s(fes, w.at("state").gridFunc());
      for (auto &t : terms) { t(s); }
      return s.get();
   };
   pr.change = [&] {
      if (g.flip()) { w.random(g, "state", 2); }
      if (g.chance(1, 3)) { w.random(g, "dirichlet_bc", 2); }
      if (g.chance(1, 3)) { w.move_nodes(g); }
      for (auto &kv : w.num)
         if (g.flip())
         {
            kv.second = g.real(0.2, 3);
            w.dirty.insert(kv.first);
         }
   };
   check_residual(g, w, f, pr);
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"thermal", thermal, 150, 30000},
       {"magnetostatic-2d", magnetostatic2d, 150, 30000},
       {"magnetostatic-3d", magnetostatic3d, 60, 10000},
       {"form", form, 150, 30000},
   };
   Runner r("P23", props, "the inputs have changed at least once before what is checked");
   r.assumptions = {"the MFEM additions MISO needs are stand-ins (shim/odl.hpp)", "derivatives are compared with extrapolated central differences (relative tolerance 1e-6)",
                    "one process"};
   return r.main(argc, argv);
}
