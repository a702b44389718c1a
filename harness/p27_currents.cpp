// P27: fields are split into gradients and divergence-free fields, currents
// drive residuals by their divergence-free part only, with sensitivities
#include "outgen.hpp"
#include "projgen.hpp"
#include "div_free_projector.hpp"
#include "current_load.hpp"
#include "magnetostatic_load.hpp"
#include "magnetic_source_functions.hpp"
#include "mfem_common_integ.hpp"
#include "miso_load.hpp"

using namespace outgen;
using namespace projgen;
using namespace miso;

namespace
{
adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}
MeshSpec spec(Gen &g, int dim, int p)
{
   MeshSpec ms;
   ms.max2 = dim == 2 && p == 1 ? 3 : 2;
   ms.max3 = p == 1 && g.chance(1, 3) ? 2 : 1;
   return ms;
}
// ------------------------------------------------------------------ projector
void projector(Gen &g)
{
   int dim = g.chance(1, 2) ? 2 : 3;
   int p = g.irange(1, 2);
   World w(g, dim, spec(g, dim, p));
   if (dim == 3 && w.simplex && p == 1 && w.mesh->GetNE() <= 6 && g.chance(1, 2)) { p = 2; }
   ND_FECollection ndc(p, dim);
   H1_FECollection h1c(p, dim);
   ParFiniteElementSpace nd(w.mesh.get(), &ndc), h1(w.mesh.get(), &h1c);
   int natural = CurrentRef::order(*w.mesh, p);
   int order = g.chance(1, 2) ? natural : natural + g.irange(1, 3);
   bool free = g.flip();
   g.label(free ? "divergence-free" : "irrotational");
   std::unique_ptr<IrrotationalProjector> irr;
   std::unique_ptr<DivergenceFreeProjector> div;
   if (free) { div.reset(new DivergenceFreeProjector(h1, nd, order)); }
   else { irr.reset(new IrrotationalProjector(h1, nd, order)); }
   Projection ref(*w.mesh, h1c, ndc, order);
   g.nontrivial(ref.inside.Size() > 0);
   g.label(ref.inside.Size() ? "potentials inside" : "no potentials");
   g.note(str("degree ", p, " dofs ", nd.GetVSize(), " inside ", ref.inside.Size(), " order ", order - natural));
   int n = nd.GetVSize();
   auto tell = [&] {
      Inputs in{{"mesh_coords", w.tv["mesh_coords"]}};
      w.at("mesh_coords").distributeSharedDofs(w.tv["mesh_coords"]);
      if (free) { setInputs(*div, in); }
      else { setInputs(*irr, in); }
   };
   auto mult = [&](const Vector &x, Vector &y) {
      Quiet q;
      if (free) { div->Mult(x, y); }
      else { irr->Mult(x, y); }
   };
   auto want = [&](const Vector &x) {
      Vector y = ref.apply(x);
      if (free)
      {
         y -= x;
         y.Neg();
      }
      return y;
   };
   auto vjp = [&](const Vector &x, const Vector &wb, const std::string &wrt, Vector &bar) {
      Quiet q;
      if (free) { div->vectorJacobianProduct(x, wb, wrt, bar); }
      else { irr->vectorJacobianProduct(x, wb, wrt, bar); }
   };
   int steps = g.irange(1, 4);
   for (int k = 0; k < steps; ++k)
   {
      if (g.chance(1, 2))
      {
         w.move_nodes(g, 0.01);
         tell();
      }
      ParGridFunction x(&nd);
      x = random_dir(g, n, g.chance(1, 4) ? 100.0 : 1.0);
      double sz = x.Normlinf();
      int op = g.irange(0, 2);
      if (op == 0)
      {
         Vector y = random_dir(g, n), x0(x);
         mult(x, y);
         x0 -= x;
         g.check(x0.Normlinf() == 0, "argument left as it was");
         Vector e = want(x);
         double t = 1e-8 * (sz + e.Normlinf());
         e -= y;
         g.close(e.Normlinf(), 0.0, t, "projection");
         // twice is once
         Vector z(n);
         mult(y, z);
         z -= y;
         g.close(z.Normlinf(), 0.0, 10 * t, "projected twice");
         if (!free) { g.close(ref.curl2(y), 0.0, 1e-12 * (sz * sz + y.Norml2() * y.Norml2()) * (1 + ref.curl2(x) / (sz * sz + 1e-300)), "curl of the projection"); }
         else if (ref.inside.Size())
         {
            DenseMatrix M = ref.mass(ref.ir);
            Vector my(n), d(ref.inside.Size());
            M.Mult(y, my);
            ref.G.MultTranspose(my, d);
            g.close(d.Normlinf(), 0.0, 1e-9 * (sz + y.Normlinf()) * (1 + M.MaxMaxNorm()), "divergence of the projection");
         }
      }
      else if (op == 1)
      {
         Vector wb = random_dir(g, n), was = random_dir(g, n), bar(was), e = ref.transpose(wb);
         if (free)
         {
            e -= wb;
            e.Neg();
         }
         vjp(x, wb, "in", bar);
         bar -= was;
         double t = 1e-8 * (1 + e.Normlinf());
         e -= bar;
         g.close(e.Normlinf(), 0.0, t, "transpose");
      }
      else
      {
         Vector wb = random_dir(g, n), x0 = w.tv["mesh_coords"], was = random_dir(g, x0.Size()), bar(was), d = random_dir(g, x0.Size());
         if (g.chance(1, 3))
         {
            d = 0.0;
            d(g.irange(0, d.Size() - 1)) = 1;
         }
         vjp(x, wb, "mesh_coords", bar);
         bar -= was;
         Vector xv(x);
         auto f = [&](const Vector &X, Vector &r) {
            w.at("mesh_coords").distributeSharedDofs(X);
            r = one(want(xv) * wb);
         };
         fd_check(g, f, x0, d, one(bar * d), 0.002, "mesh derivative", "", 1e-6, 1e-9 * sz);
         w.at("mesh_coords").distributeSharedDofs(x0);
      }
   }
   if (!ref.ok) { g.discard(); }
}

// ----------------------------------------------------------------------- load
typedef std::vector<int> Attrs;
void currents(Gen &g)
{
   int p = g.irange(1, 2);
   World w(g, 3, spec(g, 3, p));
   ND_FECollection ndc(p, 3);
   ParFiniteElementSpace &fes = w.add("state", "nedelec", p).space();
   json opt, mats = json::object();
   std::vector<std::string> groups;
   Attrs left = w.attrs;
   int n = g.irange(1, 2);
   for (int i = 0; i < n; ++i)
   {
      std::string name = str("phase", i);
      for (int pass = 0; pass < 2; ++pass)
      {
         Attrs a, rest;
         for (int k : left) { (g.flip() ? a : rest).push_back(k); }
         if (a.empty()) { continue; }
         left = rest;
         std::string kind = g.pick(std::vector<std::string>{"x", "y", "z", "-z", "box1", "box2"});
         for (int k : a) { opt["current"][name][kind].push_back(k); }
      }
      if (!opt.contains("current") || !opt["current"].contains(name)) { continue; }
      groups.push_back(name);
      w.num["current_density:" + name] = 1.0;
   }
   if (groups.empty()) { return g.discard(); }
   Attrs ess;
   int top = w.mesh->bdr_attributes.Max();
   for (int k = 1; k <= top; ++k)
      if (g.chance(1, 3)) { ess.push_back(k); }
   if (!ess.empty()) { opt["bcs"]["essential"] = ess; }
   bool both = g.chance(1, 3), magnets = both && g.chance(2, 3);
   if (magnets)
   {
      mats["magnet"] = {{"B_r_T_ref", g.real(0.5, 1.5)}, {"alpha_B_r", g.sym(0.5)}, {"T_ref", g.real(0, 3)}};
      for (int a : w.some_attrs(g)) { opt["magnets"]["magnet"][g.pick(std::vector<std::string>{"x", "y"})].push_back(a); }
   }
   g.label(str("degree ", p, magnets ? " and magnets" : ""));
   g.note(opt.dump() + str(" dofs ", fes.GetVSize()));
   Law nu(g);
   std::unique_ptr<CurrentLoad> alone;
   std::unique_ptr<MagnetostaticLoad> with;
   {
      Quiet q;
      if (both)
      {
         with.reset(new MagnetostaticLoad(stack(), fes, w.fields, opt, mats, nu));
         setOptions(*with, opt);
      }
      else { alone.reset(new CurrentLoad(stack(), fes, w.fields, opt)); }
   }
   CurrentRef ref(stack(), *w.mesh, ndc, p, opt["current"]);
   std::unique_ptr<MagnetizationCoefficient> M;
   std::unique_ptr<mfem::ScalarVectorProductCoefficient> nuM;
   if (magnets)
   {
      M.reset(new MagnetizationCoefficient(stack(), opt["magnets"], mats, 3));
      nuM.reset(new mfem::ScalarVectorProductCoefficient(nu, *M));
   }
   Array<int> tdofs, mk(top);
   mk = 0;
   for (int k : ess) { mk[k - 1] = 1; }
   fes.GetEssentialTrueDofs(mk, tdofs);
   g.nontrivial(ref.p.inside.Size() > 0);
   g.label(ref.p.inside.Size() ? "potentials inside" : "no potentials");
   int size = fes.GetTrueVSize();
   double scale = 1;
   auto want = [&]() {
      Inputs in;
      for (auto &s : groups) { in["current_density:" + s] = w.num["current_density:" + s]; }
      Vector l = ref.value(in);
      if (magnets)
      {
         miso::VectorFEDomainLFCurlIntegrator I(*nuM);
         l += dom_linear(I, ref.p.nd);
      }
      l.SetSubVector(tdofs, 0.0);
      l.Neg();
      return l;
   };
   auto give = [&](const Inputs &in) {
      Quiet q;
      if (both) { setInputs(*with, in); }
      else { setInputs(*alone, in); }
   };
   auto add = [&](Vector &tv) {
      Quiet q;
      if (both) { addLoad(*with, tv); }
      else { addLoad(*alone, tv); }
   };
   std::vector<std::string> all{"mesh_coords"};
   for (auto &s : groups) { all.push_back("current_density:" + s); }
   int steps = g.irange(1, 5);
   std::string last;
   for (int k = 0; k < steps; ++k)
   {
      if (g.chance(2, 3))
      {
         for (auto &s : groups)
            if (g.flip())
            {
               w.num["current_density:" + s] = g.chance(1, 6) ? 0.0 : g.sym(g.chance(1, 4) ? 1e3 : 3.0);
               w.dirty.insert("current_density:" + s);
            }
         if (g.chance(1, 3)) { w.move_nodes(g, 0.01); }
         Inputs in = w.changes(g, all, {});
         if (!in.empty() || g.flip()) { give(in); }
         // spoilt coordinates are restored by whoever owns the field
         if (in.count("mesh_coords")) { w.at("mesh_coords").distributeSharedDofs(w.tv["mesh_coords"]); }
      }
      for (auto &s : groups) { scale = std::max(scale, std::abs(w.num["current_density:" + s])); }
      int op = g.irange(0, 3);
      if (op == 0 || k + 1 == steps)
      {
         Vector was = random_dir(g, size), tv(was), e = want();
         add(tv);
         tv -= was;
         tv -= e;
         g.close(tv.Normlinf(), 0.0, 1e-9 * (scale + e.Normlinf()), "load");
      }
      if (op == 1)
      {
         std::string name = g.chance(1, 8) ? "nothing" : g.pick(groups), wrt = "current_density:" + name;
         Vector e(size);
         e = 0.0;
         if (name != "nothing")
         {
            Inputs in;
            for (auto &s : groups) { in["current_density:" + s] = s == name ? 1.0 : 0.0; }
            e = ref.value(in);
            e.SetSubVector(tdofs, 0.0);
            e.Neg();
         }
         double d = g.sym(2);
         Vector was = random_dir(g, size), jv(was), bar = random_dir(g, size), bar0(bar);
         double vj = 0;
         int which = g.irange(0, 2);
         bool forward = which != 1, reverse = which != 2, forward_first = g.flip();
         {
            Quiet q;
            // in either order, or only one of them
            for (int r = 0; r < 2; ++r)
            {
               if ((r == 0) == forward_first)
               {
                  if (!forward) { continue; }
                  if (both) { jacobianVectorProduct(*with, one(d), wrt, jv); }
                  else { jacobianVectorProduct(*alone, one(d), wrt, jv); }
               }
               else if (reverse) { vj = both ? vectorJacobianProduct(*with, bar, wrt) : vectorJacobianProduct(*alone, bar, wrt); }
            }
         }
         bar0 -= bar;
         g.check(bar0.Normlinf() == 0, "adjoint left as it was");
         jv -= was;
         if (forward)
         {
            jv.Add(-d, e);
            g.close(jv.Normlinf(), 0.0, 1e-9 * (scale + e.Normlinf()), "forward derivative");
         }
         if (reverse) { g.close(vj, e * bar, 1e-8 * (scale + e.Norml1()), "reverse derivative"); }
      }
      else if (op == 2)
      {
         Vector x0 = w.tv["mesh_coords"], d = random_dir(g, x0.Size()), was = random_dir(g, x0.Size()), bar(was), psi = random_dir(g, size);
         if (g.chance(1, 3))
         {
            d = 0.0;
            d(g.irange(0, d.Size() - 1)) = 1;
         }
         {
            Quiet q;
            if (both) { vectorJacobianProduct(*with, psi, "mesh_coords", bar); }
            else { vectorJacobianProduct(*alone, psi, "mesh_coords", bar); }
         }
         bar -= was;
         auto f = [&](const Vector &X, Vector &r) {
            w.at("mesh_coords").distributeSharedDofs(X);
            r = one(want() * psi);
         };
         fd_check(g, f, x0, d, one(bar * d), 0.002, "mesh derivative", "", 1e-6, 1e-8 * scale);
         w.at("mesh_coords").distributeSharedDofs(x0);
      }
   }
   if (!ref.p.ok) { g.discard(); }
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"projector", projector, 400, 60000},
       {"load", currents, 250, 30000},
   };
   Runner r("P27", props, "there are potentials inside the domain, i.e. the projection is not zero");
   r.assumptions = {"the MFEM additions MISO needs are stand-ins (shim/odl.hpp)", "derivatives are compared with extrapolated central differences (relative tolerance 1e-6)",
                    "one process"};
   return r.main(argc, argv);
}
