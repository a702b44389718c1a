// P28: fields and their curls are carried over to discontinuous spaces, with
// exact derivatives
#include "outgen.hpp"
#include "l2_transfer_operator.hpp"

using namespace outgen;
using namespace miso;

namespace
{
/// kinds: 0 scalar, 1 field, 2 curl, 3 magnitude of the curl
template <typename Op, typename As>
void transfer(Gen &g, World &w, int kind, const std::string &basis, int p)
{
   int q = g.irange(0, 3), vdim = kind == 1 || kind == 2 ? w.dim : 1;
   if (g.flip()) { q = std::min(q, p); }
   w.add("state", basis, p);
   w.add("out", "DG", q, vdim);
   Op own(w.at("state"), w.at("mesh_coords"), w.at("out"));
   As op(std::move(own));
   auto &fes = w.at("out").space();
   g.label(str(kind == 0 ? "scalar " : kind == 1 ? "field " : kind == 2 ? "curl " : "magnitude of the curl ", basis));
   g.note(str(w.dim, "D kind ", kind, " ", basis, " degrees ", p, " ", q));
   g.check(getSize(op) == fes.GetTrueVSize(), "size");
   // the values at the nodes of the elements of the output
   auto want = [&]() {
      Vector v(fes.GetVSize());
      Array<int> d;
      GridFunction &u = w.at("state").gridFunc();
      for (int e = 0; e < fes.GetNE(); ++e)
      {
         const IntegrationRule &ir = fes.GetFE(e)->GetNodes();
         fes.GetElementVDofs(e, d);
         auto &T = *fes.GetElementTransformation(e);
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            T.SetIntPoint(&ir.IntPoint(i));
            Vector x(vdim);
            if (kind == 0) { x(0) = u.GetValue(T, ir.IntPoint(i)); }
            else if (kind == 1) { u.GetVectorValue(T, ir.IntPoint(i), x); }
            else
            {
               Vector c(w.dim);
               if (w.dim == 3) { u.GetCurl(T, c); }
               else
               {
                  u.GetGradient(T, c);
                  std::swap(c(0), c(1));
                  c(1) = -c(1);
               }
               if (kind == 2) { x = c; }
               else { x(0) = c.Norml2(); }
            }
            for (int k = 0; k < vdim; ++k) { v(d[k * ir.GetNPoints() + i]) = x(k); }
         }
      }
      return v;
   };
   int steps = g.irange(1, 4);
   g.nontrivial(steps > 1);
   for (int k = 0; k < steps; ++k)
   {
      if (k == 0 || g.chance(2, 3)) { w.random(g, "state", g.chance(1, 5) ? 50 : 1); }
      if (g.chance(1, 3)) { w.move_nodes(g, 0.01); }
      std::vector<std::string> all{"state", "mesh_coords"};
      int how = g.irange(0, 2);
      Vector got;
      auto given = [&] {
         // a caller of setInputs may drop its arrays afterwards
         auto in = w.changes(g, all, {});
         if (!in.empty())
         {
            setInputs(op, in);
            g.label("set first");
         }
      };
      auto apply = [&]() {
         Vector v = random_dir(g, fes.GetTrueVSize());
         if (how == 0) { calcOutput(op, w.changes(g, all, {}), v); }
         else if (how == 1)
         {
            given();
            calcOutput(op, g.flip() ? Inputs() : w.changes(g, all, {}), v);
         }
         else { calcOutput(op, w.changes(g, all, {"state"}), v); }
         return v;
      };
      if (g.chance(1, 2))
      {
         Vector v = apply(), e = want();
         double t = 1e-11 * (1 + e.Normlinf());
         e -= v;
         g.close(e.Normlinf(), 0.0, t, "values");
         // ... and the field itself holds them
         Vector f(w.at("out").gridFunc());
         f -= v;
         g.close(f.Normlinf(), 0.0, 0.0, "output field");
         continue;
      }
      std::string wrt = g.chance(1, 6) ? "out" : g.flip() ? "state" : "mesh_coords";
      Vector bar = random_dir(g, fes.GetTrueVSize()), bar0(bar);
      if (g.flip()) { given(); }
      if (!w.dirty.empty()) { apply(); }
      if (wrt == "out")
      {
         Vector was = random_dir(g, bar.Size()), wb(was);
         vectorJacobianProduct(op, bar, wrt, wb);
         wb -= was;
         wb += bar;
         g.close(wb.Normlinf(), 0.0, 1e-14, "output itself");
         continue;
      }
      Vector x0 = w.tv[wrt], d = random_dir(g, x0.Size()), was = random_dir(g, x0.Size()), wb(was);
      if (g.chance(1, 3))
      {
         d = 0.0;
         d(g.irange(0, d.Size() - 1)) = 1;
      }
      vectorJacobianProduct(op, bar, wrt, wb);
      bar0 -= bar;
      g.check(bar0.Normlinf() == 0, "adjoint left as it was");
      wb -= was;
      auto f = [&](const Vector &x, Vector &y) {
         w.at(wrt).distributeSharedDofs(x);
         y = one(want() * bar);
      };
      fd_check(g, f, x0, d, one(wb * d), wrt == "state" ? 0.02 : 0.002, wrt + " derivative", "", 1e-6, 1e-11);
      w.at(wrt).distributeSharedDofs(x0);
   }
}
void transfers(Gen &g)
{
   MeshSpec ms;
   int dim = g.flip() ? 2 : 3;
   World w(g, dim, ms);
   int kind = g.irange(0, 3), p = g.irange(1, dim == 2 ? 3 : 2);
   if (kind == 0) { transfer<ScalarL2IdentityProjection, L2TransferOperator>(g, w, kind, g.flip() ? "H1" : "DG", p); }
   else if (kind == 1) { transfer<L2IdentityProjection, L2TransferOperator>(g, w, kind, g.flip() ? "nedelec" : "RT", p); }
   else
   {
      std::string b = dim == 3 ? "nedelec" : g.chance(2, 3) ? "H1" : "DG";
      if (kind == 2) { transfer<L2CurlProjection, MISOOutput>(g, w, kind, b, p); }
      else { transfer<L2CurlMagnitudeProjection, MISOOutput>(g, w, kind, b, p); }
   }
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"transfer", transfers, 3000, 400000},
   };
   Runner r("P28", props, "the operator has been used before what is checked");
   r.assumptions = {"the MFEM additions MISO needs are stand-ins (shim/odl.hpp)", "derivatives are compared with extrapolated central differences (relative tolerance 1e-6)",
                    "one process"};
   return r.main(argc, argv);
}
