// P24: the mesh warper moves volume nodes with the surface, with derivatives
#include "mpi_init.hpp"
#include "femgen.hpp"
#include <unistd.h>
#include <filesystem>
#include "mesh_warper.hpp"
#include "mesh_move_integ.hpp"

using namespace pbt;
using namespace mfem;
using namespace femgen;
using json = nlohmann::json;
using Inputs = miso::MISOInputs;
namespace
{
struct Scratch
{
   std::string dir, old;
   Scratch()
   {
      char b[4096], t[] = "/tmp/pbtXXXXXX";
      old = getcwd(b, sizeof b);
      dir = mkdtemp(t);
      if (chdir(dir.c_str())) { abort(); }
   }
   ~Scratch()
   {
      if (chdir(old.c_str())) { abort(); }
      std::filesystem::remove_all(dir);
   }
};
/// stiffness of the body with both Lame parameters one
DenseMatrix stiffness(FiniteElementSpace &fes)
{
   int n = fes.GetVSize(), dim = fes.GetMesh()->Dimension();
   DenseMatrix K(n);
   K = 0.0;
   Array<int> vd;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      auto &el = *fes.GetFE(e);
      auto &T = *fes.GetElementTransformation(e);
      int nd = el.GetDof();
      DenseMatrix k(nd * dim), ds(nd, dim);
      k = 0.0;
      auto &ir = IntRules.Get(el.GetGeomType(), 2 * T.OrderGrad(&el));
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         auto &ip = ir.IntPoint(q);
         T.SetIntPoint(&ip);
         el.CalcPhysDShape(T, ds);
         double w = ip.weight * T.Weight();
         for (int a = 0; a < nd; ++a)
            for (int b = 0; b < nd; ++b)
            {
               double gg = 0;
               for (int d = 0; d < dim; ++d) { gg += ds(a, d) * ds(b, d); }
               for (int i = 0; i < dim; ++i)
                  for (int j = 0; j < dim; ++j)
                  {
                     // div u div v + 2 e(u):e(v)
                     k(a + nd * i, b + nd * j) += w * (ds(a, i) * ds(b, j) + ds(a, j) * ds(b, i) + (i == j ? gg : 0.0));
                  }
            }
      }
      fes.GetElementVDofs(e, vd);
      for (int a = 0; a < vd.Size(); ++a)
         for (int b = 0; b < vd.Size(); ++b) { K(vd[a], vd[b]) += k(a, b); }
   }
   return K;
}
/// solve A x = b by elimination with pivoting; false if singular
bool gauss(DenseMatrix A, Vector b, Vector &x)
{
   int n = A.Height();
   for (int k = 0; k < n; ++k)
   {
      int r = k;
      for (int i = k + 1; i < n; ++i)
         if (std::abs(A(i, k)) > std::abs(A(r, k))) { r = i; }
      if (std::abs(A(r, k)) < 1e-12) { return false; }
      for (int j = 0; j < n; ++j) { std::swap(A(r, j), A(k, j)); }
      std::swap(b(r), b(k));
      for (int i = k + 1; i < n; ++i)
      {
         double f = A(i, k) / A(k, k);
         if (f == 0) { continue; }
         for (int j = k; j < n; ++j) { A(i, j) -= f * A(k, j); }
         b(i) -= f * b(k);
      }
   }
   x.SetSize(n);
   for (int i = n - 1; i >= 0; --i)
   {
      double s = b(i);
      for (int j = i + 1; j < n; ++j) { s -= A(i, j) * x(j); }
      x(i) = s / A(i, i);
   }
   return true;
}
std::unique_ptr<Mesh> body(Gen &g, int &p, bool &affine)
{
   int dim = g.chance(2, 3) ? 2 : 3;
   MeshSpec s;
   s.max2 = 3;
   s.max3 = 2;
   s.curved = false;
   auto fm = fem_mesh(g, dim, s);
   affine = fm.affine;
   p = g.irange(1, 2);  // (the preconditioner cannot cope with more)
   auto &m = *fm.mesh;
   m.SetCurvature(p, false, -1, Ordering::byVDIM);
   if (p > 1 && g.flip())
   {
      auto &x = *m.GetNodes();
      for (int i = 0; i < x.Size(); ++i) { x(i) += g.sym(0.02); }
      affine = false;
   }
   g.label(str(dim, "D p", p, affine ? "" : " curved"));
   return std::move(fm.mesh);
}
double far(const Vector &a, const Vector &b)
{
   Vector d(a);
   d -= b;
   return d.Normlinf();
}
void warper(Gen &g)
{
   Scratch scratch;
   int p;
   bool affine;
   auto smesh = body(g, p, affine);
   int dim = smesh->Dimension();
   auto ref = std::make_unique<Mesh>(*smesh);
   auto &fes = *ref->GetNodes()->FESpace();
   Vector x0(*ref->GetNodes());
   int n = x0.Size();
   DenseMatrix K = stiffness(fes);
   Array<int> all(ref->bdr_attributes.Max()), surf;
   all = 1;
   fes.GetEssentialTrueDofs(all, surf);
   std::vector<char> on(n, 0);
   for (int i : surf) { on[i] = 1; }
   std::vector<int> in;
   for (int i = 0; i < n; ++i)
      if (!on[i]) { in.push_back(i); }
   auto lin = [&] {
      json o = {{"type", p == 1 && g.flip() ? "pcg" : "gmres"}, {"printlevel", -1}, {"maxiter", 400}, {"abstol", 1e-15}, {"reltol", 1e-14}};
      return o;
   };
   json opt = {{"print-options", false}, {"mesh", {{"file", "any.mesh"}}}, {"space-dis", {{"degree", p}, {"basis-type", g.flip() ? "h1" : "H1"}}}, {"lin-solver", lin()}, {"adj-solver", lin()},
               {"nonlin-solver", {{"type", "newton"}, {"printlevel", -1}, {"maxiter", g.irange(4, 6)}, {"reltol", 1e-13}, {"abstol", 1e-13}}}, {"lin-prec", {{"printlevel", 0}}}, {"bcs", {{"essential", "all"}}}};
   g.note(opt.dump());
   std::unique_ptr<miso::MeshWarper> w;
   {
      Quiet q;
      w.reset(new miso::MeshWarper(MPI_COMM_WORLD, opt, std::move(smesh)));
   }
   // what it says about the mesh
   Vector v0, s0;
   Array<int> idx;
   auto getters = [&] {
      w->getInitialVolumeCoords(v0);
      w->getInitialSurfaceCoords(s0);
      w->getSurfCoordIndices(idx);
      g.check(w->getVolumeCoordsSize() == n && v0.Size() == n, "volume size");
      g.check(w->getSurfaceCoordsSize() == surf.Size() && s0.Size() == surf.Size() && idx.Size() == surf.Size(), "surface size");
      g.close(far(v0, x0), 0.0, 0.0, "initial volume");
      std::vector<char> seen(n, 0);
      bool ok = true;
      for (int i = 0; i < idx.Size(); ++i)
      {
         ok = ok && idx[i] >= 0 && idx[i] < n && on[idx[i]] && !seen[idx[i]];
         if (!ok) { break; }
         seen[idx[i]] = 1;
         ok = s0(i) == x0(idx[i]);
      }
      g.check(ok, "surface indices");
   };
   getters();
   // the rest of the volume for a surface
   int ni = int(in.size());
   DenseMatrix Kii(ni);
   for (int i = 0; i < ni; ++i)
      for (int j = 0; j < ni; ++j) { Kii(i, j) = K(in[i], in[j]); }
   auto follow = [&](const Vector &surface) {
      Vector d(n), b(ni), y;
      d = 0.0;
      for (int i = 0; i < idx.Size(); ++i) { d(idx[i]) = surface(i) - x0(idx[i]); }
      for (int i = 0; i < ni; ++i)
      {
         b(i) = 0;
         for (int j = 0; j < n; ++j) { b(i) -= K(in[i], j) * d(j); }
      }
      if (ni > 0 && !gauss(Kii, b, y)) { y.SetSize(ni), y = NAN; }
      for (int i = 0; i < ni; ++i) { d(in[i]) = y(i); }
      d += x0;
      return d;
   };
   auto residual = [&](const Vector &x, const Vector *surface) {
      Vector d(x), r(n);
      d -= x0;
      K.Mult(d, r);
      for (int i = 0; i < idx.Size(); ++i) { r(idx[i]) = surface ? x(idx[i]) - (*surface)(i) : 0.0; }
      return r;
   };
   int steps = g.irange(1, 5), solves = 0;
   double scale = 1 + K.MaxMaxNorm();
   Vector x(x0), s(s0);
   for (int k = 0; k < steps; ++k)
   {
      int op = g.irange(0, 4);
      if (op == 0 || k == 0)
      {
         // move the surface
         int how = g.irange(0, 2);
         Vector t(s0);
         if (how == 0)
         {
            for (int i = 0; i < t.Size(); ++i) { t(i) += g.sym(0.1); }
         }
         else
         {
            // an affine motion
            DenseMatrix A(dim);
            Vector c(dim);
            for (int i = 0; i < dim; ++i)
            {
               c(i) = g.sym(2);
               for (int j = 0; j < dim; ++j) { A(i, j) = (i == j ? 1.0 : 0.0) + (how == 2 ? g.sym(0.5) : 0.0); }
            }
            for (int i = 0; i < idx.Size(); ++i)
            {
               int node = idx[i] / dim, d = idx[i] % dim;
               t(i) = c(d);
               for (int j = 0; j < dim; ++j) { t(i) += A(d, j) * x0(node * dim + j); }
            }
            if (affine || how == 1)
            {
               Vector f = follow(t), a(n);
               for (int node = 0; node < n / dim; ++node)
                  for (int d = 0; d < dim; ++d)
                  {
                     a(node * dim + d) = c(d);
                     for (int j = 0; j < dim; ++j) { a(node * dim + d) += A(d, j) * x0(node * dim + j); }
                  }
               // (of the reference: an affine motion of the surface moves all)
               g.close(far(f, a), 0.0, 1e-9 * (1 + a.Normlinf()), "affine reference");
            }
         }
         s = t;
         // from where the inner nodes are now, or from elsewhere
         Vector y(g.flip() ? x : x0);
         if (g.chance(1, 4))
         {
            for (int i : in) { y(i) += g.sym(0.1); }
         }
         for (int i = 0; i < idx.Size(); ++i) { y(idx[i]) = s(i); }
         {
            Quiet q;
            if (g.flip()) { w->solveForState(y); }
            else
            {
               Inputs i;
               if (g.flip()) { i.emplace("surf_mesh_coords", s); }
               w->solveForState(i, y);
            }
         }
         Vector want = follow(s);
         g.close(far(y, want), 0.0, 1e-7 * (1 + want.Normlinf()), "volume follows surface", str("motion ", how));
         x = y;
         ++solves;
         g.label(str("motion ", how));
      }
      else if (op == 1)
      {
         bool with = g.flip();
         Vector y(x), t(s), r = random_dir(g, n);
         if (g.flip()) { y += random_dir(g, n); }
         if (g.flip()) { t += random_dir(g, t.Size()); }
         Inputs i{{"state", y}};
         if (with) { i.emplace("surf_mesh_coords", t); }
         Vector yb(y), tb(t);
         {
            Quiet q;
            w->calcResidual(i, r);
         }
         g.close(far(r, residual(y, with ? &t : nullptr)), 0.0, 1e-10 * scale * (1 + y.Normlinf()), "residual");
         g.check(far(y, yb) == 0 && far(t, tb) == 0, "inputs left as they were");
         g.label("residual");
      }
      else if (op == 2)
      {
         Inputs i{{"state", x}, {"surf_mesh_coords", s}};
         Vector v = random_dir(g, n), psi = random_dir(g, n), was = random_dir(g, n), jv(was), wb(was), ds = random_dir(g, s.Size()), sw = random_dir(g, s.Size()), sb(sw), js(was);
         {
            Quiet q;
            w->linearize(i);
            w->jacobianVectorProduct(v, "state", jv);
            w->vectorJacobianProduct(psi, "state", wb);
            w->jacobianVectorProduct(ds, "surf_mesh_coords", js);
            w->vectorJacobianProduct(psi, "surf_mesh_coords", sb);
         }
         Vector kv(n), kt(n), pi(psi);
         K.Mult(v, kv);
         for (int a : surf)
         {
            kv(a) = v(a);
            pi(a) = 0;
         }
         K.MultTranspose(pi, kt);
         for (int a : surf) { kt(a) += psi(a); }
         jv -= was;
         wb -= was;
         js -= was;
         sb -= sw;
         double tol = 1e-10 * scale * (1 + v.Norml1() + psi.Norml1());
         g.close(far(jv, kv), 0.0, tol, "state forward");
         g.close(far(wb, kt), 0.0, tol, "state reverse");
         Vector es(n), er(s.Size());
         es = 0.0;
         for (int a = 0; a < idx.Size(); ++a)
         {
            es(idx[a]) = -ds(a);
            er(a) = -psi(idx[a]);
         }
         g.close(far(js, es), 0.0, 1e-12 * (1 + was.Normlinf() + ds.Normlinf()), "surface forward");
         g.close(far(sb, er), 0.0, 1e-12 * (1 + sw.Normlinf() + psi.Normlinf()), "surface reverse");
         g.label("products");
      }
      else if (op == 3)
      {
         // total derivative of the volume by the surface
         Inputs i{{"state", x}, {"surf_mesh_coords", s}};
         Vector bar = random_dir(g, n), bb(bar), psi(n), sb(s.Size());
         if (g.flip()) { psi = 0.0; }
         else { psi = random_dir(g, n); }
         sb = 0.0;
         {
            Quiet q;
            w->linearize(i);
            w->solveForAdjoint(i, bar, psi);
            w->vectorJacobianProduct(psi, "surf_mesh_coords", sb);
         }
         g.check(far(bar, bb) == 0, "inputs left as they were");
         Vector ds = random_dir(g, s.Size()), t(s0);
         t += ds;
         Vector dx = follow(t);
         dx -= x0;
         g.close(-(sb * ds), bar * dx, 1e-7 * (1 + bar.Norml1() * dx.Normlinf()), "volume by surface");
         g.label("adjoint");
      }
      else { getters(); }
   }
   g.nontrivial(ni > 0 && steps > 1 && solves > 0);
}
/// the element term by itself, on fields that need not be the mesh's
void element(Gen &g)
{
   int p;
   bool affine;
   auto m = body(g, p, affine);
   int dim = m->Dimension();
   Spread l(g, true), mu(g, true);
   miso::ElasticityPositionIntegrator I(l, mu);
   auto &fes = *m->GetNodes()->FESpace();
   Vector x0(*m->GetNodes()), x(x0);
   int how = g.irange(0, 2);
   if (how == 0) { x += random_dir(g, x.Size()); }
   else if (how == 1)
   {
      // rigid motion for small angles: translation plus skew displacement
      double c[3] = {g.sym(1), g.sym(1), g.sym(1)}, w[3] = {g.sym(1), g.sym(1), g.sym(1)};
      for (int i = 0; i < x.Size() / dim; ++i)
      {
         const double *y = x0.GetData() + i * dim;
         double d[3] = {-w[2] * y[1] + (dim == 3 ? w[1] * y[2] : 0), w[2] * y[0] - (dim == 3 ? w[0] * y[2] : 0), dim == 3 ? -w[1] * y[0] + w[0] * y[1] : 0};
         for (int k = 0; k < dim; ++k) { x(i * dim + k) += c[k] + d[k]; }
      }
   }
   g.nontrivial(how != 2);
   g.label(how == 0 ? "any motion" : how == 1 ? "rigid motion" : "no motion");
   Array<int> vd;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      auto &el = *fes.GetFE(e);
      auto &T = *fes.GetElementTransformation(e);
      int nd = el.GetDof();
      fes.GetElementVDofs(e, vd);
      Vector u, u0, r, want(nd * dim), d;
      x.GetSubVector(vd, u);
      x0.GetSubVector(vd, u0);
      d = u;
      d -= u0;
      I.AssembleElementVector(el, T, u, r);
      want = 0.0;
      DenseMatrix ds(nd, dim);
      auto &ir = IntRules.Get(el.GetGeomType(), 2 * T.OrderGrad(&el));
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         auto &ip = ir.IntPoint(q);
         T.SetIntPoint(&ip);
         el.CalcPhysDShape(T, ds);
         double G[3][3] = {{0}}, div = 0, L = l.Eval(T, ip), M = mu.Eval(T, ip), wt = ip.weight * T.Weight();
         for (int i = 0; i < dim; ++i)
            for (int j = 0; j < dim; ++j)
               for (int a = 0; a < nd; ++a) { G[i][j] += d(a + nd * i) * ds(a, j); }
         for (int i = 0; i < dim; ++i) { div += G[i][i]; }
         for (int a = 0; a < nd; ++a)
            for (int i = 0; i < dim; ++i)
            {
               double s = L * div * ds(a, i);
               for (int j = 0; j < dim; ++j) { s += M * (G[i][j] + G[j][i]) * ds(a, j); }
               want(a + nd * i) += wt * s;
            }
      }
      g.check(r.Size() == want.Size(), "size");
      double scale = 1e-10 * (1 + 1000 * d.Normlinf());
      g.close(far(r, want), 0.0, scale, "element term");
      if (how != 0) { g.close(r.Normlinf(), 0.0, scale, "no force for a rigid motion"); }
      DenseMatrix J;
      I.AssembleElementGrad(el, T, u, J);
      Vector v = random_dir(g, nd * dim), jv(nd * dim), up(u), rp;
      J.Mult(v, jv);
      up += v;
      I.AssembleElementVector(el, T, up, rp);
      rp -= r;
      g.close(far(jv, rp), 0.0, 1e-9 * (1 + J.MaxMaxNorm() * (v.Norml1() + u.Norml1())), "element jacobian");
   }
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   std::vector<Prop> props = {
       {"warper", warper, 600, 20000},
       {"element", element, 1500, 60000},
   };
   Runner r("P24", props, "there are nodes inside, and the surface has moved before other calls");
   r.assumptions = {"the MFEM additions MISO needs are stand-ins (shim/odl.hpp)", "stiffness is integrated with the rule MFEM's elasticity term uses", "one process"};
   return r.main(argc, argv);
}
