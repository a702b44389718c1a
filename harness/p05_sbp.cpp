// P05: summation-by-parts elements
#include "pbt.hpp"
#include "mfem.hpp"
#include "meshgen.hpp"
#include "sbp_fe.hpp"
#include <memory>
#include <map>

using namespace pbt;
using namespace mfem;
namespace
{
struct Elem
{
   std::unique_ptr<FiniteElementCollection> fec;
   const SBPFiniteElement *sbp;
   int p, dim;
   bool cont;
   std::string name;
};

Elem element(Gen &g)
{
   Elem e;
   int k = g.irange(0, 3);
   if (k <= 1)
   {
      e.dim = k + 1;
      e.p = g.irange(0, 4);
      e.cont = true;
      e.fec.reset(new SBPCollection(e.p, 2));
   }
   else if (k == 2)
   {
      e.dim = g.irange(1, 2);
      e.p = g.irange(0, 4);
      e.cont = false;
      e.fec.reset(new DSBPCollection(e.p, 2));
   }
   else
   {
      e.dim = 3;
      e.p = g.irange(0, 1);
      e.cont = true;
      e.fec.reset(new SBPCollection(e.p, 3));
   }
   Geometry::Type geo = e.dim == 1 ? Geometry::SEGMENT : e.dim == 2 ? Geometry::TRIANGLE : Geometry::TETRAHEDRON;
   e.sbp = dynamic_cast<const SBPFiniteElement *>(e.fec->FiniteElementForGeometry(geo));
   g.check(e.sbp != nullptr, "no-element");
   e.name = str(e.cont ? "SBP" : "DSBP", " dim=", e.dim, " p=", e.p);
   g.note(e.name);
   g.label(str(e.cont ? "c" : "d", e.dim, "p", e.p));
   return e;
}

struct Poly
{
   std::vector<std::array<int, 3>> e;
   std::vector<double> c;
   Poly(Gen &g, int dim, int deg)
   {
      for (int i = 0; i <= deg; ++i)
      {
         for (int j = 0; j <= (dim > 1 ? deg - i : 0); ++j)
         {
            for (int k = 0; k <= (dim > 2 ? deg - i - j : 0); ++k)
            {
               e.push_back({i, j, k});
               c.push_back(g.sym(1.0));
            }
         }
      }
   }
   static double pw(double x, int n) { return n <= 0 ? 1.0 : std::pow(x, n); }
   double operator()(const double *x) const
   {
      double s = 0;
      for (size_t q = 0; q < e.size(); ++q) { s += c[q] * pw(x[0], e[q][0]) * pw(x[1], e[q][1]) * pw(x[2], e[q][2]); }
      return s;
   }
   double d(int di, const double *x) const
   {
      double s = 0;
      for (size_t q = 0; q < e.size(); ++q)
      {
         auto f = e[q];
         if (f[di] == 0) { continue; }
         double k = f[di];
         f[di] -= 1;
         s += c[q] * k * pw(x[0], f[0]) * pw(x[1], f[1]) * pw(x[2], f[2]);
      }
      return s;
   }
   // integral over the unit reference simplex
   double integral(int dim) const
   {
      double s = 0;
      for (size_t q = 0; q < e.size(); ++q)
      {
         double num = std::tgamma(e[q][0] + 1.0) * std::tgamma(e[q][1] + 1.0) * std::tgamma(e[q][2] + 1.0);
         s += c[q] * num / std::tgamma(e[q][0] + e[q][1] + e[q][2] + dim + 1.0);
      }
      return s;
   }
   double mag() const
   {
      double s = 0;
      for (double v : c) { s += std::fabs(v); }
      return s;
   }
};

struct Nodes
{
   std::vector<std::array<double, 3>> x;
   Nodes(const Elem &e)
   {
      int n = e.sbp->GetDof();
      x.assign(n, {0, 0, 0});
      for (int d = 0; d < e.dim; ++d)
      {
         Vector c;
         e.sbp->getNodeCoords(d, c);
         for (int i = 0; i < n; ++i) { x[i][d] = c(i); }
      }
   }
   const double *operator[](int i) const { return x[i].data(); }
};

// accuracy, norm, summation by parts
void operators(Gen &g)
{
   Elem e = element(g);
   Nodes X(e);
   const int n = e.sbp->GetDof(), p = e.p;
   const Vector &H = e.sbp->returnDiagNorm();
   for (int i = 0; i < n; ++i)
   {
      g.check(H(i) > 0, "norm-positive");
      g.check(H(i) == e.sbp->getDiagNormEntry(i), "norm-entry");
      double s = 0;
      for (int d = 0; d < e.dim; ++d)
      {
         s += X[i][d];
         g.check(X[i][d] >= -1e-14, "node-outside");
      }
      g.check(s <= 1 + 1e-13, "node-outside");
      const IntegrationPoint &ip = e.sbp->GetNodes().IntPoint(i);
      g.check(ip.x == X[i][0] && (e.dim < 2 || ip.y == X[i][1]) && (e.dim < 3 || ip.z == X[i][2]) && ip.weight == H(i), "nodes-disagree");
      g.check(e.sbp->getIntegrationPointIndex(ip) == i, "ip-index");
   }
   {
      IntegrationPoint off;
      off.Set3(0.1234567, e.dim > 1 ? 0.2345678 : 0.0, e.dim > 2 ? 0.3111 : 0.0);
      bool threw = false;
      try { e.sbp->getIntegrationPointIndex(off); } catch (...) { threw = true; }
      g.check(threw, "non-node-accepted");
   }
   // norm: the quadrature is exact to (at least) degree 2p-1
   int qd = std::max(2 * p - 1, p == 0 ? 1 : 0);
   Poly q(g, e.dim, qd);
   double s = 0;
   for (int i = 0; i < n; ++i) { s += H(i) * q(X[i]); }
   g.close(s, q.integral(e.dim), 1e-12 * q.mag(), "norm-quadrature", e.name);
   // derivative exact for polynomials of degree <= p
   // the degree-0 triangle is a listed finding: its E is dense
   const bool tri0 = e.dim == 2 && p == 0;
   bool dense = false;
   Poly u(g, e.dim, p), v(g, e.dim, p);
   Vector U(n), V(n), DU(n), tmp(n);
   for (int i = 0; i < n; ++i) { U(i) = u(X[i]); V(i) = v(X[i]); }
   for (int di = 0; di < e.dim; ++di)
   {
      DenseMatrix D(n), Q(n), Dt(n), Qt(n);
      e.sbp->getStrongOperator(di, D);
      e.sbp->getStrongOperator(di, Dt, true);
      e.sbp->getWeakOperator(di, Q);
      e.sbp->getWeakOperator(di, Qt, true);
      D.Mult(U, DU);
      for (int i = 0; i < n; ++i) { g.close(DU(i), u.d(di, X[i]), 2e-12 * n * (1 + p) * u.mag() * (1 + D.MaxMaxNorm()), "derivative", e.name); }
      double uv = 0;
      for (int i = 0; i < n; ++i)
      {
         Vector row;
         e.sbp->getStrongOperator(di, i, row);
         for (int j = 0; j < n; ++j)
         {
            double tol = 1e-13 * (1 + std::fabs(D(i, j)));
            g.close(row(j), D(i, j), tol, "strong-row");
            g.close(Dt(j, i), D(i, j), tol, "strong-transpose");
            g.close(Qt(j, i), Q(i, j), 1e-15, "weak-transpose");
            g.close(H(i) * D(i, j), Q(i, j), tol, "D=H^-1 Q");
            g.check(e.sbp->getQ(di, i, j) == Q(i, j), "getQ");
            double E = Q(i, j) + Q(j, i);
            if (i != j && tri0) { dense = dense || std::fabs(E) > 1e-13; }
            else if (i != j) { g.close(E, 0.0, 1e-13, "E-diagonal", str(e.name, " entry ", i, ",", j)); }
            uv += U(i) * E * V(j);
         }
         // E is a boundary operator: no contribution from interior nodes
         double bsum = 0;
         bool bd = false;
         for (int d = 0; d < e.dim; ++d) { bd = bd || std::fabs(X[i][d]) < 1e-12; bsum += X[i][d]; }
         bd = bd || std::fabs(bsum - 1) < 1e-12;
         if (!bd) { g.close(Q(i, i), 0.0, 1e-13, "E-interior", e.name); }
      }
      // u'Ev = int d(uv)/dx_di, the discrete integration by parts
      double want = 0;
      {
         Poly w(g, e.dim, 0);
         w.e.clear();
         w.c.clear();
         for (size_t a = 0; a < u.e.size(); ++a)
         {
            for (size_t b = 0; b < v.e.size(); ++b)
            {
               std::array<int, 3> f{u.e[a][0] + v.e[b][0], u.e[a][1] + v.e[b][1], u.e[a][2] + v.e[b][2]};
               if (f[di] == 0) { continue; }
               double k = f[di];
               f[di] -= 1;
               w.e.push_back(f);
               w.c.push_back(k * u.c[a] * v.c[b]);
            }
         }
         want = w.integral(e.dim);
      }
      g.close(uv, want, 1e-11 * (1 + u.mag() * v.mag()), "summation-by-parts", e.name);
   }
   g.nontrivial(p >= 1);
   g.check(!dense, "E-diagonal:triangle-p0", "the boundary operator of the degree-0 triangle is not diagonal");
}

DenseMatrix rnd(Gen &g, int r, int c)
{
   DenseMatrix m(r, c);
   for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { m(i, j) = g.sym(1.0); } }
   return m;
}

// all the ways of applying an operator agree with its matrix
void application(Gen &g)
{
   Elem e = element(g);
   const int n = e.sbp->GetDof(), ns = g.irange(1, 7);
   DenseMatrix u = rnd(g, ns, n), base = rnd(g, ns, n), out(ns, n);
   const Vector &H = e.sbp->returnDiagNorm();
   e.sbp->multNormMatrix(u, out);
   for (int i = 0; i < n; ++i) { for (int s = 0; s < ns; ++s) { g.close(out(s, i), H(i) * u(s, i), 1e-15, "multNorm"); } }
   DenseMatrix w(u);
   e.sbp->multNormMatrix(w, w);   // documented as in-place
   e.sbp->multNormMatrixInv(w, w);
   for (int i = 0; i < n; ++i) { for (int s = 0; s < ns; ++s) { g.close(w(s, i), u(s, i), 1e-14, "norm-inverse"); } }
   for (int di = 0; di < e.dim; ++di)
   {
      DenseMatrix Q(n), D(n);
      e.sbp->getWeakOperator(di, Q);
      e.sbp->getStrongOperator(di, D);
      double qs = 1e-13 * (1 + n * Q.MaxMaxNorm()), ds = 1e-13 * (1 + n * D.MaxMaxNorm());
      DenseMatrix Qu(base), Qtu(base);
      e.sbp->multWeakOperator(di, u, Qu);
      e.sbp->multWeakOperator(di, u, Qtu, true);
      for (int i = 0; i < n; ++i)
      {
         Vector qi(ns), di_(ns);
         qi = 7.0;
         di_ = 7.0;
         e.sbp->multWeakOperator(di, i, u, qi);
         e.sbp->multStrongOperator(di, i, u, di_);
         for (int s = 0; s < ns; ++s)
         {
            double a = 0, b = 0, c = 0;
            for (int j = 0; j < n; ++j) { a += Q(i, j) * u(s, j); b += Q(j, i) * u(s, j); c += D(i, j) * u(s, j); }
            g.close(Qu(s, i), base(s, i) + a, qs, "multWeak");
            g.close(Qtu(s, i), base(s, i) - b, qs, "multWeak-transpose");
            g.close(qi(s), a, qs, "multWeak-row");
            g.close(di_(s), c, ds, "multStrong-row");
         }
      }
   }
   // local projection
   DenseMatrix P(n), Pu(ns, n), Ptu(ns, n), PPu(ns, n);
   e.sbp->getProjOperator(P);
   e.sbp->multProjOperator(u, Pu);
   e.sbp->multProjOperator(u, Ptu, true);
   e.sbp->multProjOperator(Pu, PPu);
   double ps = 1e-11 * n;
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < n; ++j)
      {
         g.close(e.sbp->getProjOperatorEntry(i, j), P(i, j), 1e-12, "proj-entry");
         g.close(H(i) * P(i, j), H(j) * P(j, i), 1e-12, "proj-H-symmetric");
      }
      for (int s = 0; s < ns; ++s)
      {
         double a = 0, b = 0;
         for (int j = 0; j < n; ++j) { a += P(i, j) * u(s, j); b += P(j, i) * u(s, j); }
         g.close(Pu(s, i), a, ps, "multProj");
         g.close(Ptu(s, i), b, ps, "multProj-transpose");
         g.close(PPu(s, i), Pu(s, i), ps, "proj-idempotent", e.name);
      }
   }
   Nodes X(e);
   Poly q(g, e.dim, e.p);
   DenseMatrix pol(1, n), ppol(1, n);
   for (int i = 0; i < n; ++i) { pol(0, i) = q(X[i]); }
   e.sbp->multProjOperator(pol, ppol);
   for (int i = 0; i < n; ++i) { g.close(ppol(0, i), 0.0, 1e-12 * n * (1 + q.mag()), "proj-annihilates", e.name); }
   // positive semi-definite in the norm: (Pu)' H u >= 0
   for (int s = 0; s < ns; ++s)
   {
      double f = 0;
      for (int i = 0; i < n; ++i) { f += Pu(s, i) * H(i) * u(s, i); }
      g.check(f >= -1e-13, "proj-dissipative", str(f));
   }
   g.nontrivial(ns >= 2 && e.p >= 1);
}

// physical-space entries
void physical(Gen &g)
{
   Elem e = element(g);
   const int n = e.sbp->GetDof(), dim = e.dim;
   const bool tri0 = e.dim == 2 && e.p == 0;
   bool wrong0 = false;
   bool affine = g.flip();
   std::vector<DenseMatrix> adj;
   DenseMatrix a0 = rnd(g, dim, dim);
   for (int i = 0; i < n; ++i) { adj.push_back(affine ? a0 : rnd(g, dim, dim)); }
   g.label(affine ? "affine" : "curved");
   for (int di = 0; di < dim; ++di)
   {
      DenseMatrix Qp(n);
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j)
         {
            double S = e.sbp->getSkewEntry(di, i, j, adj[i], adj[j]), T = e.sbp->getSkewEntry(di, j, i, adj[j], adj[i]);
            g.close(S, -T, 1e-14, "skew");
            double want = 0, sym = 0;
            for (int k = 0; k < dim; ++k)
            {
               want += adj[i](k, di) * e.sbp->getQ(k, i, j) - adj[j](k, di) * e.sbp->getQ(k, j, i);
               sym += adj[i](k, di) * e.sbp->getQ(k, i, i);
            }
            g.close(S, want, 1e-14, "skew-entry");
            if (i == j) { g.close(e.sbp->getSymEntry(di, i, adj[i]), sym, 1e-14, "sym-entry"); }
            Qp(i, j) = e.sbp->getQEntry(di, i, j, adj[i], adj[j]);
            g.close(Qp(i, j), i == j ? sym : 0.5 * want, 1e-14, "Q-entry");
            // reverse mode is the exact adjoint of the (linear) forward map
            DenseMatrix bi = rnd(g, dim, dim), bj = rnd(g, dim, dim), bi0(bi), bj0(bj);
            double sb = g.sym(2.0);
            DenseMatrix ti = rnd(g, dim, dim), tj = rnd(g, dim, dim);
            if (i < 4 && j < 4)
            {
               e.sbp->getSkewEntryRevDiff(di, i, j, sb, bi, bj);
               double fw = sb * e.sbp->getSkewEntry(di, i, j, ti, tj), rv = 0;
               for (int a = 0; a < dim; ++a)
               {
                  for (int b = 0; b < dim; ++b) { rv += (bi(a, b) - bi0(a, b)) * ti(a, b) + (bj(a, b) - bj0(a, b)) * tj(a, b); }
               }
               g.close(fw, rv, 1e-13, "skew-reverse");
            }
         }
      }
      if (affine)
      {
         // with a constant adjugate the physical operator is exact on
         // polynomials: sum_k adj(k,di) d/dxi_k
         Nodes X(e);
         Poly u(g, dim, e.p);
         for (int i = 0; i < n; ++i)
         {
            double s = 0, w = 0;
            for (int j = 0; j < n; ++j) { s += Qp(i, j) * u(X[j]); }
            for (int k = 0; k < dim; ++k) { w += a0(k, di) * u.d(k, X[i]); }
            if (tri0) { wrong0 = wrong0 || std::fabs(s - e.sbp->getDiagNormEntry(i) * w) > 1e-12 * (1 + u.mag()); continue; }
            g.close(s, e.sbp->getDiagNormEntry(i) * w, 1e-12 * (1 + u.mag()), "physical-derivative", e.name);
         }
      }
   }
   g.nontrivial(e.p >= 1);
   g.check(!wrong0, "physical-derivative:triangle-p0", "the physical-space operator of the degree-0 triangle does not differentiate constants");
}

// shape functions at nodes and anywhere else in the element
void shapes(Gen &g)
{
   Elem e = element(g);
   Nodes X(e);
   const int n = e.sbp->GetDof();
   Vector sh(n);
   DenseMatrix dsh(n, e.dim);
   Poly u(g, e.dim, e.p);
   for (int i = 0; i < n; ++i)
   {
      const IntegrationPoint &ip = e.sbp->GetNodes().IntPoint(i);
      sh = 9.0;
      e.sbp->CalcShape(ip, sh);
      for (int j = 0; j < n; ++j) { g.close(sh(j), i == j ? 1.0 : 0.0, 1e-14, "kronecker", e.name); }
      dsh = 9.0;
      e.sbp->CalcDShape(ip, dsh);
      double big = 0;
      for (int d = 0; d < e.dim; ++d)
      {
         double s = 0;
         for (int j = 0; j < n; ++j) { big = std::max(big, std::fabs(dsh(j, d))); }
         for (int j = 0; j < n; ++j) { s += dsh(j, d) * u(X[j]); }
         g.close(s, u.d(d, X[i]), 2e-12 * n * (1 + e.p) * (1 + u.mag()) * (1 + big), "dshape-derivative", e.name);
      }
      for (int d = 0; d < e.dim; ++d)
      {
         Vector row;
         e.sbp->getStrongOperator(d, i, row);
         for (int j = 0; j < n; ++j) { g.close(dsh(j, d), row(j), 1e-13 * (1 + big), "dshape", e.name); }
      }
   }
   int m = g.irange(1, 4);
   for (int k = 0; k < m; ++k)
   {
      double b[4] = {0, 0, 0, 0}, s = 0;
      for (int d = 0; d <= e.dim; ++d) { b[d] = g.real(0.01, 1); s += b[d]; }
      double x[3] = {0, 0, 0};
      for (int d = 0; d < e.dim; ++d) { x[d] = b[d] / s; }
      IntegrationPoint ip;
      ip.Set3(x[0], x[1], x[2]);
      e.sbp->CalcShape(ip, sh);
      double v = 0, one = 0, mag = 0;
      for (int j = 0; j < n; ++j) { v += sh(j) * u(X[j]); one += sh(j); mag += std::fabs(sh(j)); }
      if (k == 0) { g.note(str("at (", x[0], ",", x[1], ",", x[2], ")")); }
      g.close(one, 1.0, 1e-11 * (1 + mag), "partition-of-unity", e.name);
      g.close(v, u(x), 1e-11 * (1 + mag) * (1 + u.mag()), "off-node-reproduction", e.name);
   }
   g.nontrivial(e.p >= 1);
}
// the finite-element space over a mesh: a continuous space shares a degree of
// freedom between elements exactly where their nodes coincide
void mesh(Gen &g)
{
   int dim = g.irange(2, 3), p = dim == 2 ? g.irange(0, 4) : g.irange(0, 1);
   bool cont = dim == 3 || g.chance(2, 3);
   auto m = simplex_mesh(g, dim);
   std::unique_ptr<FiniteElementCollection> fec;
   if (cont) { fec.reset(new SBPCollection(p, dim)); }
   else { fec.reset(new DSBPCollection(p, dim)); }
   FiniteElementSpace fes(m.get(), fec.get());
   g.note(str(fec->Name(), " ndofs=", fes.GetNDofs()));
   g.label(str(cont ? "c" : "d", dim, "p", p));
   std::map<int, std::array<double, 3>> where;
   std::map<int, int> uses;
   std::map<std::array<long, 3>, int> at;
   long total = 0;
   for (int el = 0; el < m->GetNE(); ++el)
   {
      auto *fe = dynamic_cast<const SBPFiniteElement *>(fes.GetFE(el));
      g.check(fe != nullptr, "not-sbp");
      auto &tr = *fes.GetElementTransformation(el);
      Array<int> dofs;
      fes.GetElementDofs(el, dofs);
      g.check(dofs.Size() == fe->GetDof(), "dof-count", str(dofs.Size(), " vs ", fe->GetDof()));
      double vol = 0;
      std::set<int> seen;
      for (int i = 0; i < dofs.Size(); ++i)
      {
         const IntegrationPoint &ip = fe->GetNodes().IntPoint(i);
         Vector x(dim);
         tr.SetIntPoint(&ip);
         tr.Transform(ip, x);
         vol += fe->getDiagNormEntry(i) * tr.Weight();
         int d = dofs[i];
         g.check(d >= 0 && d < fes.GetNDofs(), "dof-range");
         g.check(seen.insert(d).second, "dof-repeated");
         ++uses[d];
         ++total;
         std::array<double, 3> c{x(0), x(1), dim == 3 ? x(2) : 0.0};
         auto it = where.find(d);
         if (it == where.end()) { where[d] = c; }
         else
         {
            double e = 0;
            for (int k = 0; k < 3; ++k) { e = std::max(e, std::fabs(c[k] - it->second[k])); }
            g.check(e < 1e-9, "shared-dof-position", str("dof ", d, " sits at two points ", e, " apart"));
         }
      }
      g.close(vol, m->GetElementVolume(el), 1e-12 * vol, "element-volume");
   }
   g.check(static_cast<int>(where.size()) == fes.GetNDofs(), "dof-unused");
   // continuity: two dofs at one point only in the discontinuous space
   int merged = 0;
   for (auto &w : where)
   {
      std::array<long, 3> key;
      for (int k = 0; k < 3; ++k) { key[k] = std::lround(w.second[k] * 1e7); }
      bool dup = false;
      for (long a = -1; a <= 1; ++a) { for (long b = -1; b <= 1; ++b) { for (long c = -1; c <= 1; ++c) { dup = dup || at.count({key[0] + a, key[1] + b, key[2] + c}); } } }
      merged += dup;
      at[key] = w.first;
   }
   if (cont) { g.check(merged == 0, "continuity", str(merged, " coincident nodes are separate degrees of freedom")); }
   else { g.check(total == fes.GetNDofs(), "discontinuous-shared"); }
   // grid function of a nodally interpolated polynomial is exact off-node
   Poly u(g, dim, p);
   FunctionCoefficient fc([&](const Vector &x) { double c[3] = {x(0), x(1), dim == 3 ? x(2) : 0.0}; return u(c); });
   GridFunction gf(&fes);
   gf.ProjectCoefficient(fc);
   int el = g.irange(0, m->GetNE() - 1);
   double b[4], s = 0;
   for (int d = 0; d <= dim; ++d) { b[d] = g.real(0.01, 1); s += b[d]; }
   IntegrationPoint ip;
   ip.Set3(b[0] / s, b[1] / s, dim == 3 ? b[2] / s : 0.0);
   Vector x(dim);
   m->GetElementTransformation(el)->Transform(ip, x);
   double c[3] = {x(0), x(1), dim == 3 ? x(2) : 0.0};
   g.close(gf.GetValue(el, ip), u(c), 1e-9 * (1 + u.mag()) * std::pow(8.0, p), "grid-function");
   g.nontrivial(m->GetNE() >= 4);
}
}  // namespace

int main(int argc, char **argv)
{
   Runner r("P05",
            {{"operators", operators, 2500, 30000}, {"application", application, 1500, 20000}, {"physical", physical, 800, 10000}, {"shapes", shapes, 2500, 30000}, {"mesh", mesh, 3000, 30000}},
            "random SBP/DSBP element (segment and triangle p=0..4, tetrahedron p=0..1), random polynomials, states, adjugates and evaluation points; "
            "non-trivial: degree >= 1");
   return r.main(argc, argv);
}
