// P14: element and face terms of the Euler residual
#include "flowgen.hpp"
#include "euler_sens_integ.hpp"

namespace
{
// ------------------------------------------------------- boundary terms
enum BC { SLIP, FAR, VORTEX, ECONS, CONTROL, NBC };
const char *bc_name[] = {"slip-wall", "far-field", "vortex", "entropy-conserving", "control"};

template <int dim>
struct BCData
{
   int kind;
   double alpha;
   double qfar[5];
   double t, control, len;
   Vector xc;
   double qb[5], slope[5];   // boundary state as a function of t and x
   double *seen_t;
   void make(Gen &g, Field<dim> &f, int k)
   {
      kind = k;
      alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0);
      Field<dim> ff = f;
      ff.amp = 0.3;
      ff.node(g, qfar);
      ff.node(g, qb);
      t = g.sym(2.0);
      control = g.sym(0.5);
      len = g.real(0.2, 3);
      xc.SetSize(dim);
      for (int d = 0; d < dim; ++d) { xc(d) = g.sym(1.0) + (d == 0 ? 8 : 0); }
   }
   void state(double tt, const Vector &x, double *q) const
   {
      double m = 1 + 0.05 * std::sin(x(0) + 2 * (x.Size() > 1 ? x(1) : 0.0) + tt);
      for (int k = 0; k < dim + 2; ++k) { q[k] = m * qb[k]; }
   }
   static double scale(double len, const Vector &xc, const Vector &x)
   {
      double r = 0;
      for (int d = 0; d < x.Size(); ++d) { r += (x(d) - xc(d)) * (x(d) - xc(d)) * (d + 1); }
      return std::exp(-r / (len * len));
   }
   /// reference flux, at a conservative state
   void ref(const Vector &x, const double *n, const double *q, double *f) const
   {
      double p = pres<dim>(q), wk[5];
      for (int k = 0; k < dim + 2; ++k) { f[k] = 0; }
      if (kind == SLIP) { for (int d = 0; d < dim; ++d) { f[d + 1] = p * n[d]; } }
      else if (kind == FAR) { calcBoundaryFlux<double, dim>(n, qfar, q, wk, f); }
      else if (kind == VORTEX)
      {
         if constexpr (dim == 2)
         {
            double qv[4];
            calcIsentropicVortexState<double>(x.GetData(), qv);
            calcBoundaryFlux<double, 2>(n, qv, q, wk, f);
         }
      }
      else if (kind == ECONS)
      {
         double b[5], un = 0;
         state(t, x, b);
         for (int d = 0; d < dim; ++d) { un += b[d + 1] / b[0] * n[d]; }
         double S = -b[0] * std::log(pres<dim>(b) / std::pow(b[0], 1.4)) / 0.4;
         calcBoundaryFluxEC<double, dim>(n, b, q, un * S, f);
      }
      else
      {
         double a = 0, uc = control * scale(len, xc, x);
         for (int d = 0; d < dim; ++d) { a += n[d] * n[d]; }
         double U = -uc * std::sqrt(a);
         for (int k = 0; k < dim + 2; ++k) { f[k] = U * q[k]; }
         for (int d = 0; d < dim; ++d) { f[d + 1] += n[d] * p; }
         f[dim + 1] += U * p;
      }
   }
   template <bool entvar, typename F>
   void with(const FiniteElementCollection *fec, F fun) const
   {
      Vector qf(const_cast<double *>(qfar), dim + 2);
      if (kind == SLIP) { SlipWallBC<dim, entvar> i(stack(), fec, alpha); fun(i); }
      else if (kind == FAR) { FarFieldBC<dim, entvar> i(stack(), fec, qf, alpha); fun(i); }
      else if (kind == VORTEX)
      {
         if constexpr (dim == 2) { IsentropicVortexBC<2, entvar> i(stack(), fec, alpha); fun(i); }
      }
      else if (kind == ECONS)
      {
         EntropyConserveBC<dim, entvar> i(stack(), fec, [this](double tt, const Vector &x, Vector &q) { state(tt, x, q.GetData()); }, alpha);
         setInputs(i, MISOInputs{{"time", t}});
         fun(i);
      }
      else
      {
         Vector other(xc);
         other += 1.0;
         ControlBC<dim, entvar> i(stack(), fec, scale, other, len, alpha);
         setInputs(i, MISOInputs{{"control", control}, {"x-actuator", xc}});
         fun(i);
      }
   }
};

// ------------------------------------------------------------- the checks
template <int dim, bool entvar>
struct T
{
   // ---- reference assembly of volume terms
   static Vector ref_euler(const Setup &s, int e, const Vector &q, double alpha)
   {
      auto &sbp = s.sbp(e);
      auto *Tr = s.mesh->GetElementTransformation(e);
      int n = sbp.GetDof();
      Vector r(q.Size());
      r = 0.0;
      for (int i = 0; i < n; ++i)
      {
         Geo G = geo(*Tr, sbp.GetNodes().IntPoint(i));
         double qi[5], f[5];
         node_get<dim>(q, n, i, qi);
         double p = pres<dim>(qi);
         for (int di = 0; di < dim; ++di)
         {
            double U = 0;
            for (int d = 0; d < dim; ++d) { U += qi[d + 1] / qi[0] * G.adj(di, d); }
            for (int k = 0; k < dim + 2; ++k) { f[k] = U * qi[k]; }
            for (int d = 0; d < dim; ++d) { f[d + 1] += p * G.adj(di, d); }
            f[dim + 1] += U * p;
            for (int j = 0; j < n; ++j)
               for (int k = 0; k < dim + 2; ++k) { r(k * n + j) -= alpha * sbp.getQ(di, i, j) * f[k]; }
         }
      }
      return r;
   }
   static Vector ref_ir(const Setup &s, int e, const Vector &q, double alpha, double *ent = nullptr)
   {
      auto &sbp = s.sbp(e);
      auto *Tr = s.mesh->GetElementTransformation(e);
      int n = sbp.GetDof();
      Vector r(q.Size());
      r = 0.0;
      if (ent) { *ent = 0; }
      std::vector<Geo> G;
      for (int i = 0; i < n; ++i) { G.push_back(geo(*Tr, sbp.GetNodes().IntPoint(i))); }
      for (int i = 0; i < n; ++i)
         for (int j = 0; j < n; ++j)
         {
            if (i == j) { continue; }
            double qi[5], qj[5], f[5];
            node_get<dim>(q, n, i, qi);
            node_get<dim>(q, n, j, qj);
            for (int di = 0; di < dim; ++di)
            {
               calcIsmailRoeFlux<double, dim>(di, qi, qj, f);
               double S = sbp.getSkewEntry(di, i, j, G[i].adj, G[j].adj);
               for (int k = 0; k < dim + 2; ++k) { r(k * n + i) += alpha * S * f[k]; }
               if (ent) { *ent += alpha * S * qi[di + 1]; }
            }
         }
      return r;
   }
   static Vector ref_lps(const Setup &s, int e, const Vector &q, double alpha, double c)
   {
      auto &sbp = s.sbp(e);
      auto *Tr = s.mesh->GetElementTransformation(e);
      int n = sbp.GetDof();
      Vector w = all_w<dim>(q, n), r(q.Size());
      r = 0.0;
      for (int k = 0; k < n; ++k)
      {
         Geo G = geo(*Tr, sbp.GetNodes().IntPoint(k));
         double qk[5], pw[5] = {0}, a[5];
         node_get<dim>(q, n, k, qk);
         for (int j = 0; j < n; ++j)
            for (int m = 0; m < dim + 2; ++m) { pw[m] += sbp.getProjOperatorEntry(k, j) * w(m * n + j); }
         applyLPSScaling<double, dim>(G.adj.GetData(), qk, pw, a);
         for (int j = 0; j < n; ++j)
            for (int m = 0; m < dim + 2; ++m)
            {
               r(m * n + j) += alpha * c * sbp.getProjOperatorEntry(k, j) * sbp.getDiagNormEntry(k) * a[m];
            }
      }
      return r;
   }
   static double jac_size(const Setup &s, int e)
   {
      auto *Tr = s.mesh->GetElementTransformation(e);
      Geo G = geo(*Tr, s.sbp(e).GetNodes().IntPoint(0));
      return G.adj.FNorm();
   }
   static Vector wdot_parts(const Vector &q, int n) { return all_w<dim>(q, n); }
   static void sums(Gen &g, const Vector &r, int n, double scale, const std::string &key)
   {
      for (int k = 0; k < dim + 2; ++k)
      {
         double s = 0;
         for (int i = 0; i < n; ++i) { s += r(k * n + i); }
         g.check(std::fabs(s) <= 1e-11 * scale * n, key, str("equation ", k, " sums to ", fmt(s), " over the nodes; scale ", fmt(scale)));
      }
   }

   // ---- volume terms
   static void volume(Gen &g)
   {
      Setup s = setup(g, dim, false, true);
      Field<dim> f(g);
      int e = g.irange(0, s.mesh->GetNE() - 1);
      auto &sbp = s.sbp(e);
      auto &el = *s.fes->GetFE(e);
      int n = sbp.GetDof();
      Vector q = f.el(g, n), u = work<dim, entvar>(q, n), w = all_w<dim>(q, n), r, r2;
      double alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0);
      double c = g.logreal(1e-2, 10);
      int kind = g.irange(0, entvar ? 2 : 4);
      auto tr = [&]() -> ElementTransformation & { return *s.mesh->GetElementTransformation(e); };
      double scale = std::fabs(alpha) * fmax_<dim>(q, n) * jac_size(s, e) * 3;
      double ctol = 1e-10;
      DenseMatrix jac;
      auto jacobian = [&](NonlinearFormIntegrator &in, const char *key)
      {
         in.AssembleElementGrad(el, tr(), u, jac);
         g.check(jac.Height() == u.Size() && jac.Width() == u.Size(), str(key, "-jacobian-size"));
         Vector v = direction<dim>(g, u, n), jv(u.Size());
         jac.Mult(v, jv);
         fd_check(g, [&](const Vector &x, Vector &y) { in.AssembleElementVector(el, tr(), x, y); }, u, v, jv, 1e-3, str(key, "-jacobian"));
      };
      auto lin = [&](NonlinearFormIntegrator &one, const Vector &res, const char *key)
      {
         Vector r1;
         one.AssembleElementVector(el, tr(), u, r1);
         r1 *= alpha;
         rel(g, res, r1, 1e-12, 1e-12 * scale, str(key, "-alpha"));
      };
      if (kind == 0)
      {
         g.label("ismail-roe");
         IsmailRoeIntegrator<dim, entvar> in(stack(), alpha), one(stack());
         in.AssembleElementVector(el, tr(), u, r);
         double ent;
         rel(g, r, ref_ir(s, e, q, alpha, &ent), ctol, scale, "ismail-roe-residual");
         sums(g, r, n, scale, "ismail-roe-conservation");
         double en = in.GetElementEnergy(el, tr(), u), ws = w.Normlinf() * scale * n;
         g.check(std::fabs(en - (w * r)) <= 1e-11 * ws, "ismail-roe-energy", str(fmt(en), " vs w.res ", fmt(w * r)));
         g.check(std::fabs(en - ent) <= 1e-11 * ws, "ismail-roe-entropy", str("entropy produced ", fmt(en), ", boundary potential ", fmt(ent)));
         lin(one, r, "ismail-roe");
         jacobian(in, "ismail-roe");
      }
      else if (kind == 1)
      {
         g.label("lps");
         EntStableLPSIntegrator<dim, entvar> in(stack(), alpha, c), one(stack(), 1.0, c), unit(stack(), alpha);
         in.AssembleElementVector(el, tr(), u, r);
         double ls = scale * c;
         // conditioning of w: the projection cancels
         rel(g, r, ref_lps(s, e, q, alpha, c), 1e-9, 1e-3 * ls, "lps-residual");
         sums(g, r, n, std::max(r.Normlinf(), 1e-3 * ls), "lps-conservation");
         double en = in.GetElementEnergy(el, tr(), u), ws = w.Normlinf() * ls * n;
         g.check(std::fabs(en - (w * r)) <= 1e-11 * ws, "lps-energy", str(fmt(en), " vs w.res ", fmt(w * r)));
         g.check(en * (alpha < 0 ? -1 : 1) >= -1e-12 * ws, "lps-stable", str("dissipation produces entropy ", fmt(en), " alpha ", fmt(alpha)));
         lin(one, r, "lps");
         unit.AssembleElementVector(el, tr(), u, r2);
         r2 *= c;
         rel(g, r, r2, 1e-12, 1e-3 * ls, "lps-coefficient");
         jacobian(in, "lps");
         // entropy variables that are polynomials of the element's degree are not damped
         if (!s.curved && entvar)
         {
            Vector ul(u), a(dim), pu(u.Size());
            Vector g0(dim + 2);
            DenseMatrix sl(dim + 2, dim);
            for (int k = 0; k < dim + 2; ++k)
               for (int d = 0; d < dim; ++d) { sl(k, d) = s.p > 0 ? 0.05 * g.sym(1.0) : 0.0; }
            for (int i = 0; i < n; ++i)
               for (int k = 0; k < dim + 2; ++k)
               {
                  double v = u(k * n);
                  double xi[3] = {sbp.GetNodes().IntPoint(i).x, sbp.GetNodes().IntPoint(i).y, sbp.GetNodes().IntPoint(i).z};
                  for (int d = 0; d < dim; ++d) { v += sl(k, d) * xi[d] * std::fabs(u((dim + 1) * n)); }
                  ul(k * n + i) = v;
               }
            in.AssembleElementVector(el, tr(), ul, r2);
            g.check(r2.Normlinf() <= 1e-9 * ls * 10, "lps-consistency", str("linear entropy variables are damped by ", fmt(r2.Normlinf()), " scale ", fmt(ls)));
         }
      }
      else if (kind == 2)
      {
         g.label("mass");
         miso::MassIntegrator<dim, entvar> in(stack(), alpha), one(stack());
         in.AssembleElementVector(el, tr(), u, r);
         Vector ref(q.Size());
         for (int i = 0; i < n; ++i)
         {
            Geo G = geo(tr(), sbp.GetNodes().IntPoint(i));
            for (int k = 0; k < dim + 2; ++k) { ref(k * n + i) = alpha * sbp.getDiagNormEntry(i) * G.det * q(k * n + i); }
         }
         rel(g, r, ref, 1e-10, 0, "mass-residual");
         lin(one, r, "mass");
         jacobian(in, "mass");
      }
      else if (kind == 3)
      {
         g.label("euler");
         EulerIntegrator<dim> in(stack(), alpha), one(stack());
         in.AssembleElementVector(el, tr(), q, r);
         rel(g, r, ref_euler(s, e, q, alpha), ctol, scale, "euler-residual");
         sums(g, r, n, scale, "euler-conservation");
         lin(one, r, "euler");
         jacobian(in, "euler");
      }
      if (kind >= 2 + (entvar ? 0 : 2))
      {
         g.label("entropy");
         EntropyIntegrator<dim, entvar> in(stack());
         double en = in.GetElementEnergy(el, tr(), u), ref = 0, mag = 0;
         for (int i = 0; i < n; ++i)
         {
            double qi[5];
            node_get<dim>(q, n, i, qi);
            Geo G = geo(tr(), sbp.GetNodes().IntPoint(i));
            double S = -qi[0] * std::log(pres<dim>(qi) / std::pow(qi[0], 1.4)) / 0.4;
            ref += S * sbp.getDiagNormEntry(i) * G.det;
            mag += (std::fabs(S) + qi[0]) * sbp.getDiagNormEntry(i) * G.det;
         }
         g.check(std::fabs(en - ref) <= 1e-10 * mag, "entropy-integral", str(fmt(en), " vs ", fmt(ref)));
      }
   }

   // ---- faces
   static void boundary(Gen &g)
   {
      Setup s = setup(g, dim, true, true);
      Field<dim> f(g);
      BCData<dim> bc;
      int kind = g.irange(0, NBC - 1);
      if (kind == VORTEX && dim != 2) { kind = FAR; }
      bc.make(g, f, kind);
      g.label(bc_name[kind]);
      int b = g.irange(0, s.mesh->GetNBE() - 1);
      auto tr = [&]() -> FaceElementTransformations & { return *s.mesh->GetBdrFaceTransformations(b); };
      int e = tr().Elem1No;
      auto &el = *s.fes->GetFE(e);
      int n = el.GetDof();
      Vector q = f.el(g, n), u = work<dim, entvar>(q, n), w = all_w<dim>(q, n);
      auto fn = face_nodes<dim>(s, tr(), 0);
      double area = 0;
      Vector ref(q.Size());
      ref = 0.0;
      for (auto &k : fn)
      {
         double qi[5], fl[5];
         node_get<dim>(q, n, k.j, qi);
         bc.ref(k.x, k.n, qi, fl);
         for (int m = 0; m < dim + 2; ++m) { ref(m * n + k.j) += bc.alpha * fl[m]; }
         area += std::sqrt(k.n[0] * k.n[0] + k.n[1] * k.n[1] + (dim == 3 ? k.n[2] * k.n[2] : 0.0));
      }
      double scale = std::fabs(bc.alpha) * fmax_<dim>(q, n) * area;
      std::string nm = bc_name[kind];
      bc.template with<entvar>(s.fec.get(), [&](auto &in)
      {
         Vector r;
         in.AssembleFaceVector(el, el, tr(), u, r);
         rel(g, r, ref, 1e-9, scale, nm + "-residual");
         double en = in.GetFaceEnergy(el, el, tr(), u), ws = w.Normlinf() * scale * n;
         g.check(std::fabs(en - (w * r)) <= 1e-9 * ws, nm + "-energy", str("energy ", fmt(en), ", w.res ", fmt(w * r)));
         DenseMatrix jac;
         in.AssembleFaceGrad(el, el, tr(), u, jac);
         g.check(jac.Height() == u.Size() && jac.Width() == u.Size(), nm + "-jacobian-size");
         Vector v = direction<dim>(g, u, n), jv(u.Size());
         jac.Mult(v, jv);
         fd_check(g, [&](const Vector &x, Vector &y) { in.AssembleFaceVector(el, el, tr(), x, y); }, u, v, jv, 1e-3, nm + "-jacobian");
         // derivative with respect to the normal, at a face node
         auto &k = fn[g.irange(0, fn.size() - 1)];
         Vector nd(dim), vd(dim), jd(dim + 2), uu(dim + 2);
         double sz = 0;
         for (int d = 0; d < dim; ++d) { nd(d) = k.n[d]; sz = std::max(sz, std::fabs(nd(d))); }
         for (int d = 0; d < dim; ++d) { vd(d) = g.sym(1.0) * sz; }
         for (int m = 0; m < dim + 2; ++m) { uu(m) = u(m * n + k.j); }
         DenseMatrix jn(dim + 2, dim);
         in.calcFluxJacDir(k.x, nd, uu, jn);
         jn.Mult(vd, jd);
         fd_check(g, [&](const Vector &d, Vector &y) { y.SetSize(dim + 2); in.calcFlux(k.x, d, uu, y); }, nd, vd, jd, 1e-3, nm + "-normal-jacobian");
      });
   }

   static void interface(Gen &g)
   {
      Setup s = setup(g, dim, true, true);
      if (s.mesh->GetNE() < 2) { g.discard(); }
      std::vector<int> faces;
      for (int i = 0; i < s.mesh->GetNumFaces(); ++i) { if (s.mesh->GetInteriorFaceTransformations(i)) { faces.push_back(i); } }
      if (faces.empty()) { g.discard(); }
      int fi = g.pick(faces);
      auto tr = [&]() -> FaceElementTransformations & { return *s.mesh->GetInteriorFaceTransformations(fi); };
      auto &eL = *s.fes->GetFE(tr().Elem1No), &eR = *s.fes->GetFE(tr().Elem2No);
      Field<dim> f(g);
      int nl = eL.GetDof(), nr = eR.GetDof(), L = nl * (dim + 2), R = nr * (dim + 2);
      Vector ql = f.el(g, nl), qr = f.el(g, nr);
      auto both = [&](const Vector &a, const Vector &b)
      {
         Vector r(a.Size() + b.Size());
         for (int i = 0; i < a.Size(); ++i) { r(i) = a(i); }
         for (int i = 0; i < b.Size(); ++i) { r(a.Size() + i) = b(i); }
         return r;
      };
      Vector u = both(work<dim, entvar>(ql, nl), work<dim, entvar>(qr, nr));
      Vector wl = all_w<dim>(ql, nl), wr = all_w<dim>(qr, nr), w = both(wl, wr);
      double alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0), diss = g.chance(1, 3) ? 0.0 : g.logreal(1e-2, 10);
      auto fl = face_nodes<dim>(s, tr(), 0), fr = face_nodes<dim>(s, tr(), 1);
      Vector ref(L + R);
      ref = 0.0;
      double area = 0, pot = 0;
      for (size_t i = 0; i < fl.size(); ++i)
      {
         double a[5], b[5], fx[5];
         node_get<dim>(ql, nl, fl[i].j, a);
         node_get<dim>(qr, nr, fr[i].j, b);
         calcIsmailRoeFaceFluxWithDiss<double, dim>(fl[i].n, diss, a, b, fx);
         for (int k = 0; k < dim + 2; ++k)
         {
            ref(k * nl + fl[i].j) += alpha * fx[k];
            ref(L + k * nr + fr[i].j) -= alpha * fx[k];
         }
         double nn = 0;
         for (int d = 0; d < dim; ++d) { pot += alpha * fl[i].n[d] * (a[d + 1] - b[d + 1]); nn += fl[i].n[d] * fl[i].n[d]; }
         area += std::sqrt(nn);
      }
      double scale = std::fabs(alpha) * std::max(fmax_<dim>(ql, nl), fmax_<dim>(qr, nr)) * area * (1 + diss);
      InterfaceIntegrator<dim, entvar> in(stack(), diss, s.fec.get(), alpha);
      Vector r;
      in.AssembleFaceVector(eL, eR, tr(), u, r);
      rel(g, r, ref, 1e-9, scale, "interface-residual");
      // what leaves the left element enters the right one
      for (int k = 0; k < dim + 2; ++k)
      {
         double t = 0;
         for (int i = 0; i < nl; ++i) { t += r(k * nl + i); }
         for (int i = 0; i < nr; ++i) { t += r(L + k * nr + i); }
         g.check(std::fabs(t) <= 1e-12 * scale * (nl + nr), "interface-conservation", str("equation ", k, ": ", fmt(t)));
      }
      double en = in.GetFaceEnergy(eL, eR, tr(), u), ws = w.Normlinf() * scale * fl.size();
      g.check(std::fabs(en - (w * r)) <= 1e-9 * ws, "interface-energy", str("energy ", fmt(en), ", w.res ", fmt(w * r), " alpha ", fmt(alpha)));
      double sg = alpha < 0 ? -1 : 1;
      if (diss == 0) { g.check(std::fabs((w * r) - pot) <= 1e-9 * ws, "interface-conservative", str("w.res ", fmt(w * r), ", potential jump ", fmt(pot))); }
      g.check(sg * ((w * r) - pot) >= -1e-10 * ws, "interface-stable", str("w.res ", fmt(w * r), ", potential jump ", fmt(pot), " diss ", fmt(diss)));
      DenseMatrix jac;
      in.AssembleFaceGrad(eL, eR, tr(), u, jac);
      g.check(jac.Height() == u.Size() && jac.Width() == u.Size(), "interface-jacobian-size");
      Vector v = both(direction<dim>(g, work<dim, entvar>(ql, nl), nl), direction<dim>(g, work<dim, entvar>(qr, nr), nr)), jv(u.Size());
      int side = g.irange(0, 2);
      if (side == 1) { for (int i = 0; i < L; ++i) { v(i) = 0; } }
      if (side == 2) { for (int i = L; i < L + R; ++i) { v(i) = 0; } }
      jac.Mult(v, jv);
      fd_check(g, [&](const Vector &x, Vector &y) { in.AssembleFaceVector(eL, eR, tr(), x, y); }, u, v, jv, 1e-3, "interface-jacobian");
      // normal derivative
      auto &k = fl[g.irange(0, fl.size() - 1)];
      Vector nd(dim), vd(dim), jd(dim + 2), a(dim + 2), b(dim + 2);
      double sz = 0;
      for (int d = 0; d < dim; ++d) { nd(d) = k.n[d]; sz = std::max(sz, std::fabs(nd(d))); }
      for (int d = 0; d < dim; ++d) { vd(d) = g.sym(1.0) * sz; }
      for (int m = 0; m < dim + 2; ++m) { a(m) = u(m * nl + k.j); b(m) = u(L + m * nr + g.irange(0, 0)); }
      DenseMatrix jn(dim + 2, dim);
      in.calcFluxJacDir(nd, a, b, jn);
      jn.Mult(vd, jd);
      fd_check(g, [&](const Vector &d, Vector &y) { y.SetSize(dim + 2); in.calcFlux(d, a, b, y); }, nd, vd, jd, 1e-3, "interface-normal-jacobian");
   }

   // ---- functionals on the boundary
   static void functionals(Gen &g)
   {
      Setup s = setup(g, dim, true, true);
      Field<dim> f(g);
      int b = g.irange(0, s.mesh->GetNBE() - 1);
      auto tr = [&]() -> FaceElementTransformations & { return *s.mesh->GetBdrFaceTransformations(b); };
      auto &el = *s.fes->GetFE(tr().Elem1No);
      int n = el.GetDof();
      Vector q = f.el(g, n), u = work<dim, entvar>(q, n);
      auto fn = face_nodes<dim>(s, tr(), 0);
      int kind = g.irange(0, entvar ? 1 : 2);
      double ref = 0, mag = 0;
      if (kind == 0)
      {
         g.label("pressure-force");
         Vector dir(dim);
         for (int d = 0; d < dim; ++d) { dir(d) = g.sym(1.0); }
         PressureForce<dim, entvar> in(stack(), s.fec.get(), dir);
         for (auto &k : fn)
         {
            double qi[5], nd = 0;
            node_get<dim>(q, n, k.j, qi);
            for (int d = 0; d < dim; ++d) { nd += k.n[d] * dir(d); mag += std::fabs(k.n[d]) * qi[dim + 1]; }
            ref += pres<dim>(qi) * nd;
         }
         double en = in.GetFaceEnergy(el, el, tr(), u);
         g.check(std::fabs(en - ref) <= 1e-10 * mag, "pressure-force", str(fmt(en), " vs ", fmt(ref)));
         Vector r, v = direction<dim>(g, u, n), jv(1);
         in.AssembleFaceVector(el, el, tr(), u, r);
         jv(0) = r * v;
         fd_check(g, [&](const Vector &x, Vector &y) { y.SetSize(1); y(0) = in.GetFaceEnergy(el, el, tr(), x); }, u, v, jv, 1e-3, "pressure-force-gradient", "", 1e-5);
      }
      else if (kind == 1)
      {
         g.label("boundary-entropy");
         BCData<dim> bc;
         bc.make(g, f, 0);
         Vector other(bc.xc);
         other += 1.0;
         BoundaryEntropy<dim, entvar> in(stack(), s.fec.get(), BCData<dim>::scale, other, bc.len);
         setInputs(in, MISOInputs{{"x-actuator", bc.xc}});
         for (auto &k : fn)
         {
            double qi[5], dA = 0;
            node_get<dim>(q, n, k.j, qi);
            for (int d = 0; d < dim; ++d) { dA += k.n[d] * k.n[d]; }
            dA = std::sqrt(dA);
            double S = -qi[0] * std::log(pres<dim>(qi) / std::pow(qi[0], 1.4)) / 0.4;
            S += euler::rho_ref * (pres<dim>(qi) - euler::press_ref) / euler::press_ref;
            double sc = BCData<dim>::scale(bc.len, bc.xc, k.x);
            ref += S * sc * dA;
            mag += (std::fabs(S) + qi[0] + qi[dim + 1]) * sc * dA;
         }
         double en = in.GetFaceEnergy(el, el, tr(), u);
         g.check(std::fabs(en - ref) <= 1e-9 * mag, "boundary-entropy", str(fmt(en), " vs ", fmt(ref)));
      }
      else
      {
         g.label("supply-rate");
         double qf[5];
         f.node(g, qf);
         Vector qfar(qf, dim + 2);
         SupplyRate<dim, false> in(stack(), s.fec.get(), qfar);
         for (auto &k : fn)
         {
            double qi[5], w[5], fx[5], wk[5], nd = 0, wf = 0;
            node_get<dim>(q, n, k.j, qi);
            to_w<dim>(qi, w);
            calcFarFieldFlux2<double, dim, false>(k.n, qf, qi, wk, fx);
            for (int d = 0; d < dim; ++d) { nd += k.n[d] * qi[d + 1]; mag += std::fabs(k.n[d] * qi[d + 1]); }
            for (int m = 0; m < dim + 2; ++m) { wf += w[m] * fx[m]; mag += std::fabs(w[m] * fx[m]); }
            ref += nd - wf;
         }
         double en = in.GetFaceEnergy(el, el, tr(), u);
         g.check(std::fabs(en - ref) <= 1e-9 * mag, "supply-rate", str(fmt(en), " vs ", fmt(ref)));
      }
   }

   // ---- whole mesh: free stream, and entropy balance of a closed box
   static void global(Gen &g)
   {
      Setup s = setup(g, dim, true, false);
      Field<dim> f(g);
      bool free = g.flip();
      g.label(free ? "free-stream" : "closed-box");
      if (free) { f.amp = 0; g.nontrivial(); }
      double diss = g.chance(1, 3) ? 0.0 : g.logreal(1e-2, 2);
      bool use_euler = free && !entvar && g.flip(), lps = g.flip();
      int ne = s.mesh->GetNE();
      std::vector<Vector> q(ne), u(ne), r(ne);
      double qfs[5], scale = 0, wmax = 0;
      f.node(g, qfs);
      for (int e = 0; e < ne; ++e)
      {
         int n = s.sbp(e).GetDof();
         q[e] = f.el(g, n);
         u[e] = work<dim, entvar>(q[e], n);
         wmax = std::max(wmax, all_w<dim>(q[e], n).Normlinf());
         scale = std::max(scale, fmax_<dim>(q[e], n) * jac_size(s, e) * 3);
         r[e].SetSize(q[e].Size());
         r[e] = 0.0;
      }
      scale *= 1 + diss;
      IsmailRoeIntegrator<dim, entvar> ir(stack());
      EulerIntegrator<dim> eu(stack());
      EntStableLPSIntegrator<dim, entvar> lp(stack(), 1.0, 0.5);
      InterfaceIntegrator<dim, entvar> itf(stack(), diss, s.fec.get());
      Vector t;
      double energy = 0;
      for (int e = 0; e < ne; ++e)
      {
         auto &T_ = *s.mesh->GetElementTransformation(e);
         NonlinearFormIntegrator &vol = use_euler ? (NonlinearFormIntegrator &)eu : (NonlinearFormIntegrator &)ir;
         vol.AssembleElementVector(*s.fes->GetFE(e), T_, u[e], t);
         r[e] += t;
         if (!use_euler) { energy += ir.GetElementEnergy(*s.fes->GetFE(e), T_, u[e]); }
         if (lps)
         {
            lp.AssembleElementVector(*s.fes->GetFE(e), T_, u[e], t);
            r[e] += t;
            double le = lp.GetElementEnergy(*s.fes->GetFE(e), T_, u[e]);
            energy += le;
         }
      }
      for (int i = 0; i < s.mesh->GetNumFaces(); ++i)
      {
         auto *F = s.mesh->GetInteriorFaceTransformations(i);
         if (!F) { continue; }
         Vector uu(u[F->Elem1No].Size() + u[F->Elem2No].Size());
         int L = u[F->Elem1No].Size();
         for (int k = 0; k < L; ++k) { uu(k) = u[F->Elem1No](k); }
         for (int k = L; k < uu.Size(); ++k) { uu(k) = u[F->Elem2No](k - L); }
         int a = F->Elem1No, b = F->Elem2No;
         itf.AssembleFaceVector(*s.fes->GetFE(a), *s.fes->GetFE(b), *F, uu, t);
         for (int k = 0; k < L; ++k) { r[a](k) += t(k); }
         for (int k = L; k < uu.Size(); ++k) { r[b](k - L) += t(k); }
         energy += itf.GetFaceEnergy(*s.fes->GetFE(a), *s.fes->GetFE(b), *s.mesh->GetInteriorFaceTransformations(i), uu);
      }
      Vector qf(qfs, dim + 2);
      FarFieldBC<dim, entvar> far(stack(), s.fec.get(), qf);
      SlipWallBC<dim, entvar> wall(stack(), s.fec.get());
      for (int b = 0; b < s.mesh->GetNBE(); ++b)
      {
         auto *F = s.mesh->GetBdrFaceTransformations(b);
         int e = F->Elem1No;
         auto &el = *s.fes->GetFE(e);
         if (free) { far.AssembleFaceVector(el, el, *F, u[e], t); }
         else
         {
            wall.AssembleFaceVector(el, el, *F, u[e], t);
            r[e] += t;
            energy += wall.GetFaceEnergy(el, el, *s.mesh->GetBdrFaceTransformations(b), u[e]);
            continue;
         }
         r[e] += t;
      }
      if (free)
      {
         for (int e = 0; e < ne; ++e)
            g.check(r[e].Normlinf() <= 1e-10 * scale, "free-stream", str("a uniform flow has residual ", fmt(r[e].Normlinf()), " in element ", e, ", scale ", fmt(scale)));
         return;
      }
      double tot = 0, cons[5] = {0}, ntot = 0;
      for (int e = 0; e < ne; ++e)
      {
         int n = s.sbp(e).GetDof();
         tot += all_w<dim>(q[e], n) * r[e];
         ntot += n;
         for (int k = 0; k < dim + 2; ++k)
            for (int i = 0; i < n; ++i) { cons[k] += r[e](k * n + i); }
      }
      double tol = 1e-11 * scale * wmax * ntot;
      g.check(std::fabs(energy - tot) <= 10 * tol, "box-energy", str("energies sum to ", fmt(energy), ", w.res is ", fmt(tot)));
      if (diss == 0 && !lps) { g.check(std::fabs(tot) <= tol, "box-entropy-conservative", str("entropy changes by ", fmt(tot), " scale ", fmt(tol / 1e-11))); }
      g.check(tot >= -tol, "box-entropy-stable", str("w.res is ", fmt(tot)));
      // walls take momentum but neither mass nor energy
      g.check(std::fabs(cons[0]) <= tol / wmax && std::fabs(cons[dim + 1]) <= tol / wmax, "box-conservation", str("mass ", fmt(cons[0]), " energy ", fmt(cons[dim + 1])));
   }

   // ---- derivatives with respect to the mesh nodes
   static void mesh_sens(Gen &g)
   {
      Setup s = setup(g, dim, true, false, 3);
      int order = g.irange(1, 2);
      s.mesh->SetCurvature(order, false, -1, Ordering::byNODES);
      GridFunction &X = *s.mesh->GetNodes();
      if (order > 1) { for (int i = 0; i < X.Size(); ++i) { X(i) += g.sym(0.03); } }
      Field<dim> f(g);
      GridFunction st(s.fes.get()), adj(s.fes.get());
      Array<int> vd;
      bool discont = s.fes->GetNDofs() > 0 && dynamic_cast<DSBPCollection *>(s.fec.get());
      // by node
      int nd = s.fes->GetNDofs();
      std::vector<double> qn(nd * 5);
      for (int i = 0; i < nd; ++i)
      {
         double q[5], w[5];
         f.node(g, q);
         to_w<dim>(q, w);
         for (int k = 0; k < dim + 2; ++k)
         {
            st(s.fes->DofToVDof(i, k)) = entvar ? w[k] : q[k];
            adj(s.fes->DofToVDof(i, k)) = g.sym(1.0);
         }
      }
      (void)discont;
      double alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0);
      bool vol = g.flip();
      g.label(vol ? "ismail-roe" : "slip-wall");
      int e = g.irange(0, s.mesh->GetNE() - 1), b = g.irange(0, s.mesh->GetNBE() - 1);
      const FiniteElementSpace *xf = X.FESpace();
      if (!vol) { e = s.mesh->GetBdrFaceTransformations(b)->Elem1No; }
      auto &el = *s.fes->GetFE(e);
      Array<int> xd;
      xf->GetElementVDofs(e, xd);
      Vector x0;
      X.GetSubVector(xd, x0);
      Vector u, psi;
      {
         Array<int> d;
         s.fes->GetElementVDofs(e, d);
         st.GetSubVector(d, u);
         adj.GetSubVector(d, psi);
      }
      IsmailRoeIntegrator<dim, entvar> ir(stack(), alpha);
      SlipWallBC<dim, entvar> wall(stack(), s.fec.get(), alpha);
      auto F = [&](const Vector &x, Vector &y)
      {
         X.SetSubVector(xd, x);
         Vector r;
         if (vol) { ir.AssembleElementVector(el, *s.mesh->GetElementTransformation(e), u, r); }
         else { wall.AssembleFaceVector(el, el, *s.mesh->GetBdrFaceTransformations(b), u, r); }
         y.SetSize(1);
         y(0) = psi * r;
         X.SetSubVector(xd, x0);
      };
      Vector xb;
      if (vol)
      {
         IsmailRoeMeshSensIntegrator<dim, entvar> in(st, adj, dim + 2, alpha);
         in.AssembleRHSElementVect(*xf->GetFE(e), *s.mesh->GetElementTransformation(e), xb);
      }
      else
      {
         SlipWallBCMeshSens<dim, entvar> in(stack(), st, adj, dim + 2, alpha);
         in.AssembleRHSElementVect(*xf->GetFE(e), *s.mesh->GetBdrFaceTransformations(b), xb);
      }
      g.check(xb.Size() == x0.Size(), "mesh-sens-size", str(xb.Size(), " vs ", x0.Size()));
      Vector v(x0.Size()), jv(1);
      for (int i = 0; i < v.Size(); ++i) { v(i) = g.sym(1.0); }
      if (g.chance(1, 3)) { int i = g.irange(0, v.Size() - 1); v = 0.0; v(i) = 1.0; }
      jv(0) = xb * v;
      // the contraction with psi can cancel: compare on the scale of the parts
      double err, fm;
      Vector d = fd_deriv(F, x0, v, 1e-3, err, fm);
      double sc = std::fabs(alpha) * fmax_<dim>(f.el(g, 1), 1) * 10;
      g.check(std::fabs(d(0) - jv(0)) <= 1e-7 * std::max(sc, std::fabs(d(0))) + 20 * err, vol ? "mesh-sens-volume" : "mesh-sens-wall",
              str("finite differences ", fmt(d(0)), ", computed ", fmt(jv(0)), " err ", fmt(err), " alpha ", fmt(alpha)));
   }
};

template <template <int, bool> class Op>
void dispatch(Gen &g, int dmin, int dmax)
{
   int dim = g.irange(dmin, dmax);
   bool ev = g.flip();
   g.label(ev ? "entvar" : "consvar");
   if (dim == 1) { ev ? Op<1, true>::run(g) : Op<1, false>::run(g); }
   else if (dim == 2) { ev ? Op<2, true>::run(g) : Op<2, false>::run(g); }
   else { ev ? Op<3, true>::run(g) : Op<3, false>::run(g); }
}
#define OP(name) template <int d, bool e> struct Op_##name { static void run(Gen &g) { T<d, e>::name(g); } }
OP(volume);
OP(boundary);
OP(interface);
OP(functionals);
OP(global);
OP(mesh_sens);
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P14",
            {{"volume", [](Gen &g) { dispatch<Op_volume>(g, 1, 3); }, 20000, 400000},
             {"boundary", [](Gen &g) { dispatch<Op_boundary>(g, 2, 3); }, 20000, 400000},
             {"interface", [](Gen &g) { dispatch<Op_interface>(g, 2, 3); }, 20000, 300000},
             {"functionals", [](Gen &g) { dispatch<Op_functionals>(g, 2, 3); }, 10000, 200000},
             {"global", [](Gen &g) { dispatch<Op_global>(g, 2, 3); }, 5000, 100000},
             {"mesh_sens", [](Gen &g) { dispatch<Op_mesh_sens>(g, 2, 3); }, 10000, 200000}},
            "the nodal states of the case differ from one another (or, for the free stream, a whole mesh was assembled)");
   r.assumptions = {"simplex meshes, straight-sided and quadratic, on one rank", "the adept stand-in records and differentiates exactly", "pointwise flux functions are decided by P06 and P07; here the assembly is"};
   return r.main(argc, argv);
}
