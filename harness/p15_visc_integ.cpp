// P15: viscous element and boundary terms, and manufactured sources
#include "flowgen.hpp"
#include "navier_stokes_integ.hpp"
#include "euler_integ_mms.hpp"

namespace
{
struct Fluid
{
   double Re, Pr, mu;
   bool suth;
   Fluid(Gen &g)
   {
      Re = g.logreal(0.5, 1e3);
      Pr = g.logreal(0.3, 3);
      suth = g.flip();
      mu = suth ? -1.0 : g.logreal(0.1, 10);
      g.label(suth ? "sutherland" : "constant-mu");
   }
   template <int dim>
   double eff(const double *q) const
   {
      if (!suth) { return mu / Re; }
      double T = 1.4 * pres<dim>(q) / q[0], S = 198.6 / 460;
      return std::pow(T, 1.5) * (1 + S) / (T + S) / Re;
   }
};

/// derivatives, in space, of a nodal field at node i of an SBP element
template <int dim>
DenseMatrix deriv(const SBPFiniteElement &sbp, const std::vector<Geo> &G, const Vector &w, int i, int ns)
{
   int n = sbp.GetDof();
   DenseMatrix D(ns, dim);
   D = 0.0;
   for (int d = 0; d < dim; ++d)
      for (int j = 0; j < n; ++j)
      {
         double Q = sbp.getQEntry(d, i, j, G[i].adj, G[j].adj);
         for (int k = 0; k < ns; ++k) { D(k, d) += Q * w(k * n + j) / (sbp.getDiagNormEntry(i) * G[i].det); }
      }
   return D;
}
std::vector<Geo> all_geo(const SBPFiniteElement &sbp, ElementTransformation &T)
{
   std::vector<Geo> r;
   for (int i = 0; i < sbp.GetDof(); ++i) { r.push_back(geo(T, sbp.GetNodes().IntPoint(i))); }
   return r;
}
/// the physical viscous flux in direction d, from gradients of the entropy
/// variables: stress, work and heat conduction
template <int dim>
void visc_flux(const Fluid &F, int d, const double *q, const DenseMatrix &Dw, double *f)
{
   double p = pres<dim>(q), rho = q[0], mu = F.eff<dim>(q), u[3], gu[3][3], gT[3];
   // w_{k} = rho u_k / p, w_last = -rho/p = -1/T with T = p/rho
   double T = p / rho;
   for (int k = 0; k < dim; ++k) { u[k] = q[k + 1] / rho; }
   for (int e = 0; e < dim; ++e)
   {
      gT[e] = T * T * Dw(dim + 1, e);
      for (int k = 0; k < dim; ++k) { gu[k][e] = T * Dw(k + 1, e) + u[k] / T * gT[e]; }
   }
   double div = 0;
   for (int k = 0; k < dim; ++k) { div += gu[k][k]; }
   f[0] = f[dim + 1] = 0;
   for (int k = 0; k < dim; ++k)
   {
      double tau = mu * (gu[k][d] + gu[d][k] - (k == d ? 2.0 / 3.0 * div : 0.0));
      f[k + 1] = tau;
      f[dim + 1] += u[k] * tau;
   }
   f[dim + 1] += mu * 1.4 / (0.4 * F.Pr) * gT[d];
}

template <int dim>
struct T
{
   // ------------------------------------------------------------- volume
   static void volume(Gen &g)
   {
      Setup s = setup(g, dim, false, true, dim == 2 ? 3 : 4);
      Field<dim> f(g);
      Fluid F(g);
      int e = g.irange(0, s.mesh->GetNE() - 1);
      auto &sbp = s.sbp(e);
      auto &el = *s.fes->GetFE(e);
      int n = sbp.GetDof();
      auto tr = [&]() -> ElementTransformation & { return *s.mesh->GetElementTransformation(e); };
      Vector q = f.el(g, n), w = all_w<dim>(q, n);
      double alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0);
      auto G = all_geo(sbp, tr());
      Vector ref(q.Size()), bound(q.Size());
      ref = 0.0;
      double mag = 0, prod = 0;
      for (int i = 0; i < n; ++i)
      {
         DenseMatrix D = deriv<dim>(sbp, G, w, i, dim + 2);
         double qi[5], fl[5];
         node_get<dim>(q, n, i, qi);
         for (int d = 0; d < dim; ++d)
         {
            visc_flux<dim>(F, d, qi, D, fl);
            for (int k = 0; k < dim + 2; ++k) { prod += alpha * sbp.getDiagNormEntry(i) * G[i].det * D(k, d) * fl[k]; }
            for (int j = 0; j < n; ++j)
            {
               double Q = sbp.getQEntry(d, i, j, G[i].adj, G[j].adj);
               for (int k = 0; k < dim + 2; ++k)
               {
                  ref(k * n + j) += alpha * Q * fl[k];
                  mag = std::max(mag, std::fabs(alpha * Q * fl[k]));
               }
            }
         }
      }
      // magnitude with constant entropy variables cancels to rounding
      double p0 = f.p, mu0 = F.suth ? 3.0 : F.mu;
      double amax = std::sqrt(1.4 * f.p / f.rho), um = 0;
      for (int d = 0; d < dim; ++d) { um += f.u[d] * f.u[d]; }
      um = std::sqrt(um) + amax;
      double js = jac_size(G), hs = 1e300;
      for (int i = 0; i < n; ++i) { hs = std::min(hs, sbp.getDiagNormEntry(i) * G[i].det); }
      double noise = 1e-15 * w.Normlinf() * std::fabs(alpha) * js * js / hs * mu0 / F.Re * (p0 + 1) * (1 + 1 / F.Pr) * std::pow(1 + um, 4) * std::pow(1 + f.p / f.rho, 3) * n * 100;
      ESViscousIntegrator<dim> in(stack(), F.Re, F.Pr, F.mu, alpha);
      Vector r;
      in.AssembleElementVector(el, tr(), q, r);
      for (int i = 0; i < r.Size(); ++i)
      {
         g.check(std::fabs(r(i) - ref(i)) <= 1e-9 * std::max(mag, ref.Normlinf()) + noise, "viscous-residual", str("entry ", i, " ", fmt(r(i)), " vs ", fmt(ref(i)), " scale ", fmt(mag)));
      }
      // (on curved tetrahedra the operators do not differentiate constants exactly)
      for (int k = 0; k < (dim == 3 && s.curved ? 0 : dim + 2); ++k)
      {
         double t = 0;
         for (int i = 0; i < n; ++i) { t += r(k * n + i); }
         g.check(std::fabs(t) <= (1e-10 * mag + noise) * n, "viscous-conservation", str("equation ", k, ": ", fmt(t), " scale ", fmt(mag)));
      }
      double en = in.GetElementEnergy(el, tr(), q), ws = w.Normlinf() * (mag + noise) * n;
      g.check(std::fabs(en - (w * r)) <= 1e-11 * ws, "viscous-energy", str(fmt(en), " vs w.res ", fmt(w * r)));
      g.check(std::fabs(en - prod) <= 1e-9 * ws + w.Normlinf() * noise * n, "viscous-entropy", str("w.res ", fmt(en), ", dissipation ", fmt(prod)));
      g.check((alpha < 0 ? -1 : 1) * en >= -1e-11 * ws - w.Normlinf() * noise * n, "viscous-stable", str("w.res ", fmt(en), " alpha ", fmt(alpha)));
      // scaling
      ESViscousIntegrator<dim> re2(stack(), 2 * F.Re, F.Pr, F.mu, alpha);
      Vector r2;
      re2.AssembleElementVector(el, tr(), q, r2);
      r2 *= 2;
      rel(g, r2, r, 1e-12, 1e-3 * noise, "viscous-reynolds");
      if (n <= 20)
      {
         DenseMatrix jac;
         in.AssembleElementGrad(el, tr(), q, jac);
         g.check(jac.Height() == q.Size() && jac.Width() == q.Size(), "viscous-jacobian-size");
         Vector v = direction<dim>(g, q, n), jv(q.Size());
         jac.Mult(v, jv);
         // sawtooth noise of the differences is relative to the cancelling sums
         fd_check(g, [&](const Vector &x, Vector &y) { in.AssembleElementVector(el, tr(), x, y); }, q, v, jv, 1e-3, "viscous-jacobian", str("noise ", fmt(noise)));
      }
      // linear entropy variables on a straight element: exact gradients
      if (!s.curved && s.p >= 1)
      {
         Vector wl(w.Size()), ql(w.Size());
         DenseMatrix gr(dim + 2, dim);
         // centre
         Vector xc(dim), x(dim);
         xc = 0.0;
         for (int i = 0; i < n; ++i) { xc += G[i].x; }
         xc /= n;
         double size = 0;
         for (int i = 0; i < n; ++i) { for (int d = 0; d < dim; ++d) { size = std::max(size, std::fabs(G[i].x(d) - xc(d))); } }
         for (int k = 0; k < dim + 2; ++k)
            for (int d = 0; d < dim; ++d) { gr(k, d) = 0.05 * g.sym(1.0) * (k == dim + 1 || k == 0 ? std::fabs(w((dim + 1) * n)) : 1.0) / size; }
         double prod2 = 0;
         for (int i = 0; i < n; ++i)
         {
            double wi[5], qi[5], fl[5];
            for (int k = 0; k < dim + 2; ++k)
            {
               wi[k] = w(k * n);
               for (int d = 0; d < dim; ++d) { wi[k] += gr(k, d) * (G[i].x(d) - xc(d)); }
            }
            calcConservativeVars<double, dim, true>(wi, qi);
            for (int k = 0; k < dim + 2; ++k) { wl(k * n + i) = wi[k]; ql(k * n + i) = qi[k]; }
            for (int d = 0; d < dim; ++d)
            {
               visc_flux<dim>(F, d, qi, gr, fl);
               for (int k = 0; k < dim + 2; ++k) { prod2 += alpha * sbp.getDiagNormEntry(i) * G[i].det * gr(k, d) * fl[k]; }
            }
         }
         double e2 = in.GetElementEnergy(el, tr(), ql);
         g.check(std::fabs(e2 - prod2) <= 1e-8 * std::fabs(prod2) + w.Normlinf() * noise * n * 10, "viscous-exact-gradient", str("linear entropy variables dissipate ", fmt(e2), ", exact ", fmt(prod2)));
      }
   }
   static double jac_size(const std::vector<Geo> &G)
   {
      double m = 0;
      for (auto &a : G) { m = std::max(m, a.adj.FNorm()); }
      return m;
   }

   // ----------------------------------------------------------- boundary
   static void boundary(Gen &g)
   {
      Setup s = setup(g, dim, true, true, dim == 2 ? 3 : 4);
      Field<dim> f(g);
      Fluid F(g);
      int kind = g.irange(0, 6);
      static const char *names[] = {"no-slip", "slip", "inflow", "outflow", "far-field", "exact", "control"};
      std::string nm = names[kind];
      g.label(nm);
      int b = g.irange(0, s.mesh->GetNBE() - 1);
      auto tr = [&]() -> FaceElementTransformations & { return *s.mesh->GetBdrFaceTransformations(b); };
      int e = tr().Elem1No;
      auto &el = *s.fes->GetFE(e);
      auto &sbp = s.sbp(e);
      int n = el.GetDof();
      Vector q = f.el(g, n), w = all_w<dim>(q, n);
      auto fn = face_nodes<dim>(s, tr(), 0);
      auto G = all_geo(sbp, *s.mesh->GetElementTransformation(e));
      double alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0);
      double qf[5];
      {
         Field<dim> ff = f;
         ff.amp = 0.3;
         ff.node(g, qf);
      }
      Vector qfs(qf, dim + 2);
      double control = g.sym(0.5), len = g.logreal(0.02, 3);
      Vector xc(dim), other;
      for (int d = 0; d < dim; ++d) { xc(d) = g.sym(1.0) + (d == 0 ? 8 : 0); }
      other = xc;
      other += 1.0;
      auto cscale = [](double l, const Vector &c, const Vector &x)
      {
         double r = 0;
         for (int d = 0; d < x.Size(); ++d) { r += (x(d) - c(d)) * (x(d) - c(d)) * (d + 1); }
         return std::exp(-r / (l * l));
      };
      auto exact = [&](const Vector &x, Vector &y)
      {
         double m = 1 + 0.05 * std::sin(x(0) + 2 * x(dim - 1));
         for (int k = 0; k < dim + 2; ++k) { y(k) = m * qf[k]; }
      };
      double fmx = fmax_<dim>(q, n), scale = 0;
      Vector ref(q.Size());
      ref = 0.0;
      bool nearthr = false;
      for (auto &k : fn)
      {
         double qi[5], fl[5], wk[5], tmp[5], area = 0;
         node_get<dim>(q, n, k.j, qi);
         for (int d = 0; d < dim; ++d) { area += k.n[d] * k.n[d]; }
         area = std::sqrt(area);
         DenseMatrix D = deriv<dim>(sbp, G, w, k.j, dim + 2), Dt(D);
         double p = pres<dim>(qi), mu = F.template eff<dim>(qi);
         for (int m = 0; m < dim + 2; ++m) { fl[m] = 0; }
         auto project = [&](bool all)
         {
            for (int m = all ? 0 : dim + 1; m < dim + 2; ++m)
            {
               double dn = 0;
               for (int d = 0; d < dim; ++d) { dn += D(m, d) * k.n[d] / area; }
               for (int d = 0; d < dim; ++d) { Dt(m, d) = D(m, d) - dn * k.n[d] / area; }
            }
         };
         auto stress = [&]()
         {
            for (int d = 0; d < dim; ++d)
            {
               visc_flux<dim>(F, d, qi, Dt, tmp);
               for (int m = 0; m < dim + 2; ++m) { fl[m] -= k.n[d] * tmp[m]; scale = std::max(scale, std::fabs(k.n[d] * tmp[m])); }
            }
         };
         auto penalty = [&]()
         {
            // sqrt(n.n)/J sum_d C_dd(qfs) (0, rho u/p, 0), momentum rows
            double pf = pres<dim>(qf), Tf = pf / qf[0], du[3];
            (void)Tf;
            for (int d = 0; d < dim; ++d) { du[d] = qi[d + 1] / p * (pf / qf[0]); }
            for (int m = 0; m < dim; ++m)
            {
               double c = 0;
               for (int d = 0; d < dim; ++d) { c += m == d ? 4.0 / 3.0 : 1.0; }
               double v = area / G[k.j].det * mu * c * du[m];
               fl[m + 1] += v;
               scale = std::max(scale, std::fabs(v));
            }
         };
         switch (kind)
         {
         case 0:
            for (int d = 0; d < dim; ++d) { fl[d + 1] = p * k.n[d]; }
            project(false);
            stress();
            penalty();
            break;
         case 1:
            for (int d = 0; d < dim; ++d) { fl[d + 1] = p * k.n[d]; }
            project(true);
            stress();
            break;
         case 5:
         {
            double qe[5];
            Vector y(qe, dim + 2);
            exact(k.x, y);
            calcBoundaryFlux<double, dim>(k.n, qe, qi, wk, fl);
            project(true);
            stress();
            break;
         }
         case 6:
         {
            double sc = cscale(len, xc, k.x), U = -control * sc * area;
            nearthr = nearthr || std::fabs(sc / 1e-4 - 1) < 1e-6;
            for (int m = 0; m < dim + 2; ++m) { fl[m] = U * qi[m]; }
            for (int d = 0; d < dim; ++d) { fl[d + 1] += k.n[d] * p; }
            fl[dim + 1] += U * p;
            if (sc < 1e-4) { project(false); stress(); penalty(); g.label("far-from-actuator"); }
            else { g.label("near-actuator"); }
            break;
         }
         default: calcBoundaryFlux<double, dim>(k.n, qf, qi, wk, fl);
         }
         for (int m = 0; m < dim + 2; ++m) { ref(m * n + k.j) += alpha * fl[m]; }
         scale = std::max(scale, fmx * area);
      }
      if (nearthr) { g.discard(); }
      scale *= std::fabs(alpha);
      auto run = [&](auto &in)
      {
         Vector r;
         in.AssembleFaceVector(el, el, tr(), q, r);
         rel(g, r, ref, 1e-9, scale, nm + "-residual");
         double en = in.GetFaceEnergy(el, el, tr(), q), ws = w.Normlinf() * scale * n;
         g.check(std::fabs(en - (w * r)) <= 1e-9 * ws, nm + "-energy", str("energy ", fmt(en), ", w.res ", fmt(w * r)));
         DenseMatrix jac;
         in.AssembleFaceGrad(el, el, tr(), q, jac);
         g.check(jac.Height() == q.Size() && jac.Width() == q.Size(), nm + "-jacobian-size");
         Vector v = direction<dim>(g, q, n), jv(q.Size());
         jac.Mult(v, jv);
         fd_check(g, [&](const Vector &x, Vector &y) { in.AssembleFaceVector(el, el, tr(), x, y); }, q, v, jv, 1e-3, nm + "-jacobian", str("alpha ", fmt(alpha)));
      };
      auto fec = s.fec.get();
      if (kind == 0) { NoSlipAdiabaticWallBC<dim> in(stack(), fec, F.Re, F.Pr, qfs, F.mu, alpha); run(in); }
      else if (kind == 1) { ViscousSlipWallBC<dim> in(stack(), fec, F.Re, F.Pr, F.mu, alpha); run(in); }
      else if (kind == 2) { ViscousInflowBC<dim> in(stack(), fec, F.Re, F.Pr, qfs, F.mu, alpha); run(in); }
      else if (kind == 3) { ViscousOutflowBC<dim> in(stack(), fec, F.Re, F.Pr, qfs, F.mu, alpha); run(in); }
      else if (kind == 4) { ViscousFarFieldBC<dim> in(stack(), fec, F.Re, F.Pr, qfs, F.mu, alpha); run(in); }
      else if (kind == 5) { ViscousExactBC<dim> in(stack(), fec, F.Re, F.Pr, exact, F.mu, alpha); run(in); }
      else
      {
         ViscousControlBC<dim> in(stack(), fec, F.Re, F.Pr, qfs, cscale, other, len, F.mu, alpha);
         setInputs(in, MISOInputs{{"control", control}, {"x-actuator", xc}});
         run(in);
      }
      if (kind == 0)
      {
         // the force on a no-slip wall is the momentum flux through it
         Vector dir(dim);
         for (int d = 0; d < dim; ++d) { dir(d) = g.sym(1.0); }
         SurfaceForce<dim> in(stack(), fec, dim + 2, F.Re, F.Pr, qfs, dir, F.mu, alpha);
         double fr = 0;
         for (int d = 0; d < dim; ++d) { for (int i = 0; i < n; ++i) { fr += dir(d) * ref((d + 1) * n + i); } }
         double en = in.GetFaceEnergy(el, el, tr(), q);
         g.check(std::fabs(en - fr) <= 1e-9 * scale * n, "surface-force", str(fmt(en), " vs ", fmt(fr)));
         Vector gr, v = direction<dim>(g, q, n), jv(1);
         in.AssembleFaceVector(el, el, tr(), q, gr);
         g.check(gr.Size() == q.Size(), "surface-force-gradient-size");
         jv(0) = gr * v;
         fd_check(g, [&](const Vector &x, Vector &y) { y.SetSize(1); y(0) = in.GetFaceEnergy(el, el, tr(), x); }, q, v, jv, 1e-3, "surface-force-gradient", str("alpha ", fmt(alpha)), 1e-5);
      }
   }

   // --------------------------- the boundary assembly itself, with every term
   struct AllTerms : public ViscousBoundaryIntegrator<AllTerms>
   {
      double c[5][5], d0[3], jc;
      AllTerms(const FiniteElementCollection *fec, double a) : ViscousBoundaryIntegrator<AllTerms>(stack(), fec, dim + 2, a) { }
      // any smooth change of variables will do
      void convertVars(const Vector &q, Vector &w)
      {
         for (int k = 0; k < dim + 2; ++k) { w(k) = std::sin(q(k)) + c[k][0] * q((k + 1) % (dim + 2)); }
      }
      void convertVarsJacState(const Vector &q, DenseMatrix &J)
      {
         J = 0.0;
         for (int k = 0; k < dim + 2; ++k)
         {
            J(k, k) += std::cos(q(k));
            J(k, (k + 1) % (dim + 2)) += c[k][0];
         }
      }
      double calcBndryFun(const Vector &x, const Vector &dir, double jac, const Vector &u, const DenseMatrix &Dw)
      {
         double r = jc * jac * x(0);
         for (int k = 0; k < dim + 2; ++k)
            for (int d = 0; d < dim; ++d) { r += dir(d) * u(k) * Dw(k, d) * c[d][k]; }
         return r;
      }
      void calcFlux(const Vector &x, const Vector &dir, double jac, const Vector &q, const DenseMatrix &Dw, Vector &f)
      {
         for (int k = 0; k < dim + 2; ++k)
         {
            f(k) = jc * q(k) * jac + c[k][1] * x(0) * q((k + 1) % (dim + 2)) * q(k);
            for (int d = 0; d < dim; ++d) { f(k) += c[k][2] * dir(d) * Dw(k, d) * (1 + 0.5 * q(0)) + d0[d] * Dw((k + 1) % (dim + 2), d); }
         }
      }
      void calcFluxDv(const Vector &x, const Vector &dir, const Vector &q, DenseMatrix &m)
      {
         for (int k = 0; k < dim + 2; ++k)
            for (int d = 0; d < dim; ++d) { m(k, d) = c[k][d] * dir(d) * q(k) * q((k + 1) % (dim + 2)) * x(0); }
      }
      void calcFluxJacState(const Vector &x, const Vector &dir, double jac, const Vector &q, const DenseMatrix &Dw, DenseMatrix &J)
      {
         J = 0.0;
         for (int k = 0; k < dim + 2; ++k)
         {
            int l = (k + 1) % (dim + 2);
            J(k, k) += jc * jac + c[k][1] * x(0) * q(l);
            J(k, l) += c[k][1] * x(0) * q(k);
            for (int d = 0; d < dim; ++d) { J(k, 0) += 0.5 * c[k][2] * dir(d) * Dw(k, d); }
         }
      }
      void calcFluxJacDw(const Vector &x, const Vector &dir, double jac, const Vector &q, const DenseMatrix &Dw, std::vector<DenseMatrix> &J)
      {
         for (int d = 0; d < dim; ++d)
         {
            J[d] = 0.0;
            for (int k = 0; k < dim + 2; ++k)
            {
               J[d](k, k) += c[k][2] * dir(d) * (1 + 0.5 * q(0));
               J[d](k, (k + 1) % (dim + 2)) += d0[d];
            }
         }
      }
      void calcFluxDvJacState(const Vector &x, const Vector &dir, const Vector &q, std::vector<DenseMatrix> &J)
      {
         for (int d = 0; d < dim; ++d)
         {
            J[d] = 0.0;
            for (int k = 0; k < dim + 2; ++k)
            {
               int l = (k + 1) % (dim + 2);
               J[d](k, k) += c[k][d] * dir(d) * q(l) * x(0);
               J[d](k, l) += c[k][d] * dir(d) * q(k) * x(0);
            }
         }
      }
   };
   static void assembly(Gen &g)
   {
      Setup s = setup(g, dim, true, true, dim == 2 ? 3 : 4);
      int b = g.irange(0, s.mesh->GetNBE() - 1);
      auto tr = [&]() -> FaceElementTransformations & { return *s.mesh->GetBdrFaceTransformations(b); };
      int e = tr().Elem1No;
      auto &el = *s.fes->GetFE(e);
      auto &sbp = s.sbp(e);
      int n = el.GetDof();
      Vector q(n * (dim + 2)), w(n * (dim + 2));
      for (int i = 0; i < q.Size(); ++i) { q(i) = g.sym(2.0); }
      g.nontrivial(q.Normlinf() > 0);
      auto fn = face_nodes<dim>(s, tr(), 0);
      auto G = all_geo(sbp, *s.mesh->GetElementTransformation(e));
      double alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0);
      AllTerms in(s.fec.get(), alpha);
      for (auto &r : in.c) { for (double &v : r) { v = g.sym(1.0); } }
      for (double &v : in.d0) { v = g.sym(1.0); }
      in.jc = g.sym(1.0);
      if (g.flip()) { for (auto &r : in.c) { r[0] = 0; } }
      for (int i = 0; i < n; ++i)
      {
         Vector qi(dim + 2), wi(dim + 2);
         node_get<dim>(q, n, i, qi.GetData());
         in.convertVars(qi, wi);
         for (int k = 0; k < dim + 2; ++k) { w(k * n + i) = wi(k); }
      }
      Vector ref(q.Size());
      ref = 0.0;
      double en = 0, scale = 0, emag = 0;
      for (auto &k : fn)
      {
         Vector qi(dim + 2), fl(dim + 2), nn(dim);
         node_get<dim>(q, n, k.j, qi.GetData());
         // normal and weight separately: the terms need not be linear in the normal
         const IntegrationPoint *ip = nullptr;
         (void)ip;
         double wt = k.w;
         for (int d = 0; d < dim; ++d) { nn(d) = k.n[d] / wt; }
         DenseMatrix D = deriv<dim>(sbp, G, w, k.j, dim + 2), m(dim + 2, dim);
         in.calcFlux(k.x, nn, G[k.j].det, qi, D, fl);
         for (int r = 0; r < dim + 2; ++r)
         {
            ref(r * n + k.j) += alpha * wt * fl(r);
            scale = std::max(scale, std::fabs(alpha * wt * fl(r)));
         }
         in.calcFluxDv(k.x, nn, qi, m);
         double Hi = 1 / (sbp.getDiagNormEntry(k.j) * G[k.j].det);
         for (int d = 0; d < dim; ++d)
            for (int j = 0; j < n; ++j)
            {
               double Q = alpha * wt * Hi * sbp.getQEntry(d, k.j, j, G[k.j].adj, G[j].adj);
               for (int r = 0; r < dim + 2; ++r) { ref(r * n + j) += Q * m(r, d); scale = std::max(scale, std::fabs(Q * m(r, d))); }
            }
         double bf = alpha * wt * in.calcBndryFun(k.x, nn, G[k.j].det, qi, D);
         en += bf;
         emag += std::fabs(bf) + std::fabs(alpha) * wt * nn.Normlinf() * 10 * D.MaxMaxNorm();
      }
      Vector r;
      in.AssembleFaceVector(el, el, tr(), q, r);
      rel(g, r, ref, 1e-9, scale, "assembly-residual", str("alpha ", fmt(alpha)));
      double e1 = in.GetFaceEnergy(el, el, tr(), q);
      g.check(std::fabs(e1 - en) <= 1e-9 * emag, "assembly-energy", str(fmt(e1), " vs ", fmt(en)));
      DenseMatrix jac;
      in.AssembleFaceGrad(el, el, tr(), q, jac);
      Vector v(q.Size()), jv(q.Size());
      for (int i = 0; i < v.Size(); ++i) { v(i) = g.sym(1.0); }
      if (g.chance(1, 3)) { int i = g.irange(0, v.Size() - 1); v = 0.0; v(i) = 1.0; }
      jac.Mult(v, jv);
      fd_check(g, [&](const Vector &x, Vector &y) { in.AssembleFaceVector(el, el, tr(), x, y); }, q, v, jv, 1e-3, "assembly-jacobian", str("alpha ", fmt(alpha)));
   }

   // -------------------------------------------------- manufactured sources
   static void mms(Gen &g)
   {
      if constexpr (dim > 1)
      {
         Setup s = setup(g, dim, false, true);
         bool visc = g.flip() || dim == 2;
         g.label(visc ? "viscous" : "inviscid");
         g.nontrivial();
         // the manufactured solutions live near the unit cube
         for (int i = 0; i < (s.curved ? 0 : s.mesh->GetNV()); ++i) { s.mesh->GetVertex(i)[0] -= 8.0; }
         double Re = g.logreal(0.5, 1e3), Pr = g.logreal(0.3, 3), alpha = g.chance(1, 3) ? 1.0 : g.sym(2.0);
         int e = g.irange(0, s.mesh->GetNE() - 1);
         auto &sbp = s.sbp(e);
         auto &el = *s.fes->GetFE(e);
         int n = sbp.GetDof();
         auto tr = [&]() -> ElementTransformation & { return *s.mesh->GetElementTransformation(e); };
         auto G = all_geo(sbp, tr());
         Vector q(n * (dim + 2)), ref(q.Size()), r;
         for (int i = 0; i < q.Size(); ++i) { q(i) = g.sym(1.0); }
         double scale = 0;
         for (int i = 0; i < n; ++i)
         {
            double src[5];
            if (visc) { calcViscousMMS<double>(dim, 1 / Re, Pr, G[i].x.GetData(), src); }
            else { calcInviscidMMS<double>(dim, G[i].x.GetData(), src); }
            for (int k = 0; k < dim + 2; ++k)
            {
               ref(k * n + i) = alpha * sbp.getDiagNormEntry(i) * G[i].det * src[k];
               scale = std::max(scale, std::fabs(ref(k * n + i)));
            }
         }
         DenseMatrix jac;
         if (visc)
         {
            NavierStokesMMSIntegrator in(Re, Pr, alpha, dim);
            in.AssembleElementVector(el, tr(), q, r);
            in.AssembleElementGrad(el, tr(), q, jac);
         }
         else
         {
            InviscidMMSIntegrator in(alpha, dim);
            in.AssembleElementVector(el, tr(), q, r);
            in.AssembleElementGrad(el, tr(), q, jac);
         }
         rel(g, r, ref, 1e-11, scale, "mms-source");
         g.check(jac.Height() == q.Size() && jac.Width() == q.Size() && jac.MaxMaxNorm() == 0, "mms-jacobian");
      }
   }
};
template <template <int> class Op>
void dispatch(Gen &g, int dmin)
{
   int dim = g.irange(dmin, 3);
   if (dim == 1) { Op<1>::run(g); }
   else if (dim == 2) { Op<2>::run(g); }
   else { Op<3>::run(g); }
}
#define OP(name) template <int d> struct Op_##name { static void run(Gen &g) { T<d>::name(g); } }
OP(volume);
OP(boundary);
OP(assembly);
OP(mms);
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P15",
            {{"volume", [](Gen &g) { dispatch<Op_volume>(g, 1); }, 5000, 100000},
             {"boundary", [](Gen &g) { dispatch<Op_boundary>(g, 2); }, 20000, 400000},
             {"assembly", [](Gen &g) { dispatch<Op_assembly>(g, 2); }, 10000, 200000},
             {"mms", [](Gen &g) { dispatch<Op_mms>(g, 2); }, 5000, 100000}},
            "the nodal states of the case differ from one another (mms: every case)");
   r.assumptions = {"simplex meshes, straight-sided and quadratic, on one rank", "the adept stand-in records and differentiates exactly", "pointwise fluxes are decided by P06 and P07; here the assembly is, against an independent physical viscous stress"};
   return r.main(argc, argv);
}
