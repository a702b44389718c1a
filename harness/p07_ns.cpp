// P07: Navier-Stokes flux algebra in entropy variables
#include "pbt.hpp"
#include "mfem.hpp"
#include "navier_stokes_fluxes.hpp"
#include <array>

using namespace pbt;
using namespace miso;
namespace
{
using ld = long double;
const ld G = 1.4L, G1 = 0.4L;

template <int dim>
struct Pt
{
   double rho, u[dim], p, q[dim + 2];
   void pack()
   {
      q[0] = rho;
      double k = 0;
      for (int i = 0; i < dim; ++i) { q[i + 1] = rho * u[i]; k += u[i] * u[i]; }
      q[dim + 1] = p / euler::gami + 0.5 * rho * k;
   }
   double cond() const { return q[dim + 1] / (p / euler::gami); }
   double a() const { return std::sqrt(1.4 * p / rho); }
};
template <int dim>
Pt<dim> state(Gen &g)
{
   Pt<dim> s;
   s.rho = g.logreal(0.1, 10);
   s.p = g.logreal(0.1, 10);
   double m = g.chance(1, 8) ? 0 : g.real(0, 3);
   for (int i = 0; i < dim; ++i) { s.u[i] = m * s.a() * g.sym(1); }
   s.pack();
   return s;
}
/// entropy-variable gradients from primitive gradients
template <int dim>
void gradients(Gen &g, const Pt<dim> &s, ld *drho, ld (*du)[dim], ld *dp, double *Dw)
{
   constexpr int n = dim + 2;
   bool unif = g.chance(1, 10);
   for (int j = 0; j < dim; ++j)
   {
      drho[j] = unif ? 0 : s.rho * g.sym(2);
      dp[j] = unif ? 0 : s.p * g.sym(2);
      ld k = 0, uk = 0;
      for (int i = 0; i < dim; ++i) { du[i][j] = s.a() * g.sym(2); k += (ld)s.u[i] * s.u[i]; uk += s.u[i] * du[i][j]; }
      ld r = (ld)s.rho / s.p, dr = drho[j] / s.p - r * dp[j] / s.p;
      ld ds = dp[j] / s.p - G * drho[j] / s.rho;
      double *D = Dw + j * n;
      D[0] = (double)(-ds / G1 - 0.5L * dr * k - r * uk);
      for (int i = 0; i < dim; ++i) { D[i + 1] = (double)(dr * s.u[i] + r * du[i][j]); }
      D[dim + 1] = (double)(-dr);
   }
}
template <int dim>
void dirn(Gen &g, double *d)
{
   double n = 0, sc = g.logreal(1e-2, 1e2);
   for (int i = 0; i < dim; ++i) { d[i] = g.sym(1); n += d[i] * d[i]; }
   if (n < 1e-4) { d[g.irange(0, dim - 1)] = 1; }
   for (int i = 0; i < dim; ++i) { d[i] *= sc; }
}

template <int dim>
void flux_d(Gen &g)
{
   constexpr int n = dim + 2;
   auto s = state<dim>(g);
   ld drho[dim], du[dim][dim], dp[dim];
   double Dw[n * dim];
   gradients<dim>(g, s, drho, du, dp, Dw);
   double mu = g.logreal(1e-3, 10), Pr = g.real(0.3, 2);
   g.note(str("dim ", dim, " q ", vec_str(s.q, n), " mu ", mu, " Pr ", Pr));
   g.nontrivial(s.u[0] != 0);
   double c = s.cond(), um = s.a();
   for (int i = 0; i < dim; ++i) { um = std::max(um, std::fabs(s.u[i])); }
   ld div = 0;
   for (int i = 0; i < dim; ++i) { div += du[i][i]; }
   double ts = mu * s.a() * 12 * c * (um / s.a()) * (um / s.a() + 1), es = ts * um + mu * 1.4 / (0.4 * Pr) * s.p / s.rho * 8;
   for (int d = 0; d < dim; ++d)
   {
      double f[n];
      for (auto &x : f) { x = g.sym(100); }   // stale content must not leak
      applyViscousScaling<double, dim>(d, mu, Pr, s.q, Dw, f);
      g.check(f[0] == 0, "no-mass-flux");
      ld e = 0;
      for (int i = 0; i < dim; ++i)
      {
         ld tau = mu * (du[i][d] + du[d][i] - (i == d ? 2 * div / 3 : 0));
         g.close(f[i + 1], (double)tau, 1e-13 * ts, "stress", str("direction ", d, " component ", i));
         e += tau * s.u[i];
      }
      ld dT = (dp[d] - drho[d] * s.p / s.rho) / s.rho;
      e += mu * G / (G1 * Pr) * dT;
      g.close(f[dim + 1], (double)e, 1e-13 * es, "energy-flux", str("direction ", d));
   }
   // the C_ij blocks: additive, linear, C_ij = C_ji^T, together positive semi-definite
   double x[n], y[n];
   for (int i = 0; i < n; ++i) { x[i] = g.sym(1); y[i] = g.sym(1); }
   double um2 = 1 + um * um, cs = mu * s.p / s.rho * um2 + mu * 1.4 / (0.4 * Pr) * (s.p / s.rho) * (s.p / s.rho);
   for (int i = 0; i < dim; ++i)
   {
      for (int j = 0; j < dim; ++j)
      {
         double a[n], b[n], base[n], c1[n];
         for (int k = 0; k < n; ++k) { a[k] = 0; b[k] = 0; c1[k] = base[k] = g.sym(5); }
         applyCijMatrix<double, dim>(i, j, mu, Pr, s.q, x, a);
         applyCijMatrix<double, dim>(j, i, mu, Pr, s.q, y, b);
         ld ya = 0, xb = 0;
         for (int k = 0; k < n; ++k) { ya += (ld)y[k] * a[k]; xb += (ld)x[k] * b[k]; }
         g.close((double)ya, (double)xb, 1e-12 * c * cs, "block-transpose", str(i, " ", j));
         applyCijMatrix<double, dim>(i, j, mu, Pr, s.q, x, c1);
         for (int k = 0; k < n; ++k) { g.close(c1[k], base[k] + a[k], 1e-13 * (cs + 5), "block-accumulates"); }
      }
   }
   ld diss = 0, scale = 0;
   double Z[n * dim];
   for (auto &z : Z) { z = g.sym(1); }
   for (int d = 0; d < dim; ++d)
   {
      double f[n];
      applyViscousScaling<double, dim>(d, mu, Pr, s.q, Z, f);
      for (int k = 0; k < n; ++k) { diss += (ld)f[k] * Z[d * n + k]; scale += fabsl((ld)f[k] * Z[d * n + k]); }
   }
   g.check(diss >= -1e-12L * (scale + cs), "dissipative", fmt((double)diss));
}
void flux(Gen &g)
{
   switch (g.irange(1, 3))
   {
   case 1: flux_d<1>(g); break;
   case 2: flux_d<2>(g); break;
   default: flux_d<3>(g);
   }
}

template <int dim>
void walls_d(Gen &g)
{
   constexpr int n = dim + 2;
   auto s = state<dim>(g), fs = state<dim>(g);
   ld drho[dim], du[dim][dim], dp[dim];
   double Dw[n * dim], Dp[n * dim], dir[dim];
   gradients<dim>(g, s, drho, du, dp, Dw);
   dirn<dim>(g, dir);
   double mu = g.logreal(1e-3, 10), Pr = g.real(0.3, 2), J = g.logreal(1e-3, 10);
   g.note(str("dim ", dim, " q ", vec_str(s.q, n), " dir ", vec_str(dir, dim), " mu ", mu, " Pr ", Pr));
   g.nontrivial(s.u[0] != 0);
   double dA = 0, Dm = 0, c = s.cond();
   for (double x : dir) { dA += x * x; }
   dA = std::sqrt(dA);
   for (double x : Dw) { Dm = std::max(Dm, std::fabs(x)); }
   // setZeroNormalDeriv
   setZeroNormalDeriv<double, dim>(dir, Dw, Dp);
   for (int k = 0; k < n; ++k)
   {
      ld nn = 0, n0 = 0;
      for (int d = 0; d < dim; ++d) { nn += (ld)Dp[d * n + k] * dir[d]; n0 += (ld)Dw[d * n + k] * dir[d] / dA; }
      g.close((double)nn, 0, 1e-14 * 4 * Dm * dA, "zero-normal");
      for (int d = 0; d < dim; ++d) { g.close(Dp[d * n + k], (double)(Dw[d * n + k] - n0 * dir[d] / dA), 1e-14 * 4 * Dm, "tangential-kept"); }
   }
   // adiabatic wall: the viscous flux with the normal derivative of the last variable removed
   double um = 1 + s.a();
   for (double x : s.u) { um = std::max(um, std::fabs(x)); }
   double cs = (mu * s.p / s.rho * um * um * 4 + mu * 1.4 / (0.4 * Pr) * (s.p / s.rho) * (s.p / s.rho)) * Dm * dA * dim;
   double f[n], want[n] = {}, De[n * dim];
   memcpy(De, Dw, sizeof De);
   for (int d = 0; d < dim; ++d) { De[d * n + dim + 1] = Dp[d * n + dim + 1]; }
   for (int d = 0; d < dim; ++d)
   {
      double t[n];
      applyViscousScaling<double, dim>(d, mu, Pr, s.q, De, t);
      for (int k = 0; k < n; ++k) { want[k] += dir[d] * t[k]; }
   }
   for (auto &x : f) { x = g.sym(100); }
   calcAdiabaticWallFlux<double, dim>(dir, mu, Pr, s.q, Dw, f);
   g.check(f[0] == 0, "adiabatic-mass");
   for (int k = 0; k < n; ++k) { g.close(f[k], want[k], 1e-12 * c * cs, "adiabatic-flux", str("component ", k)); }
   // no energy flux through a resting wall
   {
      Pt<dim> r = s;
      for (auto &x : r.u) { x = 0; }
      r.pack();
      double fr[n];
      calcAdiabaticWallFlux<double, dim>(dir, mu, Pr, r.q, Dw, fr);
      g.close(fr[dim + 1], 0, 1e-13 * cs, "adiabatic-insulated");
   }
   // penalties
   double w[n], pf[n];
   for (auto &x : pf) { x = g.sym(100); }
   calcNoSlipPenaltyFlux<double, dim>(dir, J, mu, Pr, fs.q, s.q, pf);
   double RT = mu * fs.p / fs.rho * (dim + 1.0 / 3) * dA / J;
   g.check(pf[0] == 0 && pf[dim + 1] == 0, "noslip-scalars");
   ld wp = 0;
   for (int i = 0; i < dim; ++i)
   {
      g.close(pf[i + 1], RT * s.rho * s.u[i] / s.p, 1e-12 * c * fs.cond() * RT * s.rho * (um) / s.p, "noslip-penalty", str("component ", i));
      wp += (ld)pf[i + 1] * s.u[i];
   }
   g.check(wp >= 0, "noslip-dissipative");
   double uc = g.sym(2);
   for (auto &x : pf) { x = g.sym(100); }
   calcControlPenaltyFlux<double, dim>(dir, J, mu, Pr, uc, fs.q, s.q, pf);
   g.check(pf[0] == 0 && pf[dim + 1] == 0, "control-scalars");
   for (int i = 0; i < dim; ++i)
   {
      g.close(pf[i + 1], RT * s.rho * (s.u[i] - uc * dir[i] / dA) / s.p, 1e-12 * c * fs.cond() * RT * s.rho * (um + 2) / s.p, "control-penalty", str("component ", i));
   }
   // dual term is the transpose of the wall flux: sum_d Dw_d . F_d = - dw . adiabatic(Dw)
   double F[n * dim];
   for (auto &x : F) { x = g.sym(100); }
   calcNoSlipDualFlux<double, dim>(dir, mu, Pr, s.q, F);
   ld lhs = 0, rhs = 0;
   double wm = 0;
   for (int i = 0; i < n * dim; ++i) { lhs += (ld)Dw[i] * F[i]; }
   for (int i = 0; i < dim; ++i) { rhs -= (ld)(s.q[i + 1] / s.p) * f[i + 1]; wm = std::max(wm, std::fabs(s.q[i + 1] / s.p)); }
   g.close((double)lhs, (double)rhs, 1e-11 * c * c * cs * wm * n, "dual-transpose");
   {
      Pt<dim> r = s;
      for (auto &x : r.u) { x = 0; }
      r.pack();
      calcNoSlipDualFlux<double, dim>(dir, mu, Pr, r.q, F);
      for (double x : F) { g.close(x, 0, 0, "dual-vanishes"); }
   }
   // Sutherland's law: one at the free stream, increasing with temperature
   double m1 = calcSutherlandViscosity<double, dim>(s.q), T = s.a() * s.a(), ST = 198.6 / 460;
   g.close(m1, std::pow(T, 1.5) * (1 + ST) / (T + ST), 1e-13 * c * (1 + m1), "sutherland");
   Pt<dim> h = s;
   h.p *= 1.01 + g.real(0, 1);
   h.pack();
   g.check(calcSutherlandViscosity<double, dim>(h.q) > m1, "sutherland-monotone");
   Pt<dim> one = s;
   one.p = one.rho / 1.4;
   one.pack();
   g.close(calcSutherlandViscosity<double, dim>(one.q), 1.0, 1e-13 * one.cond(), "sutherland-reference");
   (void)w;
}
void walls(Gen &g)
{
   switch (g.irange(1, 3))
   {
   case 1: walls_d<1>(g); break;
   case 2: walls_d<2>(g); break;
   default: walls_d<3>(g);
   }
}

// divergence of (Euler - viscous) flux of the exact solution equals the source
template <int dim>
void mms_d(Gen &g)
{
   constexpr int n = dim + 2;
   double x[dim + 2] = {}, mu = g.logreal(1e-3, 10), Pr = g.real(0.3, 2);
   // the exact solution takes only dim coordinates: what follows them must not matter
   for (int i = 0; i < dim; ++i) { x[i] = g.real(0.05, 0.95); }
   g.note(str("dim ", dim, " x ", vec_str(x, dim), " mu ", mu, " Pr ", Pr));
   g.nontrivial();
   double q0[n], q1[n];
   viscousMMSExact<double>(dim, x, q0);
   x[dim] = 0.371;
   viscousMMSExact<double>(dim, x, q1);
   for (int i = 0; i < n; ++i) { g.check(q0[i] == q1[i], "mms-exact-input", str("component ", i)); }
   static const double c4[4] = {1. / 12, -8. / 12, 8. / 12, -1. / 12};
   static const int o4[4] = {-2, -1, 1, 2};
   const double h = 2e-3;
   auto exact = [&](const double *y, double *q) { viscousMMSExact<double>(dim, y, q); };
   auto total = [&](const double *y, int d, double *f)
   {
      double q[n], Dw[n * dim] = {}, fv[n], e[dim] = {};
      exact(y, q);
      for (int k = 0; k < dim; ++k)
      {
         for (int m = 0; m < 4; ++m)
         {
            double z[dim + 1], qz[n], w[n];
            for (int i = 0; i < dim; ++i) { z[i] = y[i]; }
            z[dim] = 0;
            z[k] += o4[m] * h;
            exact(z, qz);
            calcEntropyVars<double, dim, false>(qz, w);
            for (int i = 0; i < n; ++i) { Dw[k * n + i] += c4[m] * w[i] / h; }
         }
      }
      e[d] = 1;
      calcEulerFlux<double, dim>(e, q, f);
      applyViscousScaling<double, dim>(d, mu, Pr, q, Dw, fv);
      for (int i = 0; i < n; ++i) { f[i] -= fv[i]; }
   };
   double src[n], div[n] = {};
   calcViscousMMS<double>(dim, mu, Pr, x, src);
   for (int d = 0; d < dim; ++d)
   {
      for (int m = 0; m < 4; ++m)
      {
         double y[dim + 1], f[n];
         for (int i = 0; i < dim; ++i) { y[i] = x[i]; }
         y[dim] = 0;
         y[d] += o4[m] * h;
         total(y, d, f);
         for (int i = 0; i < n; ++i) { div[i] += c4[m] * f[i] / h; }
      }
   }
   for (int i = 0; i < n; ++i) { g.close(src[i], div[i], 1e-6 * (1 + mu) * (1 + 1 / Pr), str("mms-source-", dim, "d-", i)); }
}
void mms(Gen &g)
{
   if (g.flip()) { mms_d<3>(g); }
   else { mms_d<2>(g); }
}
}  // namespace

int main(int argc, char **argv)
{
   Runner r("P07", {{"flux", flux, 60000, 1000000}, {"walls", walls, 60000, 1000000}, {"mms", mms, 10000, 100000}},
            "random admissible gas states and gradients in 1-3 dimensions, viscosities, Prandtl numbers and wall normals; non-trivial: moving gas");
   r.assumptions = {"density and pressure positive", "viscosity and Prandtl number positive"};
   return r.main(argc, argv);
}
