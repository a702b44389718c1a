// P06: Euler flux algebra: variable maps, two-point fluxes, Roe and boundary fluxes
#include "pbt.hpp"
#include "mfem.hpp"
#include "euler_fluxes.hpp"
#include <array>

using namespace pbt;
using namespace miso;
namespace
{
using ld = long double;
const ld G = 1.4L, G1 = 0.4L;

template <int dim>
struct State
{
   double rho, u[dim], p;
   double q[dim + 2];
   void pack()
   {
      q[0] = rho;
      double k = 0;
      for (int i = 0; i < dim; ++i) { q[i + 1] = rho * u[i]; k += u[i] * u[i]; }
      q[dim + 1] = p / euler::gami + 0.5 * rho * k;
      // what is representable is q; recompute the primitives from it
   }
   ld pl() const
   {
      ld k = 0;
      for (int i = 0; i < dim; ++i) { k += (ld)q[i + 1] * q[i + 1]; }
      return G1 * (q[dim + 1] - 0.5L * k / q[0]);
   }
   double a() const { return std::sqrt(1.4 * p / rho); }
   /// conditioning of the pressure: E / (p/gami)
   double cond() const { return q[dim + 1] / (p / euler::gami); }
   std::string s() const { return vec_str(q, dim + 2); }
};

template <int dim>
State<dim> state(Gen &g, double mmax = 3.0)
{
   State<dim> s;
   s.rho = g.logreal(0.05, 20.0);
   s.p = g.logreal(0.05, 20.0);
   double m = g.chance(1, 8) ? 0.0 : g.real(0, mmax), a = s.a();
   for (int i = 0; i < dim; ++i) { s.u[i] = m * a * g.sym(1.0); }
   s.pack();
   return s;
}
/// a second state: independent, close, or equal up to rounding
template <int dim>
State<dim> second(Gen &g, const State<dim> &l, double mmax = 3.0)
{
   int k = g.irange(0, 4);
   if (k <= 1) { g.label("far"); return state<dim>(g, mmax); }
   State<dim> r = l;
   double e = k == 2 ? 0.3 : k == 3 ? 1e-3 : 1e-9;
   g.label(k == 2 ? "near" : "close");
   r.rho *= 1 + e * g.sym(1.0);
   r.p *= 1 + e * g.sym(1.0);
   for (int i = 0; i < dim; ++i) { r.u[i] += e * l.a() * g.sym(1.0); }
   r.pack();
   return r;
}
template <int dim>
void direction(Gen &g, double *d)
{
   double n = 0, sc = g.logreal(1e-3, 1e2);
   do
   {
      n = 0;
      for (int i = 0; i < dim; ++i) { d[i] = g.sym(1.0); n += d[i] * d[i]; }
      if (n < 1e-4) { d[g.irange(0, dim - 1)] = 1.0; n = 1; }
   } while (n < 1e-4);
   for (int i = 0; i < dim; ++i) { d[i] *= sc; }
}
template <int dim>
ld nrm(const double *d) { ld s = 0; for (int i = 0; i < dim; ++i) { s += (ld)d[i] * d[i]; } return sqrtl(s); }

template <int dim, typename V>
ld pres(const V &q)
{
   ld k = 0;
   for (int i = 0; i < dim; ++i) { k += (ld)q[i + 1] * q[i + 1]; }
   return G1 * ((ld)q[dim + 1] - 0.5L * k / q[0]);
}
template <int dim, typename V>
std::array<ld, dim + 2> wref(const V &q)
{
   std::array<ld, dim + 2> w;
   ld p = pres<dim>(q), s = logl(p / powl(q[0], G)), k = 0;
   for (int i = 0; i < dim; ++i) { k += (ld)q[i + 1] * q[i + 1]; w[i + 1] = q[i + 1] / p; }
   w[0] = (G - s) / G1 - 0.5L * k / q[0] / p;
   w[dim + 1] = -q[0] / p;
   return w;
}
template <int dim, typename V>
ld Sref(const V &q) { return -(ld)q[0] * logl(pres<dim>(q) / powl(q[0], G)) / G1; }

template <int dim, typename V, typename D>
std::array<ld, dim + 2> fref(const D *dir, const V &q)
{
   std::array<ld, dim + 2> f;
   ld p = pres<dim>(q), U = 0;
   for (int i = 0; i < dim; ++i) { U += (ld)q[i + 1] * dir[i]; }
   U /= q[0];
   f[0] = q[0] * U;
   for (int i = 0; i < dim; ++i) { f[i + 1] = q[i + 1] * U + dir[i] * p; }
   f[dim + 1] = (q[dim + 1] + p) * U;
   return f;
}
/// exact directional derivative of the Euler flux at the state (u, H) (rho = 1) in direction v
template <int dim, typename D>
std::array<ld, dim + 2> aprod(const D *dir, const ld *u, ld H, const std::array<ld, dim + 2> &v)
{
   ld k = 0, Un = 0, um = 0, nm = 0;
   for (int i = 0; i < dim; ++i) { k += u[i] * u[i]; Un += u[i] * dir[i]; um += u[i] * v[i + 1]; nm += dir[i] * v[i + 1]; }
   ld dp = G1 * (0.5L * k * v[0] - um + v[dim + 1]);
   ld dUn = nm - Un * v[0];   // rho dUn
   std::array<ld, dim + 2> r;
   r[0] = nm;
   for (int i = 0; i < dim; ++i) { r[i + 1] = u[i] * dUn + Un * v[i + 1] + dir[i] * dp; }
   r[dim + 1] = H * dUn + Un * (v[dim + 1] + dp);
   return r;
}
/// f(A) v for the flux Jacobian with eigenvalues Un, Un +- dA a; f given on (l+, l-, l0)
template <int dim, typename D>
std::array<ld, dim + 2> fA(const D *dir, const ld *u, ld H, const ld *f, const std::array<ld, dim + 2> &v)
{
   ld k = 0, Un = 0, dA = 0;
   for (int i = 0; i < dim; ++i) { k += u[i] * u[i]; Un += u[i] * dir[i]; dA += (ld)dir[i] * dir[i]; }
   dA = sqrtl(dA);
   ld a = sqrtl(G1 * (H - 0.5L * k)), l[3] = {Un + dA * a, Un - dA * a, Un};
   std::array<ld, dim + 2> r{};
   for (int i = 0; i < 3; ++i)
   {
      auto t = v;
      for (int j = 0; j < 3; ++j)
      {
         if (j == i) { continue; }
         auto At = aprod<dim>(dir, u, H, t);
         for (int m = 0; m < dim + 2; ++m) { t[m] = (At[m] - l[j] * t[m]) / (l[i] - l[j]); }
      }
      for (int m = 0; m < dim + 2; ++m) { r[m] += f[i] * t[m]; }
   }
   return r;
}

template <int dim>
double fscale(const double *dir, const State<dim> &s)
{
   double m = 0;
   for (int i = 0; i < dim + 2; ++i) { m = std::max(m, std::fabs(s.q[i])); }
   double U = 0;
   for (int i = 0; i < dim; ++i) { U += std::fabs(s.u[i] * dir[i]); }
   return (m + s.p) * (U + s.a() * (double)nrm<dim>(dir)) + (m + s.p) * (double)nrm<dim>(dir);
}
template <int n, typename A, typename B>
void close_all(Gen &g, const A &a, const B &b, double tol, const char *key, const std::string &msg = "")
{
   for (int i = 0; i < n; ++i) { g.close((double)a[i], (double)b[i], tol, key, str(msg, " component ", i)); }
}

// ------------------------------------------------------------------ variables
template <int dim>
void vars_d(Gen &g)
{
   constexpr int n = dim + 2;
   auto s = state<dim>(g, 4.0);
   g.note(str("dim ", dim, " q ", s.s()));
   g.nontrivial(s.u[0] != 0);
   double c = s.cond();
   g.close(pressure<double, dim>(s.q), (double)s.pl(), 1e-14 * c * s.p, "pressure");
   double w[n], q2[n], w2[n];
   calcEntropyVars<double, dim, false>(s.q, w);
   auto wr = wref<dim>(s.q);
   double wm = 0;
   for (int i = 0; i < n; ++i) { wm = std::max(wm, (double)fabsl(wr[i])); }
   close_all<n>(g, w, wr, 2e-14 * c * (1 + wm), "entropy-vars");
   calcConservativeVars<double, dim, true>(w, q2);
   double qm = 0;
   for (int i = 0; i < n; ++i) { qm = std::max(qm, std::fabs(s.q[i])); }
   close_all<n>(g, q2, s.q, 1e-12 * c * (1 + wm) * qm, "roundtrip");
   calcEntropyVars<double, dim, true>(w, w2);
   close_all<n>(g, w2, w, 0.0, "identity-entvar");
   calcConservativeVars<double, dim, false>(s.q, w2);
   close_all<n>(g, w2, s.q, 0.0, "identity-cons");
   // entropy: value, agreement of the two parametrisations
   double S = entropy<double, dim>(s.q), Se = entropy<double, dim, true>(w);
   g.close(S, (double)Sref<dim>(s.q), 1e-13 * c * (1 + std::fabs(S) + s.rho), "entropy-value");
   g.close(Se, S, 1e-12 * c * (1 + wm) * (1 + std::fabs(S) + s.rho), "entropy-entvar");
   // w is the gradient of the entropy, and the entropy is convex
   std::array<ld, n> qp, qm_;
   double v[n];
   ld h = 1e-6L * std::min<ld>(s.rho, s.p) / (1 + s.u[0] * s.u[0]);
   for (int i = 0; i < n; ++i) { v[i] = g.sym(1.0); }
   ld vv = 0, kk = 1;
   for (int i = 0; i < dim; ++i) { kk += std::fabs(s.u[i]); }
   h = 1e-5L * std::min<ld>(s.rho, s.p) / (kk * kk);
   for (int i = 0; i < n; ++i) { qp[i] = s.q[i] + h * v[i]; qm_[i] = s.q[i] - h * v[i]; vv += w[i] * v[i]; }
   g.close((double)((Sref<dim>(qp) - Sref<dim>(qm_)) / (2 * h)), (double)vv, 1e-8 * c * c * (1 + wm) * kk * kk, "gradient");
   auto t = state<dim>(g, 4.0);
   ld gap = (ld)entropy<double, dim>(t.q) - S;
   double tm = 0;
   for (int i = 0; i < n; ++i) { gap -= (ld)w[i] * (t.q[i] - s.q[i]); tm = std::max(tm, std::fabs(t.q[i])); }
   g.check(gap >= -1e-12 * c * t.cond() * (1 + wm) * (1 + qm + tm), "convex", str("entropy gap ", (double)gap));
   // dq/dw
   double dq[n], e[n], dq2[n];
   calcdQdWProduct<double, dim>(s.q, v, dq);
   // reference: central difference of q(w) in long double, in the direction v
   {
      auto qref = [&](const std::array<ld, n> &ww)
      {
         std::array<ld, n> r;
         ld k = 0;
         for (int i = 0; i < dim; ++i) { r[i + 1] = -ww[i + 1] / ww[dim + 1]; k += r[i + 1] * r[i + 1]; }
         ld sp = G + G1 * (0.5L * k * ww[dim + 1] - ww[0]);
         r[0] = powl(-expl(-sp) / ww[dim + 1], 1 / G1);
         for (int i = 0; i < dim; ++i) { r[i + 1] *= r[0]; }
         r[dim + 1] = -r[0] / ww[dim + 1] / G1 + 0.5L * r[0] * k;
         return r;
      };
      std::array<ld, n> wp, acc{};
      double vs[n], dqs[n];
      ld um = s.a();
      for (int i = 0; i < dim; ++i) { um = std::max<ld>(um, std::fabs(s.u[i])); }
      for (int i = 0; i < n; ++i) { vs[i] = v[i] * (double)(i == 0 ? 1.0L : fabsl(wr[dim + 1]) * (i <= dim ? um : 1)); }
      calcdQdWProduct<double, dim>(s.q, vs, dqs);
      const ld hh = 1e-4L, cf[4] = {1 / 12.0L, -8 / 12.0L, 8 / 12.0L, -1 / 12.0L};
      const int of[4] = {-2, -1, 1, 2};
      for (int m = 0; m < 4; ++m)
      {
         for (int i = 0; i < n; ++i) { wp[i] = wr[i] + of[m] * hh * vs[i]; }
         auto a = qref(wp);
         for (int i = 0; i < n; ++i) { acc[i] += cf[m] * a[i] / hh; }
      }
      for (int i = 0; i < n; ++i)
      {
         double sc = i == 0 ? s.rho : i <= dim ? s.rho * (double)um : s.q[dim + 1];
         g.close(dqs[i], (double)acc[i], 1e-9 * c * c * c * sc, "dqdw", str("component ", i));
      }
   }
   ld quad = 0;
   for (int i = 0; i < n; ++i) { quad += (ld)v[i] * dq[i]; }
   g.check(quad >= 0, "dqdw-positive", fmt((double)quad));
   for (int i = 0; i < n; ++i) { e[i] = g.sym(1.0); }
   calcdQdWProduct<double, dim>(s.q, e, dq2);
   ld x = 0, y = 0, xs = 0;
   for (int i = 0; i < n; ++i) { x += (ld)e[i] * dq[i]; y += (ld)v[i] * dq2[i]; xs += fabsl((ld)e[i] * dq[i]) + fabsl((ld)v[i] * dq2[i]); }
   g.close((double)x, (double)y, 1e-12 * c * c * (double)(xs + (1 + s.q[dim + 1]) * (1 + s.q[dim + 1]) / s.rho), "dqdw-symmetric");
   // spectral radius
   double dir[dim];
   direction<dim>(g, dir);
   ld U = 0;
   for (int i = 0; i < dim; ++i) { U += (ld)s.q[i + 1] * dir[i] / s.q[0]; }
   ld sr = fabsl(U) + sqrtl(G * s.pl() / s.q[0]) * nrm<dim>(dir);
   g.close(calcSpectralRadius<double, dim>(dir, s.q), (double)sr, 1e-13 * c * (double)sr, "spectral-radius");
   g.close(calcSpectralRadius<double, dim, true>(dir, w), (double)sr, 1e-11 * c * (1 + wm) * (double)sr, "spectral-radius-entvar");
   // Euler flux
   double f[n];
   calcEulerFlux<double, dim>(dir, s.q, f);
   auto fr = fref<dim>(dir, s.q);
   double fs = fscale<dim>(dir, s);
   close_all<n>(g, f, fr, 1e-14 * c * fs, "euler-flux");
   // entropy flux compatibility: w.f - psi = U * S  with psi = momentum . dir
   ld wf = 0;
   for (int i = 0; i < n; ++i) { wf += (ld)w[i] * f[i]; }
   ld psi = 0;
   for (int i = 0; i < dim; ++i) { psi += (ld)s.q[i + 1] * dir[i]; }
   g.close((double)(wf - psi), (double)(U * Sref<dim>(s.q)), 1e-12 * c * (1 + wm) * fs, "entropy-flux");
   // LPS scaling: average spectral radius times dq/dw
   double adj[dim * dim], lp[n], lpw[n];
   ld avg = 0;
   for (int i = 0; i < dim; ++i)
   {
      direction<dim>(g, adj + i * dim);
      avg += (ld)calcSpectralRadius<double, dim>(adj + i * dim, s.q) / dim;
   }
   applyLPSScaling<double, dim>(adj, s.q, v, lp);
   double lm = 0;
   for (int i = 0; i < n; ++i) { lm = std::max(lm, std::fabs(lp[i])); }
   for (int i = 0; i < n; ++i) { g.close(lp[i], (double)(avg * dq[i]), 1e-13 * lm + 1e-300, "lps-scaling"); }
   applyLPSScalingUsingEntVars<double, dim>(adj, w, v, lpw);
   double hs = (double)avg * (1 + std::fabs(s.q[dim + 1])) * (1 + std::fabs(s.q[dim + 1])) * (1 + 1 / s.rho);
   close_all<n>(g, lpw, lp, 1e-11 * c * c * (1 + wm) * (lm + hs), "lps-entvar");
   // Jacobian of the variable map by algorithmic differentiation inverts dq/dw
   {
      mfem::Vector qv(s.q, n);
      mfem::DenseMatrix J(n);
      adept::Stack &st = getDiffStack();
      convertVarsJac<dim>(qv, st, J);
      mfem::Vector dv(dq, n), r(n);
      J.Mult(dv, r);
      for (int i = 0; i < n; ++i) { g.close(r(i), v[i], 1e-10 * c * c * (1 + wm) * (double)kk * (double)kk * (1 + std::fabs(v[i])), "ad-jacobian"); }
   }
}
void vars(Gen &g)
{
   switch (g.irange(1, 3))
   {
   case 1: vars_d<1>(g); break;
   case 2: vars_d<2>(g); break;
   default: vars_d<3>(g);
   }
}

void freestream(Gen &g)
{
   double M = g.real(0, 3), a = g.sym(3.2);
   g.nontrivial(M > 0 && a != 0);
   auto one = [&](auto D)
   {
      constexpr int dim = decltype(D)::value;
      int r = g.irange(0, dim - 1), p = dim == 1 ? 0 : (r + 1 + g.irange(0, dim - 2)) % dim;
      double q[dim + 2];
      getFreeStreamQ<double, dim>(M, a, r, p, q);
      g.close(q[0], 1.0, 0, "freestream-density");
      g.close(pressure<double, dim>(q), 1 / 1.4, 1e-14 * (1 + M * M), "freestream-pressure");
      double k = 0;
      for (int i = 0; i < dim; ++i)
      {
         k += q[i + 1] * q[i + 1];
         double want = dim == 1 ? M : i == r ? M * std::cos(a) : i == p ? M * std::sin(a) : 0.0;
         g.close(q[i + 1], want, 1e-14 * (1 + M), "freestream-velocity", str("dim ", dim, " component ", i));
      }
      g.close(std::sqrt(k), M, 1e-14 * (1 + M), "freestream-mach");
   };
   one(std::integral_constant<int, 1>());
   one(std::integral_constant<int, 2>());
   one(std::integral_constant<int, 3>());
}

void logavg_p(Gen &g)
{
   double a = g.logreal(1e-4, 1e4), b;
   switch (g.irange(0, 3))
   {
   case 0: b = g.logreal(1e-4, 1e4); break;
   case 1: b = a * (1 + g.sym(0.2)); break;   // around the switch of formulas (xi about 1.065)
   case 2: b = a * (1.0653 + g.sym(2e-3)); break;
   default: b = a * (1 + g.sym(1e-7));
   }
   g.note(str("a ", a, " b ", b));
   g.nontrivial(a != b);
   double l = logavg<double>(a, b);
   // reference with a long double series for close arguments
   ld x = ((ld)a - b) / ((ld)a + b), want;
   if (fabsl(x) < 0.05L)
   {
      ld u = x * x, F = 0, t = 1;
      for (int k = 0; k < 20; ++k) { F += t / (2 * k + 1); t *= u; }
      want = ((ld)a + b) / (2 * F);
   }
   else { want = ((ld)a - b) / (logl((ld)a) - logl((ld)b)); }
   g.close(l, (double)want, 3e-14 * (double)want, "logavg");
   g.close(logavg<double>(b, a), l, 3e-14 * l, "logavg-symmetric");
   g.check(l >= std::sqrt(a * b) * (1 - 1e-13) && l <= 0.5 * (a + b) * (1 + 1e-13), "logavg-bounds");
}

// ----------------------------------------------------------- two-point fluxes
template <int dim>
void twopoint_d(Gen &g)
{
   constexpr int n = dim + 2;
   auto L = state<dim>(g), R = second<dim>(g, L);
   double dir[dim];
   direction<dim>(g, dir);
   g.note(str("dim ", dim, " L ", L.s(), " R ", R.s(), " dir ", vec_str(dir, dim)));
   g.nontrivial();
   double c = std::max(L.cond(), R.cond());
   double fs = std::max(fscale<dim>(dir, L), fscale<dim>(dir, R));
   // mean states of very different sides can exceed both
   double big = fs * (1 + std::sqrt(std::max(L.a() / R.a(), R.a() / L.a())));
   double wL[n], wR[n];
   calcEntropyVars<double, dim, false>(L.q, wL);
   calcEntropyVars<double, dim, false>(R.q, wR);
   double wm = 1;
   for (int i = 0; i < n; ++i) { wm = std::max({wm, std::fabs(wL[i]), std::fabs(wR[i])}); }
   auto wrL = wref<dim>(L.q), wrR = wref<dim>(R.q);
   // coordinate-direction fluxes
   double fd[dim][n], f[n], f2[n];
   std::array<double, n> comb{};
   for (int d = 0; d < dim; ++d)
   {
      calcIsmailRoeFlux<double, dim>(d, L.q, R.q, fd[d]);
      calcIsmailRoeFlux<double, dim>(d, R.q, L.q, f2);
      double sd = big / (double)nrm<dim>(dir);
      double e[dim] = {};
      e[d] = 1;
      sd = std::max(fscale<dim>(e, L), fscale<dim>(e, R)) * (1 + std::sqrt(std::max(L.a() / R.a(), R.a() / L.a())));
      close_all<n>(g, f2, fd[d], 1e-12 * c * sd, "ir-symmetric");
      calcIsmailRoeFlux<double, dim>(d, L.q, L.q, f2);
      calcEulerFlux<double, dim>(e, L.q, f);
      close_all<n>(g, f2, f, 1e-12 * c * sd, "ir-consistent", str("direction ", d));
      ld jump = 0;
      for (int i = 0; i < n; ++i) { jump += (wrL[i] - wrR[i]) * fd[d][i]; }
      g.close((double)jump, (double)((ld)L.q[d + 1] - R.q[d + 1]), 1e-11 * c * wm * sd, "ir-entropy-conservative", str("direction ", d));
      calcIsmailRoeFluxUsingEntVars<double, dim>(d, wL, wR, f2);
      close_all<n>(g, f2, fd[d], 1e-11 * c * wm * sd, "ir-entvars", str("direction ", d));
      for (int i = 0; i < n; ++i) { comb[i] += dir[d] * fd[d][i]; }
   }
   // face flux
   calcIsmailRoeFaceFlux<double, dim>(dir, L.q, R.q, f);
   close_all<n>(g, f, comb, 1e-12 * c * big, "ir-face-linear");
   ld jump = 0, psi = 0;
   for (int i = 0; i < n; ++i) { jump += (wrL[i] - wrR[i]) * f[i]; }
   for (int i = 0; i < dim; ++i) { psi += ((ld)L.q[i + 1] - R.q[i + 1]) * dir[i]; }
   g.close((double)jump, (double)psi, 1e-11 * c * wm * big, "ir-face-entropy-conservative");
   calcIsmailRoeFaceFluxUsingEntVars<double, dim>(dir, wL, wR, f2);
   close_all<n>(g, f2, f, 1e-11 * c * wm * big, "ir-face-entvars");
   // dissipative version
   double cd = g.chance(1, 6) ? 0.0 : g.real(0, 2);
   double fdis[n], fdis2[n], mdir[dim];
   calcIsmailRoeFaceFluxWithDiss<double, dim>(dir, cd, L.q, R.q, fdis);
   State<dim> A;
   for (int i = 0; i < n; ++i) { A.q[i] = 0.5 * (L.q[i] + R.q[i]); }
   double dw[n], Mdw[n];
   for (int i = 0; i < n; ++i) { dw[i] = (double)(wrL[i] - wrR[i]); }
   calcdQdWProduct<double, dim>(A.q, dw, Mdw);
   double lam = calcSpectralRadius<double, dim>(dir, A.q);
   double ms = 0;
   {
      double pa = (double)pres<dim>(A.q), H = (A.q[dim + 1] + pa) / A.q[0], dwm = 0;
      for (int i = 0; i < n; ++i) { dwm = std::max(dwm, std::fabs(dw[i])); }
      ms = lam * A.q[0] * (1 + H) * (1 + H) * (dwm + 1e-15 * wm);
   }
   for (int i = 0; i < n; ++i)
   {
      g.close(fdis[i] - f[i], cd * lam * Mdw[i], 1e-12 * c * big + 1e-11 * c * ms, "diss-form", str("component ", i));
   }
   ld sj = 0;
   for (int i = 0; i < n; ++i) { sj += (wrL[i] - wrR[i]) * fdis[i]; }
   g.check(sj - psi >= -1e-11 * c * wm * (big + ms), "diss-entropy-stable", str((double)(sj - psi)));
   calcIsmailRoeFaceFluxWithDissUsingEntVars<double, dim>(dir, cd, wL, wR, fdis2);
   close_all<n>(g, fdis2, fdis, 1e-10 * c * c * wm * (big + ms + lam * A.q[0] * 1e-4 * wm), "diss-entvars");
   // conservation: what leaves one side enters the other
   for (int i = 0; i < dim; ++i) { mdir[i] = -dir[i]; }
   calcIsmailRoeFaceFluxWithDiss<double, dim>(mdir, cd, R.q, L.q, fdis2);
   for (int i = 0; i < n; ++i) { g.close(fdis2[i], -fdis[i], 1e-12 * c * big + 1e-11 * c * ms, "diss-conservative"); }
}
void twopoint(Gen &g)
{
   switch (g.irange(1, 3))
   {
   case 1: twopoint_d<1>(g); break;
   case 2: twopoint_d<2>(g); break;
   default: twopoint_d<3>(g);
   }
}

// -------------------------------------------------- Roe and characteristic BCs
template <int dim>
void upwind_d(Gen &g)
{
   constexpr int n = dim + 2;
   auto L = state<dim>(g), R = second<dim>(g, L);
   double dir[dim], mdir[dim];
   direction<dim>(g, dir);
   for (int i = 0; i < dim; ++i) { mdir[i] = -dir[i]; }
   g.note(str("dim ", dim, " L ", L.s(), " R ", R.s(), " dir ", vec_str(dir, dim)));
   g.nontrivial();
   double c = std::max(L.cond(), R.cond());
   double f[n], f2[n];
   // Roe: average flux minus 1/2 |A_roe| (R - L), with the entropy fix
   calcRoeFaceFlux<double, dim>(dir, L.q, R.q, f);
   ld sl = sqrtl(L.q[0]), sr = sqrtl(R.q[0]), u[dim], H;
   auto enth = [&](const State<dim> &s) { return ((ld)s.q[dim + 1] + s.pl()) / s.q[0]; };
   ld Un = 0, dA = nrm<dim>(dir), k = 0;
   for (int i = 0; i < dim; ++i)
   {
      u[i] = (sl * L.q[i + 1] / L.q[0] + sr * R.q[i + 1] / R.q[0]) / (sl + sr);
      Un += u[i] * dir[i];
      k += u[i] * u[i];
   }
   H = (sl * enth(L) + sr * enth(R)) / (sl + sr);
   ld a = sqrtl(G1 * (H - 0.5L * k)), rhoA = fabsl(Un) + dA * a;
   ld fl[3] = {std::max(fabsl(Un + dA * a), 0.025L * rhoA), std::max(fabsl(Un - dA * a), 0.025L * rhoA), std::max(fabsl(Un), 0.025L * rhoA)};
   std::array<ld, n> dq;
   double qs = 0;
   for (int i = 0; i < n; ++i) { dq[i] = (ld)L.q[i] - R.q[i]; qs = std::max({qs, std::fabs(L.q[i]), std::fabs(R.q[i])}); }
   auto d = fA<dim>(dir, u, H, fl, dq);
   auto FL = fref<dim>(dir, L.q), FR = fref<dim>(dir, R.q);
   double big = std::max(fscale<dim>(dir, L), fscale<dim>(dir, R)) + qs * (double)rhoA * (1 + (double)(H / (a * a)) * (1 + (double)H));
   for (int i = 0; i < n; ++i)
   {
      g.close(f[i], (double)(0.5L * (FL[i] + FR[i] + d[i])), 1e-12 * c * big, "roe-flux", str("component ", i));
   }
   calcRoeFaceFlux<double, dim>(mdir, R.q, L.q, f2);
   for (int i = 0; i < n; ++i) { g.close(f2[i], -f[i], 1e-12 * c * big, "roe-conservative"); }
   calcRoeFaceFlux<double, dim>(dir, L.q, L.q, f2);
   close_all<n>(g, f2, FL, 1e-12 * c * big, "roe-consistent");
   // boundary flux: F(q) - A^-(qbnd) (q - qbnd), the Jacobian taken at the boundary state
   const State<dim> &B = R;
   double work[n], fb[n];
   calcBoundaryFlux<double, dim>(dir, B.q, L.q, work, fb);
   ld ub[dim], Ub = 0, kb = 0, Hb = enth(B);
   for (int i = 0; i < dim; ++i) { ub[i] = (ld)B.q[i + 1] / B.q[0]; Ub += ub[i] * dir[i]; kb += ub[i] * ub[i]; }
   ld ab = sqrtl(G1 * (Hb - 0.5L * kb)), lb[3] = {Ub + dA * ab, Ub - dA * ab, Ub}, mb[3];
   for (int i = 0; i < 3; ++i) { mb[i] = 0.5L * (fabsl(lb[i]) - lb[i]); }
   d = fA<dim>(dir, ub, Hb, mb, dq);
   double bigb = std::max(fscale<dim>(dir, L), fscale<dim>(dir, R)) + qs * (double)(fabsl(Ub) + dA * ab) * (1 + (double)(Hb / (ab * ab)) * (1 + (double)Hb));
   for (int i = 0; i < n; ++i) { g.close(fb[i], (double)(FL[i] + d[i]), 1e-12 * c * bigb, "boundary-flux", str("component ", i)); }
   double wL[n];
   calcEntropyVars<double, dim, false>(L.q, wL);
   double wm = 1;
   for (int i = 0; i < n; ++i) { wm = std::max(wm, std::fabs(wL[i])); }
   calcFarFieldFlux<double, dim, false>(dir, B.q, L.q, work, f2);
   close_all<n>(g, f2, fb, 1e-13 * bigb, "farfield");
   calcFarFieldFlux<double, dim, true>(dir, B.q, wL, work, f2);
   close_all<n>(g, f2, fb, 1e-10 * c * wm * bigb, "farfield-entvar");
   calcBoundaryFlux<double, dim>(dir, L.q, L.q, work, f2);
   close_all<n>(g, f2, FL, 1e-12 * c * bigb, "boundary-consistent");
   if (lb[1] > 0) { g.label("supersonic-outflow"); close_all<n>(g, fb, FL, 1e-12 * c * bigb, "supersonic-outflow"); }
   if (lb[0] < 0)
   {
      // supersonic inflow: F(q) - A(qbnd)(q - qbnd); exact for q == qbnd only, linear in between
      g.label("supersonic-inflow");
   }
   // AD Jacobian of the boundary flux w.r.t. the interior state equals the analytic one: dF/dq + A^-
   {
      adept::Stack &st = getDiffStack();
      mfem::Vector qv(L.q, n), qb(const_cast<double *>(B.q), n), dv(dir, dim), wv(work, n), x(dim);
      x = 0.0;
      mfem::DenseMatrix Dw(n, dim), J(n);
      Dw = 0.0;
      calcFluxJacState<dim>(x, dv, 1.0, qv, Dw, qb, wv, st, J);
      std::array<ld, n> v;
      mfem::Vector vv(n), r(n);
      for (int i = 0; i < n; ++i) { vv(i) = g.sym(1.0); v[i] = vv(i); }
      J.Mult(vv, r);
      ld ul[dim];
      for (int i = 0; i < dim; ++i) { ul[i] = (ld)L.q[i + 1] / L.q[0]; }
      auto j1 = aprod<dim>(dir, ul, enth(L), v);
      auto j2 = fA<dim>(dir, ub, Hb, mb, v);
      double js = (double)dA * (1 + (double)enth(L)) * (1 + (double)sqrtl(enth(L))) + (double)(fabsl(Ub) + dA * ab) * (1 + (double)(Hb / (ab * ab)) * (1 + (double)Hb));
      for (int i = 0; i < n; ++i) { g.close(r(i), (double)(j1[i] + j2[i]), 1e-11 * c * js, "boundary-jacobian"); }
   }
   // entropy-constrained boundary flux
   double ef = g.sym(3.0) * (double)dA;
   calcBoundaryFluxEC<double, dim>(dir, B.q, L.q, ef, f2);
   ld wf = 0, psi = 0;
   auto wr = wref<dim>(L.q);
   for (int i = 0; i < n; ++i) { wf += wr[i] * f2[i]; }
   for (int i = 0; i < dim; ++i) { psi += (ld)L.q[i + 1] * dir[i]; }
   double fm = 0, ws = 0;
   for (int i = 0; i < n; ++i) { fm = std::max(fm, std::fabs(f2[i])); ws += std::fabs((double)wr[i] * f2[i]); }
   double Aw[n];
   calcdQdWProduct<double, dim>(L.q, wL, Aw);
   ld wAw = 0, wAs = 0;
   for (int i = 0; i < n; ++i) { wAw += wr[i] * Aw[i]; wAs += fabsl(wr[i] * Aw[i]); }
   double kappa = (double)(wAs / wAw);
   g.close((double)(wf - psi), ef, 1e-11 * c * kappa * (ws + wm * bigb + std::fabs(ef)), "ec-entropy-flux");
   // and the correction is along A0 w
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < i; ++j)
      {
         double x = (f2[i] - fb[i]) * Aw[j], y = (f2[j] - fb[j]) * Aw[i];
         double am = std::max(std::fabs(Aw[i]), std::fabs(Aw[j]));
         g.close(x, y, 1e-10 * c * (am + qs * wm) * (bigb + fm), "ec-direction");
      }
   }
}
void upwind(Gen &g)
{
   switch (g.irange(1, 3))
   {
   case 1: upwind_d<1>(g); break;
   case 2: upwind_d<2>(g); break;
   default: upwind_d<3>(g);
   }
}

// -------------------------------------------------- walls and other boundaries
template <int dim>
void walls_d(Gen &g)
{
   constexpr int n = dim + 2;
   auto s = state<dim>(g), b = second<dim>(g, s);
   double dir[dim];
   direction<dim>(g, dir);
   g.note(str("dim ", dim, " q ", s.s(), " dir ", vec_str(dir, dim)));
   g.nontrivial();
   double c = s.cond(), fs = fscale<dim>(dir, s), w[n], f[n], x[dim] = {}, qp[n];
   calcEntropyVars<double, dim, false>(s.q, w);
   double wm = 1;
   for (int i = 0; i < n; ++i) { wm = std::max(wm, std::fabs(w[i])); }
   double ps = (double)s.pl();
   for (int ev = 0; ev < 2; ++ev)
   {
      if (ev) { calcSlipWallFlux<double, dim, true>(x, dir, w, f); }
      else { calcSlipWallFlux<double, dim, false>(x, dir, s.q, f); }
      g.check(f[0] == 0 && f[dim + 1] == 0, "wall-mass-energy");
      for (int i = 0; i < dim; ++i) { g.close(f[i + 1], dir[i] * ps, (ev ? 1e-11 * wm : 1e-13) * c * std::fabs(dir[i]) * ps, "wall-pressure", str(ev)); }
   }
   // wall flux does no entropy work: w.f = psi
   ld wf = 0, psi = 0;
   for (int i = 0; i < n; ++i) { wf += (ld)w[i] * f[i]; }
   for (int i = 0; i < dim; ++i) { psi += (ld)s.q[i + 1] * dir[i]; }
   g.close((double)wf, (double)psi, 1e-11 * c * wm * fs, "wall-entropy");
   projectStateOntoWall<double, dim>(dir, s.q, qp);
   ld un = 0, tan = 0;
   double mm = 0;
   for (int i = 0; i < dim; ++i) { un += (ld)qp[i + 1] * dir[i]; mm = std::max(mm, std::fabs(s.q[i + 1])); }
   g.close((double)un, 0, 1e-14 * (double)nrm<dim>(dir) * mm * 4, "projection-normal");
   g.check(qp[0] == s.q[0] && qp[dim + 1] == s.q[dim + 1], "projection-scalars");
   for (int i = 0; i < dim; ++i)
   {
      for (int j = 0; j < dim; ++j)
      {
         // the removed part is parallel to dir
         double di = s.q[i + 1] - qp[i + 1], dj = s.q[j + 1] - qp[j + 1];
         g.close(di * dir[j], dj * dir[i], 1e-14 * mm * (double)nrm<dim>(dir) * 8, "projection-parallel");
      }
   }
   // control boundary: Euler flux of a state whose normal velocity is the (inward) control velocity
   double vc = g.sym(2.0);
   calcControlFlux<double, dim>(dir, s.q, vc, f);
   ld U = -(ld)vc * nrm<dim>(dir), p = s.pl();
   for (int i = 0; i < n; ++i)
   {
      ld want = s.q[i] * U + (i == dim + 1 ? p * U : 0) + (i >= 1 && i <= dim ? p * dir[i - 1] : 0);
      g.close(f[i], (double)want, 1e-13 * c * (fs + std::fabs(s.q[i] * (double)U) + std::fabs((double)(p * U))), "control-flux", str("component ", i));
   }
   wf = 0;
   for (int i = 0; i < n; ++i) { wf += (ld)w[i] * f[i]; }
   g.close((double)(wf - psi), (double)(U * Sref<dim>(s.q)), 1e-11 * c * wm * (fs + (1 + std::fabs((double)U)) * (std::fabs(s.q[dim + 1]) + 1 + s.rho)), "control-entropy-flux");
   // upwinded far field: consistent, upwind in the normal velocity of the boundary state
   double work[n];
   calcFarFieldFlux2<double, dim, false>(dir, s.q, s.q, work, f);
   auto fr = fref<dim>(dir, s.q);
   close_all<n>(g, f, fr, 1e-13 * c * fs, "farfield2-consistent");
   calcFarFieldFlux2<double, dim, false>(dir, b.q, s.q, work, f);
   ld Ub = 0;
   for (int i = 0; i < dim; ++i) { Ub += (ld)b.q[i + 1] * dir[i] / b.q[0]; }
   const double *up = Ub > 0 ? s.q : b.q;
   ld pu = Ub > 0 ? s.pl() : b.pl();
   double cc = std::max(c, b.cond()), fb = fs + fscale<dim>(dir, b) + (std::fabs(s.q[dim + 1]) + s.rho + s.p + mm) * std::fabs((double)Ub);
   for (int i = 0; i < n; ++i)
   {
      ld want = up[i] * Ub + (i == dim + 1 ? pu * Ub : 0) + (i >= 1 && i <= dim ? s.pl() * dir[i - 1] : 0);
      g.close(f[i], (double)want, 1e-13 * cc * fb, "farfield2-upwind", str("component ", i));
   }
}
void walls(Gen &g)
{
   switch (g.irange(1, 3))
   {
   case 1: walls_d<1>(g); break;
   case 2: walls_d<2>(g); break;
   default: walls_d<3>(g);
   }
}

// ---------------------------------------------------------------- metamorphic
void invariance(Gen &g)
{
   // rotation in 3D, and embedding of 2D (1D) states in 3D
   auto L = state<3>(g), R = second<3>(g, L);
   double dir[3];
   direction<3>(g, dir);
   bool flat = g.flip();
   if (flat)
   {
      L.u[2] = R.u[2] = 0;
      dir[2] = 0;
      if (std::hypot(dir[0], dir[1]) < 1e-3) { dir[0] = 1; }
      L.pack();
      R.pack();
   }
   g.note(str("L ", L.s(), " R ", R.s(), " dir ", vec_str(dir, 3), flat ? " flat" : ""));
   g.nontrivial();
   double Q[3][3], b0[3], b1[3];
   {
      double a = g.real(0, 6.3), b = g.real(0, 6.3), c = g.real(0, 6.3);
      double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b), cc = cos(c), sc = sin(c);
      double M[3][3] = {{ca * cc - sa * cb * sc, -ca * sc - sa * cb * cc, sa * sb}, {sa * cc + ca * cb * sc, -sa * sc + ca * cb * cc, -ca * sb}, {sb * sc, sb * cc, cb}};
      memcpy(Q, M, sizeof Q);
   }
   auto rot = [&](const double *v, double *r) { for (int i = 0; i < 3; ++i) { r[i] = Q[i][0] * v[0] + Q[i][1] * v[1] + Q[i][2] * v[2]; } };
   auto rotst = [&](const State<3> &s) { State<3> t = s; rot(s.u, t.u); t.pack(); return t; };
   double c = std::max(L.cond(), R.cond());
   double rdir[3];
   rot(dir, rdir);
   auto Lr = rotst(L), Rr = rotst(R);
   double dA = (double)nrm<3>(dir), qs = 0;
   for (int i = 0; i < 5; ++i) { qs = std::max({qs, std::fabs(L.q[i]), std::fabs(R.q[i]), std::fabs(Lr.q[i]), std::fabs(Rr.q[i])}); }
   double am = std::max(L.a(), R.a()), ai = std::min(L.a(), R.a());
   double big = std::max({fscale<3>(dir, L), fscale<3>(dir, R), fscale<3>(rdir, Lr), fscale<3>(rdir, Rr)}) * 10 + qs * dA * (am * 10) * (1 + am * am * 50 / (ai * ai)) * (1 + am * am * 10);
   double cd = g.real(0, 2), vc = g.sym(1.0);
   double wk[5], x[3] = {};
   using F = std::function<void(const double *, const double *, const double *, double *)>;
   std::vector<std::pair<const char *, F>> fl = {
      {"roe", [&](const double *d, const double *l, const double *r, double *f) { calcRoeFaceFlux<double, 3>(d, l, r, f); }},
      {"ir-face", [&](const double *d, const double *l, const double *r, double *f) { calcIsmailRoeFaceFlux<double, 3>(d, l, r, f); }},
      {"diss", [&](const double *d, const double *l, const double *r, double *f) { calcIsmailRoeFaceFluxWithDiss<double, 3>(d, cd, l, r, f); }},
      {"boundary", [&](const double *d, const double *l, const double *r, double *f) { calcBoundaryFlux<double, 3>(d, r, l, wk, f); }},
      {"farfield2", [&](const double *d, const double *l, const double *r, double *f) { calcFarFieldFlux2<double, 3, false>(d, r, l, wk, f); }},
      {"control", [&](const double *d, const double *l, const double *r, double *f) { calcControlFlux<double, 3>(d, l, vc, f); }},
      {"slip", [&](const double *d, const double *l, const double *r, double *f) { calcSlipWallFlux<double, 3, false>(x, d, l, f); }},
      {"euler", [&](const double *d, const double *l, const double *r, double *f) { calcEulerFlux<double, 3>(d, l, f); }}};
   using F2 = F;
   std::vector<F2> f2s = {
      [&](const double *d, const double *l, const double *r, double *f) { calcRoeFaceFlux<double, 2>(d, l, r, f); },
      [&](const double *d, const double *l, const double *r, double *f) { calcIsmailRoeFaceFlux<double, 2>(d, l, r, f); },
      [&](const double *d, const double *l, const double *r, double *f) { calcIsmailRoeFaceFluxWithDiss<double, 2>(d, cd, l, r, f); },
      [&](const double *d, const double *l, const double *r, double *f) { calcBoundaryFlux<double, 2>(d, r, l, wk, f); },
      [&](const double *d, const double *l, const double *r, double *f) { calcFarFieldFlux2<double, 2, false>(d, r, l, wk, f); },
      [&](const double *d, const double *l, const double *r, double *f) { calcControlFlux<double, 2>(d, l, vc, f); },
      [&](const double *d, const double *l, const double *r, double *f) { calcSlipWallFlux<double, 2, false>(x, d, l, f); },
      [&](const double *d, const double *l, const double *r, double *f) { calcEulerFlux<double, 2>(d, l, f); }};
   double s = g.logreal(1e-2, 1e2), sdir[3] = {s * dir[0], s * dir[1], s * dir[2]};
   for (size_t i = 0; i < fl.size(); ++i)
   {
      double f[5], fr[5], ff[3];
      fl[i].second(dir, L.q, R.q, f);
      fl[i].second(rdir, Lr.q, Rr.q, fr);
      rot(f + 1, ff);
      std::string k = fl[i].first;
      double tol = 1e-12 * c * big;
      // the entropy fix and |U| are continuous, so rounding in the rotated data stays small
      g.close(fr[0], f[0], tol, "rotation-" + k);
      g.close(fr[4], f[4], tol, "rotation-" + k);
      for (int m = 0; m < 3; ++m) { g.close(fr[m + 1], ff[m], tol, "rotation-" + k); }
      // homogeneous of degree one in the direction
      fl[i].second(sdir, L.q, R.q, fr);
      for (int m = 0; m < 5; ++m) { g.close(fr[m], s * f[m], s * tol, "homogeneous-" + k); }
      if (flat)
      {
         double l2[4] = {L.q[0], L.q[1], L.q[2], L.q[4]}, r2[4] = {R.q[0], R.q[1], R.q[2], R.q[4]}, f2[4];
         f2s[i](dir, l2, r2, f2);
         double w3[4] = {f[0], f[1], f[2], f[4]};
         for (int m = 0; m < 4; ++m) { g.close(f2[m], w3[m], tol, "embedding-" + k); }
         g.close(f[3], 0, tol, "embedding-" + k);
      }
   }
   // translation of temperature units: scaling rho by r and p by r scales every flux by r
   double sc = g.logreal(0.1, 10);
   State<3> Ls = L, Rs = R;
   Ls.rho *= sc; Ls.p *= sc; Rs.rho *= sc; Rs.p *= sc;
   Ls.pack();
   Rs.pack();
   for (auto &e : fl)
   {
      double f[5], fr[5];
      e.second(dir, L.q, R.q, f);
      e.second(dir, Ls.q, Rs.q, fr);
      for (int m = 0; m < 5; ++m) { g.close(fr[m], sc * f[m], 1e-12 * c * big * (1 + sc), std::string("mass-scaling-") + e.first); }
   }
}

// ------------------------------------------------------------- exact solutions
void vortex(Gen &g)
{
   double r = g.real(0.75, 4), t = g.real(-1.5, 1.5);
   if (g.chance(1, 10)) { t = M_PI / 2; }
   double x[2] = {r * std::cos(t), r * std::sin(t)};
   if (x[0] < 1e-3) { x[0] = 0; x[1] = r; }   // the branch for x = 0 is for the positive y axis
   g.note(str("x ", x[0], " ", x[1]));
   g.nontrivial(x[0] > 0 && x[1] != 0);
   double q[4];
   calcIsentropicVortexState<double>(x, q);
   double rho = q[0], u = q[1] / rho, v = q[2] / rho, p = pressure<double, 2>(q);
   g.check(rho > 0 && p > 0, "vortex-admissible");
   const double rhoi = 2, pi = 1 / 1.4, Mi = 0.5, ai = std::sqrt(1.4 * pi / rhoi);
   g.close(p / std::pow(rho, 1.4), pi / std::pow(rhoi, 1.4), 1e-12, "vortex-isentropic");
   double h = 3.5 * p / rho + 0.5 * (u * u + v * v), h0 = 3.5 * pi / rhoi + 0.5 * Mi * Mi * ai * ai;
   g.close(h, h0, 1e-11 * h0, "vortex-enthalpy");
   double rr = std::hypot(x[0], x[1]);
   g.close(u * x[0] + v * x[1], 0, 1e-12 * rr, "vortex-tangential");
   // irrotational vortex: speed * r constant
   g.close(std::hypot(u, v) * rr, Mi * ai, 1e-7, "vortex-circulation");
   // flow direction: (-sin, cos)
   g.check(-u * x[1] + v * x[0] > 0, "vortex-direction");
   if (x[0] > 0.01)
   {
      // steady: divergence of the flux vanishes
      double d = 1e-4, div[4] = {};
      for (int k = 0; k < 2; ++k)
      {
         double e[2] = {k == 0 ? 1.0 : 0.0, k == 1 ? 1.0 : 0.0}, qa[4], qb[4], fa[4], fb[4];
         double xa[2] = {x[0] + d * e[0], x[1] + d * e[1]}, xb[2] = {x[0] - d * e[0], x[1] - d * e[1]};
         calcIsentropicVortexState<double>(xa, qa);
         calcIsentropicVortexState<double>(xb, qb);
         calcEulerFlux<double, 2>(e, qa, fa);
         calcEulerFlux<double, 2>(e, qb, fb);
         for (int i = 0; i < 4; ++i) { div[i] += (fa[i] - fb[i]) / (2 * d); }
      }
      for (int i = 0; i < 4; ++i) { g.close(div[i], 0, 2e-6, "vortex-steady", str("component ", i)); }
   }
   // boundary flux wrapper
   auto s = state<2>(g);
   double dir[2], f[4], f2[4], wk[4], w[4];
   direction<2>(g, dir);
   calcIsentropicVortexFlux<double, false>(x, dir, s.q, f);
   calcBoundaryFlux<double, 2>(dir, q, s.q, wk, f2);
   double sc = 0;
   for (int i = 0; i < 4; ++i) { sc = std::max(sc, std::fabs(f2[i])); }
   double fs = fscale<2>(dir, s) * 10 + sc;
   close_all<4>(g, f, f2, 1e-13 * fs, "vortex-flux");
   calcEntropyVars<double, 2, false>(s.q, w);
   double wm = 1;
   for (int i = 0; i < 4; ++i) { wm = std::max(wm, std::fabs(w[i])); }
   calcIsentropicVortexFlux<double, true>(x, dir, w, f);
   close_all<4>(g, f, f2, 1e-10 * s.cond() * wm * fs, "vortex-flux-entvar");
}

void mms(Gen &g)
{
   double x[3] = {g.real(0.02, 0.98), g.real(0.02, 0.98), g.sym(1)};
   g.note(str("x ", vec_str(x, 3)));
   g.nontrivial();
   double src[5], div[5] = {}, h = 1e-3;
   calcInviscidMMS<double>(3, x, src);
   static const double c4[4] = {1. / 12, -8. / 12, 8. / 12, -1. / 12};
   static const int o4[4] = {-2, -1, 1, 2};
   for (int k = 0; k < 3; ++k)
   {
      double e[3] = {};
      e[k] = 1;
      for (int m = 0; m < 4; ++m)
      {
         double y[3] = {x[0], x[1], x[2]}, q[5], f[5];
         y[k] += o4[m] * h;
         InviscidMMSExact<double>(3, y, q);
         g.check(q[0] > 0 && pressure<double, 3>(q) > 0, "mms-admissible");
         calcEulerFlux<double, 3>(e, q, f);
         for (int i = 0; i < 5; ++i) { div[i] += c4[m] * f[i] / h; }
      }
   }
   for (int i = 0; i < 5; ++i) { g.close(src[i], div[i], 1e-7, "mms-source", str("component ", i)); }
}
}  // namespace

int main(int argc, char **argv)
{
   Runner r("P06",
            {{"vars", vars, 60000, 1000000}, {"freestream", freestream, 5000, 50000}, {"logavg", logavg_p, 60000, 1000000}, {"twopoint", twopoint, 60000, 1000000},
             {"upwind", upwind, 40000, 600000}, {"walls", walls, 40000, 600000}, {"invariance", invariance, 40000, 600000}, {"vortex", vortex, 20000, 200000}, {"mms", mms, 20000, 200000}},
            "random admissible gas states in 1-3 dimensions (density and pressure over two and a half decades, Mach up to 3-4), pairs that are far, near or equal up to rounding, random directions; "
            "non-trivial: moving gas / distinct states");
   r.assumptions = {"density and pressure positive", "direction not zero"};
   return r.main(argc, argv);
}
