// P02: backtracking line search contract
#include "pbt.hpp"
#include "linesearch.hpp"

using namespace pbt;
namespace
{
struct Fn
{
   std::function<double(double)> f;
   double phi0, dphi0;
   std::string name;
};

Fn merit(Gen &g)
{
   Fn r;
   int kind = g.irange(0, 8);
   double s = g.logreal(1e-3, 1e3);   // vertical scale
   switch (kind)
   {
   case 0:   // quadratic, decreasing at 0
   {
      double b = -s * g.real(0.05, 3.0), a = s * g.real(-1.0, 60.0), c = s * g.real(0, 2);
      r = {[=](double x) { return c + b * x + a * x * x; }, c, b, str("quad ", c, " ", b, " ", a)};
      break;
   }
   case 1:   // cubic
   {
      double b = -s * g.real(0.05, 3.0), a = s * g.sym(10.0), d = s * g.sym(30.0), c = s * g.real(0, 2);
      r = {[=](double x) { return c + b * x + a * x * x + d * x * x * x; }, c, b, str("cubic ", c, " ", b, " ", a, " ", d)};
      break;
   }
   case 2:   // oscillating
   {
      double w = g.logreal(0.5, 200), amp = s * g.real(0.1, 3.0), b = amp * w * g.real(-1, 0.95);
      double d0 = b - amp * w;
      r = {[=](double x) { return b * x - amp * std::sin(w * x); }, 0.0, d0, str("osc w=", w, " amp=", amp, " b=", b)};
      break;
   }
   case 3:   // |x - m| type kink
   {
      double m = g.logreal(1e-6, 5.0), k = s * g.real(1, 40);
      r = {[=](double x) { return x < m ? s * (m - x) : k * (x - m); }, s * m, -s, str("kink m=", m, " k=", k, " s=", s)};
      break;
   }
   case 4:   // exponential growth away from 0: hard failures
   {
      double k = g.real(1, 40), e = g.real(0.01, 1.0);
      r = {[=](double x) { return s * (std::exp(k * x) - 1 - (k + e) * x); }, 0.0, -s * e, str("exp k=", k, " e=", e)};
      break;
   }
   case 5:   // never decreases (wrong derivative): search must fail with 0
   {
      double k = s * g.real(0.1, 5);
      r = {[=](double x) { return k * x; }, 0.0, -s * g.real(1e-3, 1.0), str("bad-slope k=", k)};
      break;
   }
   case 6:   // overflows (or is undefined) beyond some step: infeasible trial states
   {
      double m = g.logreal(1e-7, 20.0);
      double bad = g.flip() ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
      double q = g.real(0, 3);
      r = {[=](double x) { return x > m ? bad : s * (1 - x + q * x * x); }, s, -s, str("undefined beyond ", m, " s=", s, " q=", q, " value ", bad)};
      break;
   }
   case 7:   // exactly representable parabola with a distant minimum
   {
      double b = -std::ldexp(1.0, g.irange(-3, 4)), a = std::ldexp(static_cast<double>(g.irange(1, 31)), g.irange(0, 6));
      r = {[=](double x) { return b * x + a * x * x; }, 0.0, b, str("parabola b=", b, " a=", a)};
      break;
   }
   default:  // 2-norm of a linear-ish residual, what the Newton solvers use
   {
      int n = g.irange(1, 4);
      std::vector<double> a = g.syms(n, 2.0), b = g.syms(n, 3.0), c = g.syms(n, 8.0);
      double p0 = 0, d = 0;
      for (int i = 0; i < n; ++i) { p0 += a[i] * a[i]; d += a[i] * b[i]; }
      p0 = std::sqrt(p0);
      if (p0 == 0) { p0 = 1; a[0] = 1; d = b[0]; }
      if (d > 0) { for (auto &x : b) { x = -x; } d = -d; }
      if (d == 0) { d = -0.1; }
      r = {[=](double x)
           {
              double t = 0;
              for (int i = 0; i < n; ++i) { double e = a[i] + b[i] * x + c[i] * x * x; t += e * e; }
              return std::sqrt(t);
           },
           p0, d / p0, str("norm n=", n)};
   }
   }
   return r;
}

double quad_min(double phi0, double dphi0, double pa, double a)
{
   double A = (pa - dphi0 * a - phi0) / (a * a);
   return -dphi0 / (2 * A);
}

// small dyadic data: every intermediate of the interpolation is exact, however it is arranged
bool pow2(double x) { int e; return std::frexp(x, &e) == 0.5 && std::abs(e) < 12; }
bool dyadic(double x) { double y = std::ldexp(x, 16); return std::fabs(y) < 1e9 && y == std::floor(y); }

void contract(Gen &g)
{
   Fn f = merit(g);
   miso::BacktrackingLineSearch ls;
   miso::LineSearch *base = &ls;
   if (g.flip()) { ls.mu = g.pick({1e-4, 1e-2, 0.1, 0.4, 1e-6}); }
   if (g.flip()) { ls.rho_hi = g.flip() ? g.real(0.3, 0.95) : 0.5; }
   if (g.flip()) { ls.rho_lo = g.flip() ? g.real(0.01, 0.29) : std::ldexp(1.0, -g.irange(2, 6)); }
   if (g.flip()) { ls.interp_order = 2; }
   if (g.flip()) { ls.max_iter = g.irange(0, 25); }
   double alpha = g.chance(1, 2) ? 1.0 : g.logreal(1e-3, 10.0);
   std::vector<std::pair<double, double>> trace;
   auto phi = [&](double x) { double v = f.f(x); trace.emplace_back(x, v); return v; };
   double got = base->search(phi, f.phi0, f.dphi0, alpha);
   std::string tr;
   for (auto &t : trace) { if (tr.size() < 500) { tr += str(" (", t.first, ",", t.second, ")"); } }
   g.note(str(f.name, " phi0=", f.phi0, " dphi0=", f.dphi0, " alpha=", alpha, " mu=", ls.mu, " rho=[", ls.rho_lo, ",", ls.rho_hi, "] order=", ls.interp_order,
              " max_iter=", ls.max_iter, " trace", tr, " -> ", got));
   g.check(!trace.empty(), "no-evaluation");
   g.check(trace.size() <= static_cast<size_t>(ls.max_iter) + 1, "too-many-evaluations", str(trace.size(), " evaluations, max_iter ", ls.max_iter));
   g.check(trace[0].first == alpha, "first-step", "the full step is not tried first");
   auto armijo = [&](const std::pair<double, double> &t) { return t.second <= f.phi0 + ls.mu * t.first * f.dphi0; };
   bool any = false;
   for (size_t i = 0; i + 1 < trace.size(); ++i) { any = any || armijo(trace[i]); }
   g.check(!any, "overshot", "kept backtracking after a step with sufficient decrease");
   if (got == 0.0)
   {
      g.check(trace.size() == static_cast<size_t>(ls.max_iter) + 1, "early-failure", str("gave up after ", trace.size(), " evaluations"));
      g.check(!armijo(trace.back()), "failed-though-found");
      g.label("gives-up");
   }
   else
   {
      g.check(got == trace.back().first, "returned-untested-step");
      g.check(armijo(trace.back()), "no-sufficient-decrease", str("accepted alpha=", got, " phi=", trace.back().second));
      g.check(got > 0, "nonpositive-step");
      g.label(trace.size() == 1 ? "full-step" : "backtracked");
   }
   // safeguards and interpolation
   for (size_t i = 1; i < trace.size(); ++i)
   {
      double a2 = trace[i - 1].first, p2 = trace[i - 1].second, x = trace[i].first;
      g.check(x <= a2 * ls.rho_hi * (1 + 1e-14), "reduction-too-small", str("step ", i, ": ", a2, " -> ", x));
      g.check(x >= a2 * ls.rho_lo * (1 - 1e-14), "reduction-too-large", str("step ", i, ": ", a2, " -> ", x));
      bool lo = x <= a2 * ls.rho_lo * (1 + 1e-12), hi = x >= a2 * ls.rho_hi * (1 - 1e-12);
      if (i == 1 || ls.interp_order == 2)
      {
         if (!(std::fabs(p2) < 1e60)) { continue; }
         double want = quad_min(f.phi0, f.dphi0, p2, a2);
         double cl = std::max(std::min(want, a2 * ls.rho_hi), a2 * ls.rho_lo);
         double A = (p2 - f.dphi0 * a2 - f.phi0);
         double cond = (std::fabs(p2) + std::fabs(f.phi0) + std::fabs(f.dphi0 * a2)) / std::fabs(A);
         if (cond < 1e6) { g.close(x, cl, 1e-13 * cond * std::fabs(cl) + 1e-13 * a2, "quadratic-step", str("step ", i, " of order-2 interpolation")); }
         if (!lo && !hi) { g.label("interior-quadratic"); }
      }
      else
      {
         double a1 = trace[i - 2].first, p1 = trace[i - 2].second;
         if (!(std::fabs(p1) < 1e60) || !(std::fabs(p2) < 1e60)) { continue; }   // squares in the formulas would overflow
         // the interpolating cubic c(t) = phi0 + dphi0 t + B t^2 + A t^3 in
         // long double, with bounds dA, dB on what rounding can do to A and B
         long double b1 = a1, b2 = a2, d0 = f.dphi0, t = x, eps = 1e-15L;
         long double n1 = p1 - (long double)f.phi0 - d0 * b1, n2 = p2 - (long double)f.phi0 - d0 * b2;
         long double e1 = eps * (fabsl(p1) + fabsl(f.phi0) + fabsl(d0 * b1)), e2 = eps * (fabsl(p2) + fabsl(f.phi0) + fabsl(d0 * b2));
         long double u1 = n1 / (b1 * b1), u2 = n2 / (b2 * b2), gap = fabsl(b2 - b1);
         long double A = (u2 - u1) / (b2 - b1), B = u1 - A * b1;
         long double dA = (e1 / (b1 * b1) + e2 / (b2 * b2) + eps * (fabsl(u1) + fabsl(u2))) / gap;
         long double dB = (e1 * b2 / (b1 * b1) + e2 * b1 / (b2 * b2) + eps * (fabsl(u1) * b2 + fabsl(u2) * b1)) / gap;
         long double disc = B * B - 3 * A * d0, ddisc = 2 * fabsl(B) * dB + 3 * dA * fabsl(d0) + eps * (B * B + fabsl(3 * A * d0));
         bool sharp = 100 * ddisc < disc && 10 * dA < fabsl(A) && fabsl(A) > 1e-14L;
         if (!lo && !hi && sharp)
         {
            g.label("interior-cubic");
            // x must be a stationary point and the minimum of the model
            long double d1 = d0 + 2 * B * t + 3 * A * t * t;
            long double tol = 2 * dB * t + 3 * dA * t * t + eps * (fabsl(d0) + fabsl(2 * B * t) + fabsl(3 * A * t * t)) +
                              eps * (sqrtl(disc) * (fabsl(B) + sqrtl(disc)) / fabsl(A)) + ddisc / fabsl(A);
            g.check(fabsl(d1) <= 20 * tol, "cubic-step", str("step ", i, ": slope of the interpolant at the new step is ", (double)d1, " (tolerance ", (double)(20 * tol), ")"));
            g.check(2 * B + 6 * A * t >= -20 * (2 * dB + 6 * dA * t) - 1e-12L * (fabsl(2 * B) + fabsl(6 * A * t)), "cubic-maximum", str("step ", i, " is a maximum of the interpolant"));
         }
         else if (lo && sharp)
         {
            // clamped from below: the minimum of the cubic must not lie well inside the interval
            long double root = (-B + sqrtl(disc)) / (3 * A);
            long double droot = 20 * (ddisc / sqrtl(disc) + dB + eps * (fabsl(B) + sqrtl(disc))) / fabsl(A) + 20 * fabsl(root) * dA / fabsl(A);
            g.label("clamped-cubic");
            g.check(!(root - droot > b2 * ls.rho_lo * (1 + 1e-9L)), "cubic-clamped-low", str("step ", i, " took the lower bound ", x, ", the interpolant has its minimum at ", (double)root));
         }
         else if (hi && sharp)
         {
            long double root = (-B + sqrtl(disc)) / (3 * A);
            long double droot = 20 * (ddisc / sqrtl(disc) + dB + eps * (fabsl(B) + sqrtl(disc))) / fabsl(A) + 20 * fabsl(root) * dA / fabsl(A);
            g.check(!(root + droot < b2 * ls.rho_hi * (1 - 1e-9L)), "cubic-clamped-high", str("step ", i, " took the upper bound ", x, ", the interpolant has its minimum at ", (double)root));
         }
         else if (A == 0 && B > 0 && pow2(a1) && pow2(a2) && dyadic(p1) && dyadic(p2) && dyadic(f.dphi0) && dyadic(f.phi0))
         {
            // the interpolant is exactly a parabola with minimum -dphi0/(2B)
            long double want = -d0 / (2 * B);
            long double cl = std::max(std::min(want, b2 * ls.rho_hi), b2 * ls.rho_lo);
            g.label("degenerate-cubic");
            g.check(fabsl(cl - t) <= 1e-6L * b2, "degenerate-cubic-step", str("step ", i, ": took ", x, ", the parabola through the data has its minimum at ", (double)want));
         }
      }
   }
   g.nontrivial(trace.size() >= 2);
}

// the merit function object used by the Newton solvers
void phi_object(Gen &g)
{
   int n = g.irange(1, 6);
   mfem::DenseMatrix J(n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { J(i, j) = g.sym(2.0); } }
   std::vector<double> q = g.syms(n, 1.0);
   auto x = g.syms(n, 1.0), d = g.syms(n, 1.0);
   mfem::Vector state(x.data(), n), dir(d.data(), n), res(n);
   auto calc = [&](const mfem::Vector &s, mfem::Vector &r)
   {
      J.Mult(s, r);
      for (int i = 0; i < n; ++i) { r(i) += q[i] + 0.5 * s(i) * s(i); }
   };
   calc(state, res);
   mfem::Vector res0(res);
   double nrm = 0;
   for (int i = 0; i < n; ++i) { nrm += res0(i) * res0(i); }
   nrm = std::sqrt(nrm);
   if (nrm < 1e-3) { g.discard(); }
   mfem::DenseMatrix Jx(J);
   for (int i = 0; i < n; ++i) { Jx(i, i) += state(i); }
   miso::Phi phi(calc, state, dir, res, Jx);
   g.note(str("n=", n, " x=", vec_str(x), " d=", vec_str(d)));
   g.nontrivial(n >= 2);
   g.close(phi.phi0, nrm, 1e-14 * nrm, "phi0");
   mfem::Vector jd(n);
   Jx.Mult(dir, jd);
   double want = 0, sc = 0;
   for (int i = 0; i < n; ++i) { want -= jd(i) * res0(i) / nrm; sc += std::fabs(jd(i) * res0(i)) / nrm; }
   g.close(phi.dphi0, want, 1e-13 * (sc + 1e-30), "dphi0");
   int m = g.irange(1, 6);
   for (int k = 0; k < m; ++k)
   {
      double a = k == 0 ? 0.0 : g.real(0, 2);
      double v = phi(a);
      mfem::Vector y(n), r(n);
      for (int i = 0; i < n; ++i) { y(i) = x[i] - a * d[i]; }
      calc(y, r);
      double w = std::sqrt(r * r);
      g.close(v, w, 1e-12 * (w + nrm), "phi-value", str("alpha ", a));
      for (int i = 0; i < n; ++i) { g.check(state(i) == x[i] && dir(i) == d[i], "inputs-modified"); }
      mfem::Vector diff(r);
      diff -= res;
      g.check(diff.Norml2() <= 1e-12 * (w + nrm), "residual-not-updated", "the residual reference does not hold the residual at the last trial point");
   }
   // derivative consistent with the values: slope at 0 by central differences
   double h = 1e-5;
   double fd = (phi(h) - phi(-h)) / (2 * h);
   g.close(phi.dphi0, fd, 1e-5 * (1 + sc * (1 + sc / nrm) + 10 * n / nrm), "slope");
   // the constants stay what they were
   g.check(phi.phi0 == phi.phi0 && std::fabs(phi.phi0 - nrm) <= 1e-14 * nrm, "phi0-changed");
}
}  // namespace

int main(int argc, char **argv)
{
   Runner r("P02", {{"contract", contract, 60000, 1500000}, {"phi_object", phi_object, 8000, 100000}},
            "random merit functions (quadratic, cubic, oscillating, kinked, exponential, wrong-slope, residual norms), random line-search parameters and "
            "initial steps, every evaluation recorded; non-trivial: at least one backtracking step was taken (contract), two or more unknowns (phi_object)");
   r.assumptions = {"the merit function is finite at zero (it may be Inf or NaN at trial steps)", "0 < rho_lo < rho_hi < 1, mu < 1/2, dphi0 < 0"};
   return r.main(argc, argv);
}
