// P12: numerical utilities (src/utils/utils.cpp, utils.hpp)
#include "mpi_init.hpp"
#include "meshgen.hpp"
#include <algorithm>
#include <limits>
#include "utils.hpp"

using namespace pbt;
using namespace mfem;
using json = nlohmann::json;
using LD = long double;
namespace
{
// ---------------------------------------------------------------- root finders
/// a function with its evaluations on record
struct Fun
{
   int kind = 0;
   double a = 0, b = 1, c = 0, s = 1;
   mutable std::vector<std::pair<double, double>> log;
   double operator()(double x) const
   {
      double y = 0;
      switch (kind)
      {
      case 0: y = b * (x - a); break;
      case 1: y = b * (x - a) * (1 + c * (x - a) * (x - a)); break;
      case 2: y = b * std::tanh(s * (x - a)); break;
      case 3: y = b * (std::exp(s * (x - a)) - 1); break;
      case 4: y = b * (x - a) + c * std::sin(3 * s * (x - a)); break;
      case 5: y = b * (x < a ? -1.0 : 1.0); break;
      case 6: y = b * ((x - a) * (x - a) + c * c + 0.01); break;   // no root
      case 7: y = b; break;                                         // constant
      default: y = b * std::pow(x - a, 3); break;
      }
      log.emplace_back(x, y);
      return y;
   }
   std::string desc() const { return str("kind=", kind, " a=", a, " b=", b, " c=", c, " s=", s); }
};
Fun make_fun(Gen &g, bool any)
{
   Fun f;
   f.kind = g.irange(0, any ? 8 : 5);
   if (!any && f.kind == 5) { f.kind = g.flip() ? 8 : 5; }
   f.a = g.chance(1, 4) ? g.pick({0.0, 1.0, 0.5}) : g.sym(2.0);
   f.b = g.logreal(1e-3, 1e3) * (g.flip() ? 1 : -1);
   f.c = f.kind == 4 ? std::fabs(f.b) * g.real(0.0, 2.0) : g.real(0.0, 3.0);
   f.s = g.real(0.2, 2.0);
   return f;
}
void bisect(Gen &g)
{
   Fun f = make_fun(g, false);
   double xl = f.a - g.real(-0.3, 3.0), xr = f.a + g.real(-0.3, 3.0);
   if (g.chance(1, 6)) { xl = f.a; }
   else if (g.chance(1, 6)) { xr = f.a; }
   if (g.chance(1, 5)) { std::swap(xl, xr); }
   double ftol = g.pick({1e-12, 1e-8, 1e-4, 0.0}), xtol = g.pick({1e-12, 1e-8, 1e-3, 1e-14});
   int maxiter = g.pick({60, 100, 30, 5, 200, 1});
   g.note(f.desc() + str(" xl=", xl, " xr=", xr, " ftol=", ftol, " xtol=", xtol, " maxiter=", maxiter));
   double fl = f(xl), fr = f(xr);
   f.log.clear();
   bool bracket = !(fl * fr > 0.0);
   double x = NAN;
   bool threw = false;
   try { x = miso::bisection([&](double t) { return f(t); }, xl, xr, ftol, xtol, maxiter); }
   catch (...) { threw = true; }
   double lo = std::min(xl, xr), hi = std::max(xl, xr);
   for (auto &e : f.log) { g.check(e.first >= lo && e.first <= hi, "bisection-evaluates-outside-the-bracket", str(e.first)); }
   g.check((int)f.log.size() <= maxiter + 3, "bisection-too-many-evaluations", str(f.log.size()));
   if (!bracket) { g.check(threw, "bisection-without-bracket-accepted"); g.label("no-bracket"); return; }
   // the number of halvings needed
   double w = hi - lo;
   int need = w > xtol ? (int)std::ceil(std::log2(w / xtol)) + 1 : 0;
   if (threw) { g.check(maxiter <= need, "bisection-gives-up-too-early", str("needs at most ", need)); g.label("gave-up"); return; }
   g.check(x >= lo && x <= hi, "bisection-result-outside-the-bracket", str(x));
   // an exact root or sign change within the final bracket
   double fx = f(x);
   bool ok = std::fabs(fx) <= ftol;
   double d = std::max(xtol, 4 * std::numeric_limits<double>::epsilon() * (std::fabs(x) + w));
   for (int i = 0; i <= 8 && !ok; ++i) { double p = f(std::max(lo, x - d * i / 8)), q = f(std::min(hi, x + d * i / 8)); ok = p * q <= 0; }
   g.check(ok, "bisection-result-is-no-root", str("x ", x, " f ", fx));
   g.label("root");
   g.nontrivial(f.log.size() > 4);
}
void secant(Gen &g)
{
   Fun f = make_fun(g, true);
   double x1 = f.a + g.sym(1.5), x2 = f.a + g.sym(1.5);
   if (g.chance(1, 4)) { x1 = 0.99; x2 = 1.01; f.a = 1.0 + g.sym(0.05); }
   if (g.chance(1, 10)) { x2 = f.a; }
   if (x1 == x2) { g.discard(); }
   double ftol = g.pick({1e-12, 1e-8, 1e-4}), xtol = g.pick({1e-12, 1e-8, 1e-14});
   int maxiter = g.pick({30, 100, 3, 1, 10});
   g.note(f.desc() + str(" x1=", x1, " x2=", x2, " ftol=", ftol, " xtol=", xtol, " maxiter=", maxiter));
   double x = NAN;
   bool threw = false;
   try { x = miso::secant([&](double t) { return f(t); }, x1, x2, ftol, xtol, maxiter); }
   catch (const miso::MISOException &) { threw = true; }
   auto log = f.log;
   g.check(log.size() >= 2 && (int)log.size() <= maxiter + 2, "secant-evaluations", str(log.size()));
   g.check((log[0].first == x1 && log[1].first == x2) || (log[0].first == x2 && log[1].first == x1), "secant-starts-elsewhere");
   // rebuild the iterations: each is the secant through the last two points
   LD a = x1, fa = 0, b = x2, fb = 0;
   for (auto &e : log) { if (e.first == x1) { fa = e.second; } if (e.first == x2) { fb = e.second; } }
   // either order of the two starting points is fine as long as it is one of them
   auto next = [](LD a, LD fa, LD b, LD fb) { return b - fb * (b - a) / (fb - fa); };
   double dx = std::fabs(x2 - x1);
   if (log.size() > 2)
   {
      double c = log[2].first;
      LD n1 = next(a, fa, b, fb);
      double sc = std::fabs((double)fa) + std::fabs((double)fb), slope = std::fabs((double)(fb - fa));
      if (slope > 1e-6 * sc) { g.close(c, (double)n1, 1e-6 * (1 + std::fabs(c)) * std::max(1.0, std::fabs((double)n1)), "secant-step", "first"); }
      // the better of the two is kept
      LD p = std::fabs((double)fa) < std::fabs((double)fb) ? a : b, fp = std::fabs((double)fa) < std::fabs((double)fb) ? fa : fb;
      double q = c, fq = log[2].second;
      dx = std::fabs((double)(p - q));
      for (size_t i = 3; i < log.size(); ++i)
      {
         double r = log[i].first;
         LD n = next(p, fp, q, fq);
         double s2 = std::fabs((double)fp) + std::fabs(fq), sl = std::fabs((double)(fq - fp));
         if (sl > 1e-6 * s2 && std::isfinite(r)) { g.close(r, (double)n, 1e-6 * (1 + std::fabs(r)) * std::max(1.0, std::fabs((double)n)) + 1e-14 * (std::fabs((double)p) + std::fabs(q)), "secant-step", str(i)); }
         dx = std::fabs(r - q);
         p = q;
         fp = fq;
         q = r;
         fq = log[i].second;
      }
   }
   bool finite = true;
   for (auto &e : log) { finite = finite && std::isfinite(e.first) && std::isfinite(e.second); }
   if (threw)
   {
      double fl = std::fabs(log.back().second);
      bool flat = log.size() >= 2 && log[log.size() - 1].second == log[log.size() - 2].second;
      if (log.size() > 2 && !flat) { flat = std::fabs(log.back().second - log[log.size() - 2].second) == 0.0; }
      g.check((int)log.size() == maxiter + 2 || flat || !finite, "secant-gives-up-too-early", str(log.size(), " evaluations"));
      g.check(!(fl <= ftol) || !finite, "secant-rejects-a-root", str("f ", log.back().second));
      g.label("gave-up");
      return;
   }
   g.check(std::isfinite(x), "secant-result-not-finite", str(x));
   double fx = f(x);
   g.check(std::fabs(fx) <= ftol || dx < xtol * 1.0000001 + 4e-16 * std::fabs(x), "secant-not-converged", str("x ", x, " f ", fx, " dx ", dx));
   g.label("root");
   g.nontrivial(log.size() > 3);
}
void quad(Gen &g)
{
   // y = c (x - v)^2 + m
   double c = g.logreal(1e-2, 1e2) * (g.flip() ? 1 : -1), v = g.sym(3.0), m = g.sym(3.0);
   double x0 = g.sym(2.0), x1 = x0 + g.real(0.1, 2.0) * (g.flip() ? 1 : -1);
   double y0 = c * (x0 - v) * (x0 - v) + m, d0 = 2 * c * (x0 - v), y1 = c * (x1 - v) * (x1 - v) + m;
   g.note(str("c=", c, " v=", v, " m=", m, " x0=", x0, " x1=", x1));
   double r = miso::quadInterp(x0, y0, d0, x1, y1);
   double h = std::fabs(x1 - x0), mag = std::fabs(y0) + std::fabs(y1) + std::fabs(d0) * h;
   g.close(r, v, 1e-13 * (1 + std::fabs(x0) + std::fabs(x1) + std::fabs(v)) * (10 + mag * (1 + x0 * x0 + x1 * x1) / (std::fabs(c) * h * h)), "vertex-of-the-parabola");
   // elementwise operations
   int n = g.irange(0, 8);
   Vector a(n), b(n), y(n);
   for (int i = 0; i < n; ++i) { a(i) = g.anydouble(); b(i) = g.anydouble(); y(i) = 77; }
   Vector a0(a), b0(b);
   auto same = [](double p, double q) { return p == q || (std::isnan(p) && std::isnan(q)); };
   miso::multiplyElementwise(a, b, y);
   for (int i = 0; i < n; ++i) { g.check(same(y(i), a0(i) * b0(i)), "multiply"); }
   y = b;
   miso::multiplyElementwise(a, y);
   for (int i = 0; i < n; ++i) { g.check(same(y(i), a0(i) * b0(i)), "multiply-in-place"); }
   miso::divideElementwise(a, b, y);
   for (int i = 0; i < n; ++i) { g.check(same(y(i), a0(i) / b0(i)), "divide"); }
   miso::invertElementwise(b, y);
   for (int i = 0; i < n; ++i) { g.check(same(y(i), 1.0 / b0(i)), "invert"); }
   for (int i = 0; i < n; ++i) { g.check(same(a(i), a0(i)) && same(b(i), b0(i)), "operand-modified"); }
   // the output may be an operand
   y = a;
   miso::multiplyElementwise(y, b, y);
   for (int i = 0; i < n; ++i) { g.check(same(y(i), a0(i) * b0(i)), "multiply-aliased"); }
   y = b;
   miso::invertElementwise(y, y);
   for (int i = 0; i < n; ++i) { g.check(same(y(i), 1.0 / b0(i)), "invert-aliased"); }
   double p[3], q[3];
   for (int i = 0; i < 3; ++i) { p[i] = g.sym(2.0); q[i] = g.sym(2.0); }
   g.close(miso::dot<double, 1>(p, q), p[0] * q[0], 1e-15, "dot");
   g.close(miso::dot<double, 2>(p, q), p[0] * q[0] + p[1] * q[1], 1e-14, "dot");
   g.close(miso::dot<double, 3>(p, q), p[0] * q[0] + p[1] * q[1] + p[2] * q[2], 1e-14, "dot");
   // radial basis function
   int dim = g.irange(1, 3);
   Vector x(dim), xc(dim);
   double len = g.logreal(0.1, 10.0), r2 = 0, mg = 0;
   for (int i = 0; i < dim; ++i) { x(i) = g.sym(2.0); xc(i) = g.chance(1, 5) ? x(i) : g.sym(2.0); r2 += (x(i) - xc(i)) * (x(i) - xc(i)); mg += x(i) * x(i) + xc(i) * xc(i); }
   double e = miso::squaredExponential(len, xc, x), want = std::exp(-r2 / (len * len));
   g.close(e, want, 1e-14 * want * (10 + 10 * mg / (len * len)) + 1e-300, "squared-exponential");
   g.close(miso::squaredExponential(len, x, xc), e, 1e-14 * want * (10 + 10 * mg / (len * len)) + 1e-300, "squared-exponential-symmetry");
   g.nontrivial(true);
}

// ---------------------------------------------------------------- attributes, any, pointers, streams
double free_fun(double x) { return x + 0.25; }
struct Functor { double k; double operator()(const std::string &s) const { return k * s.size(); } };
void glue(Gen &g)
{
   int n = g.irange(1, 8);
   Array<int> arr(n), ref(n);
   for (int i = 0; i < n; ++i) { arr[i] = g.irange(0, 3); ref[i] = 0; }
   std::vector<int> attrs;
   int k = g.irange(0, 5);
   bool bad = false;
   for (int i = 0; i < k; ++i)
   {
      int a = g.chance(1, 12) ? g.pick({0, -1, n + 1, n + 40}) : g.irange(1, n);
      attrs.push_back(a);
      if (a < 1 || a > n) { bad = true; }
      else { ref[a - 1] = 1; }
   }
   json b = attrs;
   int kind = g.irange(0, 6);
   bool fail = bad;
   if (kind == 1) { b = "all"; ref = 1; fail = false; }
   else if (kind == 2) { b = "none"; ref = 0; fail = false; }
   else if (kind == 3) { b = g.pick({std::string("All"), std::string(""), std::string("1"), std::string("both")}); fail = true; }
   else if (kind == 4) { b = g.flip() ? json(3) : g.flip() ? json(nullptr) : json(true); fail = true; }
   g.note(b.dump() + str(" n=", n));
   bool threw = false;
   try
   {
      if (kind == 5) { miso::attrVecToArray(attrs, arr); fail = bad; }
      else { miso::getMFEMBoundaryArray(b, arr); }
   }
   catch (const miso::MISOException &) { threw = true; }
   g.check(threw == fail, fail ? "invalid-boundary-accepted" : "valid-boundary-rejected");
   g.check(arr.Size() == n, "boundary-array-resized");
   if (!fail) { for (int i = 0; i < n; ++i) { g.check(arr[i] == ref[i], "boundary-array", str("attribute ", i + 1)); } g.nontrivial(true); }
   // useAny: the first function that takes the stored type
   std::any a;
   int t = g.irange(0, 3);
   double v = g.sym(3.0);
   if (t == 0) { a = v; }
   else if (t == 1) { a = std::string("abc"); }
   else if (t == 2) { a = 7; }
   auto fd = [&](double &x) { return 2 * x; };
   auto fs = [&](std::string &s) { return (double)s.size(); };
   auto fi = [&](int &i) { return i + 0.5; };
   double r = g.flip() ? miso::useAny(a, fd, fs, fi) : miso::useAny(a, fi, fs, fd);
   g.check(t == 3 ? std::isnan(r) : r == (t == 0 ? 2 * v : t == 1 ? 3.0 : 7.5), "use-any", str(t, " gives ", r));
   double r2 = miso::useAny(a, fs);
   g.check(t == 1 ? r2 == 3.0 : std::isnan(r2), "use-any-one");
   int hits = 0;
   miso::useAny(a, [&](std::string &s) { s += "d"; ++hits; }, [&](double &x) { x = 1.5; ++hits; });
   g.check(hits == (t <= 1 ? 1 : 0), "use-any-void");
   if (t == 1) { g.check(std::any_cast<std::string>(a) == "abcd", "use-any-reference"); }
   if (t == 0) { g.check(std::any_cast<double>(a) == 1.5, "use-any-reference"); }
   auto f1 = miso::make_function(free_fun);
   auto f2 = miso::make_function(Functor{2.0});
   double cap = v;
   auto f3 = miso::make_function([cap](int i, double x) { return cap * i + x; });
   static_assert(std::is_same_v<decltype(f1), std::function<double(double)>>);
   static_assert(std::is_same_v<decltype(f2), std::function<double(const std::string &)>>);
   static_assert(std::is_same_v<decltype(f3), std::function<double(int, double)>>);
   static_assert(miso::is_callable_v<Functor> && miso::is_callable_v<double (*)(double)> && !miso::is_callable_v<double> && !miso::is_callable_v<Vector>);
   g.check(f1(v) == v + 0.25 && f2("abcd") == 8.0 && f3(2, 1.0) == cap * 2 + 1.0, "make-function");
   // owning or not
   Vector own(3);
   own = v;
   miso::MaybeOwningPointer<Vector> p = &own, q = std::make_unique<Vector>(own);
   g.check(&miso::retrieve(p) == &own && miso::retrieve(q).Size() == 3 && miso::retrieve(q)(1) == v, "retrieve");
   const auto &cp = p;
   g.check(&miso::retrieve(cp) == &own, "retrieve");
   // only rank 0 prints, and only if not silent
   int rank = g.irange(0, 3);
   bool silent = g.flip();
   std::ostringstream cap_os;
   auto *old = std::cout.rdbuf(cap_os.rdbuf());
   auto *o = miso::getOutStream(rank, silent);
   *o << "text " << v << std::endl;
   *o << 3;
   std::cout.rdbuf(old);
   g.check(cap_os.str().empty() == (rank != 0 || silent), "output-stream", str("rank ", rank, " silent ", silent));
}

// ---------------------------------------------------------------- interpolation from cell centers
int basis_size(int dim, int p) { return dim == 1 ? p + 1 : dim == 2 ? (p + 1) * (p + 2) / 2 : (p + 1) * (p + 2) * (p + 3) / 6; }
std::vector<LD> monomials(int dim, int p, const DenseMatrix &x, int j, const std::vector<LD> &c)
{
   std::vector<LD> m;
   LD d[3] = {0, 0, 0};
   for (int k = 0; k < dim; ++k) { d[k] = (LD)x(k, j) - c[k]; }
   for (int a = 0; a <= p; ++a)
   {
      for (int b = 0; b <= (dim > 1 ? p - a : 0); ++b)
      {
         for (int e = 0; e <= (dim > 2 ? p - a - b : 0); ++e) { m.push_back(powl(d[0], a) * powl(d[1], b) * powl(d[2], e)); }
      }
   }
   return m;
}
/// solves the symmetric positive definite system; returns the smallest pivot ratio
LD spd_solve(std::vector<std::vector<LD>> A, std::vector<LD> &b)
{
   int n = (int)b.size();
   LD worst = 1;
   for (int k = 0; k < n; ++k)
   {
      int p = k;
      for (int i = k + 1; i < n; ++i) { if (fabsl(A[i][k]) > fabsl(A[p][k])) { p = i; } }
      std::swap(A[k], A[p]);
      std::swap(b[k], b[p]);
      worst = std::min(worst, fabsl(A[k][k]));
      if (A[k][k] == 0) { return 0; }
      for (int i = k + 1; i < n; ++i)
      {
         LD f = A[i][k] / A[k][k];
         for (int j = k; j < n; ++j) { A[i][j] -= f * A[k][j]; }
         b[i] -= f * b[k];
      }
   }
   for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) { b[i] -= A[i][j] * b[j]; } b[i] /= A[i][i]; }
   return worst;
}
void interpolation(Gen &g)
{
   bool ls = g.flip();
   int dim = g.irange(1, ls ? 3 : 2), deg = g.irange(0, dim == 3 ? 2 : 3), nb = basis_size(dim, deg);
   int ne = nb + g.irange(0, 6), nq = g.irange(1, 4);
   DenseMatrix xc(dim, ne), xq(dim, nq), R;
   double scale = g.pick({1.0, 0.1, 4.0}), shift = g.pick({0.0, 1.0, -3.0});
   for (int j = 0; j < ne; ++j) { for (int k = 0; k < dim; ++k) { xc(k, j) = shift + scale * g.sym(1.0); } }
   for (int j = 0; j < nq; ++j) { for (int k = 0; k < dim; ++k) { xq(k, j) = shift + scale * g.sym(0.8); } }
   g.note(str(ls ? "least-squares" : "minimum-norm", " dim=", dim, " degree=", deg, " elements=", ne, " points=", nq));
   if (g.chance(1, 30))
   {
      DenseMatrix y(4, ne);
      y = 0.0;
      bool threw = false;
      int bad = ls ? g.pick({0, 4, -1}) : g.pick({3, 0, 4});
      try { if (ls) { miso::buildLSInterpolation(bad, 1, y, y, R); } else { miso::buildInterpolation(bad, 1, y, y, R); } }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "invalid-dimension-accepted");
      return;
   }
   // the moment matrix, scaled, decides whether the points determine a polynomial
   std::vector<LD> c(dim, (LD)shift);
   std::vector<std::vector<LD>> V(ne);
   for (int j = 0; j < ne; ++j) { V[j] = monomials(dim, deg, xc, j, c); }
   std::vector<std::vector<LD>> N(nb, std::vector<LD>(nb, 0));
   for (int j = 0; j < ne; ++j) { for (int a = 0; a < nb; ++a) { for (int b = 0; b < nb; ++b) { N[a][b] += V[j][a] * V[j][b]; } } }
   std::vector<LD> dg(nb);
   for (int a = 0; a < nb; ++a) { dg[a] = sqrtl(N[a][a]); }
   for (auto d : dg) { if (!(d > 0)) { g.discard(); } }
   for (int a = 0; a < nb; ++a) { for (int b = 0; b < nb; ++b) { N[a][b] /= dg[a] * dg[b]; } }
   {
      std::vector<LD> one(nb, 1.0L);
      if (!(spd_solve(N, one) > 1e-4L)) { g.discard(); }
   }
   if (ls) { miso::buildLSInterpolation(dim, deg, xc, xq, R); }
   else { miso::buildInterpolation(dim, deg, xc, xq, R); }
   g.check(R.Height() == nq && R.Width() == ne, "interpolation-size");
   for (int i = 0; i < nq; ++i)
   {
      auto m = monomials(dim, deg, xq, i, c);
      // R V = m, and R is the combination of the columns of V (both the
      // least-squares and the minimum-norm solution are V N^{-1} m)
      std::vector<LD> lam(nb);
      for (int a = 0; a < nb; ++a) { lam[a] = m[a] / dg[a]; }
      spd_solve(N, lam);
      LD nl = 0;
      for (auto v : lam) { nl += fabsl(v); }
      for (int j = 0; j < ne; ++j)
      {
         LD want = 0;
         for (int a = 0; a < nb; ++a) { want += V[j][a] / dg[a] * lam[a]; }
         g.close(R(i, j), (double)want, 1e-7 * (1 + (double)nl), "interpolation-operator", str("point ", i, " element ", j));
      }
      for (int a = 0; a < nb; ++a)
      {
         LD v = 0;
         for (int j = 0; j < ne; ++j) { v += (LD)R(i, j) * V[j][a]; }
         g.close((double)v, (double)m[a], 1e-8 * (1 + (double)nl) * (double)(dg[a] + fabsl(m[a])), "polynomial-not-reproduced", str("point ", i, " monomial ", a));
      }
   }
   g.label(ls ? "least-squares" : "minimum-norm");
   g.nontrivial(deg > 0);
}

// ---------------------------------------------------------------- quarter annulus
void annulus(Gen &g)
{
   int deg = g.irange(1, 4), nr = g.irange(1, 5), na = g.irange(1, 5);
   double pert = g.pick({0.0, 0.0, 0.05, 0.2});
   g.note(str("degree=", deg, " ", nr, "x", na, " pert=", pert));
   auto mesh = miso::buildQuarterAnnulusMesh(deg, nr, na, pert);
   g.check(mesh->Dimension() == 2 && mesh->SpaceDimension() == 2 && mesh->GetNE() == 2 * nr * na && mesh->GetNV() == (nr + 1) * (na + 1) && mesh->GetNBE() == 2 * (nr + na), "mesh-size");
   for (int i = 0; i < mesh->GetNE(); ++i) { g.check(mesh->GetElementGeometry(i) == Geometry::TRIANGLE, "not-triangles"); }
   auto *nodes = mesh->GetNodes();
   g.check(nodes != nullptr && nodes->FESpace()->GetMaxElementOrder() == deg && nodes->FESpace()->GetMesh() == mesh.get(), "mapping-degree");
   // nodes lie in the annulus
   auto *fes = nodes->FESpace();
   double tol = 1e-12;
   for (int i = 0; i < fes->GetNDofs(); ++i)
   {
      double x = (*nodes)(fes->DofToVDof(i, 0)), y = (*nodes)(fes->DofToVDof(i, 1)), r = std::hypot(x, y);
      g.check(r > 1 - tol && r < 3 + tol && x > -tol && y > -tol, "node-outside-the-annulus", str(x, " ", y));
   }
   // vertices: every grid point once, interior ones moved by at most pert cells
   Array<int> seen((nr + 1) * (na + 1));
   seen = 0;
   Vector vx;
   mesh->GetNodes(vx);
   for (int i = 0; i < mesh->GetNV(); ++i)
   {
      double x = (*nodes)(fes->DofToVDof(i, 0)), y = (*nodes)(fes->DofToVDof(i, 1)), r = std::hypot(x, y) - 1, t = std::atan2(y, x);
      double gi = r / 2 * nr, gj = t / (M_PI / 2) * na;
      int a = (int)std::lround(gi), b = (int)std::lround(gj);
      g.check(a >= 0 && a <= nr && b >= 0 && b <= na, "vertex-position");
      bool inner = a > 0 && a < nr && b > 0 && b < na;
      double lim = inner ? pert + 1e-12 : 1e-12;
      g.check(std::fabs(gi - a) <= lim && std::fabs(gj - b) <= lim, "vertex-position", str("vertex ", i, " at ", gi, " ", gj));
      seen[a * (na + 1) + b]++;
      if (pert == 0.0 || !inner) { g.close(x, (1 + 2.0 * a / nr) * std::cos(M_PI / 2 * b / na), 1e-12, "vertex-position"); }
   }
   for (int i = 0; i < seen.Size(); ++i) { g.check(seen[i] == 1, "vertex-missing"); }
   // area and orientation
   double area = 0;
   for (int e = 0; e < mesh->GetNE(); ++e)
   {
      auto *T = mesh->GetElementTransformation(e);
      const auto &ir = IntRules.Get(Geometry::TRIANGLE, 2 * deg + 4);
      for (int q = 0; q < ir.GetNPoints(); ++q)
      {
         T->SetIntPoint(&ir.IntPoint(q));
         g.check(na == 1 || (pert > 0 && (pert > 0.05 || na < 3)) || T->Jacobian().Det() > 0, "inverted-element");
         area += ir.IntPoint(q).weight * T->Jacobian().Det();
      }
   }
   // the boundary is interpolated: the error depends on the angular spacing only
   double h = M_PI / 2 / na, exact = 2 * M_PI;
   double err = deg == 1 ? 0.5 * (9 - 1) * 0.5 * std::fabs(M_PI / 2 - na * std::sin(h)) * 1.0001 + 1e-12 : exact * std::pow(h / 2, deg + 1) * 2.5;
   if (deg == 1) { g.close(area, 0.5 * 8 * na * std::sin(h), 1e-11, "area"); }
   else { g.close(area, exact, err, "area"); }
   // boundary elements lie on the boundary; all four sides have their own attribute
   std::map<int, std::set<int>> side;
   for (int b = 0; b < mesh->GetNBE(); ++b)
   {
      Array<int> v;
      mesh->GetBdrElementVertices(b, v);
      int s = 15;
      for (int k = 0; k < v.Size(); ++k)
      {
         double x = (*nodes)(fes->DofToVDof(v[k], 0)), y = (*nodes)(fes->DofToVDof(v[k], 1)), r = std::hypot(x, y);
         int m = (std::fabs(y) < tol ? 1 : 0) | (std::fabs(r - 3) < tol ? 2 : 0) | (std::fabs(x) < tol ? 4 : 0) | (std::fabs(r - 1) < tol ? 8 : 0);
         s &= m;
      }
      g.check(s == 1 || s == 2 || s == 4 || s == 8, "boundary-element-inside");
      side[mesh->GetBdrAttribute(b)].insert(s);
   }
   g.check(side.size() == 4, "boundary-attributes");
   for (auto &e : side) { g.check(e.second.size() == 1, "boundary-attributes"); }
   g.label(pert > 0 ? "perturbed" : "regular");
   g.nontrivial(nr > 1 && na > 1);
   // a vector over an existing buffer
   ParMesh pm(MPI_COMM_SELF, *mesh);
   H1_FECollection fec(g.irange(1, 3), 2);
   ParFiniteElementSpace pf(&pm, &fec, g.irange(1, 2));
   std::vector<double> buf(pf.GetTrueVSize());
   for (size_t i = 0; i < buf.size(); ++i) { buf[i] = i; }
   {
      auto hv = miso::bufferToHypreParVector(buf.data(), pf);
      g.check(hv.Size() == pf.GetTrueVSize() && hv.GlobalSize() == pf.GlobalTrueVSize() && hv.GetData() == buf.data(), "buffer-vector");
      hv(0) = 5.5;
   }
   g.check(buf[0] == 5.5 && buf.back() == (buf.size() == 1 ? 5.5 : buf.size() - 1.0), "buffer-vector-aliases");
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P12", {{"bisect", bisect, 40000, 800000}, {"secant", secant, 40000, 800000}, {"quad", quad, 40000, 800000}, {"glue", glue, 20000, 400000}, {"interpolation", interpolation, 20000, 400000}, {"annulus", annulus, 3000, 40000}},
            "random functions with and without roots (every evaluation recorded), vectors with special values, attribute lists, point clouds and mesh sizes; "
            "non-trivial: more than two iterations, a valid attribute list, a polynomial of degree one or more, an inner vertex");
   r.assumptions = {"point clouds for the interpolation operators determine the polynomial with a well-conditioned moment matrix", "buildInterpolation and buildLSInterpolation are compiled with MFEM_USE_LAPACK and the installed LAPACK"};
   return r.main(argc, argv);
}
