// P08: nonlinear solvers: relaxed Newton, inexact Newton and the factory
#include "mpi_init.hpp"
#include "mfem_extensions.hpp"
#include "inexact_newton.hpp"
#include "relaxed_newton.hpp"
#include "utils.hpp"

using namespace pbt;
using namespace mfem;
namespace
{
struct Event
{
   enum Kind { eval, grad, solve } kind;
   std::vector<double> v;   // point, or solve output
};
std::vector<double> V(const Vector &x) { return std::vector<double>(x.GetData(), x.GetData() + x.Size()); }
double norm(const std::vector<double> &v) { long double s = 0; for (double x : v) { s += (long double)x * x; } return (double)sqrtl(s); }

/// F(x) = A x + sum of monotone scalar terms (possibly undefined for x_i <= -w)
class System : public Operator
{
public:
   DenseMatrix A;
   std::vector<int> kind;
   std::vector<double> coef, shift;
   mutable DenseMatrix J;
   mutable std::vector<Event> log;
   System(Gen &g, int n) : Operator(n), A(n), J(n)
   {
      for (int i = 0; i < n; ++i)
      {
         double s = 0;
         for (int j = 0; j < n; ++j)
         {
            if (i == j) { continue; }
            A(i, j) = g.sym(1.0);
            s += std::fabs(A(i, j));
         }
         A(i, i) = s + g.real(0.05, 1.0);
         kind.push_back(g.irange(0, 6));
         coef.push_back(g.logreal(0.1, 100));
         shift.push_back(g.sym(3.0));
         if (kind.back() == 5) { g.label("partial"); shift.back() = g.real(0.05, 3.0); }
         if (kind.back() == 6) { A(i, i) *= 1e-2; if (n > 1) { A(i, i) += s; } }
      }
   }
   void term(int i, double x, double &f, double &d) const
   {
      double c = coef[i], w = shift[i];
      switch (kind[i])
      {
      case 1: f = c * (std::tanh(x - w)); d = c / std::pow(std::cosh(x - w), 2); break;
      case 2: f = c * std::pow(x - w, 3); d = 3 * c * std::pow(x - w, 2); break;
      case 3: f = c * (std::exp(std::min(x - w, 300.0)) - 1); d = c * std::exp(std::min(x - w, 300.0)); break;
      case 4: f = c * std::atan(10 * (x - w)); d = 10 * c / (1 + 100 * (x - w) * (x - w)); break;
      case 5: f = c * std::log(x + w); d = c / (x + w); break;      // NaN beyond -w
      case 6: f = c * std::atan(x - w); d = c / (1 + (x - w) * (x - w)); break;
      default: f = 0; d = 0;
      }
   }
   std::vector<double> F(const std::vector<double> &x) const
   {
      std::vector<double> r(height);
      for (int i = 0; i < height; ++i)
      {
         double f, d;
         term(i, x[i], f, d);
         r[i] = f;
         for (int j = 0; j < height; ++j) { r[i] += A(i, j) * x[j]; }
      }
      return r;
   }
   void Mult(const Vector &x, Vector &y) const override
   {
      log.push_back({Event::eval, V(x)});
      auto r = F(V(x));
      y.SetSize(height);
      for (int i = 0; i < height; ++i) { y(i) = r[i]; }
   }
   Operator &GetGradient(const Vector &x) const override
   {
      log.push_back({Event::grad, V(x)});
      J = A;
      for (int i = 0; i < height; ++i)
      {
         double f, d;
         term(i, x(i), f, d);
         J(i, i) += d;
      }
      return J;
   }
};
class Direct : public Solver
{
public:
   std::vector<Event> *log = nullptr;
   mutable DenseMatrixInverse inv;
   // an inexact solve: J c = (row factor) * b
   std::vector<double> row;
   void SetOperator(const Operator &op) override
   {
      auto &m = dynamic_cast<const DenseMatrix &>(op);
      inv.Factor(m);
      height = width = op.Height();
   }
   void Mult(const Vector &b, Vector &x) const override
   {
      if (row.empty()) { inv.Mult(b, x); }
      else
      {
         Vector bb(b);
         for (int i = 0; i < bb.Size(); ++i) { bb(i) *= row[i]; }
         inv.Mult(bb, x);
      }
      if (log) { log->push_back({Event::solve, V(x)}); }
   }
};

struct Setup
{
   int n;
   std::unique_ptr<System> f;
   Direct lin;
   Vector b, x0;
   double rel, abs;
   int maxit;
   double resid(const Vector &x) const
   {
      auto r = f->F(V(x));
      if (b.Size() == n) { for (int i = 0; i < n; ++i) { r[i] -= b(i); } }
      return norm(r);
   }
};
void make(Gen &g, Setup &s)
{
   s.n = g.irange(1, 5);
   s.f = std::make_unique<System>(g, s.n);
   s.lin.log = &s.f->log;
   if (g.flip())
   {
      s.b.SetSize(s.n);
      for (int i = 0; i < s.n; ++i) { s.b(i) = g.sym(20); }
      g.label("rhs");
   }
   s.x0.SetSize(s.n);
   for (int i = 0; i < s.n; ++i)
   {
      s.x0(i) = g.sym(10);
      if (s.f->kind[i] == 5) { s.x0(i) = -s.f->shift[i] + g.logreal(1e-3, 20); }
   }
   s.rel = g.pick({0.0, 1e-8, 1e-3, 0.5, 1e-12});
   s.abs = g.pick({1e-9, 1e-4, 0.0, 1.0, 1e-12});
   s.maxit = g.pick({30, 50, 3, 1, 0, 100});
}
std::string desc(const Setup &s)
{
   std::string k;
   for (int i = 0; i < s.n; ++i) { k += str(s.f->kind[i], "(", s.f->coef[i], ",", s.f->shift[i], ")"); }
   return str("n=", s.n, " terms=", k, " x0=", vec_str(s.x0, s.n), " b=", vec_str(s.b, s.b.Size()), " rel=", s.rel, " abs=", s.abs, " maxit=", s.maxit);
}

struct Step
{
   std::vector<double> x, c;                 // iterate and newton step
   std::vector<double> alpha;                // step sizes tried
   std::vector<double> phi;                  // residual norms at the tries
   double phi0;
   double dphi0;                             // slope of the norm along -c
};
/// rebuild the Newton iterations from the log of evaluations
std::vector<Step> steps(Gen &g, const Setup &s)
{
   std::vector<Step> out;
   auto res = [&](const std::vector<double> &p)
   {
      auto r = s.f->F(p);
      if (s.b.Size() == s.n) { for (int i = 0; i < s.n; ++i) { r[i] -= s.b(i); } }
      return norm(r);
   };
   for (size_t i = 0; i < s.f->log.size(); ++i)
   {
      auto &e = s.f->log[i];
      if (e.kind == Event::grad)
      {
         double p0 = res(e.v), d0 = -p0;
         if (!s.lin.row.empty() && p0 > 0)
         {
            auto r = s.f->F(e.v);
            d0 = 0;
            for (int k = 0; k < s.n; ++k)
            {
               double rk = r[k] - (s.b.Size() == s.n ? s.b(k) : 0.0);
               d0 -= s.lin.row[k] * rk * (rk / p0);
            }
         }
         out.push_back({e.v, {}, {}, {}, p0, d0});
      }
      if (e.kind == Event::solve)
      {
         g.check(!out.empty(), "solve-before-gradient");
         out.back().c = e.v;
      }
      if (e.kind == Event::eval && !out.empty())
      {
         auto &st = out.back();
         g.check(!st.c.empty(), "evaluation-before-step");
         long double num = 0, den = 0;
         for (int k = 0; k < s.n; ++k) { num += (long double)(st.x[k] - e.v[k]) * st.c[k]; den += (long double)st.c[k] * st.c[k]; }
         double a = den > 0 ? (double)(num / den) : 0;
         double xs = norm(st.x), cs = norm(st.c);
         for (int k = 0; k < s.n; ++k)
         {
            g.close(e.v[k], st.x[k] - a * st.c[k], 1e-9 * (xs + cs * std::fabs(a)), "evaluation-off-direction", str("component ", k));
         }
         st.alpha.push_back(a);
         st.phi.push_back(res(e.v));
      }
   }
   return out;
}
/// is the size of the step resolvable by differences of the points?
bool resolved(const Step &st)
{
   return norm(st.c) > 1e-6 * norm(st.x) && norm(st.c) > 1e-12;
}

void postconditions(Gen &g, const Setup &s, const NewtonSolver &nwt, const Vector &x, double norm0)
{
   double fn = s.resid(x);
   double scale = 1e-12 * (1 + norm0 + norm(s.f->F(V(s.x0))));
   g.check(std::isfinite(fn), "non-finite-result", str("norm ", fn));
   g.close(nwt.GetFinalNorm(), fn, 1e-10 * fn + scale, "final-norm-is-the-residual-norm");
   g.check(fn <= norm0 * (1 + 1e-12) + scale, "result-worse-than-start", str(fn, " from ", norm0));
   g.check(nwt.GetNumIterations() <= s.maxit, "too-many-iterations");
   if (nwt.GetConverged())
   {
      g.label("converged");
      g.check(fn <= std::max(s.rel * norm0, s.abs) * (1 + 1e-9) + scale, "converged-above-tolerance", str("norm ", fn, " goal ", std::max(s.rel * norm0, s.abs)));
   }
   else
   {
      g.label("not-converged");
      g.check(fn > std::max(s.rel * norm0, s.abs) * (1 - 1e-9) - scale, "not-converged-below-tolerance", str("norm ", fn));
   }
}

void relaxed(Gen &g)
{
   Setup s;
   make(g, s);
   nlohmann::json o = {{"type", "relaxednewton"}, {"abstol", s.abs}, {"reltol", s.rel}, {"maxiter", s.maxit}, {"printlevel", -1}};
   double mu = 1e-4, hi = 0.9, lo = 0.1;
   int lsit = 10, order = 3;
   int how = g.irange(0, 3);
   if (how == 1) { o["linesearch"] = "backtracking"; }
   if (how >= 2)
   {
      nlohmann::json l = {{"type", "backtracking"}};
      if (g.flip()) { l["mu"] = mu = g.pick({1e-4, 0.1, 0.4, 1e-2, 0.9}); }
      if (g.flip()) { l["rhohi"] = hi = g.real(0.5, 0.95); }
      if (g.flip()) { l["rholo"] = lo = g.real(0.05, 0.4); }
      if (g.flip()) { l["maxiter"] = lsit = g.irange(0, 15); }
      if (g.flip()) { l["interp-order"] = order = g.irange(2, 3); }
      o["linesearch"] = l;
      g.label("ls-options");
   }
   g.note(desc(s) + " options=" + o.dump());
   std::unique_ptr<NewtonSolver> nwt;
   bool factory = g.flip();
   Vector x(s.x0);
   if (factory)
   {
      nwt = miso::constructNonlinearSolver(MPI_COMM_SELF, o, s.lin);
      g.check(dynamic_cast<miso::RelaxedNewton *>(nwt.get()) != nullptr, "factory-type");
      if (g.flip()) { nwt->iterative_mode = true; }
      else
      {
         for (int i = 0; i < s.n; ++i) { if (s.f->kind[i] == 5) { g.discard(); } }
         g.label("zero-guess");
         s.x0 = 0.0;
      }
   }
   else
   {
      nwt = std::make_unique<miso::RelaxedNewton>(MPI_COMM_SELF, o);
      nwt->SetSolver(s.lin);
      nwt->SetRelTol(s.rel);
      nwt->SetAbsTol(s.abs);
      nwt->SetMaxIter(s.maxit);
      nwt->SetPrintLevel(-1);
      nwt->iterative_mode = true;
   }
   if (g.chance(1, 3))
   {
      double f = g.pick({1.0, 0.5, 1.4});
      for (int i = 0; i < s.n; ++i) { s.lin.row.push_back(f * (1 + g.sym(0.4))); }
      g.label("inexact-linear-solve");
   }
   nwt->SetOperator(*s.f);
   double norm0 = s.resid(s.x0);
   nwt->Mult(s.b, x);
   postconditions(g, s, *nwt, x, norm0);
   auto st = steps(g, s);
   g.check((int)st.size() >= nwt->GetNumIterations(), "iterations-counted");
   bool backtracked = false;
   double worst = norm0;
   for (size_t k = 0; k < st.size(); ++k)
   {
      auto &t = st[k];
      g.check(!t.alpha.empty(), "no-trial-step");
      if (!resolved(t)) { break; }
      g.close(t.alpha[0], 1.0, 1e-8, "first-trial-is-the-full-step", str("step ", k));
      bool last = k + 1 == st.size();
      // the evaluation at the accepted iterate repeats the last trial
      size_t nt = t.alpha.size();
      bool failed = last && !nwt->GetConverged() && nwt->GetNumIterations() < s.maxit;
      if (!failed)
      {
         g.check(nt >= 2 && std::fabs(t.alpha[nt - 1] - t.alpha[nt - 2]) <= 1e-8 * t.alpha[nt - 2], "accepts-the-last-trial", str("step ", k));
         nt -= 1;
      }
      g.check((int)nt <= lsit + 1, "line-search-iterations", str("step ", k, " tries ", nt));
      for (size_t j = 0; j < nt; ++j)
      {
         double slack = 1e-9 * t.phi0;
         bool ok = t.phi[j] <= t.phi0 + mu * t.alpha[j] * t.dphi0 + slack;
         bool surely = t.phi[j] <= t.phi0 + mu * t.alpha[j] * t.dphi0 - slack;
         if (j + 1 < nt || failed) { g.check(!surely, "rejected-an-acceptable-step", str("step ", k, " alpha ", t.alpha[j], " phi ", t.phi[j], " phi0 ", t.phi0)); backtracked = true; }
         else { g.check(ok, "accepted-without-decrease", str("step ", k, " alpha ", t.alpha[j], " phi ", t.phi[j], " phi0 ", t.phi0)); }
         if (j > 0)
         {
            double q = t.alpha[j] / t.alpha[j - 1];
            g.check(q >= lo - 1e-6 && q <= std::max(hi, lo) + 1e-6, "backtracking-factor", str("step ", k, " factor ", q, " bounds ", lo, " ", hi));
            if (std::isfinite(t.phi[j - 1]) && (j == 1 || order == 2))
            {
               double a0 = t.alpha[j - 1], c2 = (t.phi[j - 1] - t.phi0 - t.dphi0 * a0) / (a0 * a0);
               double want = std::max(std::min(-t.dphi0 / (2 * c2), a0 * hi), a0 * lo);
               g.close(t.alpha[j], want, 1e-6 * a0, "quadratic-minimiser", str("step ", k));
            }
         }
      }
      if (failed) { g.label("line-search-gave-up"); g.check((int)nt == lsit + 1 || norm(t.c) == 0, "gave-up-early", str("step ", k, " tries ", nt)); }
      worst = t.phi0;
   }
   if (backtracked) { g.label("backtracked"); }
   g.nontrivial(!st.empty());
}

/// would the documented algorithm find acceptable steps all the way?
bool globalizes(const Setup &s, double t)
{
   int n = s.n;
   auto res = [&](const std::vector<double> &p)
   {
      auto r = s.f->F(p);
      if (s.b.Size() == n) { for (int i = 0; i < n; ++i) { r[i] -= s.b(i); } }
      return r;
   };
   std::vector<double> x = V(s.x0), r = res(x);
   double goal = std::max(s.rel * norm(r), s.abs);
   Direct d;
   for (int it = 0; it < s.maxit && norm(r) > goal; ++it)
   {
      Vector xv(x.data(), n), rv(r.data(), n), c(n);
      d.SetOperator(s.f->GetGradient(xv));
      d.Mult(rv, c);
      double phi0 = norm(r), a = 1, th = 0;
      std::vector<double> y(n);
      for (int k = 0;; ++k)
      {
         if (k > 25) { return false; }
         for (int i = 0; i < n; ++i) { y[i] = x[i] - a * c(i); }
         auto q = res(y);
         double phi = norm(q);
         if (std::isfinite(phi) && phi <= (1 - t * (1 - th) - 1e-9) * phi0) { r = q; break; }
         double p0 = 0.5 * phi0 * phi0, p1 = 0.5 * phi * phi;
         th = std::isfinite(p1) ? std::min(0.5, std::max(0.1, p0 / (p1 + p0))) : 0.1;
         a *= th;
      }
      x = y;
   }
   s.f->log.clear();
   return true;
}

void inexact(Gen &g)
{
   Setup s;
   make(g, s);
   s.maxit = g.pick({60, 80, 100});
   double t = g.pick({1e-4, 1e-5, 1e-6});
   double eta = g.pick({1e-4, 1e-2}), etamax = g.pick({0.1, 0.5, 0.9});
   // aborting when no acceptable step exists is documented: keep the needed steps above 1e-3 or so
   for (int i = 0; i < s.n; ++i)
   {
      if (s.f->kind[i] == 5) { s.x0(i) = std::max(s.x0(i), 0.05 - s.f->shift[i]); }
      s.f->coef[i] = std::min(s.f->coef[i], 10.0);
      s.f->A(i, i) += 0.5;
   }
   // the root is a representable point inside the domain
   std::vector<double> root(s.n);
   for (int i = 0; i < s.n; ++i) { root[i] = s.f->kind[i] == 5 ? g.logreal(0.02, 10) - s.f->shift[i] : g.sym(10); }
   auto fr = s.f->F(root);
   s.b.SetSize(s.n);
   for (int i = 0; i < s.n; ++i) { s.b(i) = fr[i]; }
   g.note(desc(s) + str(" t=", t, " eta=", eta, " etamax=", etamax));
   bool comm = g.flip();
   InexactNewton nwt = comm ? InexactNewton(MPI_COMM_SELF, eta, etamax, t) : InexactNewton(eta, etamax, t);
   nwt.SetOperator(*s.f);
   nwt.SetSolver(s.lin);
   nwt.SetRelTol(std::max(s.rel, 1e-10));
   nwt.SetAbsTol(std::max(s.abs, 1e-7));
   s.rel = std::max(s.rel, 1e-10);
   s.abs = std::max(s.abs, 1e-7);
   nwt.SetMaxIter(s.maxit);
   nwt.SetPrintLevel(-1);
   nwt.iterative_mode = true;
   Vector x(s.x0);
   if (g.chance(1, 4))
   {
      for (int i = 0; i < s.n; ++i) { if (s.f->kind[i] == 5) { g.discard(); } }
      g.label("zero-guess");
      nwt.iterative_mode = false;
      s.x0 = 0.0;
   }
   if (!globalizes(s, t)) { g.discard(); }
   double norm0 = s.resid(s.x0);
   nwt.Mult(s.b, x);
   postconditions(g, s, nwt, x, norm0);
   auto st = steps(g, s);
   for (size_t k = 0; k < st.size(); ++k)
   {
      auto &p = st[k];
      if (!resolved(p)) { break; }
      size_t nt = p.alpha.size();
      g.check(nt >= 2 && std::fabs(p.alpha[nt - 1] - p.alpha[nt - 2]) <= 1e-8 * p.alpha[nt - 2], "accepts-the-last-trial", str("step ", k));
      nt -= 1;
      g.close(p.alpha[0], 1.0, 1e-8, "first-trial-is-the-full-step", str("step ", k));
      for (size_t j = 0; j < nt; ++j)
      {
         double slack = 1e-9 * p.phi0;
         if (j == 0 && nt > 1) { g.check(!(p.phi[0] <= (1 - t) * p.phi0 - slack), "rejected-an-acceptable-step", str("step ", k)); g.label("backtracked"); }
         if (j + 1 < nt) { g.check(!(p.phi[j] <= (1 - t) * p.phi0 - slack), "rejected-an-acceptable-step", str("step ", k, " try ", j)); }
         else
         {
            double th = j == 0 ? 0.0 : 0.5;
            g.check(p.phi[j] <= (1 - t * (1 - th)) * p.phi0 + slack, "accepted-without-decrease", str("step ", k, " alpha ", p.alpha[j], " phi ", p.phi[j], " phi0 ", p.phi0));
         }
         if (j > 0)
         {
            double q = p.alpha[j] / p.alpha[j - 1];
            g.check(q >= 0.1 - 1e-6 && q <= 0.5 + 1e-6, "backtracking-factor", str("step ", k, " factor ", q));
            if (j == 1 && std::isfinite(p.phi[0]))
            {
               // minimiser of the parabola through p(0), p'(0), p(1) for p = |F|^2/2
               double p0 = 0.5 * p.phi0 * p.phi0, p1 = 0.5 * p.phi[0] * p.phi[0], c2 = p1 - p0 + 2 * p0;
               g.close(q, std::min(0.5, std::max(0.1, 2 * p0 / (2 * c2))), 1e-6, "quadratic-minimiser", str("step ", k));
            }
         }
      }
   }
   g.nontrivial(!st.empty());
}

void factory(Gen &g)
{
   Setup s;
   make(g, s);
   for (int i = 0; i < s.n; ++i) { { if (s.f->kind[i] >= 2) { s.f->kind[i] = g.irange(0, 1); } s.f->coef[i] = 0.002 * g.irange(0, 10); s.f->A(i, i) += 0.05; } }
   std::string type = g.pick({"newton", "inexactnewton", "none", "relaxednewton", "newtron", "", "Newton", "inexact"});
   nlohmann::json o = {{"type", type}, {"abstol", s.abs}, {"reltol", s.rel}, {"maxiter", s.maxit}, {"printlevel", -1}};
   double rmax = 0.9, r0 = 0.5;
   if (type == "inexactnewton")
   {
      if (g.flip()) { o["inexacttype"] = g.irange(1, 2); }
      if (g.flip()) { o["rtol0"] = r0 = g.real(0.001, 0.8); }
      if (g.flip()) { o["rtol_max"] = rmax = g.real(0.05, 0.9); }
   }
   g.note(desc(s) + " options=" + o.dump());
   bool known = type == "newton" || type == "inexactnewton" || type == "none" || type == "relaxednewton";
   GMRESSolver gm(MPI_COMM_SELF);
   gm.SetKDim(50);
   gm.SetMaxIter(100);
   gm.SetRelTol(1e-13);
   gm.SetAbsTol(0.0);
   gm.SetPrintLevel(-1);
   Solver &lin = type == "inexactnewton" ? static_cast<Solver &>(gm) : static_cast<Solver &>(s.lin);
   std::unique_ptr<NewtonSolver> nwt;
   try
   {
      nwt = miso::constructNonlinearSolver(MPI_COMM_SELF, o, lin);
      g.check(known, "unknown-type-accepted", type);
   }
   catch (const miso::MISOException &)
   {
      g.check(!known, "known-type-rejected", type);
      g.label("rejected");
      return;
   }
   g.label(type);
   if (type == "none") { g.check(nwt == nullptr, "none-builds-a-solver"); return; }
   g.check(nwt != nullptr, "no-solver");
   g.check(!nwt->iterative_mode, "factory-starts-from-zero");
   nwt->SetOperator(*s.f);
   Vector x(s.x0);     // the initial content of x must not matter
   s.x0 = 0.0;
   double norm0 = s.resid(s.x0);
   nwt->Mult(s.b, x);
   double fn = s.resid(x);
   g.check(nwt->GetNumIterations() <= s.maxit, "too-many-iterations");
   double goal = std::max(s.rel * norm0, s.abs);
   double scale = 1e-12 * (1 + norm0);
   // MFEM's GMRES divides by zero on exact breakdown: not this repository's doing
   if (type == "inexactnewton" && !std::isfinite(fn)) { g.label("gmres-breakdown"); return; }
   if (goal < 1e-13 * (1 + norm0)) { g.label("unreachable-goal"); return; }
   if (nwt->GetConverged()) { g.check(fn <= goal * (1 + 1e-9) + scale, "converged-above-tolerance", str(fn, " goal ", goal)); g.label("converged"); }
   else { g.check(fn > goal * (1 - 1e-9) - scale, "not-converged-below-tolerance", str(fn, " goal ", goal)); g.check(nwt->GetNumIterations() == s.maxit || type == "relaxednewton", "gave-up-early"); }
   // monotone contraction: the solvers converge given enough iterations
   if (s.maxit >= 30 && goal > 1e-8 * (1 + norm0) && type != "inexactnewton") { g.check(nwt->GetConverged(), "no-convergence", str("norm ", fn, " goal ", goal)); }
   // the same solve again from another content of x gives the same answer
   Vector y(s.n);
   for (int i = 0; i < s.n; ++i) { y(i) = g.sym(5); }
   nwt->Mult(s.b, y);
   for (int i = 0; i < s.n; ++i) { g.close(y(i), x(i), 1e-12 * (1 + std::fabs(x(i))), "depends-on-output-content"); }
   g.nontrivial(nwt->GetNumIterations() > 0);
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P08", {{"relaxed", relaxed, 40000, 800000}, {"inexact", inexact, 40000, 800000}, {"factory", factory, 20000, 400000}},
            "random square nonlinear systems (diagonally dominant linear part plus monotone terms, some undefined beyond a point), right-hand sides, starts, tolerances and line-search options; "
            "non-trivial: at least one Newton step is taken");
   r.assumptions = {"every evaluation, gradient and linear solve is recorded; trial steps are recovered from the evaluation points where the Newton step is large enough to resolve them"};
   return r.main(argc, argv);
}
