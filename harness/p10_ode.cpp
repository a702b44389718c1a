// P10: time integration: FirstOrderODE, TimeDependentResidual, relaxation RK
// solvers and the time loop of AbstractSolver2
#include "mpi_init.hpp"
#include "abstract_solver.hpp"
#include "mfem_extensions.hpp"
#include "matrix_operators.hpp"
#include "ode.hpp"
#include "utils.hpp"

using namespace pbt;
using namespace mfem;
using miso::MISOInputs;
using LD = long double;
using LV = std::vector<long double>;
namespace
{
LV lv(const Vector &x) { LV v(x.Size()); for (int i = 0; i < x.Size(); ++i) { v[i] = x(i); } return v; }
LD nrm(const LV &v) { LD s = 0; for (auto x : v) { s += x * x; } return sqrtl(s); }

LV lu_solve(std::vector<LV> A, LV b)
{
   int n = (int)b.size();
   for (int k = 0; k < n; ++k)
   {
      int p = k;
      for (int i = k + 1; i < n; ++i) { if (fabsl(A[i][k]) > fabsl(A[p][k])) { p = i; } }
      std::swap(A[k], A[p]);
      std::swap(b[k], b[p]);
      for (int i = k + 1; i < n; ++i)
      {
         LD f = A[i][k] / A[k][k];
         for (int j = k; j < n; ++j) { A[i][j] -= f * A[k][j]; }
         b[i] -= f * b[k];
      }
   }
   for (int i = n - 1; i >= 0; --i)
   {
      for (int j = i + 1; j < n; ++j) { b[i] -= A[i][j] * b[j]; }
      b[i] /= A[i][i];
   }
   return b;
}

/// M u' + A u + s*sin(u) + p(t) = 0, entropies: u'Mu/2, or sum exp(u) for M = I
struct Model
{
   int n = 1, mass = 0;                    // mass: 0 none, 1 hypre, 2 block, 3 explicit identity
   bool exp_entropy = false;
   std::vector<LV> A, M;
   LV s;
   std::vector<LV> p;                      // polynomial coefficients in t
   LV load(LD t) const
   {
      LV r(n, 0.0L);
      for (int i = 0; i < n; ++i) { LD q = 1; for (auto c : p[i]) { r[i] += c * q; q *= t; } }
      return r;
   }
   LV R(const LV &u, LD t) const
   {
      LV r = load(t);
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j) { r[i] += A[i][j] * u[j]; }
         r[i] += s[i] * sinl(u[i]);
         if (exp_entropy) { r[i] = 0; for (int j = 0; j < n; ++j) { r[i] += A[i][j] * expl(u[j]); } }
      }
      return r;
   }
   std::vector<LV> J(const LV &u) const
   {
      auto J = A;
      for (int i = 0; i < n; ++i) { J[i][i] += s[i] * cosl(u[i]); }
      if (exp_entropy) { J = A; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { J[i][j] = A[i][j] * expl(u[j]); } } }
      return J;
   }
   LV f(const LV &u, LD t) const
   {
      auto r = R(u, t);
      for (auto &x : r) { x = -x; }
      return lu_solve(M, r);
   }
   /// solve M k + R(u + dt k, t) = 0
   LV implicit(const LV &u, LD dt, LD t) const
   {
      LV k(n, 0.0L);
      for (int it = 0; it < 60; ++it)
      {
         LV v(u);
         for (int i = 0; i < n; ++i) { v[i] += dt * k[i]; }
         LV r = R(v, t);
         auto Jm = J(v);
         for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { r[i] += M[i][j] * k[j]; Jm[i][j] = M[i][j] + dt * Jm[i][j]; } }
         LV d = lu_solve(Jm, r);
         for (int i = 0; i < n; ++i) { k[i] -= d[i]; }
         if (nrm(d) <= 1e-18L * (1 + nrm(k))) { break; }
      }
      return k;
   }
   LD entropy(const LV &u) const
   {
      LD e = 0;
      if (exp_entropy) { for (auto x : u) { e += expl(x); } return e; }
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { e += 0.5L * u[i] * M[i][j] * u[j]; } }
      return e;
   }
   /// d(entropy)/dt at state u with slope k
   LD rate(const LV &u, const LV &k) const
   {
      LD e = 0;
      if (exp_entropy) { for (int i = 0; i < n; ++i) { e += expl(u[i]) * k[i]; } return e; }
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { e += u[i] * M[i][j] * k[j]; } }
      return e;
   }
};

struct Spatial
{
   std::shared_ptr<Model> m;
   double time = NAN;
   DenseMatrix jac;
   std::shared_ptr<SparseMatrix> sp;
   std::shared_ptr<HypreParMatrix> hj;
   std::shared_ptr<std::vector<std::pair<double, LV>>> log;    // (time, state) of every evaluation
   std::shared_ptr<std::vector<std::pair<LV, LV>>> changes;    // (state, state_dot) of entropy changes
};
std::shared_ptr<SparseMatrix> sparse_of(const std::vector<LV> &d)
{
   int n = (int)d.size();
   auto s = std::make_shared<SparseMatrix>(n, n);
   for (int a = 0; a < n; ++a) { for (int b = 0; b < n; ++b) { s->Set(a, b, (double)d[a][b]); } }
   s->Finalize(0);
   return s;
}
int getSize(const Spatial &r) { return r.m->n; }
MPI_Comm getMPIComm(const Spatial &) { return MPI_COMM_SELF; }
void setInputs(Spatial &r, const MISOInputs &in) { miso::setValueFromInputs(in, "time", r.time); }
void evaluate(Spatial &r, const MISOInputs &in, Vector &out)
{
   setInputs(r, in);
   Vector u;
   miso::setVectorFromInputs(in, "state", u, false, true);
   auto v = r.m->R(lv(u), r.time);
   r.log->push_back({r.time, lv(u)});
   out.SetSize(r.m->n);
   for (int i = 0; i < r.m->n; ++i) { out(i) = (double)v[i]; }
}
Operator &getJacobian(Spatial &r, const MISOInputs &in, const std::string &)
{
   Vector u;
   miso::setVectorFromInputs(in, "state", u, false, true);
   auto J = r.m->J(lv(u));
   int n = r.m->n;
   if (r.m->mass == 1)
   {
      static HYPRE_BigInt rs[2];
      rs[0] = 0;
      rs[1] = n;
      r.sp = sparse_of(J);
      r.hj = std::make_shared<HypreParMatrix>(MPI_COMM_SELF, n, rs, r.sp.get());
      return *r.hj;
   }
   r.jac.SetSize(n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { r.jac(i, j) = (double)J[i][j]; } }
   return r.jac;
}
double calcEntropy(Spatial &r, const MISOInputs &in)
{
   Vector u;
   miso::setVectorFromInputs(in, "state", u, false, true);
   return (double)r.m->entropy(lv(u));
}
double calcEntropyChange(Spatial &r, const MISOInputs &in)
{
   Vector u, k;
   double t, dt;
   miso::setVectorFromInputs(in, "state", u, false, true);
   miso::setVectorFromInputs(in, "state_dot", k, false, true);
   miso::setValueFromInputs(in, "time", t, true);
   miso::setValueFromInputs(in, "dt", dt, true);
   r.changes->push_back({lv(u), lv(k)});
   return -(double)r.m->rate(lv(u), lv(k));
}

/// solves with any operator by building its dense matrix
class Direct : public Solver
{
public:
   DenseMatrix m;
   void SetOperator(const Operator &op) override
   {
      height = width = op.Height();
      m.SetSize(height);
      Vector e(height), c(height);
      for (int j = 0; j < height; ++j) { e = 0.0; e(j) = 1.0; c = 0.0; op.Mult(e, c); m.SetCol(j, c); }
   }
   void Mult(const Vector &b, Vector &x) const override
   {
      std::vector<LV> A(height, LV(height));
      for (int i = 0; i < height; ++i) { for (int j = 0; j < height; ++j) { A[i][j] = m(i, j); } }
      auto r = lu_solve(A, lv(b));
      x.SetSize(height);
      for (int i = 0; i < height; ++i) { x(i) = (double)r[i]; }
   }
};

struct Setup
{
   std::shared_ptr<Model> m = std::make_shared<Model>();
   std::shared_ptr<std::vector<std::pair<double, LV>>> log = std::make_shared<std::vector<std::pair<double, LV>>>();
   std::shared_ptr<std::vector<std::pair<LV, LV>>> changes = std::make_shared<std::vector<std::pair<LV, LV>>>();
   std::unique_ptr<miso::MISOResidual> spatial, st;
   std::unique_ptr<Operator> mass;
   std::shared_ptr<SparseMatrix> msp;
   std::vector<std::unique_ptr<DenseMatrix>> blocks;
   Array<int> offs;
   HYPRE_BigInt rs[2];
   Direct lin;
   std::unique_ptr<NewtonSolver> newton;
   std::unique_ptr<miso::FirstOrderODE> ode;
   double L = 1;
   std::string desc;
};
void make_model(Gen &g, Setup &s, bool time_dep, bool conservative, bool exp_entropy, bool monotone = false)
{
   auto &m = *s.m;
   m.n = g.irange(1, 4);
   if (conservative || exp_entropy) { m.n = g.irange(2, 4); }
   int n = m.n;
   m.mass = exp_entropy ? g.pick({0, 3}) : g.irange(0, 3);
   m.exp_entropy = exp_entropy;
   m.A.assign(n, LV(n, 0.0L));
   m.M.assign(n, LV(n, 0.0L));
   m.s.assign(n, 0.0L);
   m.p.assign(n, LV());
   bool nl = !conservative && !exp_entropy && g.flip();
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < n; ++j) { m.A[i][j] = g.sym(1.0); }
      if (nl) { m.s[i] = g.sym(1.0); }
      if (time_dep) { int d = g.irange(0, 5); for (int k = 0; k <= d; ++k) { m.p[i].push_back(g.sym(1.0)); } }
   }
   if (conservative || exp_entropy)
   {
      for (int i = 0; i < n; ++i) { for (int j = 0; j <= i; ++j) { m.A[i][j] = i == j ? 0.0L : -m.A[j][i]; } }
   }
   // a monotone spatial operator: implicit steps of every size have a solution
   if (monotone) { for (int i = 0; i < n; ++i) { m.A[i][i] += n + 1; } }
   int nb = 1;
   s.offs.SetSize(2);
   s.offs[0] = 0;
   s.offs[1] = n;
   if (m.mass == 2 && n > 1)
   {
      nb = 2;
      s.offs.SetSize(3);
      s.offs[1] = g.irange(1, n - 1);
      s.offs[2] = n;
   }
   if (m.mass == 0 || m.mass == 3) { for (int i = 0; i < n; ++i) { m.M[i][i] = 1; } }
   else
   {
      // symmetric positive definite, block diagonal
      for (int b = 0; b < nb; ++b)
      {
         for (int i = s.offs[b]; i < s.offs[b + 1]; ++i)
         {
            for (int j = s.offs[b]; j < i; ++j) { m.M[i][j] = m.M[j][i] = g.sym(0.3); }
            m.M[i][i] = g.real(1.0, 3.0);
         }
      }
   }
   if (m.mass == 1)
   {
      s.msp = sparse_of(m.M);
      s.rs[0] = 0;
      s.rs[1] = n;
      s.mass = std::make_unique<HypreParMatrix>(MPI_COMM_SELF, n, s.rs, s.msp.get());
   }
   else if (m.mass == 2)
   {
      auto bm = std::make_unique<BlockOperator>(s.offs);
      for (int b = 0; b < nb; ++b)
      {
         int w = s.offs[b + 1] - s.offs[b];
         s.blocks.push_back(std::make_unique<DenseMatrix>(w));
         for (int i = 0; i < w; ++i) { for (int j = 0; j < w; ++j) { (*s.blocks.back())(i, j) = (double)m.M[s.offs[b] + i][s.offs[b] + j]; } }
         bm->SetBlock(b, b, s.blocks.back().get());
      }
      s.mass = std::move(bm);
   }
   else if (m.mass == 3) { s.mass = std::make_unique<IdentityOperator>(n); }
   s.spatial = std::make_unique<miso::MISOResidual>(Spatial{s.m, NAN, DenseMatrix(), nullptr, nullptr, s.log, s.changes});
   s.st = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*s.spatial, s.mass.get()));
   s.desc = str("n=", n, " mass=", m.mass, exp_entropy ? " exp" : conservative ? " conservative" : nl ? " nonlinear" : " linear");
   for (auto &row : m.A) { s.desc += " " + vec_str(row); }
   g.label(m.mass == 0 ? "no-mass" : m.mass == 1 ? "hypre-mass" : m.mass == 2 ? "block-mass" : "identity-mass");
}
void make_newton(Gen &g, Setup &s, bool relaxed)
{
   nlohmann::json o = {{"type", relaxed ? "relaxednewton" : "newton"}, {"abstol", 1e-13}, {"reltol", 1e-13}, {"maxiter", 40}, {"printlevel", -1}};
   s.newton = miso::constructNonlinearSolver(MPI_COMM_SELF, o, s.lin);
   s.newton->SetOperator(*s.st);
   if (relaxed) { g.label("relaxed"); }
}

const char *methods[] = {"RK1", "RK4", "MIDPOINT", "PTC"};
/// one step of the named method, and the times of the stages
LV reference(const Model &m, const std::string &type, const LV &u, LD t, LD dt, std::vector<LD> &times)
{
   int n = m.n;
   LV out(u);
   auto ax = [&](const LV &a, LD c, const LV &k) { LV r(a); for (int i = 0; i < n; ++i) { r[i] += c * k[i]; } return r; };
   if (type == "RK1") { times = {t}; return ax(u, dt, m.f(u, t)); }
   if (type == "RK4")
   {
      times = {t, t + dt / 2, t + dt};
      LV k1 = m.f(u, t), k2 = m.f(ax(u, dt / 2, k1), t + dt / 2), k3 = m.f(ax(u, dt / 2, k2), t + dt / 2), k4 = m.f(ax(u, dt, k3), t + dt);
      for (int i = 0; i < n; ++i) { out[i] += dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); }
      return out;
   }
   if (type == "PTC") { times = {t + dt}; return ax(u, dt, m.implicit(u, dt, t + dt)); }
   times = {t + dt / 2};
   return ax(u, dt, m.implicit(u, dt / 2, t + dt / 2));
}
Vector start(Gen &g, int n, double mag = 2.0)
{
   Vector u(n);
   for (int i = 0; i < n; ++i) { u(i) = g.sym(mag); }
   return u;
}

void steps(Gen &g)
{
   Setup s;
   std::string type = methods[g.irange(0, 3)];
   make_model(g, s, true, false, false, type == "MIDPOINT" || type == "PTC");
   bool relaxed = g.chance(1, 3);
   make_newton(g, s, relaxed);
   nlohmann::json o = {{"type", type}};
   s.ode = std::make_unique<miso::FirstOrderODE>(*s.st, o, *s.newton);
   int n = s.m->n;
   Vector u = start(g, n);
   double t = g.pick({0.0, 1.0, -0.5});
   int ns = g.irange(1, 5);
   std::string hist = s.desc + " " + type + str(" t=", t, " u=", vec_str(u, n));
   g.label(type);
   for (int k = 0; k < ns; ++k)
   {
      double dt = g.pick({0.1, 0.01, 0.2, 0.05});
      if (g.flip()) { dt = g.real(0.001, 0.3); }
      hist += str("; dt=", dt);
      g.note(hist);
      s.log->clear();
      LV u0 = lv(u);
      std::vector<LD> times;
      LV want = reference(*s.m, type, u0, t, dt, times);
      double t0 = t, dt0 = dt;
      s.ode->step(u, t, dt);
      g.close(t, t0 + dt0, 1e-15 * (1 + std::fabs(t)), "time-after-step");
      g.check(dt == dt0, "step-size-changed");
      LD sc = 1 + nrm(u0) + nrm(want);
      for (int i = 0; i < n; ++i) { g.close(u(i), (double)want[i], (s.m->mass == 2 ? 1e-9 : 1e-11) * (double)sc, "one-step:" + type, str("component ", i, " step ", k)); }
      // stage times
      g.check(!s.log->empty(), "residual-never-evaluated");
      std::vector<int> seen(times.size(), 0);
      for (auto &e : *s.log)
      {
         bool ok = false;
         for (size_t q = 0; q < times.size(); ++q) { if (fabsl(e.first - times[q]) <= 1e-14L * (1 + fabsl(times[q]))) { ok = true; seen[q] = 1; } }
         g.check(ok, "stage-time:" + type, str("residual evaluated at time ", e.first, " in a step from ", t0, " of ", dt0));
      }
      for (size_t q = 0; q < times.size(); ++q) { g.check(seen[q], "stage-missing:" + type, str("no evaluation at ", (double)times[q])); }
   }
   g.nontrivial(true);
}

/// M k + R(u + dt k, t) = 0 as a residual of its own
void residual(Gen &g)
{
   Setup s;
   make_model(g, s, true, false, false);
   int n = s.m->n;
   g.check(miso::getSize(*s.st) == n, "size");
   int ops = g.irange(1, 4);
   std::string hist = s.desc;
   for (int q = 0; q < ops; ++q)
   {
      Vector u = start(g, n), k = start(g, n), r(n), v = start(g, n);
      double t = g.sym(2), dt = g.chance(1, 3) ? 0.0 : g.pick({0.5, 0.1, 1e-3, 2.0, 1e-10});
      hist += str("; u=", vec_str(u, n), " k=", vec_str(k, n), " t=", t, " dt=", dt);
      g.note(hist);
      MISOInputs in{{"state", u}, {"state_dot", k}, {"dt", dt}, {"time", t}};
      miso::setInputs(*s.st, in);
      int how = g.irange(0, 2);
      Vector x(k);
      if (how == 2) { x = v; g.label("iterate-elsewhere"); }
      r = g.flip() ? 3.0 : std::nan("");
      // the nonlinear solver's iterate x stands for the time derivative
      s.st->Mult(x, r);
      LV w = lv(u);
      for (int i = 0; i < n; ++i) { w[i] += (LD)dt * x(i); }
      LV e = s.m->R(w, t);
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j) { e[i] += s.m->M[i][j] * x(j); }
         g.close(r(i), (double)e[i], 1e-13 * (double)(10 + nrm(w) * n + nrm(e)), dt == 0 ? "explicit-residual" : "implicit-residual", str("row ", i));
      }
      Operator &J = s.st->GetGradient(x);
      Vector y(n);
      J.Mult(v, y);
      auto Js = s.m->J(w);
      for (int i = 0; i < n; ++i)
      {
         LD z = 0;
         for (int j = 0; j < n; ++j) { z += (s.m->M[i][j] + (LD)dt * Js[i][j]) * v(j); }
         double tol = s.m->mass == 2 && dt != 0 ? 1e-4 * dt : 0.0;
         g.close(y(i), (double)z, tol + 1e-12 * (1 + dt) * (double)(1 + nrm(lv(v)) * 10), dt == 0 ? "explicit-jacobian" : "implicit-jacobian", str("row ", i));
      }
      // entropy and its change are those of the spatial residual
      g.close(miso::calcEntropy(*s.st, {{"state", u}}), (double)s.m->entropy(lv(u)), 1e-13 * (1 + (double)s.m->entropy(lv(u))), "entropy");
      g.close(miso::calcEntropyChange(*s.st, {{"state", u}, {"state_dot", k}, {"time", t}, {"dt", dt}}), -(double)s.m->rate(lv(u), lv(k)), 1e-12 * (10 + u.Norml2() * k.Norml2()), "entropy-change");
      if (dt != 0) { g.nontrivial(true); }
   }
}

/// mfem's own eighth-stage sixth-order method as the baseline of RRK6
class Plain : public TimeDependentOperator
{
public:
   const Model &m;
   Plain(const Model &mm) : TimeDependentOperator(mm.n, 0.0), m(mm) { }
   void Mult(const Vector &x, Vector &y) const override
   {
      auto f = m.f(lv(x), t);
      y.SetSize(m.n);
      for (int i = 0; i < m.n; ++i) { y(i) = (double)f[i]; }
   }
};

void relaxation(Gen &g)
{
   Setup s;
   std::string type = g.pick({"RRK6", "RRK", "RRKMIDPOINT"});
   bool ex = g.flip(), cons = ex || g.flip();
   bool timed = !cons && g.flip();   // a load that changes in time: stages are evaluated at their own time
   make_model(g, s, timed, cons, ex);
   if (timed) { g.label("time-dependent"); }
   if (s.m->mass == 2 && type != "RRK6") { g.label("jacobian-free"); }
   make_newton(g, s, g.chance(1, 4));
   std::ostringstream sink;
   s.ode = std::make_unique<miso::FirstOrderODE>(*s.st, nlohmann::json{{"type", type}}, *s.newton, g.chance(1, 8) ? &sink : nullptr);
   int n = s.m->n;
   Vector u = start(g, n, ex ? 1.0 : 2.0);
   if (u.Norml2() < 0.05) { g.discard(); }
   double t = timed ? g.sym(1.0) : 0.0;
   int ns = g.irange(1, 4);
   std::string hist = s.desc + " " + type + str(" u=", vec_str(u, n));
   g.label(type);
   g.label(cons ? "conservative" : "dissipative");
   LD e0 = s.m->entropy(lv(u));
   for (int k = 0; k < ns; ++k)
   {
      double dt = g.real(0.02, 0.25), t0 = t, dt0 = dt;
      hist += str("; dt=", dt);
      g.note(hist);
      LV u0 = lv(u);
      // baseline direction
      LV d(n);
      if (type == "RRK6")
      {
         Plain p(*s.m);
         RK6Solver rk;
         rk.Init(p);
         Vector x(u);
         double tt = t, dd = dt;
         rk.Step(x, tt, dd);
         for (int i = 0; i < n; ++i) { d[i] = x(i) - u0[i]; }
      }
      else
      {
         auto km = s.m->implicit(u0, (LD)dt / 2, t + (LD)dt / 2);
         for (int i = 0; i < n; ++i) { d[i] = dt * km[i]; }
      }
      if (nrm(d) < 1e-3L) { g.discard(); }
      s.changes->clear();
      s.ode->step(u, t, dt);
      g.check(dt == dt0, "step-size-changed");
      g.check(std::isfinite(t), "time-not-finite");
      double gamma = (t - t0) / dt0;
      // a step in the direction of the baseline method, scaled like the time step
      double tol = (type == "RRK6" ? 1e-10 : s.m->mass == 2 ? 1e-9 : 1e-11) * (1 + (double)nrm(u0));
      for (int i = 0; i < n; ++i) { g.close(u(i), (double)(u0[i] + (LD)gamma * d[i]), tol * 3, "step-along-the-baseline-direction:" + type, str("component ", i, " gamma ", gamma)); }
      g.check(std::fabs(gamma - 1) < 0.35, "relaxation-far-from-one:" + type, str("gamma ", gamma));
      // the entropy balance
      LD rate = 0;
      if (type == "RRK6")
      {
         static const LD b[8] = {.3438957868357036009278820124728322386520e-1L, 0.L, 0.L, .2582624555633503404659558098586120858767L, .4209371189673537150642551514069801967032L, 4.405396469669310170148836816197095664891L, -176.4831190242986576151740942499002125029L, 172.3641334014150730294022582711902413315L};
         g.check(s.changes->size() == 8, "entropy-change-evaluations", str(s.changes->size()));
         for (int q = 0; q < 8; ++q) { rate += b[q] * s.m->rate((*s.changes)[q].first, (*s.changes)[q].second); }
         // every entropy change is taken at a stage: its slope is the slope there
         for (auto &c : *s.changes)
         {
            if (timed) { continue; }
            auto f = s.m->f(c.first, t0);
            for (int i = 0; i < n; ++i) { g.close((double)c.second[i], (double)f[i], 1e-9 * (1 + (double)nrm(f)), "entropy-change-slope"); }
         }
      }
      else
      {
         LV mid(u0), km(d);
         for (int i = 0; i < n; ++i) { mid[i] += 0.5L * d[i]; km[i] /= dt0; }
         rate = s.m->rate(mid, km);
      }
      LD eold = s.m->entropy(u0), enew = s.m->entropy(lv(u));
      g.close((double)enew, (double)(eold + (LD)gamma * dt0 * rate), 1e-9 * (double)(1 + eold), "entropy-balance:" + type, str("gamma ", gamma, " old ", (double)eold));
      if (cons) { g.close((double)enew, (double)e0, 1e-9 * (double)(1 + e0) * (k + 1), "entropy-not-conserved:" + type, str("step ", k)); }
      if (std::fabs(gamma - 1) > 1e-8) { g.label("gamma-differs-from-one"); g.nontrivial(true); }
   }
}

void factory(Gen &g)
{
   Setup s;
   make_model(g, s, true, false, false);
   make_newton(g, s, false);
   std::string type = g.pick({"RK1", "RK4", "MIDPOINT", "RRK", "RRKMIDPOINT", "RRK6", "PTC", "steady", "rk4", "RK2", "", "BackwardEuler", "Steady", "RRK4"});
   bool known = type == "RK1" || type == "RK4" || type == "MIDPOINT" || type == "RRK" || type == "RRKMIDPOINT" || type == "RRK6" || type == "PTC" || type == "steady";
   nlohmann::json o = {{"type", type}};
   bool deprecated = g.chance(1, 5);
   if (deprecated) { o["ode-solver"] = "RK4"; known = false; }
   g.note(o.dump() + " " + s.desc);
   try
   {
      miso::FirstOrderODE ode(*s.st, o, *s.newton);
      g.check(known, "unknown-type-accepted", type);
      g.check(ode.Height() == s.m->n, "size");
      g.label("accepted");
   }
   catch (const miso::MISOException &e)
   {
      g.check(!known, "known-type-rejected", type);
      g.label("rejected");
      return;
   }
   // the steady type solves R(x) = 0 and advances the time by the step
   if (type == "steady")
   {
      auto &m = *s.m;
      for (int i = 0; i < m.n; ++i) { m.A[i][i] += m.A[i][i] >= 0 ? 2.0L + m.n : -2.0L - m.n; }
      nlohmann::json no = {{"type", "newton"}, {"abstol", 1e-13}, {"reltol", 1e-13}, {"maxiter", 40}, {"printlevel", -1}};
      if (m.mass == 2) { return; }
      auto nw = miso::constructNonlinearSolver(MPI_COMM_SELF, no, s.lin);
      nw->SetOperator(*s.spatial);
      miso::FirstOrderODE ode(*s.spatial, o, *nw);
      Vector u = start(g, m.n);
      double t = 0.5, dt = 0.25;
      s.log->clear();
      Vector u0(u);
      ode.step(u, t, dt);
      g.close(t, 0.75, 0.0, "steady-time");
      LV r = m.R(lv(u), 0.75);
      g.check((double)nrm(r) < 1e-10, "steady-step-not-solved", str((double)nrm(r)));
      // started from the given state
      g.check(!s.log->empty() && nrm(s.log->front().second) == nrm(lv(u0)), "steady-solve-ignores-the-initial-guess");
      g.nontrivial(true);
   }
}

/// the time loop
class March : public miso::AbstractSolver2
{
public:
   struct Rec { char kind; int iter; double t, dt; LV u; };
   mutable std::vector<Rec> rec;
   Setup s;
   int stop_after = -1;
   bool vary = false;
   std::vector<double> dts;
   March(const nlohmann::json &o) : AbstractSolver2(MPI_COMM_SELF, o) { }
   void build(Gen &g, bool implicit)
   {
      make_model(g, s, true, false, false, implicit);
      make_newton(g, s, false);
      ode = std::make_unique<miso::FirstOrderODE>(*s.st, options["time-dis"], *s.newton);
   }
   void log_with(miso::DataLogger l, miso::LoggingOptions o) { addLogger(std::move(l), std::move(o)); }
   void initialHook(const Vector &u) override { rec.push_back({'i', 0, 0, 0, lv(u)}); AbstractSolver2::initialHook(u); }
   void iterationHook(int i, double t, double dt, const Vector &u) override { rec.push_back({'s', i, t, dt, lv(u)}); AbstractSolver2::iterationHook(i, t, dt, u); }
   void terminalHook(int i, double t, const Vector &u) override { rec.push_back({'t', i, t, 0, lv(u)}); AbstractSolver2::terminalHook(i, t, u); }
};
/// a directory of its own for the files of one case
struct Scratch
{
   std::string dir;
   std::filesystem::path old;
   Scratch()
   {
      char t[] = "/tmp/pbtodeXXXXXX";
      if (mkdtemp(t) == nullptr) { throw std::runtime_error("mkdtemp"); }
      dir = t;
      old = std::filesystem::current_path();
      std::filesystem::current_path(dir);
   }
   ~Scratch()
   {
      std::filesystem::current_path(old);
      if (dir.compare(0, 11, "/tmp/pbtode") == 0) { std::filesystem::remove_all(dir); }
   }
};
void march(Gen &g)
{
   std::string type = methods[g.irange(0, 3)];
   double t0 = g.pick({0.0, 1.0, -0.3}), len = g.pick({0.5, 1.0, 0.3, 0.7}), dt = g.pick({0.1, 0.05, 0.3, 0.25, 0.7, 2.0});
   if (g.flip()) { dt = g.real(0.02, 0.5); }
   int maxit = g.pick({10000, 3, 1, 5, 10});
   bool exact = true;
   nlohmann::json o = {{"silent", true}, {"print-options", false}, {"time-dis", {{"type", type}, {"t-final", t0 + len}, {"dt", dt}, {"max-iter", maxit}}}};
   if (t0 != 0) { o["time-dis"]["t-initial"] = t0; }
   if (g.chance(1, 3)) { exact = g.flip(); o["time-dis"]["exact-t-final"] = exact; }
   g.label(type);
   March m(o);
   m.build(g, type == "MIDPOINT" || type == "PTC");
   int n = m.s.m->n;
   Vector u = start(g, n);
   LV u0 = lv(u);
   miso::LoggingOptions lo{g.flip(), g.flip(), g.flip()};
   bool log = g.chance(1, 4);
   std::unique_ptr<Scratch> scratch;
   if (log) { m.log_with(miso::BinaryLogger{}, lo); g.label("logged"); scratch = std::make_unique<Scratch>(); }
   g.note(m.s.desc + " " + o.dump() + str(" u=", vec_str(u, n), " log=", log, lo.initial_state, lo.each_timestep, lo.final_state));
   double tf = o["time-dis"]["t-final"];
   m.solveForState(u);
   auto &r = m.rec;
   g.check(r.size() >= 3 && r.front().kind == 'i' && r.back().kind == 't', "hook-order");
   for (int i = 0; i < n; ++i) { g.check(r.front().u[i] == u0[i], "initial-state-logged"); g.check(r.back().u[i] == u(i), "final-state-logged"); }
   int ns = (int)r.size() - 2;
   g.check(ns >= 1 && ns <= maxit, "number-of-steps", str(ns));
   double t = t0;
   LV v = u0;
   for (int k = 0; k < ns; ++k)
   {
      auto &e = r[k + 1];
      g.check(e.kind == 's', "hook-order");
      g.check(e.iter == k, "iteration-number", str(e.iter, " at step ", k));
      g.close(e.t, t, 1e-14 * (1 + std::fabs(t)), "time-before-step", str("step ", k));
      double want = exact ? std::min(dt, tf - e.t) : dt;
      g.close(e.dt, want, 1e-14 * (1 + std::fabs(t)), "step-size", str("step ", k));
      // not past the end
      g.check(e.t < tf - 1e-14 * dt, "step-after-the-end", str("t ", e.t));
      LD sc = 1 + nrm(v) + nrm(e.u);
      for (int i = 0; i < n; ++i) { g.close((double)e.u[i], (double)v[i], (m.s.m->mass == 2 ? 1e-8 : 1e-10) * (double)sc, "state-before-step", str("step ", k)); }
      std::vector<LD> times;
      v = reference(*m.s.m, type, e.u, e.t, e.dt, times);
      t = e.t + e.dt;
   }
   LD sc = 1 + nrm(v) + nrm(lv(u));
   for (int i = 0; i < n; ++i) { g.close(u(i), (double)v[i], (m.s.m->mass == 2 ? 1e-8 : 1e-10) * (double)sc, "final-state"); }
   g.close(r.back().t, t, 1e-13 * (1 + std::fabs(t)), "final-time");
   if (ns < maxit)
   {
      g.label("reached-the-end");
      if (exact) { g.close(r.back().t, tf, 1e-12, "does-not-end-at-the-final-time"); }
      else { g.check(r.back().t >= tf - 1e-12 && r.back().t < tf + dt, "does-not-end-after-the-final-time"); }
      g.check(ns <= (int)std::ceil(len / dt) + 1, "too-many-steps", str(ns));
   }
   else { g.label("iteration-limit"); }
   if (log)
   {
      auto exists = [&](int k) { return std::filesystem::exists(str("BinaryLogger/state_", k, "_0")) || std::filesystem::exists(str("BinaryLogger//state_", k, "_0")); };
      auto read = [&](int k, LV &x, double &tt) { Vector y; miso::BinaryLogger::readState("state", k, 0, tt, y); x = lv(y); };
      int last = r.back().iter;
      for (int k = 0; k <= ns + 1; ++k)
      {
         bool want = (k == 0 && lo.initial_state) || (k < ns && lo.each_timestep) || (k == last && lo.final_state);
         g.check(exists(k) == want, want ? "state-not-logged" : "state-logged-without-being-asked", str("step ", k));
         if (!want) { continue; }
         LV x;
         double tt;
         read(k, x, tt);
         const LV *e = k == last && lo.final_state ? &r.back().u : k < ns && lo.each_timestep ? &r[k + 1].u : &u0;
         double te = k == last && lo.final_state ? r.back().t : k < ns && lo.each_timestep ? r[k + 1].t : 0.0;
         g.check(x == *e, "logged-state-differs", str("step ", k));
         if (!(k == 0 && lo.initial_state && !lo.each_timestep && last != 0)) { g.check(tt == te, "logged-time-differs", str("step ", k, " ", tt, " vs ", te)); }
      }
   }
   g.nontrivial(ns >= 2);
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P10", {{"steps", steps, 20000, 400000}, {"residual", residual, 40000, 600000}, {"relaxation", relaxation, 20000, 300000}, {"factory", factory, 10000, 100000}, {"march", march, 10000, 200000}},
            "random linear and nonlinear systems with time-dependent loads, mass operators of every supported kind, step sizes, entropies and time-loop options; "
            "non-trivial: an implicit residual, a step taken, a relaxation parameter that differs from one, or a loop of at least two steps");
   r.assumptions = {"states and systems of moderate size (the nonlinear solves of the reference converge); entropy balance is judged for steps small enough that the relaxation parameter is near one"};
   return r.main(argc, argv);
}
