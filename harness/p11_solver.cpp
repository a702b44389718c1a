// P11: the solver interface (AbstractSolver2), inputs and the type-erased
// residual, load and output wrappers
#include "mpi_init.hpp"
#include <deque>
#include "default_options.hpp"
#include "abstract_solver.hpp"
#include "miso_load.hpp"
#include "mfem_extensions.hpp"
#include "utils.hpp"

using namespace pbt;
using namespace mfem;
using miso::MISOInputs;
using miso::InputVector;
using json = nlohmann::json;
using LV = std::vector<double>;
namespace
{
LV lv(const Vector &x) { return LV(x.GetData(), x.GetData() + x.Size()); }

// ---------------------------------------------------------------- the model
/// r(x, p, s) = A x + c x^3 + B p + s d - f
struct Data
{
   int n = 1, m = 1;
   DenseMatrix A, B;
   Vector c, d, f;
};
struct Calls
{
   int setup = 0, evals = 0, setopts = 0, lin = 0;
   json opts;
};
struct Alg
{
   std::shared_ptr<Data> q;
   std::shared_ptr<Calls> calls;
   Vector x, p;
   double s = 0.0;
   std::unique_ptr<DenseMatrix> jac, jact;
   LV lx;
};
int getSize(const Alg &r) { return r.q->n; }
MPI_Comm getMPIComm(const Alg &) { return MPI_COMM_SELF; }
void setInputs(Alg &r, const MISOInputs &in)
{
   miso::setVectorFromInputs(in, "state", r.x, true);
   miso::setVectorFromInputs(in, "p", r.p, true);
   miso::setValueFromInputs(in, "s", r.s);
}
void setOptions(Alg &r, const json &o) { r.calls->setopts++; r.calls->opts = o; }
void value(const Data &q, const Vector &x, const Vector &p, double s, Vector &r)
{
   r.SetSize(q.n);
   for (int i = 0; i < q.n; ++i)
   {
      double v = q.c(i) * x(i) * x(i) * x(i) + s * q.d(i) - q.f(i);
      for (int j = 0; j < q.n; ++j) { v += q.A(i, j) * x(j); }
      for (int j = 0; j < q.m; ++j) { v += q.B(i, j) * p(j); }
      r(i) = v;
   }
}
void jacobian(const Data &q, const Vector &x, DenseMatrix &J)
{
   J = q.A;
   for (int i = 0; i < q.n; ++i) { J(i, i) += 3 * q.c(i) * x(i) * x(i); }
}
void evaluate(Alg &r, const MISOInputs &in, Vector &res)
{
   setInputs(r, in);
   r.calls->evals++;
   value(*r.q, r.x, r.p, r.s, res);
}
Operator &getJacobian(Alg &r, const MISOInputs &in, const std::string &wrt)
{
   setInputs(r, in);
   if (wrt != "state") { throw miso::MISOException("unexpected wrt " + wrt); }
   r.jac = std::make_unique<DenseMatrix>();
   jacobian(*r.q, r.x, *r.jac);
   return *r.jac;
}
Operator &getJacobianTranspose(Alg &r, const MISOInputs &in, const std::string &wrt)
{
   setInputs(r, in);
   if (wrt != "state") { throw miso::MISOException("unexpected wrt " + wrt); }
   r.jact = std::make_unique<DenseMatrix>();
   jacobian(*r.q, r.x, *r.jact);
   r.jact->Transpose();
   return *r.jact;
}
void linearize(Alg &r, const MISOInputs &in)
{
   setInputs(r, in);
   r.calls->lin++;
   r.lx = lv(r.x);
}
double jacobianVectorProduct(Alg &r, const Vector &w, const std::string &wrt)
{
   return wrt == "s" ? (r.q->d * r.q->f) * w(0) : -123.0;
}
void jacobianVectorProduct(Alg &r, const Vector &w, const std::string &wrt, Vector &res)
{
   if (wrt == "state")
   {
      Vector x(r.lx.data(), r.q->n);
      DenseMatrix J;
      jacobian(*r.q, x, J);
      J.AddMult(w, res);
   }
   else if (wrt == "p") { r.q->B.AddMult(w, res); }
   else if (wrt == "s") { res.Add(w(0), r.q->d); }
}
double vectorJacobianProduct(Alg &r, const Vector &b, const std::string &wrt)
{
   return wrt == "s" ? b * r.q->d : 0.0;
}
void vectorJacobianProduct(Alg &r, const Vector &b, const std::string &wrt, Vector &bar)
{
   if (wrt == "state")
   {
      Vector x(r.lx.data(), r.q->n);
      DenseMatrix J;
      jacobian(*r.q, x, J);
      J.AddMultTranspose(b, bar);
   }
   else if (wrt == "p") { r.q->B.AddMultTranspose(b, bar); }
   else if (wrt == "s") { bar(0) += b * r.q->d; }
}
// the right-hand side may be adapted in place (the caller's must not change),
// the adjoint afterwards
void setUpAdjointSystem(Alg &r, Solver &solver, const MISOInputs &in, Vector &bar, Vector &)
{
   bar *= 0.5;
   r.calls->setup++;
   solver.SetOperator(getJacobianTranspose(r, in, "state"));
}
void finalizeAdjointSystem(Alg &r, Solver &, const MISOInputs &, Vector &, Vector &adj) { adj *= 2.0; r.calls->setup += 100; }
double calcEntropy(Alg &r, const MISOInputs &in) { setInputs(r, in); return 0.5 * (r.x * r.x); }
double calcEntropyChange(Alg &r, const MISOInputs &in) { setInputs(r, in); return r.x * r.q->f; }
double calcSupplyRate(Alg &r, const MISOInputs &in) { setInputs(r, in); return r.x * r.q->d; }
Operator *getMassMatrix(Alg &r, const json &o) { return o.value("mass", false) ? &r.q->A : nullptr; }
Solver *getPreconditioner(Alg &) { return nullptr; }
Operator &getJacobianBlock(Alg &r, const MISOInputs &in, int i) { auto &J = getJacobian(r, in, "state"); dynamic_cast<DenseMatrix &>(J) *= (i + 1.0); return J; }

/// a residual type that has only what is required
struct Bare
{
   int n;
};
int getSize(const Bare &r) { return r.n; }
void evaluate(Bare &, const MISOInputs &, Vector &res) { res = 7.0; }
Operator &getJacobian(Bare &, const MISOInputs &, const std::string &) { static IdentityOperator id(1); return id; }

// ---------------------------------------------------------------- outputs
/// scalar output alpha*(w.x) + s*(p.p): uses only what setInputs left
struct Scalar
{
   Vector w;
   double alpha = 1.0;
   Vector x, p;
   double s = 0.0;
};
int getSize(const Scalar &) { return 1; }
void setInputs(Scalar &o, const MISOInputs &in)
{
   miso::setVectorFromInputs(in, "state", o.x, true);
   miso::setVectorFromInputs(in, "p", o.p, true);
   miso::setValueFromInputs(in, "s", o.s);
}
void setOptions(Scalar &o, const json &j) { o.alpha = j.value("alpha", o.alpha); }
double calcOutput(Scalar &o, const MISOInputs &) { return o.alpha * (o.w * o.x) + o.s * (o.p * o.p); }
double calcOutputPartial(Scalar &o, const std::string &wrt, const MISOInputs &) { return wrt == "s" ? o.p * o.p : 0.0; }
void calcOutputPartial(Scalar &o, const std::string &wrt, const MISOInputs &, Vector &d)
{
   if (wrt == "state") { d.SetSize(o.w.Size()); d = 0.0; d.Add(o.alpha, o.w); }
   else if (wrt == "p") { d.SetSize(o.p.Size()); d = 0.0; d.Add(2.0 * o.s, o.p); }
}
double jacobianVectorProduct(Scalar &o, const Vector &v, const std::string &wrt)
{
   return wrt == "state" ? o.alpha * (o.w * v) : wrt == "p" ? 2.0 * o.s * (o.p * v) : (o.p * o.p) * v(0);
}
void jacobianVectorProduct(Scalar &o, const Vector &v, const std::string &wrt, Vector &d) { d(0) += 1000.0 + jacobianVectorProduct(o, v, wrt); }
double vectorJacobianProduct(Scalar &o, const Vector &b, const std::string &wrt) { return wrt == "s" ? b(0) * (o.p * o.p) : wrt == "state" ? b(0) * o.alpha * o.w(0) : 2.0 * b(0) * o.s * o.p(0); }
void vectorJacobianProduct(Scalar &o, const Vector &b, const std::string &wrt, Vector &d)
{
   if (wrt == "state") { d.Add(b(0) * o.alpha, o.w); }
   else if (wrt == "p") { d.Add(2.0 * o.s * b(0), o.p); }
}

/// vector-valued output alpha*W x + s
struct Field
{
   DenseMatrix W;
   double alpha = 1.0;
   Vector x;
   double s = 0.0;
};
int getSize(const Field &o) { return o.W.Height(); }
void setInputs(Field &o, const MISOInputs &in)
{
   miso::setVectorFromInputs(in, "state", o.x, true);
   miso::setValueFromInputs(in, "s", o.s);
}
void setOptions(Field &o, const json &j) { o.alpha = j.value("alpha", o.alpha); }
double calcOutput(Field &o, const MISOInputs &) { Vector y(o.W.Height()); o.W.Mult(o.x, y); return o.alpha * y.Sum(); }
void calcOutput(Field &o, const MISOInputs &, Vector &y)
{
   o.W.Mult(o.x, y);
   y *= o.alpha;
   y += o.s;
}
double jacobianVectorProduct(Field &o, const Vector &v, const std::string &wrt) { Vector y(o.W.Height()); o.W.Mult(v, y); return wrt == "state" ? o.alpha * y(0) : v(0); }
void jacobianVectorProduct(Field &o, const Vector &v, const std::string &wrt, Vector &d)
{
   if (wrt == "state") { o.W.AddMult_a(o.alpha, v, d); }
   else { d += v(0); }
}
double vectorJacobianProduct(Field &o, const Vector &b, const std::string &wrt)
{
   if (wrt == "s") { return b.Sum(); }
   Vector y(o.W.Width());
   o.W.MultTranspose(b, y);
   return o.alpha * y(0);
}
void vectorJacobianProduct(Field &o, const Vector &b, const std::string &wrt, Vector &d)
{
   if (wrt == "state") { Vector y(o.W.Width()); o.W.MultTranspose(b, y); d.Add(o.alpha, y); }
}
/// the least an output can have
struct BareOut
{
   double v = 3.0;
};
int getSize(const BareOut &) { return 1; }
double calcOutput(BareOut &o, const MISOInputs &) { return o.v; }

struct BareLoad
{
   double v = 1.0;
};
void addLoad(BareLoad &l, Vector &tv) { tv += l.v; }
/// load s*g(p): all functions
struct FullLoad
{
   Vector w;
   double s = 1.0;
   int opts = 0;
};
void setInputs(FullLoad &l, const MISOInputs &in) { miso::setValueFromInputs(in, "s", l.s); }
void setOptions(FullLoad &l, const json &o) { l.opts = o.value("k", -1); }
void addLoad(FullLoad &l, Vector &tv) { tv.Add(l.s * (1 + l.opts), l.w); }
double jacobianVectorProduct(FullLoad &l, const Vector &v, const std::string &wrt) { return wrt == "s" ? l.s * v.Sum() : 0.0; }
void jacobianVectorProduct(FullLoad &l, const Vector &v, const std::string &wrt, Vector &d) { if (wrt == "s") { d.Add(v(0), l.w); } }
double vectorJacobianProduct(FullLoad &l, const Vector &b, const std::string &wrt) { return wrt == "s" ? b * l.w : 0.0; }
void vectorJacobianProduct(FullLoad &l, const Vector &b, const std::string &wrt, Vector &d) { if (wrt == "w") { d.Add(l.s, b); } }

// ---------------------------------------------------------------- solver
class TestSolver : public miso::AbstractSolver2
{
public:
   Alg *alg = nullptr;
   std::shared_ptr<Data> q;
   std::shared_ptr<Calls> calls = std::make_shared<Calls>();
   std::vector<std::pair<std::string, json>> added;
   std::function<void(const std::string &, const json &)> adder;
   TestSolver(const json &o) : AbstractSolver2(MPI_COMM_SELF, o) { }
   void build(std::shared_ptr<Data> d, bool newton)
   {
      q = d;
      spatial_res = std::make_unique<miso::MISOResidual>(Alg{d, calls});
      if (newton)
      {
         linear_solver = miso::constructLinearSolver(comm, options["lin-solver"], nullptr);
         nonlinear_solver = miso::constructNonlinearSolver(comm, options["nonlin-solver"], *linear_solver);
         nonlinear_solver->SetOperator(*spatial_res);
      }
   }
   void log_with(miso::DataLogger l, miso::LoggingOptions o) { addLogger(std::move(l), std::move(o)); }
   void make_ode()
   {
      // any time integrator will do: only its presence matters here
      space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*spatial_res));
      ode = std::make_unique<miso::FirstOrderODE>(*space_time_res, options["time-dis"], *nonlinear_solver);
   }
   void put(const std::string &k, miso::MISOOutput o) { outputs.emplace(k, std::move(o)); }
   miso::MISOResidual &res() { return *spatial_res; }
   bool has_newton() const { return bool(nonlinear_solver); }
protected:
   void addOutput(const std::string &o, const json &j) override
   {
      added.emplace_back(o, j);
      if (adder) { adder(o, j); }
   }
};

struct Scratch
{
   std::string dir;
   std::filesystem::path old;
   Scratch()
   {
      char t[] = "/tmp/pbtsolXXXXXX";
      if (mkdtemp(t) == nullptr) { throw std::runtime_error("mkdtemp"); }
      dir = t;
      old = std::filesystem::current_path();
      std::filesystem::current_path(dir);
   }
   ~Scratch()
   {
      std::filesystem::current_path(old);
      if (dir.compare(0, 11, "/tmp/pbtsol") == 0) { std::filesystem::remove_all(dir); }
   }
};

Vector vec(Gen &g, int n, double m = 2.0) { Vector v(n); for (int i = 0; i < n; ++i) { v(i) = g.sym(m); } return v; }
std::shared_ptr<Data> make_data(Gen &g, bool monotone)
{
   auto q = std::make_shared<Data>();
   q->n = g.irange(1, 5);
   q->m = g.irange(1, 4);
   q->A.SetSize(q->n);
   q->B.SetSize(q->n, q->m);
   for (int i = 0; i < q->n; ++i)
   {
      for (int j = 0; j < q->n; ++j) { q->A(i, j) = g.sym(1.0); }
      if (monotone) { q->A(i, i) += q->n + 1.0; }
      for (int j = 0; j < q->m; ++j) { q->B(i, j) = g.sym(1.0); }
   }
   q->c = vec(g, q->n);
   q->d = vec(g, q->n);
   q->f = vec(g, q->n);
   if (monotone) { for (int i = 0; i < q->n; ++i) { q->c(i) = std::fabs(q->c(i)); } }
   return q;
}
const json quiet = {{"silent", true}, {"print-options", false}};
double tol(double a, double b) { return 1e-10 * (1 + std::fabs(a) + std::fabs(b)); }
void same(Gen &g, const Vector &a, const LV &b, const std::string &key)
{
   g.check(a.Size() == (int)b.size(), key, "size");
   for (int i = 0; i < a.Size(); ++i) { g.close(a(i), b[i], tol(a(i), b[i]), key, str("component ", i)); }
}
template <typename E, typename F>
bool throws(F f)
{
   try { f(); }
   catch (const E &) { return true; }
   return false;
}

// ---------------------------------------------------------------- options
json any_json(Gen &g, int depth)
{
   switch (g.draw(depth > 0 ? 8 : 6))
   {
   case 0: return g.irange(-3, 9);
   case 1: return g.flip();
   case 2: return g.sym(3.0);
   case 3: return g.pick({std::string("newton"), std::string(""), std::string("RK4")});
   case 4: return nullptr;
   case 5: { json a = json::array(); int n = g.irange(0, 3); for (int i = 0; i < n; ++i) { a.push_back(g.irange(0, 5)); } return a; }
   default:
   {
      json o = json::object();
      int n = g.irange(0, 3);
      for (int i = 0; i < n; ++i)
      {
         o[g.pick({std::string("type"), std::string("abstol"), std::string("maxiter"), std::string("a"), std::string("b")})] = any_json(g, depth - 1);
      }
      return o;
   }
   }
}
/// RFC 7396
json ref_patch(json t, const json &p)
{
   if (!p.is_object()) { return p; }
   if (!t.is_object()) { t = json::object(); }
   for (auto &e : p.items())
   {
      if (e.value().is_null()) { t.erase(e.key()); }
      else { t[e.key()] = ref_patch(t.contains(e.key()) ? t[e.key()] : json(), e.value()); }
   }
   return t;
}
/// an object given for something that is not one: the JSON library refuses
bool conflict(const json &t, const json &p)
{
   for (auto &e : p.items())
   {
      if (!e.value().is_object() || !t.contains(e.key())) { continue; }
      if (!t[e.key()].is_object() || conflict(t[e.key()], e.value())) { return true; }
   }
   return false;
}
/// objects merge, everything else replaces
json ref_update(json t, const json &p)
{
   for (auto &e : p.items())
   {
      if (e.value().is_object() && t.contains(e.key()) && t[e.key()].is_object()) { t[e.key()] = ref_update(t[e.key()], e.value()); }
      else { t[e.key()] = e.value(); }
   }
   return t;
}
void options(Gen &g)
{
   auto doc = [&]()
   {
      json o = json::object();
      int n = g.irange(0, 5);
      for (int i = 0; i < n; ++i)
      {
         o[g.pick({std::string("time-dis"), std::string("nonlin-solver"), std::string("lin-solver"), std::string("mesh"), std::string("outputs"), std::string("user"), std::string("steady"), std::string("space-dis"), std::string("adj-solver")})] = any_json(g, 2);
      }
      return o;
   };
   json o = doc();
   o["silent"] = true;
   if (g.chance(1, 8)) { o["print-options"] = true; }
   else { o["print-options"] = false; }
   g.note(o.dump());
   json before = miso::default_options, arg = o;
   TestSolver s(o);
   g.check(o == arg, "caller-options-modified");
   g.check(miso::default_options == before, "default-options-modified");
   json want = ref_patch(miso::default_options, o);
   g.check(s.getOptions() == want, "options-not-merged", json::diff(s.getOptions(), want).dump());
   int k = g.irange(0, 3);
   for (int i = 0; i < k; ++i)
   {
      json u = doc();
      g.note("set " + u.dump());
      if (conflict(want, u)) { break; }
      s.setOptions(u);
      want = ref_update(want, u);
      g.check(s.getOptions() == want, "set-options", json::diff(s.getOptions(), want).dump());
   }
   // another solver is not affected
   TestSolver t(quiet);
   g.check(t.getOptions() == ref_patch(miso::default_options, quiet), "options-shared-between-solvers");
   g.nontrivial(o.size() > 3);
}

// ---------------------------------------------------------------- residual
/// inputs given so far, as the wrapped residual should know them
struct Known
{
   LV x, p;
   double s = 0.0;
};
struct Pool
{
   std::deque<Vector> v;      // everything handed to the solver stays alive ...
   std::deque<LV> copy;       // ... and must not be changed by it
   Vector &add(const Vector &a) { v.push_back(a); copy.push_back(lv(a)); return v.back(); }
   bool intact() const { for (size_t i = 0; i < v.size(); ++i) { if (lv(v[i]) != copy[i]) { return false; } } return true; }
};
MISOInputs some_inputs(Gen &g, const Data &q, Known &k, Pool &pool, bool first, std::string &d)
{
   MISOInputs in;
   if (first || g.chance(2, 3)) { auto &x = pool.add(vec(g, q.n)); k.x = lv(x); in.emplace("state", InputVector(x)); d += " state=" + vec_str(x, q.n); }
   if (first || g.flip()) { auto &p = pool.add(vec(g, q.m)); k.p = lv(p); in.emplace("p", InputVector(p.GetData(), p.Size())); d += " p=" + vec_str(p, q.m); }
   if (first || g.flip()) { k.s = g.sym(2.0); in.emplace("s", k.s); d += str(" s=", k.s); }
   if (g.chance(1, 4)) { auto &p = pool.add(vec(g, 3)); in.emplace("unused", p); in.emplace("time", 1.0); }
   return in;
}
LV ref_value(const Data &q, const Known &k)
{
   Vector x(const_cast<double *>(k.x.data()), q.n), p(const_cast<double *>(k.p.data()), q.m), r;
   value(q, x, p, k.s, r);
   return lv(r);
}
void residual(Gen &g)
{
   auto q = make_data(g, false);
   TestSolver s(quiet);
   if (g.chance(1, 10))
   {
      g.check(throws<miso::MISOException>([&] { s.getStateSize(); }), "state-size-without-residual");
   }
   s.build(q, false);
   g.check(s.getStateSize() == q->n, "state-size");
   for (std::string f : {"state", "residual", "adjoint"}) { g.check(s.getFieldSize(f) == q->n, "field-size", f); }
   for (std::string f : {"", "State", "mesh_coords", "stat"}) { g.check(s.getFieldSize(f) == 0, "field-size-unknown", f); }
   Known k;
   Pool pool;
   bool first = true;
   LV lx;
   int ops = g.irange(2, 8);
   g.note(str("n=", q->n, " m=", q->m));
   for (int i = 0; i < ops; ++i)
   {
      std::string d;
      switch (first ? 0 : g.irange(0, 6))
      {
      case 0:
      {
         auto in = some_inputs(g, *q, k, pool, first, d);
         first = false;
         Vector r(q->n);
         r = g.sym(1.0);
         s.calcResidual(in, r);
         g.note("residual" + d);
         same(g, r, ref_value(*q, k), "residual");
         break;
      }
      case 1:
      {
         auto &x = pool.add(vec(g, q->n));
         k.x = lv(x);
         Vector r(q->n);
         s.calcResidual(x, r);
         g.note("residual-at-state");
         same(g, r, ref_value(*q, k), "residual-at-state");
         break;
      }
      case 2:
      {
         double nr = 0.0;
         if (g.flip())
         {
            auto in = some_inputs(g, *q, k, pool, false, d);
            nr = s.calcResidualNorm(in);
         }
         else { auto &x = pool.add(vec(g, q->n)); k.x = lv(x); nr = s.calcResidualNorm(x); }
         g.note("norm" + d);
         double want = 0.0;
         for (double v : ref_value(*q, k)) { want += v * v; }
         g.close(nr, std::sqrt(want), tol(nr, nr), "residual-norm");
         break;
      }
      case 3:
      {
         auto in = some_inputs(g, *q, k, pool, false, d);
         int before = s.calls->lin;
         s.linearize(in);
         lx = k.x;
         g.check(s.calls->lin == before + 1, "linearize-not-forwarded");
         g.note("linearize" + d);
         break;
      }
      case 4:
      case 5:
      {
         if (lx.empty()) { break; }
         Vector x(lx.data(), q->n);
         DenseMatrix J;
         jacobian(*q, x, J);
         std::string wrt = g.pick({std::string("state"), std::string("p"), std::string("s")});
         bool fwd = g.flip();
         int w = wrt == "state" ? q->n : wrt == "p" ? q->m : 1;
         DenseMatrix M(q->n, w);
         for (int a = 0; a < q->n; ++a) { for (int b = 0; b < w; ++b) { M(a, b) = wrt == "state" ? J(a, b) : wrt == "p" ? q->B(a, b) : q->d(a); } }
         auto &dir = pool.add(vec(g, fwd ? w : q->n));
         Vector out = vec(g, fwd ? q->n : w);
         LV want = lv(out);
         for (int a = 0; a < q->n; ++a) { for (int b = 0; b < w; ++b) { if (fwd) { want[a] += M(a, b) * dir(b); } else { want[b] += M(a, b) * dir(a); } } }
         g.note(str(fwd ? "jvp " : "vjp ", wrt));
         if (fwd) { s.jacobianVectorProduct(dir, wrt, out); }
         else { s.vectorJacobianProduct(dir, wrt, out); }
         same(g, out, want, fwd ? "jacobian-vector-product" : "vector-jacobian-product");
         if (wrt == "s")
         {
            double v = fwd ? s.jacobianVectorProduct(dir, wrt) : s.vectorJacobianProduct(dir, wrt);
            double w0 = fwd ? (q->d * q->f) * dir(0) : dir * q->d;
            g.close(v, w0, tol(v, w0), "scalar-product");
         }
         g.nontrivial(true);
         break;
      }
      default:
      {
         // the wrapped residual as an operator, and its other functions
         auto &x = pool.add(vec(g, q->n));
         k.x = lv(x);
         Vector r(q->n);
         auto &op = s.res();
         g.check(op.Height() == q->n && op.Width() == q->n, "operator-size");
         op.Mult(x, r);
         same(g, r, ref_value(*q, k), "operator-mult");
         DenseMatrix J;
         jacobian(*q, x, J);
         auto &dir = pool.add(vec(g, q->n));
         Vector a(q->n), b(q->n);
         op.GetGradient(x).Mult(dir, a);
         J.Mult(dir, b);
         same(g, a, lv(b), "operator-gradient");
         MISOInputs in{{"state", x}};
         getJacobian(op, in, "state").Mult(dir, a);
         same(g, a, lv(b), "get-jacobian");
         getJacobianTranspose(op, in, "state").Mult(dir, a);
         J.MultTranspose(dir, b);
         same(g, a, lv(b), "get-jacobian-transpose");
         int ib = g.irange(0, 3);
         getJacobianBlock(op, in, ib).Mult(dir, a);
         J.Mult(dir, b);
         b *= ib + 1.0;
         same(g, a, lv(b), "get-jacobian-block");
         g.close(calcEntropy(op, in), 0.5 * (x * x), tol(x * x, 0), "entropy");
         g.close(calcEntropyChange(op, in), x * q->f, tol(x * q->f, 0), "entropy-change");
         g.close(calcSupplyRate(op, in), x * q->d, tol(x * q->d, 0), "supply-rate");
         g.check(getMassMatrix(op, json{{"mass", true}}) == &q->A && getMassMatrix(op, json::object()) == nullptr, "mass-matrix");
         g.check(miso::getPreconditioner(op) == nullptr, "preconditioner");
         g.check(miso::getMPIComm(op) == MPI_COMM_SELF, "communicator");
         json o{{"k", g.irange(0, 9)}};
         setOptions(op, o);
         g.check(s.calls->opts == o, "set-options-not-forwarded");
         g.check(&miso::getConcrete<Alg>(op) != nullptr && miso::getConcrete<Alg>(op).q.get() == q.get(), "get-concrete");
         const auto &cop = op;
         g.check(&miso::getConcrete<Alg>(cop) == &miso::getConcrete<Alg>(op), "get-concrete-const");
         g.check(throws<miso::MISOException>([&] { miso::getConcrete<Bare>(op); }), "get-concrete-wrong-type");
         g.check(throws<miso::MISOException>([&] { miso::getConcrete<Bare>(cop); }), "get-concrete-wrong-type");
         g.note("operator");
      }
      }
      g.check(pool.intact(), "input-modified");
      g.check(s.getStateSize() == q->n, "state-size");
   }
}

// ---------------------------------------------------------------- solve
void solve(Gen &g)
{
   auto q = make_data(g, true);
   json o = quiet;
   o["lin-solver"] = {{"type", "gmres"}, {"printlevel", -1}, {"maxiter", 50}, {"reltol", 1e-14}, {"abstol", 1e-14}, {"kdim", 50}};
   o["nonlin-solver"] = {{"type", g.pick({std::string("newton"), std::string("relaxednewton")})}, {"printlevel", -1}, {"maxiter", 60}, {"reltol", 1e-11}, {"abstol", 1e-11}, {"abort", false}};
   if (o["nonlin-solver"]["type"] == "relaxednewton") { o["nonlin-solver"]["linesearch"] = "backtracking"; }
   o["adj-solver"] = {{"type", "gmres"}, {"printlevel", -1}, {"maxiter", 50}, {"reltol", 1e-13}, {"abstol", 1e-13}, {"kdim", 50}};
   TestSolver s(o);
   s.build(q, true);
   bool log = g.chance(1, 3);
   std::unique_ptr<Scratch> scratch;
   miso::LoggingOptions lo{g.flip(), g.flip(), g.flip()};
   if (log) { s.log_with(miso::BinaryLogger{}, lo); scratch = std::make_unique<Scratch>(); }
   Known k;
   Pool pool;
   bool first = true;
   int solves = g.irange(1, 3);
   g.note(str("n=", q->n, " m=", q->m, " solves=", solves, log ? " logged" : ""));
   auto read = [&](const std::string &f, int step, LV &x) { Vector y; double t = -1; miso::BinaryLogger::readState(f, step, 0, t, y); x = lv(y); return t; };
   for (int i = 0; i < solves; ++i)
   {
      std::string d;
      auto in = some_inputs(g, *q, k, pool, first, d);
      bool none = !first && g.chance(1, 4);
      first = false;
      Vector u = vec(g, q->n, g.pick({1.0, 3.0}));
      LV u0 = lv(u);
      g.note("solve" + d);
      if (none)
      {
         // the inputs of the previous solve still apply
         some_inputs(g, *q, k, pool, false, d);
         Known old = k;
         MISOInputs rest{{"p", InputVector(pool.add(Vector(k.p.data(), q->m)))}, {"s", k.s}};
         Vector dummy(q->n);
         rest.emplace("state", InputVector(pool.add(u)));
         s.calcResidual(rest, dummy);
         s.solveForState(u);
      }
      else { s.solveForState(in, u); }
      k.x = lv(u);
      double nr = 0.0;
      for (double v : ref_value(*q, k)) { nr += v * v; }
      nr = std::sqrt(nr);
      g.check(std::isfinite(nr) && nr < 1e-7, "state-does-not-solve-the-residual", str("norm ", nr));
      g.check(pool.intact(), "input-modified");
      if (log)
      {
         LV x;
         double t = read("state", 1, x);
         g.check(x == lv(u) && t == 1.0, "final-state-not-logged");
         g.check(std::filesystem::exists("BinaryLogger/state_0_0") == lo.initial_state, "initial-state-logging");
         if (lo.initial_state) { t = read("state", 0, x); g.check(x == u0 && t == 0.0, "initial-state-log-differs"); }
      }
      // solving again from the solution does nothing
      if (g.chance(1, 3))
      {
         Vector w(u);
         s.solveForState(w);
         for (int j = 0; j < q->n; ++j) { g.close(w(j), u(j), 1e-7 * (1 + std::fabs(u(j))), "solution-not-a-fixed-point"); }
      }
      // adjoints at this and at other states
      int na = g.irange(0, 2);
      for (int a = 0; a < na; ++a)
      {
         auto &x = pool.add(g.flip() ? u : vec(g, q->n));
         k.x = lv(x);
         auto &bar = pool.add(vec(g, q->n));
         Vector adj(q->n);
         if (g.flip()) { adj = 0.0; }
         else { adj = vec(g, q->n); }
         int before = s.calls->setup;
         if (g.flip()) { s.solveForAdjoint(x, bar, adj); }
         else
         {
            auto in2 = some_inputs(g, *q, k, pool, false, d);
            if (in2.count("state") == 0) { in2.emplace("state", x); }
            s.solveForAdjoint(in2, bar, adj);
         }
         g.check(s.calls->setup == before + 101, "adjoint-system-not-set-up");
         g.check(pool.intact(), "input-modified");
         DenseMatrix J;
         Vector xx(k.x.data(), q->n), r(q->n);
         jacobian(*q, xx, J);
         J.MultTranspose(adj, r);
         double sc = 1 + J.MaxMaxNorm();
         for (int j = 0; j < q->n; ++j) { g.close(r(j), bar(j), 1e-8 * sc, "adjoint-equation", str("component ", j)); }
         if (log)
         {
            LV y;
            double t = read("adjoint", 0, y);
            g.check(y == lv(adj) && t == 0.0, "adjoint-not-logged");
         }
         g.label("adjoint");
      }
      g.nontrivial(true);
   }
   if (g.chance(1, 6))
   {
      // unsteady problems: derivative functions refuse
      s.make_ode();
      Vector a(q->n), b(q->n);
      a = 1.0;
      b = 0.0;
      g.check(throws<miso::MISOException>([&] { s.linearize({{"state", a}}); }), "unsteady-linearize");
      g.check(throws<miso::MISOException>([&] { s.jacobianVectorProduct(a, "state", b); }), "unsteady-jvp");
      g.check(throws<miso::MISOException>([&] { s.jacobianVectorProduct(a, "s"); }), "unsteady-jvp");
      g.check(throws<miso::MISOException>([&] { s.vectorJacobianProduct(a, "state", b); }), "unsteady-vjp");
      g.check(throws<miso::MISOException>([&] { s.vectorJacobianProduct(a, "s"); }), "unsteady-vjp");
      g.check(throws<miso::MISOException>([&] { s.solveForAdjoint(a, a, b); }), "unsteady-adjoint");
      g.check(s.getStateSize() == q->n, "state-size");
      g.label("unsteady");
   }
}

// ---------------------------------------------------------------- outputs
struct ModelOut
{
   int kind = 0;              // 0 scalar, 1 field, 2 bare, 3 entropy
   LV w;
   DenseMatrix W;
   double alpha = 1.0;
   LV x, p;
   double s = 0.0;
   bool primed = false;
};
void outputs(Gen &g)
{
   auto q = make_data(g, false);
   TestSolver s(quiet);
   s.build(q, false);
   std::map<std::string, ModelOut> model;
   Pool pool;
   int kind = 0;
   Vector nw;
   DenseMatrix nW;
   s.adder = [&](const std::string &name, const json &o)
   {
      double alpha = o.is_object() ? o.value("alpha", 1.0) : 1.0;
      if (kind == 0) { Scalar f; f.w = nw; f.alpha = alpha; s.put(name, std::move(f)); }
      else if (kind == 1) { Field f; f.W = nW; f.alpha = alpha; s.put(name, std::move(f)); }
      else if (kind == 2) { s.put(name, BareOut{}); }
      else if (kind == 3) { s.put(name, miso::EntropyOutput<miso::MISOResidual>(s.res())); }
   };
   const std::vector<std::string> names = {"drag", "lift", "a", "entropy"};
   int ops = g.irange(3, 14);
   bool interesting = false;
   auto inputs = [&](ModelOut &m, std::string &d)
   {
      MISOInputs in;
      bool all = !m.primed;
      if (all || g.flip()) { auto &x = pool.add(vec(g, q->n)); m.x = lv(x); in.emplace("state", x); d += " x"; }
      if (all || g.flip()) { auto &p = pool.add(vec(g, q->m)); m.p = lv(p); in.emplace("p", p); d += " p"; }
      if (all || g.flip()) { m.s = g.sym(2.0); in.emplace("s", m.s); d += " s"; }
      m.primed = true;
      // the entropy is taken directly from the given inputs
      if (m.kind == 3 && in.count("state") == 0) { auto &x = pool.add(vec(g, q->n)); m.x = lv(x); in.emplace("state", x); }
      return in;
   };
   auto dot = [](const LV &a, const LV &b) { double v = 0; for (size_t i = 0; i < a.size(); ++i) { v += a[i] * b[i]; } return v; };
   for (int i = 0; i < ops; ++i)
   {
      std::string name = g.pick(names), d;
      auto it = model.find(name);
      bool have = it != model.end();
      int op = have ? g.irange(0, 7) : (g.chance(2, 3) ? 0 : g.irange(1, 7));
      if (op == 0)
      {
         kind = name == "entropy" ? 3 : g.irange(0, 2);
         size_t before = s.added.size();
         ModelOut m;
         m.kind = kind;
         nw = vec(g, q->n);
         m.w = lv(nw);
         int h = g.irange(2, 4);
         nW.SetSize(h, q->n);
         for (int a = 0; a < h; ++a) { for (int b = 0; b < q->n; ++b) { nW(a, b) = g.sym(1.0); } }
         m.W = nW;
         bool with = g.flip();
         json o;
         if (with) { m.alpha = g.sym(2.0); o["alpha"] = m.alpha; }
         g.note("create " + name + str(" kind ", kind, " ", o.dump()));
         bool th = throws<miso::MISOException>([&] { if (with) { s.createOutput(name, o); } else { s.createOutput(name); } });
         g.check(th == have, have ? "duplicate-output-accepted" : "output-rejected", name);
         g.check(s.added.size() == before + (have ? 0 : 1), "add-output-calls");
         if (!have)
         {
            g.check(s.added.back().first == name && (!with || s.added.back().second == o), "add-output-arguments");
            model[name] = m;
         }
         continue;
      }
      Vector y(2), z(q->n);
      y = 0.0;
      z = 0.0;
      if (!have)
      {
         MISOInputs in;
         double v = 0.0;
         g.note("missing " + name + str(" op ", op));
         bool th = throws<miso::MISOException>([&]
         {
            switch (op)
            {
            case 1: s.getOutputSize(name); break;
            case 2: s.setOutputOptions(name, {{"alpha", 1.0}}); break;
            case 3: g.flip() ? (void)s.calcOutput(name, in) : s.calcOutput(name, in, y); break;
            case 4: s.calcOutputPartial(name, "s", in, v); break;
            case 5: s.calcOutputPartial(name, "state", in, z); break;
            case 6: s.outputJacobianVectorProduct(name, in, z, "state", y); break;
            default: s.outputVectorJacobianProduct(name, in, y, "state", z); break;
            }
         });
         g.check(th, "missing-output-accepted", str(name, " op ", op));
         continue;
      }
      auto &m = it->second;
      interesting = true;
      switch (op)
      {
      case 1:
         g.check(s.getOutputSize(name) == (m.kind == 1 ? m.W.Height() : 1), m.kind == 3 ? "entropy-output-size" : "output-size", str(s.getOutputSize(name)));
         break;
      case 2:
      {
         json o = json::object();
         if (g.flip()) { o["alpha"] = g.sym(2.0); if (m.kind < 2) { m.alpha = o["alpha"]; } }
         g.note("options " + name + o.dump());
         s.setOutputOptions(name, o);
         break;
      }
      case 3:
      {
         auto in = inputs(m, d);
         bool as_vec = g.flip();
         g.note("calc " + name + d + (as_vec ? " vector" : ""));
         LV want;
         double sc = 0.0;
         if (m.kind == 0) { want = {m.alpha * dot(m.w, m.x) + m.s * dot(m.p, m.p)}; }
         else if (m.kind == 1)
         {
            want.assign(m.W.Height(), 0.0);
            for (int a = 0; a < m.W.Height(); ++a) { for (int b = 0; b < q->n; ++b) { want[a] += m.alpha * m.W(a, b) * m.x[b]; } sc += want[a]; want[a] += m.s; }
         }
         else if (m.kind == 2) { want = {3.0}; }
         else { want = {0.5 * dot(m.x, m.x)}; }
         if (as_vec)
         {
            Vector out((int)want.size());
            out = g.sym(1.0);
            s.calcOutput(name, in, out);
            same(g, out, want, "output-vector");
         }
         else
         {
            double v = s.calcOutput(name, in), w0 = m.kind == 1 ? sc : want[0];
            g.close(v, w0, tol(v, w0), "output-value");
         }
         break;
      }
      case 4:
      {
         auto in = inputs(m, d);
         double v0 = g.sym(1.0), v = v0;
         g.note("partial " + name + " s" + d);
         if (m.kind == 1 || m.kind == 2)
         {
            g.check(throws<miso::NotImplementedException>([&] { s.calcOutputPartial(name, "s", in, v); }), "missing-partial-accepted");
            break;
         }
         s.calcOutputPartial(name, "s", in, v);
         double w0 = v0 + (m.kind == 0 ? dot(m.p, m.p) : 0.0);
         g.close(v, w0, tol(v, w0), "scalar-partial");
         break;
      }
      case 5:
      {
         auto in = inputs(m, d);
         std::string wrt = g.pick({std::string("state"), std::string("p")});
         g.note("partial " + name + " " + wrt + d);
         Vector out(wrt == "state" ? q->n : q->m);
         out = 0.0;
         if (m.kind == 1 || m.kind == 2)
         {
            g.check(throws<miso::NotImplementedException>([&] { s.calcOutputPartial(name, wrt, in, out); }), "missing-partial-accepted");
            break;
         }
         s.calcOutputPartial(name, wrt, in, out);
         if (m.kind == 3) { break; }
         LV want = wrt == "state" ? m.w : m.p;
         for (auto &v : want) { v *= wrt == "state" ? m.alpha : 2.0 * m.s; }
         same(g, out, want, "partial");
         break;
      }
      case 6:
      {
         auto in = inputs(m, d);
         std::string wrt = g.pick({std::string("state"), std::string("s")});
         auto &v = pool.add(vec(g, wrt == "state" ? q->n : 1));
         Vector out = vec(g, m.kind == 1 ? m.W.Height() : 1);
         LV want = lv(out);
         g.note("jvp " + name + " " + wrt + d);
         if (m.kind >= 2)
         {
            g.check(throws<miso::NotImplementedException>([&] { s.outputJacobianVectorProduct(name, in, v, wrt, out); }), "missing-product-accepted");
            break;
         }
         s.outputJacobianVectorProduct(name, in, v, wrt, out);
         if (m.kind == 0) { want[0] += wrt == "state" ? m.alpha * dot(m.w, lv(v)) : dot(m.p, m.p) * v(0); }
         else { for (int a = 0; a < m.W.Height(); ++a) { if (wrt == "s") { want[a] += v(0); } else { for (int b = 0; b < q->n; ++b) { want[a] += m.alpha * m.W(a, b) * v(b); } } } }
         same(g, out, want, "output-jvp");
         break;
      }
      default:
      {
         auto in = inputs(m, d);
         std::string wrt = g.pick({std::string("state"), std::string("s")});
         auto &b = pool.add(vec(g, m.kind == 1 ? m.W.Height() : 1));
         Vector out = vec(g, wrt == "state" ? q->n : 1);
         LV want = lv(out);
         g.note("vjp " + name + " " + wrt + d);
         if (m.kind >= 2)
         {
            g.check(throws<miso::NotImplementedException>([&] { s.outputVectorJacobianProduct(name, in, b, wrt, out); }), "missing-product-accepted");
            break;
         }
         s.outputVectorJacobianProduct(name, in, b, wrt, out);
         if (m.kind == 0) { if (wrt == "s") { want[0] += b(0) * dot(m.p, m.p); } else { for (int j = 0; j < q->n; ++j) { want[j] += b(0) * m.alpha * m.w[j]; } } }
         else if (wrt == "s") { want[0] += b.Sum(); }
         else { for (int a = 0; a < m.W.Height(); ++a) { for (int j = 0; j < q->n; ++j) { want[j] += m.alpha * m.W(a, j) * b(a); } } }
         same(g, out, want, "output-vjp");
         break;
      }
      }
      g.check(pool.intact(), "input-modified");
   }
   g.nontrivial(interesting);
}

// ---------------------------------------------------------------- setState / calcStateError
void plain_fun(Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = i + 0.5; } }
void states(Gen &g)
{
   TestSolver s(quiet);
   int n = g.irange(0, 6);
   Vector u = vec(g, n), e = vec(g, n);
   LV u0 = lv(u), e0 = lv(e);
   double nr = 0.0;
   for (int i = 0; i < n; ++i) { nr += (e(i) - u(i)) * (e(i) - u(i)); }
   nr = std::sqrt(nr);
   g.note(str("n=", n, " u=", vec_str(u, n), " e=", vec_str(e, n)));
   std::string name = g.pick({std::string("state"), std::string("x")});
   switch (g.irange(0, 5))
   {
   case 0:
   {
      s.setState([&](Vector &v) { v = e; }, u, name);
      same(g, u, e0, "set-state");
      g.label("lambda");
      break;
   }
   case 1:
   {
      std::function<void(Vector &)> f = [&](Vector &v) { v *= 2.0; };
      s.setState(f, u, name);
      for (auto &v : u0) { v *= 2.0; }
      same(g, u, u0, "set-state");
      double er = s.calcStateError(plain_fun, u, name), w = 0.0;
      for (int i = 0; i < n; ++i) { w += (i + 0.5 - u(i)) * (i + 0.5 - u(i)); }
      g.close(er, std::sqrt(w), tol(er, er), "state-error-function");
      s.setState(&plain_fun, u, name);
      g.close(s.calcStateError(plain_fun, u, name), 0.0, 0.0, "state-error-of-itself");
      break;
   }
   case 2:
   {
      double er = s.calcStateError([&](Vector &v) { v = e; }, u, name);
      g.close(er, nr, tol(er, nr), "state-error-callable");
      same(g, u, u0, "state-modified");
      break;
   }
   case 3:
   {
      double er = s.calcStateError(e, u, name);
      g.close(er, nr, tol(er, nr), "state-error-vector");
      same(g, u, u0, "state-modified");
      same(g, e, e0, "solution-modified");
      g.close(s.calcStateError(u, e, name), er, tol(er, er), "state-error-asymmetric");
      break;
   }
   case 4:
   {
      Vector w(n + g.pick({1, 2, 5}));
      w = 0.0;
      g.check(throws<miso::MISOException>([&] { s.calcStateError(w, u, name); }), "size-mismatch-accepted");
      break;
   }
   default:
   {
      // something the solver cannot use
      g.check(std::isnan(s.calcStateError(std::string("exact"), u, name)), "unusable-solution-gave-an-error");
      s.setState(std::string("exact"), u, name);
      same(g, u, u0, "unusable-state-changed-the-state");
      break;
   }
   }
   g.nontrivial(n > 0);
}

// ---------------------------------------------------------------- inputs and loads
void inputs(Gen &g)
{
   MISOInputs in;
   std::map<std::string, LV> vecs;
   std::map<std::string, double> vals;
   std::deque<Vector> keep;
   int n = g.irange(0, 6);
   const std::vector<std::string> keys = {"state", "mach", "dt", "x", "", "State"};
   for (int i = 0; i < n; ++i)
   {
      std::string k = g.pick(keys);
      if (in.count(k) != 0) { continue; }
      if (g.flip()) { double v = g.anydouble(); in[k] = v; vals[k] = v; g.note(str(k, "=", v)); }
      else
      {
         Vector v(g.irange(0, 5));
         for (int j = 0; j < v.Size(); ++j) { v(j) = g.anydouble(); }
         keep.push_back(v);
         auto &r = keep.back();
         if (g.flip()) { in.emplace(k, InputVector(r)); }
         else { in.emplace(k, InputVector(r.GetData(), r.Size())); }
         vecs[k] = lv(r);
         g.note(k + "=" + vec_str(r, r.Size()));
      }
   }
   auto same_bits = [](const Vector &a, const LV &b) { return a.Size() == (int)b.size() && (b.empty() || std::memcmp(a.GetData(), b.data(), b.size() * sizeof(double)) == 0); };
   int ops = g.irange(1, 5);
   for (int i = 0; i < ops; ++i)
   {
      std::string k = g.pick(keys);
      bool need = g.flip();
      if (g.flip())
      {
         double v = 42.5;
         bool missing = in.count(k) == 0, wrong = vecs.count(k) != 0;
         bool th = false, bad = false;
         try { miso::setValueFromInputs(in, k, v, need); }
         catch (const miso::MISOException &) { th = true; }
         catch (const std::bad_variant_access &) { bad = true; }
         g.check(th == (missing && need), "missing-value", k);
         g.check(bad == wrong, "vector-taken-as-a-value", k);
         double want = missing || wrong ? 42.5 : vals[k];
         g.check(std::memcmp(&v, &want, sizeof v) == 0, "value", str(k, " ", v));
      }
      else
      {
         int m = g.irange(0, 4);
         Vector v(m);
         v = 42.5;
         LV v0 = lv(v);
         bool deep = g.flip();
         bool missing = in.count(k) == 0, wrong = vals.count(k) != 0;
         bool th = false, bad = false;
         try { miso::setVectorFromInputs(in, k, v, deep, need); }
         catch (const miso::MISOException &) { th = true; }
         catch (const std::bad_variant_access &) { bad = true; }
         g.check(th == (missing && need), "missing-vector", k);
         g.check(bad == wrong, "value-taken-as-a-vector", k);
         LV want = missing || wrong ? v0 : vecs[k];
         g.check(same_bits(v, want), "vector", k);
         if (!missing && !wrong)
         {
            auto &iv = std::get<InputVector>(in.at(k));
            Vector conv = iv;
            g.check(same_bits(conv, want), "vector-conversion");
            if (deep)
            {
               // a copy does not follow the original
               if (v.Size() > 0) { v(0) = 1.25; g.check(want[0] == 1.25 || std::memcmp(iv.data, want.data(), sizeof(double)) == 0, "deep-copy-shares-memory"); }
            }
            else if (v.Size() > 0) { g.check(v.GetData() == iv.data, "reference-copied"); }
            g.nontrivial(true);
         }
      }
   }
   for (size_t i = 0; i < keep.size(); ++i) { for (auto &e : vecs) { if (std::get<InputVector>(in.at(e.first)).data == keep[i].GetData()) { g.check(same_bits(keep[i], e.second), "input-modified"); } } }
   // type-erased loads
   int m = g.irange(1, 4);
   Vector w = vec(g, m), tv = vec(g, m), dir = vec(g, m);
   LV t0 = lv(tv);
   miso::MISOLoad bare{BareLoad{2.5}}, full{FullLoad{w, 1.0, 0}};
   addLoad(bare, tv);
   for (auto &v : t0) { v += 2.5; }
   same(g, tv, t0, "load");
   double sc = g.sym(2.0);
   int k = g.irange(0, 3);
   setInputs(full, {{"s", sc}});
   miso::setOptions(full, json{{"k", k}});
   addLoad(full, tv);
   for (int i = 0; i < m; ++i) { t0[i] += sc * (1 + k) * w(i); }
   same(g, tv, t0, "load");
   g.close(jacobianVectorProduct(full, dir, "s"), sc * dir.Sum(), 1e-12 * (1 + std::fabs(sc) * m), "load-jvp");
   g.close(vectorJacobianProduct(full, dir, "s"), dir * w, 1e-12 * (1 + m), "load-vjp");
   jacobianVectorProduct(full, dir, "s", tv);
   for (int i = 0; i < m; ++i) { t0[i] += dir(0) * w(i); }
   same(g, tv, t0, "load-jvp");
   vectorJacobianProduct(full, dir, "w", tv);
   for (int i = 0; i < m; ++i) { t0[i] += sc * dir(i); }
   same(g, tv, t0, "load-vjp");
   // a residual with nothing but the essentials
   miso::MISOResidual r{Bare{m}};
   g.check(miso::getSize(r) == m && r.Height() == m, "bare-size");
   MISOInputs none;
   Vector res(m);
   evaluate(r, none, res);
   g.check(res.Min() == 7.0 && res.Max() == 7.0, "bare-evaluate");
   miso::setInputs(r, in);
   miso::setOptions(r, json::object());
   using NI = miso::NotImplementedException;
   IsoparametricTransformation *unused = nullptr;
   (void)unused;
   GMRESSolver gm;
   g.check(throws<NI>([&] { linearize(r, none); }), "bare-linearize");
   g.check(throws<NI>([&] { getJacobianTranspose(r, none, "state"); }), "bare-jacobian-transpose");
   g.check(throws<NI>([&] { setUpAdjointSystem(r, gm, none, dir, tv); }), "bare-adjoint");
   g.check(throws<NI>([&] { finalizeAdjointSystem(r, gm, none, dir, tv); }), "bare-adjoint");
   g.check(throws<NI>([&] { jacobianVectorProduct(r, dir, "state"); }), "bare-jvp");
   g.check(throws<NI>([&] { jacobianVectorProduct(r, dir, "state", tv); }), "bare-jvp");
   g.check(throws<NI>([&] { vectorJacobianProduct(r, dir, "state"); }), "bare-vjp");
   g.check(throws<NI>([&] { vectorJacobianProduct(r, dir, "state", tv); }), "bare-vjp");
   g.check(throws<NI>([&] { calcEntropy(r, none); }), "bare-entropy");
   g.check(throws<NI>([&] { calcEntropyChange(r, none); }), "bare-entropy");
   g.check(throws<miso::MISOException>([&] { calcSupplyRate(r, none); }), "bare-supply-rate");
   g.check(throws<miso::MISOException>([&] { getJacobianBlock(r, none, 0); }), "bare-block");
   g.check(throws<miso::MISOException>([&] { miso::getMPIComm(r); }), "bare-communicator");
   g.check(getMassMatrix(r, json::object()) == nullptr && miso::getPreconditioner(r) == nullptr, "bare-null");
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P11", {{"options", options, 4000, 100000}, {"residual", residual, 20000, 400000}, {"solve", solve, 10000, 200000}, {"outputs", outputs, 20000, 400000}, {"states", states, 20000, 200000}, {"inputs", inputs, 20000, 400000}},
            "random option documents, algebraic residuals and outputs, and sequences of calls on the solver interface checked against a model that keeps the inputs given so far; "
            "non-trivial: options given, a derivative product, a solve, an existing output used, or an input found");
   r.assumptions = {"residuals and outputs are the harness's own algebraic ones: what is checked is the interface between them and the caller"};
   return r.main(argc, argv);
}
