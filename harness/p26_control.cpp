// P26: the controller (a PID controller in state-space form), the flow coupled
// to it, and whole simulations of both
#define FLOW_WORLD_ONLY
#include "p25_flow.cpp"
#include "flow_control_residual.hpp"
#include "flow_control_solver.hpp"
#include <complex>

namespace
{
/// the controller's parameters as they stand
struct Pid
{
   double Kp = 0, Td = 0, Ti = 0, eta = 0, beta = 0, target = 0, be = 0;
   bool closed = true, test = false;
   double P[3] = {0, 0, 0};
   double vel(const double *x, double s) const { return test || !closed ? x[1] : x[1] + Kp * (target - s) / eta; }
   void res(const double *x, double s, double *r) const
   {
      if (test)
      {
         r[0] = -0.05 * x[1];
         r[1] = 0.05 * x[0] + s;
         return;
      }
      double f = 1 / (beta * eta * Ti * Td), b = beta * Ti + eta * Td;
      r[0] = f * x[1];
      r[1] = -x[0] + f * b * x[1];
      if (closed)
      {
         double e = (target - s) * Kp / (eta * Ti * Td);
         r[0] += (1 / (eta * beta) - 1) * e;
         r[1] += (b / (eta * beta) - Ti - Td) * e;
      }
   }
   double entropy(const double *x) const { return test ? 0.5 * (x[0] * x[0] + x[1] * x[1]) : 0.5 * (P[0] * x[0] * x[0] + 2 * P[1] * x[0] * x[1] + P[2] * x[1] * x[1]); }
   double change(const double *x, const double *k) const
   {
      return test ? -(x[0] * k[0] + x[1] * k[1]) : -(P[0] * x[0] * k[0] + P[1] * (x[0] * k[1] + x[1] * k[0]) + P[2] * x[1] * k[1]);
   }
   double size(const double *x, double s) const
   {
      if (test) { return 1 + std::fabs(x[0]) + std::fabs(x[1]) + std::fabs(s); }
      double f = 1 / (beta * eta * Ti * Td), b = beta * Ti + eta * Td;
      return (std::fabs(x[0]) + (1 + b) * f * std::fabs(x[1]) + (std::fabs(target) + std::fabs(s)) * std::fabs(Kp) / (eta * Ti * Td) * (1 + b + 1 / (eta * beta) + Ti + Td)) + 1e-3;
   }
   /// change some of the parameters; all of them the first time
   void draw(Gen &g, MISOInputs &in, bool all)
   {
      auto set = [&](const char *k, double &v, double x)
      {
         if (all || g.chance(1, 3))
         {
            v = x;
            in.emplace(k, v);
         }
      };
      set("Kp", Kp, g.sym(3));
      set("Td", Td, g.real(0.2, 3));
      set("Ti", Ti, g.real(0.2, 3));
      set("eta", eta, g.real(0.1, 2));
      set("beta", beta, g.real(0.1, 2));
      set("target-entropy", target, g.sym(2));
      if (g.chance(1, 3))
      {
         closed = g.flip();
         in.emplace("closed-loop", closed ? 1.0 : 0.0);
         g.label(closed ? "closed" : "open");
      }
   }
   Vector pm;
   void draw_P(Gen &g, MISOInputs &in)
   {
      if (g.chance(2, 3)) { return; }
      for (double &v : P) { v = g.sym(2); }
      pm.SetSize(4);
      pm(0) = P[0];
      pm(1) = pm(2) = P[1];
      pm(3) = P[2];
      in.emplace("P-matrix", pm);
   }
};

void controller(Gen &g)
{
   Quiet quiet;
   Pid m;
   m.test = g.chance(1, 5);
   ControlResidual c(MPI_COMM_WORLD, json{{"test-ode", m.test}});
   g.check(getSize(c) == 2, "size", str(getSize(c)));
   Vector x(2);
   int nops = g.irange(2, 6);
   for (int k = 0; k < nops; ++k)
   {
      MISOInputs in;
      m.draw(g, in, k == 0);
      m.draw_P(g, in);
      for (int i = 0; i < 2; ++i) { x(i) = g.sym(3); }
      if (k == 0 || g.flip())
      {
         m.be = g.sym(2);
         in.emplace("boundary-entropy", m.be);
      }
      if (g.flip())
      {
         // parameters beforehand
         setInputs(c, in);
         in = MISOInputs{};
      }
      in.emplace("state", x);
      double sz = m.size(x.GetData(), m.be);
      int what = g.irange(0, 6);
      if (what >= 5) { setInputs(c, in); }
      if (what == 0)
      {
         Vector r;
         if (g.flip()) { r.SetSize(2); r = 7.0; }
         evaluate(c, in, r);
         double ref[2];
         m.res(x.GetData(), m.be, ref);
         for (int i = 0; i < 2; ++i) { g.close(r(i), ref[i], 1e-13 * sz, "residual", str("entry ", i)); }
         g.label("residual");
      }
      else if (what == 1)
      {
         auto &J = getJacobian(c, in, "state");
         Vector d(2), r0(2), r1(2), Jd(2), y(x);
         d(0) = g.sym(1);
         d(1) = g.sym(1);
         J.Mult(d, Jd);
         evaluate(c, in, r0);
         y += d;
         in.at("state") = y;
         evaluate(c, in, r1);
         double s2 = sz + m.size(y.GetData(), m.be);
         for (int i = 0; i < 2; ++i) { g.close(Jd(i), r1(i) - r0(i), 1e-12 * s2, "jacobian", str("entry ", i)); }
         g.label("jacobian");
      }
      else if (what == 2)
      {
         g.close(calcEntropy(c, in), m.entropy(x.GetData()), 1e-12 * 40, "entropy", "");
         g.label("entropy");
      }
      else if (what == 3)
      {
         Vector kd(2);
         kd(0) = g.sym(2);
         kd(1) = g.sym(2);
         in.emplace("state_dot", kd);
         g.close(calcEntropyChange(c, in), m.change(x.GetData(), kd.GetData()), 1e-12 * 40, "entropy-change", "");
         g.label("entropy-change");
      }
      else if (what == 4)
      {
         g.close(c.getControlVelocity(in), m.vel(x.GetData(), m.be), 1e-13 * (3 + sz), "velocity", "");
         g.label("velocity");
      }
      else if (what == 5)
      {
         Vector y(2);
         getMassMatrix(c, json::object())->Mult(x, y);
         for (int i = 0; i < 2; ++i) { g.check(y(i) == x(i), "mass", str("entry ", i)); }
         g.label("mass");
      }
      else if (!m.test && m.closed && m.Kp != 0)
      {
         // from the error to the velocity, the closed loop is a PID controller
         // Kp beta (1 + Ti s) (1 + Td s) / ((1 + beta Ti s) (1 + eta Td s))
         using C = std::complex<double>;
         C s(g.sym(2), g.real(0.1, 3));
         auto ev = [&](double x0, double x1, double e, double *r)
         {
            Vector xx(2), rr(2);
            xx(0) = x0;
            xx(1) = x1;
            MISOInputs i{{"state", xx}, {"boundary-entropy", m.target - e}};
            evaluate(c, i, rr);
            r[0] = rr(0);
            r[1] = rr(1);
            r[2] = c.getControlVelocity(i);
         };
         double a[3], b[3], e[3];
         ev(1, 0, 0, a);
         ev(0, 1, 0, b);
         ev(0, 0, 1, e);
         m.be = m.target - 1;
         // (s I + A) X = -B E
         C M[2][2] = {{s + a[0], b[0]}, {a[1], s + b[1]}}, det = M[0][0] * M[1][1] - M[0][1] * M[1][0];
         C X0 = (-e[0] * M[1][1] + e[1] * M[0][1]) / det, X1 = (-e[1] * M[0][0] + e[0] * M[1][0]) / det;
         C H = a[2] * X0 + b[2] * X1 + e[2];
         C want = m.Kp * m.beta * (1.0 + m.Ti * s) * (1.0 + m.Td * s) / ((1.0 + m.beta * m.Ti * s) * (1.0 + m.eta * m.Td * s));
         double cond = (std::abs(e[0]) + std::abs(e[1]) + 1) * (1 + std::abs(M[0][0]) + std::abs(M[0][1]) + std::abs(M[1][1]) + std::abs(M[1][0])) / std::abs(det);
         g.check(std::abs(H - want) <= 1e-11 * (cond + std::abs(want) + std::abs(m.Kp / m.eta)), "transfer", str("got ", fmt(H.real()), "+", fmt(H.imag()), "i want ", fmt(want.real()), "+", fmt(want.imag()), "i"));
         g.label("transfer");
      }
      g.nontrivial();
   }
   if (g.chance(1, 10))
   {
      Vector p(4);
      p = 1.0;
      p(2) = 1.5;
      bool thrown = false;
      try { setInputs(c, MISOInputs{{"P-matrix", p}}); }
      catch (const MISOException &) { thrown = true; }
      g.check(thrown, "asymmetric", "an asymmetric P-matrix was accepted");
   }
}

constexpr int dim = 2;
using W = World<dim, false>;
struct Coupled : W
{
   std::vector<int> at, far;
   json opts;
   Pid m;
   Coupled(Gen &g) : W(g, false)
   {
      for (int i = 1; i <= nb; ++i)
      {
         if (g.flip()) { at.push_back(i); }
         if (g.flip()) { far.push_back(i); }
      }
      op.o["bcs"]["control"] = at;
      opts = op.o;
      m.test = g.chance(1, 4);
      opts["test-ode"] = m.test;
      opts["lin-prec"] = {{"type", "hypreilu"}, {"lev-fill", 1}, {"ilu-type", 0}, {"ilu-reorder", 0}, {"printlevel", 0}};
      opts["outputs"] = {{"boundary-entropy", {{"boundaries", at}}}, {"far-field-supply-rate", {{"boundaries", far}}}};
      g.note(opts.dump());
   }
   template <typename I>
   double on_boundary(I &i, const std::vector<int> &b, const Vector &u, double *mag) const
   {
      double s = 0;
      on(b, [&](int e, FaceElementTransformations &F)
      {
         double v = i.GetFaceEnergy(*fes->GetFE(e), *fes->GetFE(e), F, el(u, e));
         s += v;
         if (mag) { *mag += std::fabs(v); }
      });
      return s;
   }
   double boundary_entropy(const Vector &u, double *mag = nullptr) const
   {
      BoundaryEntropy<dim, false> i(stack(), fec.get(), bc_scale, xact, 0.1);
      return on_boundary(i, at, u, mag);
   }
   double supply_rate(const Vector &u, double *mag = nullptr) const
   {
      SupplyRate<dim, false> i(stack(), fec.get(), qfar);
      return on_boundary(i, far, u, mag);
   }
   /// residual of controller and flow
   void full(const Vector &z, double time, Vector &r, double *mc = nullptr, double *mf = nullptr)
   {
      int n = fes->GetTrueVSize();
      Vector u(z.GetData() + 2, n), uu(u);
      double s = boundary_entropy(uu), ctl = control;
      control = m.vel(z.GetData(), s);
      r.SetSize(n + 2);
      m.res(z.GetData(), s, r.GetData());
      Vector f = residual(uu, time, mf);
      control = ctl;
      r.SetVector(f, 2);
      if (mc) { *mc = m.size(z.GetData(), s); }
   }
   void near_wall(Gen &g)
   {
      Array<int> v;
      mesh->GetBdrElementVertices(g.irange(0, mesh->GetNBE() - 1), v);
      const double *x = mesh->GetVertex(v[g.irange(0, 1)]);
      for (int d = 0; d < dim; ++d) { xact(d) = x[d] + g.sym(0.08); }
   }
};

void coupled(Gen &g)
{
   Quiet quiet;
   Coupled w(g);
   using R = FlowControlResidual<dim, false>;
   std::ostringstream log;
   std::map<std::string, FiniteElementState> other;
   MISOResidual res(R(w.opts, *w.fes, w.fields, stack(), log)), flow(FlowResidual<dim, false>(w.opts, *w.fes, other, stack(), log));
   R &fr = getConcrete<R>(res);
   int n = w.fes->GetTrueVSize();
   g.check(getSize(res) == n + 2, "size", str(getSize(res), " vs ", n + 2));
   Vector q0(dim + 2);
   fr.getFreeStreamState(q0);
   compare(g, q0, w.qfar, 1e-13, "free-stream-state");
   std::vector<MISOOutput> keep;
   keep.reserve(8);
   int nops = g.irange(2, 5);
   for (int k = 0; k < nops; ++k)
   {
      MISOInputs in;
      w.m.draw(g, in, k == 0);
      w.m.draw_P(g, in);
      if (g.flip())
      {
         w.near_wall(g);
         in.emplace("x-actuator", w.xact);
      }
      w.t = g.real(0, 6);
      in.emplace("time", w.t);
      if (g.flip())
      {
         setInputs(res, in);
         in = MISOInputs{{"time", w.t}};
      }
      Vector z(n + 2), u = w.state(g);
      z(0) = g.sym(1);
      z(1) = g.sym(0.3);
      z.SetVector(u, 2);
      Vector z0(z), other(n + 2);
      other = z;
      other *= 1.1;
      // the state that counts is the one a call is given
      auto apart = [&] {
         setInputs(res, in);
         if (g.flip()) { setInputs(res, MISOInputs{{"state", other}}); }
      };
      in.emplace("state", z);
      int what = g.irange(0, 6);
      double m = 0;
      if (what <= 1)
      {
         Vector r(n + 2), ref;
         r = g.sym(5);
         double mc, mf;
         w.full(z, w.t, ref, &mc, &mf);
         evaluate(res, in, r);
         double b = 1e-8 * std::max(mf, 1e-3 * w.scale(u));
         for (int i = 0; i < 2; ++i) { g.close(r(i), ref(i), 1e-8 * (mc + b), "control-residual", str("entry ", i)); }
         for (int i = 2; i < n + 2; ++i) { g.close(r(i), ref(i), b, "flow-residual", str("entry ", i - 2)); }
         g.label("residual");
      }
      else if (what == 2)
      {
         double got = calcEntropy(res, in), s = w.entropy(u, &m);
         g.close(got, s + w.m.entropy(z.GetData()), 1e-11 * (m + 10), "entropy", "");
         keep.push_back(fr.constructOutput("entropy", json::object()));
         g.close(calcOutput(keep.back(), in), got, 1e-12 * (m + 10), "entropy-output", "");
         g.label("entropy");
      }
      else if (what == 3)
      {
         Vector zd = femgen::random_dir(g, n + 2, 1.0), ud(n);
         for (int i = 0; i < n; ++i) { ud(i) = zd(i + 2); }
         double dt = g.real(0.01, 0.2);
         apart();
         MISOInputs cin{{"state", z}, {"state_dot", zd}, {"time", w.t}, {"dt", dt}};
         double s = w.boundary_entropy(u), vel = w.m.vel(z.GetData(), s);
         setInputs(flow, MISOInputs{{"x-actuator", w.xact}});
         double ref = calcEntropyChange(flow, MISOInputs{{"state", u}, {"state_dot", ud}, {"control", vel}, {"time", w.t}, {"dt", dt}}) + w.m.change(z.GetData(), zd.GetData());
         double mf;
         Vector r;
         w.full(z, w.t, r, nullptr, &mf);
         g.close(calcEntropyChange(res, cin), ref, 1e-8 * (mf + 1e-3 * w.scale(u)) * n + 1e-11, "entropy-change", "");
         g.label("entropy-change");
      }
      else if (what == 4)
      {
         apart();
         Vector zd(n + 2);
         zd = 0.0;
         double ref = w.supply_rate(u, &m);
         g.close(calcSupplyRate(res, MISOInputs{{"state", z}, {"state_dot", zd}, {"time", w.t}, {"dt", 0.1}}), ref, 1e-11 * (m + 1e-3 * w.scale(u)), "supply-rate", "");
         g.label("supply-rate");
      }
      else if (what == 5)
      {
         apart();
         auto *M = getMassMatrix(res, w.opts);
         g.check(M != nullptr && M->Height() == n + 2 && M->Width() == n + 2, "mass-size", "");
         Vector y(n + 2), ref(n + 2);
         y = g.sym(3);
         M->Mult(z, y);
         ref = 0.0;
         ref(0) = z(0);
         ref(1) = z(1);
         bool steady = w.opts["time-dis"]["steady"];
         w.nodes([&](int, int, int nd, double wt, ElementTransformation &T)
         {
            if (steady) { wt /= std::pow(T.Weight(), 1.0 / dim); }
            for (int c = 0; c < dim + 2; ++c) { ref(2 + nd * (dim + 2) + c) += wt * z(2 + nd * (dim + 2) + c); }
         });
         compare(g, y, ref, 1e-12 * (ref.Normlinf() + 1), "mass");
         g.label("mass");
      }
      else
      {
         // outputs of the flow alone
         apart();
         keep.push_back(fr.constructOutput("boundary-entropy", json{{"boundaries", w.at}}));
         double ref = w.boundary_entropy(u, &m);
         g.close(calcOutput(keep.back(), MISOInputs{{"state", u}, {"x-actuator", w.xact}}), ref, 1e-8 * (m + 1e-3 * w.scale(u)), "boundary-entropy", "");
         g.label("boundary-entropy");
      }
      for (int i = 0; i < n + 2; ++i) { g.check(z(i) == z0(i), "state-kept", str("entry ", i)); }
      g.nontrivial(!w.at.empty());
   }
}

void simulations(Gen &g)
{
   Quiet quiet;
   Scratch dir;
   Coupled w(g);
   if (w.op.viscous || w.op.mms) { g.discard(); }
   w.f->amp = std::min(w.f->amp, 0.1);
   json o = w.opts;
   o["print-options"] = false;
   o["silent"] = true;
   std::string type = g.pick(std::vector<std::string>{"RK4", "RK1", "MIDPOINT"});
   int n = w.fes->GetTrueVSize();
   Vector u = w.state(g), z(n + 2);
   z(0) = g.sym(0.3);
   z(1) = g.sym(0.1);
   z.SetVector(u, 2);
   w.near_wall(g);
   double h = 1e300, lam = 0;
   w.nodes([&](int e, int, int nd, double, ElementTransformation &)
   {
      double *q = u.GetData() + nd * (dim + 2), k = 0;
      for (int d = 0; d < dim; ++d) { k += q[d + 1] * q[d + 1]; }
      lam = std::max(lam, std::sqrt(k) / q[0] + std::sqrt(1.4 * pres<dim>(q) / q[0]));
      h = std::min(h, w.mesh->GetElementSize(e, 1));
   });
   double dt = 0.02 * h / lam / ((w.op.p + 1) * (w.op.p + 1)) / (1 + w.lps + w.iface), t0 = g.flip() ? 0.0 : g.sym(2);
   bool implicit = type == "MIDPOINT", cfl = !implicit && g.chance(1, 3), logs = g.flip();
   int steps = implicit ? 1 : g.irange(1, 3);
   double tf = t0 + dt * (steps - 0.4);
   if (cfl) { tf = t0 + 2 * dt; }
   o["time-dis"] = {{"type", type}, {"steady", false}, {"t-initial", t0}, {"t-final", tf}, {"dt", dt}, {"cfl", 0.02}, {"const-cfl", cfl}, {"max-iter", 60}};
   o["nonlin-solver"] = {{"printlevel", 0}, {"maxiter", 20}, {"reltol", 1e-10}, {"abstol", 1e-13}, {"abort", false}};
   o["lin-solver"] = {{"type", "gmres"}, {"printlevel", 0}, {"maxiter", 400}, {"kdim", 200}, {"reltol", 1e-13}, {"abstol", 0.0}};
   o["mesh"] = {{"file", "none.mesh"}};
   o["outputs"]["each-timestep"] = logs;
   int sample = g.irange(0, 2);
   if (sample > 0) { o["sample"] = sample; }
   g.label(type);
   g.note(o.dump());
   FlowControlSolver<dim, false> solver(MPI_COMM_WORLD, o, std::make_unique<Mesh>(*w.smesh));
   g.check(solver.getStateSize() == n + 2, "solver-size", str(solver.getStateSize(), " vs ", n + 2));
   std::vector<std::string> names;
   if (g.flip()) { names.push_back("entropy"); }
   if (g.flip()) { names.push_back("far-field-supply-rate"); }
   for (auto &k : names) { k == "entropy" ? solver.createOutput(k) : solver.createOutput(k, json{{"boundaries", w.far}}); }
   MISOInputs in;
   w.m.draw(g, in, true);
   w.m.draw_P(g, in);
   // a velocity the flow can bear
   w.m.Kp = g.sym(0.2) * w.m.eta / (std::fabs(w.m.target) + std::fabs(w.boundary_entropy(u)) + 0.1);
   in.at("Kp") = w.m.Kp;
   in.emplace("x-actuator", w.xact);
   if (g.flip())
   {
      // the state is set from functions of the control and flow states
      auto c = [&](Vector &x) { x(0) = 0.25; x(1) = -0.125; };
      auto f = [&](const Vector &x, Vector &q) { q = w.qfar; q(0) *= 1 + 0.01 * std::sin(x(0)); };
      std::pair<std::function<void(Vector &)>, std::function<void(const Vector &, Vector &)>> pr{c, f};
      Vector y(n + 2);
      y = 3.0;
      solver.setState(pr, y);
      g.check(y(0) == 0.25 && y(1) == -0.125, "set-state-control", "");
      w.nodes([&](int, int i, int nd, double, ElementTransformation &T)
      {
         Vector x(dim), q(dim + 2);
         T.Transform(T.GetIntPoint(), x);
         f(x, q);
         for (int c = 0; c < dim + 2; ++c) { g.close(y(2 + nd * (dim + 2) + c), q(c), 1e-10, "set-state-flow", str("node ", nd)); }
      });
      g.label("set-state");
   }
   Vector mass(n + 2), v(z), z0(z);
   mass = 0.0;
   mass(0) = mass(1) = 1;
   w.nodes([&](int, int, int nd, double wt, ElementTransformation &) { for (int k = 0; k < dim + 2; ++k) { mass(2 + nd * (dim + 2) + k) += wt; } });
   auto rhs = [&](const Vector &x, double time)
   {
      Vector k;
      w.full(x, time, k);
      for (int i = 0; i < k.Size(); ++i) { k(i) /= -mass(i); }
      return k;
   };
   in.emplace("state", z);
   solver.solveForState(in, z);
   for (int i = 0; i < n + 2; ++i) { g.check(std::isfinite(z(i)), "finite", str("entry ", i)); }
   struct Row
   {
      double t, s, r;
   };
   std::vector<Row> hist;
   auto row = [&](double t, const Vector &x)
   {
      Vector y(x.GetData() + 2, n), yy(y);
      hist.push_back({t, w.entropy(yy) + w.m.entropy(x.GetData()), w.supply_rate(yy)});
   };
   auto shock = [&](const Vector &a, const Vector &b, const std::string &key)
   {
      double sc = b.Normlinf(), c = std::max(std::fabs(b(0)), std::fabs(b(1))) + 0.1 * w.m.size(b.GetData(), w.boundary_entropy(u)) * (tf - t0);
      for (int i = 0; i < n + 2; ++i) { g.close(a(i), b(i), 1e-8 * (i < 2 ? c : sc), key, str("entry ", i)); }
   };
   if (!implicit)
   {
      double t = t0;
      for (int it = 0; it < 60; ++it)
      {
         double d = std::min(dt, tf - t);
         if (cfl)
         {
            d = 1e300;
            for (int e = 0; e < w.mesh->GetNE(); ++e)
            {
               std::vector<std::pair<Vector, int>> x;
               w.nodes([&](int ee, int i, int nd, double, ElementTransformation &T)
               {
                  if (ee != e) { return; }
                  Vector xx(dim);
                  T.Transform(w.fes->GetFE(e)->GetNodes().IntPoint(i), xx);
                  x.emplace_back(xx, nd);
               });
               for (auto &a : x)
                  for (auto &b : x)
                  {
                     if (&a == &b) { continue; }
                     Vector dd(b.first);
                     dd -= a.first;
                     double L = dd.Norml2(), un = 0, *q = v.GetData() + 2 + a.second * (dim + 2);
                     for (int c = 0; c < dim; ++c) { un += q[c + 1] / q[0] * dd(c) / L; }
                     d = std::min(d, 0.02 * L / (std::fabs(un) + std::sqrt(1.4 * pres<dim>(q) / q[0])));
                  }
            }
         }
         row(t, v);
         Vector k1 = rhs(v, t), k2, k3, k4, x(n + 2);
         if (type == "RK1") { v.Add(d, k1); }
         else
         {
            add(v, 0.5 * d, k1, x);
            k2 = rhs(x, t + 0.5 * d);
            add(v, 0.5 * d, k2, x);
            k3 = rhs(x, t + 0.5 * d);
            add(v, d, k3, x);
            k4 = rhs(x, t + d);
            v.Add(d / 6, k1);
            v.Add(d / 3, k2);
            v.Add(d / 3, k3);
            v.Add(d / 6, k4);
         }
         t += d;
         if (t >= tf - 1e-14) { break; }
      }
      row(t, v);
      shock(z, v, cfl ? "simulation-cfl" : "simulation");
      g.label("replayed");
   }
   else
   {
      // one step: (z - z0)/dt = -M^-1 R((z + z0)/2, t0 + dt/2)
      double d = tf - t0;
      Vector mid(n + 2), k;
      for (int i = 0; i < n + 2; ++i) { mid(i) = 0.5 * (z(i) + z0(i)); }
      k = rhs(mid, t0 + 0.5 * d);
      add(z0, d, k, v);
      double sc = 0, e = 0;
      for (int i = 0; i < n + 2; ++i)
      {
         sc = std::max(sc, std::fabs(d * k(i)));
         e = std::max(e, std::fabs(z(i) - v(i)));
      }
      g.check(e <= 1e-5 * sc + 1e-9, "midpoint", str("the step misses the midpoint rule by ", fmt(e), " of ", fmt(sc)));
      g.label("midpoint");
   }
   g.nontrivial(!w.at.empty());
   if (logs)
   {
      for (auto &k : names)
      {
         std::ifstream f(k + "-" + std::to_string(sample) + ".txt");
         g.check(f.good(), "log", k + " was not logged");
         std::vector<std::pair<double, double>> rows;
         double a, b;
         while (f >> a >> b) { rows.emplace_back(a, b); }
         if (hist.empty()) { continue; }
         g.check(rows.size() == hist.size(), "log-rows", str(k, ": ", rows.size(), " rows, reference ", hist.size()));
         double sc = w.scale(u) * 10 + 10;
         for (size_t i = 0; i < rows.size(); ++i)
         {
            g.close(rows[i].first, hist[i].t, 1e-9 * (1 + std::fabs(tf)), "log-time", str(k, " row ", i));
            g.close(rows[i].second, k == "entropy" ? hist[i].s : hist[i].r, 1e-8 * sc, "log-value", str(k, " row ", i));
         }
         g.label("log");
      }
   }
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P26",
            {{"controller", controller, 20000, 400000},
             {"coupled", coupled, 2500, 40000},
             {"simulations", simulations, 400, 6000}},
            "the controller was evaluated, or there is a boundary under control");
   r.assumptions = {"2D simplex meshes on one rank, conservative variables (the supply rate supports no others)", "the flow terms are decided by P14, P15 and P25", "the adept stand-in records and differentiates exactly"};
   return r.main(argc, argv);
}
