// P31: distributing the mesh over several MPI ranks changes no result: the
// flow, alone and with its controller, and flow simulations (this file);
// fields, potentials, and the thermal and magnetostatic solvers
// (p31_physics.cpp).  Every rank also computes everything alone; the two have
// to agree.
#include "ranks.hpp"
namespace { mfem::ParMesh *&next_mesh() { static mfem::ParMesh *m; return m; } MPI_Comm flow_comm = MPI_COMM_SELF; }
#define DISTRIBUTE(g, m) ranks::distribute(g, m, flow_comm).release()
#define FLOW_WORLD_ONLY
#include "p25_flow.cpp"
#include "flow_control_residual.hpp"
#include "flow_control_solver.hpp"
using namespace ranks;
namespace physics { void add(std::vector<Prop> &); }

namespace
{
double period[3];   // of the mesh, zero without one
void periods(Mesh &m, bool periodic)
{
   Vector a, b;
   if (periodic) { m.GetBoundingBox(a, b, 1); }
   for (int d = 0; d < 3; ++d) { period[d] = periodic && d < a.Size() ? b(d) - a(d) : 0; }
}
double freq(Gen &g, double f, int d) { return period[d] > 0 ? 2 * M_PI / period[d] * g.irange(-1, 2) : g.sym(f); }
/// flow states as functions of position
template <int dim>
struct Smooth
{
   double rho, p, u[3], amp, k[5][3], c[5];
   Smooth(Gen &g, double size) 
   {
      rho = g.real(0.5, 2);
      p = g.real(0.5, 2);
      for (double &x : u) { x = g.sym(1.2); }
      amp = g.real(0.02, 0.3);
      for (auto &r : k)
         for (int d = 0; d < 3; ++d) { r[d] = freq(g, 6 / size, d); }
      for (double &x : c) { x = g.sym(3); }
   }
   void operator()(const Vector &x, double *q) const
   {
      double s[5];
      for (int i = 0; i < dim + 2; ++i)
      {
         double a = c[i];
         for (int d = 0; d < dim; ++d) { a += k[i][d] * x(d); }
         s[i] = amp * std::sin(a);
      }
      double v[3];
      for (int d = 0; d < dim; ++d) { v[d] = u[d] + s[d + 1]; }
      pack<dim>(rho * (1 + s[0]), v, p * (1 + s[dim + 1]), q);
   }
};
template <typename F>
Vector on_nodes(ParFiniteElementSpace &fes, F f)
{
   ParGridFunction gf(&fes);
   VectorFunctionCoefficient c(fes.GetVDim(), f);
   gf.ProjectCoefficient(c);
   Vector t;
   gf.GetTrueDofs(t);
   return t;
}
Vector test_vec(Gen &g, ParFiniteElementSpace &fes, double size)
{
   double k[5][3], c[5];
   for (auto &r : k)
      for (int d = 0; d < 3; ++d) { r[d] = freq(g, 15 / size, d); }
   for (double &x : c) { x = g.sym(3); }
   return on_nodes(fes, [&](const Vector &x, Vector &v) {
      for (int i = 0; i < v.Size(); ++i)
      {
         double a = c[i];
         for (int d = 0; d < x.Size(); ++d) { a += k[i][d] * x(d); }
         v(i) = std::sin(a);
      }
   });
}
template <int dim, bool entvar>
struct F : World<dim, entvar>
{
   using W = World<dim, entvar>;
   F(Gen &g, bool periodic, const std::string &fixed = "") : W(g, periodic, fixed) { periods(*W::smesh, periodic); }
   Vector make(const Smooth<dim> &s)
   {
      return on_nodes(*W::fes, [&](const Vector &x, Vector &q) {
         double c[5];
         s(x, c);
         if (entvar) { to_w<dim>(c, q.GetData()); }
         else { std::copy(c, c + dim + 2, q.GetData()); }
      });
   }
};
template <int dim>
void near_boundary(Gen &g, Mesh &m, Vector &x)
{
   Array<int> v;
   m.GetBdrElementVertices(g.irange(0, m.GetNBE() - 1), v);
   const double *y = m.GetVertex(v[0]);
   for (int d = 0; d < dim; ++d) { x(d) = y[d] + g.sym(0.08); }
}

template <int dim, bool entvar>
void flow_case(Gen &g, Obs &o)
{
   Quiet quiet;
   flow_comm = o.comm;
   F<dim, entvar> w(g, g.chance(1, 4));
   using R = FlowResidual<dim, entvar>;
   std::ostringstream log;
   MISOResidual res(R(w.op.o, *w.fes, w.fields, stack(), log));
   R &fr = getConcrete<R>(res);
   Smooth<dim> s(g, w.size);
   Vector u = w.make(s), sd = test_vec(g, *w.fes, w.size);
   int n = u.Size();
   std::vector<Vector> tests;
   for (int i = 0; i < 3; ++i) { tests.push_back(test_vec(g, *w.fes, w.size)); }
   if (dim == 2 && w.nb > 0) { near_boundary<dim>(g, *w.smesh, w.xact); }
   MISOInputs in{{"time", g.real(0, 6)}, {"control", g.sym(0.5)}};
   if (dim > 1) { in.emplace("x-actuator", w.xact); }
   in.emplace("state", u);
   setInputs(res, in);
   double big = o.max(w.scale(u));
   o.add("global size", o.sum(getSize(res)), 1);
   Vector r(n);
   r = 0.0;
   evaluate(res, in, r);
   for (auto &t : tests) { o.dot("residual", r, t, big); }
   if (!w.op.dsbp)   // the stand-in has no gradients of shared faces
   {
      getJacobian(res, in, "state").Mult(sd, r);
      for (auto &t : tests) { o.dot("product with the Jacobian", r, t, big); }
   }
   o.add("entropy", calcEntropy(res, in), big);
   if (!w.op.dsbp)   // nor their energy
   {
      MISOInputs e(in);
      e["state_dot"] = sd;
      e["dt"] = g.real(0.001, 0.02);
      e["state"] = u;
      o.add("entropy change", calcEntropyChange(res, e), 1e2 * big);
   }
   json opts = w.op.o;
   auto *M = getMassMatrix(res, opts);
   M->Mult(u, r);
   for (auto &t : tests) { o.dot("product with the mass matrix", r, t); }
   ParGridFunction gf(w.fes.get());
   gf.SetFromTrueDofs(u);
   if (!entvar) { o.add("time step", fr.minCFLTimeStep(g.real(0.1, 2), gf)); }
   for (int i = 0; i < dim + 2; ++i) { ex_c[i] = 1 + 0.3 * i; }
   if (entvar) { ex_c[dim + 1] = -1; }
   ex_c[6] = 1;
   o.add("L2 error", fr.calcConservativeVarsL2Error(gf, ex_fun, g.irange(-1, dim + 1)), 1e-3);
   std::vector<MISOOutput> keep;
   if (w.nb > 0 && !w.op.periodic)
   {
      std::vector<int> at;
      for (int i = 1; i <= w.nb; ++i)
         if (g.flip()) { at.push_back(i); }
      std::vector<std::string> names{"drag", "lift"};
      if (dim == 2) { names.push_back("boundary-entropy"); }
      if (!entvar) { names.push_back("far-field-supply-rate"); }
      for (auto &name : names)
      {
         keep.push_back(fr.constructOutput(name, json{{"boundaries", at}}));
         setInputs(keep.back(), in);
         o.add(name, calcOutput(keep.back(), in), big);
      }
   }
   keep.push_back(fr.constructOutput("entropy", json::object()));
   o.add("entropy", calcOutput(keep.back(), in), big);
   g.nontrivial();
}
void flow(Gen &g)
{
   auto f = g.pick(std::vector<std::function<void(Gen &, Obs &)>>{flow_case<2, false>, flow_case<2, false>, flow_case<2, true>, flow_case<3, false>});
   both(g, f, 1e-8);
}

json with_control(Gen &g, World<2, false> &w, std::vector<int> &at, std::vector<int> &far)
{
   for (int i = 1; i <= w.nb; ++i)
   {
      if (g.flip()) { at.push_back(i); }
      if (g.flip()) { far.push_back(i); }
   }
   w.op.o["bcs"]["control"] = at;
   json o = w.op.o;
   o["test-ode"] = g.chance(1, 4);
   o["lin-prec"] = {{"type", "hypreilu"}, {"lev-fill", 1}, {"ilu-type", 0}, {"ilu-reorder", 0}, {"printlevel", 0}};
   o["outputs"] = {{"boundary-entropy", {{"boundaries", at}}}, {"far-field-supply-rate", {{"boundaries", far}}}};
   return o;
}
MISOInputs controls(Gen &g, Vector &pm)
{
   MISOInputs in{{"Kp", g.sym(3)}, {"Td", g.real(0.5, 2)}, {"Ti", g.real(0.5, 2)}, {"eta", g.real(0.3, 2)}, {"beta", g.real(0.3, 2)}, {"target-entropy", g.sym(2)}, {"closed-loop", g.flip() ? 1.0 : 0.0}};
   pm.SetSize(4);
   for (int i = 0; i < 4; ++i) { pm(i) = g.sym(2); }
   pm(2) = pm(1);
   in.emplace("P-matrix", pm);
   return in;
}
void control_case(Gen &g, Obs &o)
{
   Quiet quiet;
   flow_comm = o.comm;
   F<2, false> w(g, false);
   std::vector<int> at, far;
   json opts = with_control(g, w, at, far);
   using R = FlowControlResidual<2, false>;
   std::ostringstream log;
   MISOResidual res(R(opts, *w.fes, w.fields, stack(), log));
   R &fr = getConcrete<R>(res);
   Smooth<2> s(g, w.size);
   Vector u = w.make(s), sd = test_vec(g, *w.fes, w.size), pm;
   std::vector<Vector> tests;
   for (int i = 0; i < 3; ++i) { tests.push_back(test_vec(g, *w.fes, w.size)); }
   near_boundary<2>(g, *w.smesh, w.xact);
   double c[4] = {g.sym(2), g.sym(2), g.sym(2), g.sym(2)};
   int rank, n = u.Size();
   MPI_Comm_rank(o.comm, &rank);
   int nc = rank == 0 ? 2 : 0;
   o.add("size", getSize(res) - n - nc, 1);
   Vector z(n + nc), zd(n + nc), r(n + nc);
   for (int i = 0; i < nc; ++i)
   {
      z(i) = c[i];
      zd(i) = c[2 + i];
   }
   z.SetVector(u, nc);
   zd.SetVector(sd, nc);
   MISOInputs par = controls(g, pm);
   setInputs(res, par);
   setInputs(res, MISOInputs{{"x-actuator", w.xact}});
   double time = g.real(0, 3), dt = g.real(0.001, 0.02), big = o.max(w.scale(u));
   auto split = [&](const char *key) {
      for (int i = 0; i < 2; ++i) { o.add(std::string(key) + " of the controller", o.sum(nc ? r(i) : 0.0), 1); }
      Vector f(r.GetData() + nc, n);
      for (auto &t : tests) { o.dot(std::string(key) + " of the flow", f, t, big); }
   };
   r = 0.0;
   evaluate(res, MISOInputs{{"state", z}, {"time", time}, {"dt", dt}}, r);
   split("residual");
   o.add("entropy", calcEntropy(res, MISOInputs{{"state", z}}), big);
   o.add("entropy change", calcEntropyChange(res, MISOInputs{{"state", z}, {"state_dot", zd}, {"time", time}, {"dt", dt}}), 1e2 * big);
   o.add("supply rate", calcSupplyRate(res, MISOInputs{{"state", z}, {"state_dot", zd}, {"time", time}, {"dt", dt}}), 1e2 * big);
   getMassMatrix(res, opts)->Mult(z, r);
   split("mass");
   ParGridFunction gf(w.fes.get());
   gf.SetFromTrueDofs(u);
   o.add("time step", fr.minCFLTimeStep(g.real(0.1, 2), gf));
   std::vector<MISOOutput> keep;
   for (std::string k : {"boundary-entropy", "far-field-supply-rate", "entropy"})
   {
      keep.push_back(fr.constructOutput(k, json{{"boundaries", k[0] == 'b' ? at : far}}));
      o.add(k, calcOutput(keep.back(), MISOInputs{{"state", k == "entropy" ? z : u}, {"x-actuator", w.xact}}), big);
   }
   g.nontrivial();
}
void control(Gen &g) { both(g, control_case, 1e-8); }

// ---------------------------------------------------------------- simulations
bool spread(Mesh &m)
{
   int n = world();
   if (m.GetNE() < n) { return false; }
   Mesh c(m);
   int *p = c.GeneratePartitioning(n);
   std::vector<int> k(n);
   for (int i = 0; i < c.GetNE(); ++i) { ++k[p[i]]; }
   delete[] p;
   return !std::count(k.begin(), k.end(), 0);
}
template <int dim>
void march(Gen &g, Obs &o)
{
   Quiet quiet;
   Scratch dir;
   flow_comm = MPI_COMM_SELF;    // to describe the problem
   bool coupled = dim == 2 && g.chance(1, 3);
   bool periodic = !coupled && g.flip();
   F<dim, false> w(g, periodic, coupled ? "" : "far-field");
   if (w.op.viscous || w.op.mms || w.op.dsbp || !spread(*w.smesh)) { g.discard(); }
   std::vector<int> at, far;
   json opt = w.op.o;
   if constexpr (dim == 2) { if (coupled) { opt = with_control(g, w, at, far); } }
   std::string type = g.pick(coupled ? std::vector<std::string>{"RK4", "RK1"} : dim == 3 ? std::vector<std::string>{"RK4", "RK1"} : std::vector<std::string>{"RK4", "RK1", "RRK", "MIDPOINT", "RRK6"});
   if (type[1] == 'R') { opt["space-dis"]["flux-fun"] = "IR"; }
   Smooth<dim> s(g, w.size);
   s.amp *= 0.3;
   // as steep as the spacing allows
   double h = 1e300, lam = 3 + 3 * std::sqrt(1.4 * s.p / s.rho);
   for (int e = 0; e < w.smesh->GetNE(); ++e) { h = std::min(h, w.smesh->GetElementSize(e, 1)); }
   double dt = 0.05 * h / lam / ((w.op.p + 1) * (w.op.p + 1)) / (1 + w.lps + w.iface);
   int steps = type == "RK4" || type == "RK1" ? g.irange(1, 3) : 1;
   opt["print-options"] = false;
   opt["silent"] = true;
   opt["paraview"]["log"] = false;
   bool cfl = g.chance(1, 3) && type.find("RRK") == std::string::npos;   // relaxed steps end anywhere
   opt["time-dis"] = {{"type", type}, {"steady", false}, {"t-initial", 0.0}, {"t-final", dt * (steps - 0.4)}, {"dt", dt}, {"cfl", 0.05}, {"const-cfl", cfl}, {"entropy-log", g.flip()}, {"max-iter", 20}};
   opt["nonlin-solver"] = {{"printlevel", 0}, {"maxiter", 4}, {"reltol", 1e-10}, {"abstol", 1e-12}, {"abort", false}};
   opt["lin-solver"] = {{"type", coupled ? "fgmres" : "hyprefgmres"}, {"printlevel", 0}, {"maxiter", 40}, {"kdim", 40}, {"reltol", 1e-11}, {"abstol", 1e-14}};
   opt["lin-prec"] = {{"type", "hypreilu"}, {"lev-fill", dim == 3 ? 0 : 1}, {"ilu-type", 0}, {"ilu-reorder", 0}, {"printlevel", 0}};
   opt["mesh"] = {{"file", "none.mesh"}};
   if (!coupled) { opt["outputs"] = json::object(); }
   g.note(opt.dump());
   g.label(str(type, coupled ? " coupled" : ""));
   int rank;
   MPI_Comm_rank(o.comm, &rank);
   std::unique_ptr<AbstractSolver2> solver;
   std::function<double()> err;
   auto exact = [&s](const Vector &x, Vector &q) { s(x, q.GetData()); };
   int nc = coupled && rank == 0 ? 2 : 0;
   double c[2] = {g.sym(0.3), g.sym(0.1)};
   Vector z;
   if (coupled)
   {
      if constexpr (dim == 2) { solver.reset(new FlowControlSolver<2, false>(o.comm, opt, std::make_unique<Mesh>(*w.smesh))); }
      Vector pm;
      MISOInputs par = controls(g, pm);
      par.emplace("x-actuator", w.xact);
      z.SetSize(solver->getStateSize());
      // the flow's part, by a space of the same shape
   }
   else { solver.reset(new FlowSolver<dim, false>(o.comm, opt, std::make_unique<Mesh>(*w.smesh))); }
   // the solver's own partition is METIS's; the same here
   ParMesh mesh(o.comm, *w.smesh);
   ParFiniteElementSpace fes(&mesh, w.fec.get(), dim + 2, Ordering::byVDIM);
   Vector u = on_nodes(fes, exact);
   z.SetSize(u.Size() + nc);
   for (int i = 0; i < nc; ++i) { z(i) = c[i]; }
   z.SetVector(u, nc);
   o.add("size", solver->getStateSize() - z.Size(), 1);
   std::vector<Vector> tests;
   for (int i = 0; i < 3; ++i) { tests.push_back(test_vec(g, fes, w.size)); }
   solver->solveForState(MISOInputs{{"state", z}}, z);
   Vector f(z.GetData() + nc, u.Size());
   for (auto &t : tests) { o.dot("final state", f, t); }
   for (int i = 0; i < 2 * coupled; ++i) { o.add("final state of the controller", o.sum(nc ? z(i) : 0.0), 1); }
   solver->createOutput("entropy", json::object());
   o.add("final entropy", solver->calcOutput("entropy", MISOInputs{{"state", z}}), o.sum(u.Norml1()) * 1e-3);
   g.nontrivial();
}
void simulation(Gen &g)
{
   auto f = g.pick(std::vector<std::function<void(Gen &, Obs &)>>{march<2>, march<2>, march<3>});
   both(g, f, 1e-8);
}
}  // namespace

int main(int argc, char **argv)
{
   std::vector<Prop> props;
   auto put = [&](const std::string &n, Fn f, long q, long t) {
      cases()[n] = f;
      props.push_back({n, remote(n), q, t});
   };
   put("flow", flow, 300, 6000);
   put("control", control, 1500, 20000);
   put("simulation", simulation, 40, 1000);
   physics::add(props);
   if (argc == 3 && std::string(argv[1]) == "--serve") { return serve(argv[2]); }
   setenv("PBT_JOBS", "3", 0);
   if (system("rm -rf r??????") != 0) {}
   Runner r("P31", props, "a case counts if results on two to four ranks were compared with those on one");
   r.assumptions = {"two to four ranks on one computer", "results agree to rounding, or to the tolerance of the linear solver", "derivatives that are partial products on each rank are summed"};
   return r.main(argc, argv);
}
