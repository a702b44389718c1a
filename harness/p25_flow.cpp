// P25: the flow residual as a whole: which terms its options switch on, with
// which parameters and where, its Jacobian, entropy, entropy change, mass
// matrix, time step, errors and outputs, over histories of inputs; and whole
// flow simulations
#include "flowgen.hpp"
#include "femgen.hpp"
#include "euler_integ_mms.hpp"
#include "navier_stokes_integ.hpp"
#include "finite_element_state.hpp"
#include "miso_residual.hpp"
#include "miso_output.hpp"
#include "flow_residual.hpp"
#include "flow_solver.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

#ifndef DISTRIBUTE
#define DISTRIBUTE(g, m) new ParMesh(MPI_COMM_WORLD, m)
#endif

namespace
{
using json = nlohmann::json;
using femgen::Quiet;
struct Scratch
{
   std::string dir, old;
   Scratch()
   {
      char t[] = "/tmp/pbtXXXXXX";
      dir = mkdtemp(t);
      char b[4096];
      old = getcwd(b, sizeof b);
      if (chdir(dir.c_str()) != 0) { abort(); }
   }
   ~Scratch()
   {
      if (chdir(old.c_str()) != 0) { abort(); }
      std::string c = "rm -rf " + dir;
      if (system(c.c_str()) != 0) {}
   }
};

/// fresh meshes: boxes with boundary attributes 1.., or periodic ones
std::unique_ptr<Mesh> flow_mesh(Gen &g, int dim, bool periodic, double &size)
{
   std::unique_ptr<Mesh> m;
   size = g.logreal(0.2, 5);
   if (!periodic)
   {
      MeshOpts o;
      o.max2 = 2;
      o.max3 = 1;
      m = simplex_mesh(g, dim, o);
      for (int i = 0; i < m->GetNV(); ++i)
         for (int d = 0; d < dim; ++d) { m->GetVertex(i)[d] = m->GetVertex(i)[d] * size + (d == 0 ? 30 : 0); }
      int na = g.irange(1, 4);
      for (int i = 0; i < m->GetNBE(); ++i) { m->SetBdrAttribute(i, i < na ? i + 1 : g.irange(1, na)); }
      m->SetAttributes();
      return m;
   }
   double len[3];
   int n[3];
   for (int d = 0; d < 3; ++d)
   {
      len[d] = size * g.real(0.7, 1.4);
      n[d] = 3;
   }
   Mesh c;
   if (dim == 1) { c = Mesh::MakeCartesian1D(n[0] = g.irange(3, 6), len[0]); }
   else if (dim == 2) { c = Mesh::MakeCartesian2D(n[0], n[1] = g.irange(3, 4), Element::TRIANGLE, true, len[0], len[1], true); }
   else { c = Mesh::MakeCartesian3D(n[0], n[1], n[2], Element::TETRAHEDRON, len[0], len[1], len[2]); }
   if (g.flip())
      for (int i = 0; i < c.GetNV(); ++i)
      {
         bool in = true;
         for (int d = 0; d < dim; ++d) { in = in && c.GetVertex(i)[d] > 1e-9 * len[d] && c.GetVertex(i)[d] < (1 - 1e-9) * len[d]; }
         if (in) { for (int d = 0; d < dim; ++d) { c.GetVertex(i)[d] += g.sym(0.2) * len[d] / n[d]; } }
      }
   std::vector<Vector> tr;
   for (int d = 0; d < dim; ++d)
   {
      Vector t(dim);
      t = 0.0;
      t(d) = len[d];
      tr.push_back(t);
   }
   m.reset(new Mesh(Mesh::MakePeriodic(c, c.CreatePeriodicVertexMapping(tr))));
   return m;
}

/// the exponent, a difference divided by a small length, loses digits
double bc_scale(double len, const Vector &xc, const Vector &x)
{
   double r = 0;
   for (int d = 0; d < x.Size(); ++d) { r += (x(d) - xc(d)) * (x(d) - xc(d)); }
   return std::exp(-r / (len * len));
}
/// exact solutions given as plain functions
double ex_c[8];
void ex_fun(const Vector &x, Vector &q)
{
   double s = 0;
   for (int d = 0; d < x.Size(); ++d) { s += ex_c[6] * x(d) * (d + 1); }
   for (int k = 0; k < q.Size(); ++k) { q(k) = ex_c[k] * (1 + 0.1 * std::sin(s + 0.3 * (k == q.Size() - 1 ? 0 : k))); }
}

struct Opts
{
   bool viscous = false, dsbp = false, periodic = false, mms = false, ent_only = false;
   int p = 1;
   json o;
};

template <int dim, bool entvar>
struct World
{
   double size;
   std::unique_ptr<Mesh> smesh;
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<FiniteElementCollection> fec;
   std::unique_ptr<ParFiniteElementSpace> fes;
   std::map<std::string, FiniteElementState> fields;
   Opts op;
   double mach, aoa, Re, Pr, mu, lps, iface;
   int roll, pitch;
   Vector qfar;
   // the inputs as they stand
   double t = 0, control = 0;
   Vector xact;
   int nb = 0;
   std::unique_ptr<Field<dim>> f;
   std::vector<double> bound;

   World(Gen &g, bool periodic, const std::string &fixed = "")
   {
      op.periodic = periodic;
      smesh = flow_mesh(g, dim, periodic, size);
      mesh.reset(DISTRIBUTE(g, *smesh));
      nb = mesh->bdr_attributes.Size() ? mesh->bdr_attributes.Max() : 0;
      op.viscous = !entvar && dim > 1 && g.chance(1, 3);
      op.dsbp = dim == 2 && !op.viscous && g.chance(2, 5);
      op.p = dim == 3 ? g.irange(0, 1) : g.irange(1, dim == 2 ? 3 : 4);
      if (op.dsbp) { fec.reset(new DSBPCollection(op.p, dim)); }
      else { fec.reset(new SBPCollection(op.p, dim)); }
      fes.reset(new ParFiniteElementSpace(mesh.get(), fec.get(), dim + 2, Ordering::byVDIM));
      mach = g.real(0.1, 1.5);
      aoa = g.sym(20);
      Re = g.logreal(5, 1e4);
      Pr = g.real(0.3, 1.5);
      mu = g.flip() ? -1.0 : g.real(0.2, 3);
      lps = g.flip() ? 0.0 : g.real(0.1, 2);
      iface = g.chance(1, 3) ? 0.0 : g.real(0.2, 2);
      roll = dim == 1 ? 0 : g.irange(0, dim - 1);
      pitch = dim == 1 ? 1 : (roll + 1 + (dim == 3 ? g.irange(0, 1) : 0)) % dim;
      std::string flux = entvar || g.flip() ? "IR" : "Euler";
      // the free stream
      qfar.SetSize(dim + 2);
      qfar = 0.0;
      qfar(0) = 1.0;
      double a = aoa * std::acos(-1.0) / 180;
      if (dim == 1) { qfar(1) = mach; }
      else
      {
         qfar(1 + roll) = mach * std::cos(a);
         qfar(1 + pitch) = mach * std::sin(a);
      }
      qfar(dim + 1) = 1 / (1.4 * 0.4) + 0.5 * mach * mach;
      json o;
      o["flow-param"] = {{"entropy-state", entvar}, {"mach", mach}, {"aoa", aoa}, {"roll-axis", roll}, {"pitch-axis", pitch}, {"viscous", op.viscous}, {"Re", Re}, {"Pr", Pr}, {"mu", mu}};
      o["space-dis"] = {{"degree", op.p}, {"lps-coeff", lps}, {"iface-coeff", iface}, {"basis-type", op.dsbp ? "dsbp" : "csbp"}, {"flux-fun", flux}};
      o["time-dis"] = {{"steady", g.chance(1, 4)}};
      if (fixed.empty() && dim > 1 && g.chance(1, 6))
      {
         op.mms = true;
         o["flow-param"][op.viscous ? "viscous-mms" : "inviscid-mms"] = true;
      }
      std::vector<std::string> kinds;
      if (!periodic && fixed.empty())
      {
         std::vector<std::string> all = op.viscous ? std::vector<std::string>{"slip-wall", "no-slip-adiabatic", "far-field", "viscous-mms", "control"}
                                                   : std::vector<std::string>{"slip-wall", "far-field", "vortex", "pump", "control"};
         if (dim == 3) { all = op.viscous ? std::vector<std::string>{"slip-wall", "no-slip-adiabatic", "far-field", "viscous-mms"} : std::vector<std::string>{"slip-wall", "far-field"}; }
         for (auto &k : all)
            if (g.flip())
            {
               std::vector<int> at;
               for (int i = 1; i <= nb; ++i)
                  if (g.flip()) { at.push_back(i); }
               o["bcs"][k] = at;
               if (!at.empty()) { g.label(k); }
            }
      }
      else if (!fixed.empty() && !periodic)
      {
         std::vector<int> at;
         for (int i = 1; i <= nb; ++i) { at.push_back(i); }
         o["bcs"][fixed] = at;
      }
      op.o = o;
      f.reset(new Field<dim>(g));
      xact.SetSize(dim);
      xact = 0.0;
      if (dim > 1) { xact(0) = 0.5; }
      g.label(str("d", dim, "p", op.p, op.dsbp ? "dsbp" : "sbp"));
      if (op.viscous) { g.label("viscous"); }
      g.note(o.dump());
   }
   template <typename Fun>
   void volume(Fun fun) const
   {
      if (op.o["space-dis"]["flux-fun"] == "IR") { IsmailRoeIntegrator<dim, entvar> i(stack()); fun(i); }
      else if constexpr (!entvar) { EulerIntegrator<dim> i(stack()); fun(i); }
      if (op.mms && !op.viscous) { InviscidMMSIntegrator i(-1.0, dim); fun(i); }
      if (lps > 0) { EntStableLPSIntegrator<dim, entvar> i(stack(), lps); fun(i); }
      if constexpr (!entvar && dim > 1)
         if (op.viscous)
         {
            ESViscousIntegrator<dim> i(stack(), Re, Pr, mu);
            fun(i);
            if (op.mms) { NavierStokesMMSIntegrator m(Re, Pr, -1.0, dim); fun(m); }
         }
   }
   template <typename Fun>
   void boundary(double time, Fun fun) const
   {
      if (!op.o.contains("bcs")) { return; }
      for (auto &[k, at] : op.o["bcs"].items())
      {
         std::vector<int> m = at.template get<std::vector<int>>();
         if (!op.viscous)
         {
            if (k == "slip-wall") { SlipWallBC<dim, entvar> i(stack(), fec.get()); fun(i, m); }
            if (k == "far-field") { FarFieldBC<dim, entvar> i(stack(), fec.get(), qfar); fun(i, m); }
            if constexpr (dim == 2)
            {
               if (k == "vortex") { IsentropicVortexBC<2, entvar> i(stack(), fec.get()); fun(i, m); }
               if (k == "pump")
               {
                  EntropyConserveBC<2, entvar> i(stack(), fec.get(), [](double tt, const Vector &, Vector &q)
                  {
                     // a piston moving as 0.05 (1 - cos t) in a box of length one
                     double x = 0.05 * (1 - std::cos(tt)), v = 0.05 * std::sin(tt), rho = 1 / (1 - x);
                     q(0) = rho;
                     q(1) = rho * v;
                     q(2) = 0;
                     q(3) = std::pow(rho, 1.4) / 0.4 + 0.5 * rho * v * v;
                  });
                  setInputs(i, MISOInputs{{"time", time}});
                  fun(i, m);
               }
               if (k == "control")
               {
                  ControlBC<2, entvar> i(stack(), fec.get(), bc_scale, xact, 0.1);
                  setInputs(i, MISOInputs{{"control", control}, {"x-actuator", xact}});
                  fun(i, m);
               }
            }
         }
         else if constexpr (!entvar && dim > 1)
         {
            if (k == "slip-wall") { ViscousSlipWallBC<dim> i(stack(), fec.get(), Re, Pr, mu); fun(i, m); }
            if (k == "no-slip-adiabatic") { NoSlipAdiabaticWallBC<dim> i(stack(), fec.get(), Re, Pr, qfar, mu); fun(i, m); }
            if (k == "far-field") { FarFieldBC<dim, false> i(stack(), fec.get(), qfar); fun(i, m); }
            if (k == "viscous-mms")
            {
               ViscousExactBC<dim> i(stack(), fec.get(), Re, Pr, [](const Vector &x, Vector &u) { viscousMMSExact<double>(dim, x.GetData(), u.GetData()); }, mu);
               fun(i, m);
            }
            if (k == "control")
            {
               ViscousControlBC<dim> i(stack(), fec.get(), Re, Pr, qfar, bc_scale, xact, 0.1, mu);
               setInputs(i, MISOInputs{{"control", control}, {"x-actuator", xact}});
               fun(i, m);
            }
         }
      }
   }
   Vector el(const Vector &u, int e) const
   {
      Array<int> d;
      fes->GetElementVDofs(e, d);
      Vector r;
      u.GetSubVector(d, r);
      return r;
   }
   void add(Vector &r, int e, const Vector &v) const
   {
      Array<int> d;
      fes->GetElementVDofs(e, d);
      r.AddElementVector(d, v);
   }
   /// the reference residual; size gets the magnitude of what was summed
   Vector residual(const Vector &u, double time, double *mag = nullptr) const
   {
      Vector r(u.Size()), t;
      r = 0.0;
      double big = 0;
      for (int e = 0; e < mesh->GetNE(); ++e)
         volume([&](auto &in)
         {
            in.AssembleElementVector(*fes->GetFE(e), *mesh->GetElementTransformation(e), el(u, e), t);
            big = std::max(big, t.Normlinf());
            add(r, e, t);
         });
      if (op.dsbp)
      {
         InterfaceIntegrator<dim, entvar> in(stack(), iface, fec.get());
         for (int i = 0; i < mesh->GetNumFaces(); ++i)
         {
            auto *F = mesh->GetInteriorFaceTransformations(i);
            if (!F) { continue; }
            Vector a = el(u, F->Elem1No), b = el(u, F->Elem2No), uu(a.Size() + b.Size());
            uu.SetVector(a, 0);
            uu.SetVector(b, a.Size());
            int e1 = F->Elem1No, e2 = F->Elem2No;
            in.AssembleFaceVector(*fes->GetFE(e1), *fes->GetFE(e2), *F, uu, t);
            big = std::max(big, t.Normlinf());
            for (int k = 0; k < a.Size(); ++k) { a(k) = t(k); }
            for (int k = 0; k < b.Size(); ++k) { b(k) = t(a.Size() + k); }
            add(r, e1, a);
            add(r, e2, b);
         }
      }
      boundary(time, [&](auto &in, const std::vector<int> &m)
      {
         on(m, [&](int e, FaceElementTransformations &F)
         {
            in.AssembleFaceVector(*fes->GetFE(e), *fes->GetFE(e), F, el(u, e), t);
            big = std::max(big, t.Normlinf());
            add(r, e, t);
         });
      });
      if (mag) { *mag = big; }
      return r;
   }
   template <typename Fun>
   void on(const std::vector<int> &m, Fun fun) const
   {
      for (int b = 0; b < mesh->GetNBE(); ++b)
      {
         if (std::find(m.begin(), m.end(), mesh->GetBdrAttribute(b)) == m.end()) { continue; }
         auto *F = mesh->GetBdrFaceTransformations(b);
         if (F) { int e = F->Elem1No; fun(e, *F); }
      }
   }
   Vector state(Gen &g) const
   {
      Vector u(fes->GetTrueVSize());
      for (int i = 0; i < u.Size() / (dim + 2); ++i)
      {
         double q[5];
         f->node(g, q);
         put(u, i, q);
      }
      return u;
   }
   static void put(Vector &u, int i, const double *q)
   {
      if (entvar) { to_w<dim>(q, u.GetData() + i * (dim + 2)); }
      else { for (int k = 0; k < dim + 2; ++k) { u(i * (dim + 2) + k) = q[k]; } }
   }
   /// conservative variables of node i
   static void cons(const double *u, double *q)
   {
      if (!entvar) { std::copy(u, u + dim + 2, q); return; }
      // w = ((g-s)/(g-1) - rho k/2p, rho u/p, -rho/p), s = log(p/rho^g)
      double b = -u[dim + 1], k = 0, v[3];
      for (int d = 0; d < dim; ++d) { v[d] = u[d + 1] / b; k += v[d] * v[d]; }
      double s = 1.4 - 0.4 * (u[0] + 0.5 * b * k);
      double rho = std::pow(std::exp(s) * b, -1 / 0.4);
      pack<dim>(rho, v, rho / b, q);
   }
   Vector entropy_vars(const Vector &u) const
   {
      Vector w(u);
      if (!entvar)
         for (int i = 0; i < u.Size() / (dim + 2); ++i) { to_w<dim>(u.GetData() + i * (dim + 2), w.GetData() + i * (dim + 2)); }
      return w;
   }
   template <typename Fun>
   void nodes(Fun fun) const
   {
      for (int e = 0; e < mesh->GetNE(); ++e)
      {
         auto &T = *mesh->GetElementTransformation(e);
         auto &ir = fes->GetFE(e)->GetNodes();
         Array<int> d;
         fes->GetElementDofs(e, d);
         for (int i = 0; i < ir.GetNPoints(); ++i)
         {
            T.SetIntPoint(&ir.IntPoint(i));
            fun(e, i, d[i], ir.IntPoint(i).weight * T.Weight(), T);
         }
      }
   }
   double entropy(const Vector &u, double *mag = nullptr) const
   {
      double s = 0, m = 0;
      nodes([&](int, int, int n, double w, ElementTransformation &)
      {
         double q[5];
         cons(u.GetData() + n * (dim + 2), q);
         double v = -w * q[0] * std::log(pres<dim>(q) / std::pow(q[0], 1.4)) / 0.4;
         s += v;
         m += std::fabs(v) + w * q[0];
      });
      if (mag) { *mag = m; }
      return s;
   }
   double scale(const Vector &u) const
   {
      // flux magnitude times face sizes
      double s = 0;
      for (int i = 0; i < u.Size() / (dim + 2); ++i)
      {
         double q[5];
         cons(u.GetData() + i * (dim + 2), q);
         s = std::max(s, fmax_<dim>(Vector(q, dim + 2), 1));
      }
      return s * std::pow(size, dim - 1) * 2;
   }
};

void compare(Gen &g, const Vector &a, const Vector &b, double tol, const std::string &key)
{
   g.check(a.Size() == b.Size(), key + "-size", str(a.Size(), " vs ", b.Size()));
   for (int i = 0; i < a.Size(); ++i)
      g.check(std::fabs(a(i) - b(i)) <= tol, key, str("entry ", i, ": ", fmt(a(i)), ", reference ", fmt(b(i)), " tolerance ", fmt(tol)));
}

template <int dim, bool entvar>
struct T
{
   using W = World<dim, entvar>;
   using R = FlowResidual<dim, entvar>;
   static void history(Gen &g)
   {
      Quiet quiet;
      W w(g, dim == 1 || g.chance(1, 4));
      std::ostringstream log;
      if (g.flip()) { w.fields.emplace("state", FiniteElementState(*w.mesh, *w.fes, "state")); }
      json opts = w.op.o;
      MISOResidual res(R(opts, *w.fes, w.fields, stack(), log));
      R &fr = getConcrete<R>(res);
      int n = w.fes->GetTrueVSize();
      g.check(getSize(res) == n, "size", str(getSize(res), " vs ", n));
      Vector q0(dim + 2);
      fr.getFreeStreamState(q0);
      compare(g, q0, w.qfar, 1e-13, "free-stream-state");
      int nops = g.irange(1, 4);
      std::vector<MISOOutput> keep;
      for (int k = 0; k < nops; ++k)
      {
         // change inputs
         MISOInputs in;
         double dt = g.real(0.01, 0.5);
         Vector u = w.state(g), sd = femgen::random_dir(g, n, 1.0);
         if (g.flip()) { w.control = g.sym(0.5); in.emplace("control", w.control); }
         if (dim == 2 && g.flip() && w.nb > 0)
         {
            // near a boundary vertex
            Array<int> v;
            w.mesh->GetBdrElementVertices(g.irange(0, w.mesh->GetNBE() - 1), v);
            const double *x = w.mesh->GetVertex(v[g.irange(0, 1)]);
            for (int d = 0; d < dim; ++d) { w.xact(d) = x[d] + g.sym(0.08); }
            in.emplace("x-actuator", w.xact);
         }
         w.t = g.real(0, 6);
         in.emplace("time", w.t);
         if (g.flip())
         {
            MISOInputs first(in);
            setInputs(res, first);
            in = MISOInputs{{"time", w.t}};
         }
         in.emplace("state", u);
         int what = g.irange(0, 7);
         // the residual hears of every input, whatever is asked next
         if (what >= 3) { setInputs(res, in); }
         double mag;
         if (what <= 1)
         {
            Vector r(n), ref = w.residual(u, w.t, &mag);
            r = g.sym(5.0);
            evaluate(res, in, r);
            compare(g, r, ref, (w.op.o["bcs"].contains("control") ? 1e-8 : 1e-11) * std::max(mag, 1e-3 * w.scale(u)), "residual");
            g.nontrivial(w.f->amp > 0);
         }
         else if (what == 2)
         {
            setInputs(res, in);
            auto &J = getJacobian(res, in, "state");
            Vector v(n), jv(n);
            double sz[5] = {0}, ms = 0;
            for (int i = 0; i < n; ++i) { sz[i % (dim + 2)] = std::max(sz[i % (dim + 2)], std::fabs(u(i))); }
            for (int d = 1; d <= dim; ++d) { ms = std::max(ms, sz[d]); }
            ms = std::max(ms, std::sqrt(sz[0] * sz[dim + 1]));
            for (int d = 1; d <= dim; ++d) { sz[d] = ms; }
            if (g.flip()) { for (int i = 0; i < n; ++i) { v(i) = g.sym(1.0) * sz[i % (dim + 2)]; } }
            else
            {
               v = 0.0;
               int i = g.irange(0, n - 1);
               v(i) = sz[i % (dim + 2)];
            }
            J.Mult(v, jv);
            fd_check(g, [&](const Vector &x, Vector &y) { y = w.residual(x, w.t); }, u, v, jv, 1e-4, "jacobian", "", 1e-5, 1e-9 * w.scale(u));
            g.nontrivial(true);
            g.label("jacobian");
         }
         else if (what == 3)
         {
            double m, ref = w.entropy(u, &m), e = g.flip() ? calcEntropy(res, in) : [&]
            {
               keep.push_back(fr.constructOutput("entropy", json::object()));
               return calcOutput(keep.back(), in);
            }();
            g.close(e, ref, 1e-11 * m, "entropy", "");
            g.nontrivial(w.f->amp > 0);
            g.label("entropy");
         }
         else if (what == 4)
         {
            // only the entropy-conservative flux knows its entropy
            if (w.op.mms || opts["space-dis"]["flux-fun"] != "IR") { continue; }
            in.emplace("state_dot", sd);
            in.emplace("dt", dt);
            double e = calcEntropyChange(res, in);
            Vector r = w.residual(u, w.t + dt, &mag), wv = w.entropy_vars(u);
            g.close(e, r * wv, 1e-10 * wv.Normlinf() * std::max(mag, 1e-3 * w.scale(u)) * n, "entropy-change", "");
            g.nontrivial(w.f->amp > 0);
            g.label("entropy-change");
         }
         else if (what == 5)
         {
            auto *M = getMassMatrix(res, opts);
            Vector x = femgen::random_dir(g, n, 1.0), y(n), ref(n);
            ref = 0.0;
            M->Mult(x, y);
            bool steady = opts["time-dis"]["steady"];
            w.nodes([&](int, int, int nd, double wt, ElementTransformation &T)
            {
               if (steady) { wt /= std::pow(T.Weight(), 1.0 / dim); }
               for (int c = 0; c < dim + 2; ++c) { ref(nd * (dim + 2) + c) += wt * x(nd * (dim + 2) + c); }
            });
            compare(g, y, ref, 1e-12 * ref.Normlinf(), "mass");
            g.nontrivial(true);
            g.label("mass");
         }
         else if (what == 6)
         {
            if (entvar && w.op.p == 0) { continue; }
            ParGridFunction gf(w.fes.get());
            gf = u;
            if (g.flip())
            {
               double cfl = g.real(0.1, 3), ref = 1e300;
               for (int e = 0; e < w.mesh->GetNE(); ++e)
               {
                  std::vector<Vector> x;
                  std::vector<int> id;
                  w.nodes([&](int ee, int i, int nd, double, ElementTransformation &T)
                  {
                     if (ee != e) { return; }
                     Vector xx(dim);
                     T.Transform(w.fes->GetFE(e)->GetNodes().IntPoint(i), xx);
                     x.push_back(xx);
                     id.push_back(nd);
                  });
                  for (size_t i = 0; i < x.size(); ++i)
                     for (size_t j = 0; j < x.size(); ++j)
                     {
                        if (i == j) { continue; }
                        Vector d(x[j]);
                        d -= x[i];
                        double L = d.Norml2(), un = 0, q[5];
                        W::cons(u.GetData() + id[i] * (dim + 2), q);
                        for (int c = 0; c < dim; ++c) { un += q[c + 1] / q[0] * d(c) / L; }
                        ref = std::min(ref, cfl * L / (std::fabs(un) + std::sqrt(1.4 * pres<dim>(q) / q[0])));
                     }
               }
               double got = fr.minCFLTimeStep(cfl, gf);
               if (ref < 1e99) { g.close(got, ref, 1e-10 * ref, "cfl-step", ""); }
               g.label("cfl");
            }
            else
            {
               int entry = g.irange(-1, dim + 1);
               for (int c = 0; c < dim + 2; ++c) { ex_c[c] = g.real(0.5, 2) * (c == dim + 1 ? 4 : 1); }
               if (entvar) { double b[5], q[5] = {ex_c[0], 0.3, dim > 1 ? 0.2 : 3.0, dim > 2 ? 0.1 : 3.0, 3.0}; q[dim + 1] = 3; to_w<dim>(q, b); for (int c = 0; c < dim + 2; ++c) { ex_c[c] = b[c]; } }
               ex_c[6] = g.sym(1.0) / w.size;
               double s = 0, m = 0;
               w.nodes([&](int, int i, int nd, double wt, ElementTransformation &T)
               {
                  Vector x(dim), qe(dim + 2);
                  T.Transform(T.GetIntPoint(), x);
                  ex_fun(x, qe);
                  double a[5], b[5];
                  W::cons(u.GetData() + nd * (dim + 2), a);
                  W::cons(qe.GetData(), b);
                  for (int c = 0; c < dim + 2; ++c)
                  {
                     if (entry < 0 || c == entry) { s += wt * (a[c] - b[c]) * (a[c] - b[c]); }
                     m += wt * (a[c] * a[c] + b[c] * b[c]);
                  }
               });
               g.close(fr.calcConservativeVarsL2Error(gf, ex_fun, entry), std::sqrt(s), 1e-9 * std::sqrt(m), "l2-error", str("entry ", entry));
               g.label("l2-error");
            }
            g.nontrivial(w.f->amp > 0);
         }
         else
         {
            if (w.nb == 0 || w.op.periodic) { continue; }
            std::vector<int> at;
            for (int i = 1; i <= w.nb; ++i)
               if (g.flip()) { at.push_back(i); }
            json oo = {{"boundaries", at}};
            std::vector<std::string> names{"drag", "lift"};
            if (dim == 2) { names.push_back("boundary-entropy"); }
            if (!entvar) { names.push_back("far-field-supply-rate"); }
            std::string name = g.pick(names);
            keep.push_back(fr.constructOutput(name, oo));
            MISOOutput &out = keep.back();
            double ref = 0, m = 0;
            double a = w.aoa * std::acos(-1.0) / 180;
            Vector dir(dim);
            dir = 0.0;
            dir(w.roll) = (name == "drag" ? std::cos(a) : -std::sin(a)) / w.mach / w.mach;
            dir(w.pitch) = (name == "drag" ? std::sin(a) : std::cos(a)) / w.mach / w.mach;
            auto fun = [&](const Vector &x)
            {
               double s = 0;
               auto sum = [&](auto &i)
               {
                  w.on(at, [&](int e, FaceElementTransformations &F)
                  {
                     double v = i.GetFaceEnergy(*w.fes->GetFE(e), *w.fes->GetFE(e), F, w.el(x, e));
                     s += v;
                     m += std::fabs(v);
                  });
               };
               if (name == "boundary-entropy") { BoundaryEntropy<dim, entvar> i(stack(), w.fec.get(), bc_scale, w.xact, 0.1); setInputs(i, MISOInputs{{"x-actuator", w.xact}}); sum(i); }
               else if (name == "far-field-supply-rate") { SupplyRate<dim, entvar> i(stack(), w.fec.get(), w.qfar); sum(i); }
               else if (w.op.viscous)
               {
                  if constexpr (!entvar && dim > 1) { SurfaceForce<dim> i(stack(), w.fec.get(), dim + 2, w.Re, w.Pr, w.qfar, dir, w.mu); sum(i); }
               }
               else { PressureForce<dim, entvar> i(stack(), w.fec.get(), dir); sum(i); }
               return s;
            };
            ref = fun(u);
            in["x-actuator"] = w.xact;
            setInputs(out, in);
            double got = calcOutput(out, in);
            g.close(got, ref, (name == "boundary-entropy" ? 1e-8 : 1e-11) * std::max(m, 1e-3 * w.scale(u)), name, str("boundaries ", json(at).dump()));
            g.label(name);
            g.nontrivial(!at.empty());
         }
      }
   }

   /// what must hold whatever the terms look like
   static void invariants(Gen &g)
   {
      Quiet quiet;
      int kind = dim == 1 ? 1 : g.irange(0, 2);
      W w(g, kind == 1, kind == 0 ? "far-field" : kind == 2 ? "slip-wall" : "none");
      if (kind == 2 && w.op.viscous) { g.discard(); }
      json opts = w.op.o;
      std::ostringstream log;
      MISOResidual res(R(opts, *w.fes, w.fields, stack(), log));
      int n = w.fes->GetTrueVSize();
      Vector r(n);
      if (kind == 0)
      {
         Vector u(n);
         for (int i = 0; i < n / (dim + 2); ++i) { W::put(u, i, w.qfar.GetData()); }
         evaluate(res, MISOInputs{{"state", u}, {"time", 0.0}}, r);
         double sc = w.scale(u) * (1 + w.lps + w.iface);
         g.check(r.Normlinf() <= 1e-11 * sc, "free-stream", str("the free stream has residual ", fmt(r.Normlinf()), " scale ", fmt(sc)));
         g.label("free-stream");
         g.nontrivial(true);
         return;
      }
      Vector u = w.state(g);
      double sc = w.scale(u) * (1 + w.lps + w.iface);
      if (w.op.viscous) { double m; w.residual(u, 0, &m); sc += 10 * m; }
      MISOInputs in{{"state", u}, {"time", 0.0}};
      evaluate(res, in, r);
      for (int k = 0; k < dim + 2; ++k)
      {
         if (kind == 2 && k > 0 && k <= dim) { continue; }
         double s = 0;
         for (int i = 0; i < n / (dim + 2); ++i) { s += r(i * (dim + 2) + k); }
         g.check(std::fabs(s) <= 1e-11 * sc * n, "conservation", str("component ", k, " of the residual sums to ", fmt(s)));
      }
      Vector wv = w.entropy_vars(u);
      double s = wv * r, tol = 1e-11 * sc * wv.Normlinf() * n;
      bool ir = opts["space-dis"]["flux-fun"] == "IR";
      in.emplace("state_dot", r);
      in.emplace("dt", 0.1);
      if (ir)
      {
         g.close(calcEntropyChange(res, in), s, tol, "entropy-change-is-w-res", "");
         bool cons = w.lps == 0 && (!w.op.dsbp || w.iface == 0) && !w.op.viscous;
         if (cons) { g.check(std::fabs(s) <= tol, "entropy-conservation", str("entropy changes by ", fmt(s), " tolerance ", fmt(tol))); }
         else { g.check(s >= -tol, "entropy-stability", str("w.res is ", fmt(s), " tolerance ", fmt(tol))); }
         g.label(cons ? "entropy-conserved" : "entropy-stable");
      }
      g.label(kind == 1 ? "periodic" : "box");
      g.nontrivial(w.f->amp > 0);
   }
};

/// whole simulations: periodic, unsteady; or steady towards the free stream
template <int dim>
void simulate(Gen &g)
{
   Quiet quiet;
   Scratch dir;
   using W = World<dim, false>;
   bool steady = dim == 2 && g.chance(1, 3);
   W w(g, !steady, steady ? "far-field" : "none");
   json o = w.op.o;
   if (w.op.viscous) { g.discard(); }
   o["print-options"] = false;
   o["silent"] = true;
   std::string type = steady ? "PTC" : g.pick(std::vector<std::string>{"RK4", "RK1", "MIDPOINT", "RRK"});
   if (type == "RRK") { o["space-dis"]["flux-fun"] = "IR"; w.op.o["space-dis"]["flux-fun"] = "IR"; }
   w.f->amp = std::min(w.f->amp, 0.1);
   if (steady)
   {
      // a disturbance of the free stream
      w.f->rho = 1;
      w.f->p = 1 / 1.4;
      for (int d = 0; d < dim; ++d) { w.f->u[d] = w.qfar(d + 1); }
      w.f->amp = std::min(w.f->amp, 0.01);
   }
   Vector u = w.state(g), u0(u);
   int n = u.Size();
   // a stable step
   double h = 1e300, lam = 0;
   w.nodes([&](int e, int, int nd, double, ElementTransformation &)
   {
      double q[5], k = 0;
      W::cons(u.GetData() + nd * (dim + 2), q);
      for (int d = 0; d < dim; ++d) { k += q[d + 1] * q[d + 1]; }
      lam = std::max(lam, std::sqrt(k) / q[0] + std::sqrt(1.4 * pres<dim>(q) / q[0]));
      h = std::min(h, w.mesh->GetElementSize(e, 1));
   });
   bool cfl = !steady && g.chance(1, 3);
   double dt = 0.05 * h / lam / ((w.op.p + 1) * (w.op.p + 1)) / (1 + w.lps + w.iface), t0 = g.flip() ? 0.0 : g.sym(2);
   int steps = g.irange(1, 3);
   double tf = t0 + dt * (t0 == 0 && g.flip() ? steps : steps - 0.4);
   if (cfl) { tf = t0 + 3 * dt; }
   bool elog = g.flip();
   o["time-dis"] = {{"type", type}, {"steady", steady}, {"t-initial", t0}, {"t-final", tf}, {"dt", steady ? 0.1 * h / lam : dt}, {"cfl", 0.05}, {"const-cfl", cfl}, {"entropy-log", elog || steady}, {"max-iter", steady ? 25 : 200}, {"steady-abstol", 1e-12}, {"steady-reltol", 1e-8}, {"res-exp", 1.0}};
   o["nonlin-solver"] = {{"printlevel", 0}, {"maxiter", 30}, {"reltol", steady ? 1e-2 : 1e-13}, {"abstol", 1e-13}, {"abort", false}};
   o["lin-solver"] = {{"type", "hyprefgmres"}, {"printlevel", 0}, {"maxiter", 200}, {"kdim", 200}, {"reltol", 1e-13}, {"abstol", 0.0}};
   o["lin-prec"] = {{"type", "hypreilu"}, {"lev-fill", 2}, {"ilu-type", 0}, {"ilu-reorder", 0}, {"printlevel", 0}};
   o["mesh"] = {{"file", "none.mesh"}};
   o["outputs"] = json::object();
   g.label(type);
   g.note(o.dump());
   FlowSolver<dim, false> solver(MPI_COMM_WORLD, o, std::make_unique<Mesh>(*w.smesh));
   g.check(solver.getStateSize() == n, "solver-size", str(solver.getStateSize(), " vs ", n));
   Vector qf(dim + 2);
   solver.getFreeStreamState(qf);
   compare(g, qf, w.qfar, 1e-13, "free-stream-state");
   solver.createOutput("entropy", json::object());
   MISOInputs in{{"state", u}};
   double m, s0 = w.entropy(u, &m);
   g.close(solver.calcOutput("entropy", in), s0, 1e-11 * m, "solver-entropy", "before");
   Vector r0 = w.residual(u, 0);
   double rn0 = r0.Norml2();
   solver.solveForState(MISOInputs{{"state", u}}, u);
   for (int i = 0; i < n; ++i) { g.check(std::isfinite(u(i)), "solver-finite", str("entry ", i)); }
   g.nontrivial(w.f->amp > 0);
   if (steady)
   {
      double rn = w.residual(u, 0).Norml2();
      std::vector<double> t;
      std::ifstream f("entropy-log.txt");
      double a, b;
      while (f >> a >> b) { t.push_back(a); }
      bool done = rn <= 1e-8 * rn0 * (1 + 1e-6) || rn <= 1e-11 * w.scale(u);
      g.check(done || t.size() >= 26, "steady-residual", str("left after ", t.size(), " steps at residual ", fmt(rn), ", initially ", fmt(rn0)));
      g.check(t.size() <= 27, "steady-steps", str(t.size(), " rows"));
      // the pseudo-time step does not shrink
      for (size_t i = 2; i + 1 < t.size(); ++i) { g.check(t[i] - t[i - 1] >= (t[i - 1] - t[i - 2]) * (1 - 1e-6) - 1e-9 * std::fabs(t[i]), "steady-step-size", str("step ", i)); }
      g.label(done ? "steady-converged" : "steady-exhausted");
      return;
   }
   // conserved quantities
   Vector c0(dim + 2), c1(dim + 2), mag(dim + 2);
   c0 = 0.0;
   c1 = 0.0;
   mag = 0.0;
   w.nodes([&](int, int, int nd, double wt, ElementTransformation &)
   {
      for (int k = 0; k < dim + 2; ++k)
      {
         c0(k) += wt * u0(nd * (dim + 2) + k);
         c1(k) += wt * u(nd * (dim + 2) + k);
         mag(k) += wt * std::fabs(u(nd * (dim + 2) + k));
      }
   });
   for (int k = 0; k < dim + 2; ++k) { g.check(std::fabs(c0(k) - c1(k)) <= 1e-9 * mag.Normlinf(), "solver-conservation", str("component ", k, " went from ", fmt(c0(k)), " to ", fmt(c1(k)))); }
   double s1 = w.entropy(u), got = solver.calcOutput("entropy", MISOInputs{{"state", u}});
   g.close(got, s1, 1e-11 * m, "solver-entropy", "after");
   bool cons = o["space-dis"]["flux-fun"] == "IR" && w.lps == 0 && (!w.op.dsbp || w.iface == 0);
   if (type == "RRK" && cons) { g.close(s1, s0, 1e-9 * m, "solver-entropy-conserved", ""); g.label("entropy-conserved"); }
   if (type == "RRK" && !cons) { g.check(s1 <= s0 + 1e-9 * m, "solver-entropy-decays", str("from ", fmt(s0), " to ", fmt(s1))); }
   std::vector<std::pair<double, double>> hist;
   if (type == "RK4" || type == "RK1")
   {
      // the same by hand
      Vector mass(n), v(u0);
      mass = 0.0;
      w.nodes([&](int, int, int nd, double wt, ElementTransformation &) { for (int k = 0; k < dim + 2; ++k) { mass(nd * (dim + 2) + k) += wt; } });
      auto rhs = [&](const Vector &x)
      {
         Vector k = w.residual(x, 0);
         for (int i = 0; i < n; ++i) { k(i) /= -mass(i); }
         return k;
      };
      double t = t0;
      for (int it = 0; it < 200; ++it)
      {
         double d = dt;
         if (cfl)
         {
            d = 1e300;
            for (int e = 0; e < w.mesh->GetNE(); ++e)
            {
               std::vector<std::pair<Vector, int>> x;
               w.nodes([&](int ee, int i, int nd, double, ElementTransformation &T)
               {
                  if (ee != e) { return; }
                  Vector xx(dim);
                  T.Transform(w.fes->GetFE(e)->GetNodes().IntPoint(i), xx);
                  x.emplace_back(xx, nd);
               });
               for (auto &a : x)
                  for (auto &b : x)
                  {
                     if (&a == &b) { continue; }
                     Vector dd(b.first);
                     dd -= a.first;
                     double L = dd.Norml2(), un = 0, *q = v.GetData() + a.second * (dim + 2);
                     for (int c = 0; c < dim; ++c) { un += q[c + 1] / q[0] * dd(c) / L; }
                     d = std::min(d, 0.05 * L / (std::fabs(un) + std::sqrt(1.4 * pres<dim>(q) / q[0])));
                  }
            }
         }
         if (!cfl) { d = std::min(d, tf - t); }
         hist.emplace_back(t, w.entropy(v));
         Vector k1 = rhs(v), k2, k3, k4, x(n);
         if (type == "RK1") { v.Add(d, k1); }
         else
         {
            add(v, 0.5 * d, k1, x);
            k2 = rhs(x);
            add(v, 0.5 * d, k2, x);
            k3 = rhs(x);
            add(v, d, k3, x);
            k4 = rhs(x);
            v.Add(d / 6, k1);
            v.Add(d / 3, k2);
            v.Add(d / 3, k3);
            v.Add(d / 6, k4);
         }
         t += d;
         if (t >= tf - 1e-14) { break; }
      }
      hist.emplace_back(t, w.entropy(v));
      if (!cfl) { compare(g, u, v, 1e-8 * u.Normlinf(), "simulation"); }
      else { compare(g, u, v, 1e-8 * u.Normlinf(), "simulation-cfl"); }
      g.label("replayed");
   }
   if (elog)
   {
      std::ifstream f("entropy-log.txt");
      g.check(f.good(), "entropy-log", "there is no log of the entropy");
      std::vector<std::pair<double, double>> rows;
      double a, b;
      while (f >> a >> b) { rows.emplace_back(a, b); }
      g.check(rows.size() >= 2, "entropy-log-rows", str(rows.size(), " rows"));
      g.close(rows[0].first, t0, 1e-12 * (1 + std::fabs(t0)), "entropy-log-first", "time");
      g.close(rows[0].second, s0, 1e-11 * m, "entropy-log-first", "entropy");
      g.close(rows.back().second, s1, 1e-11 * m, "entropy-log-last", "entropy");
      if (!hist.empty() && !cfl)
      {
         g.check(rows.size() == hist.size(), "entropy-log-rows", str(rows.size(), " rows, reference ", hist.size()));
         for (size_t i = 0; i < rows.size(); ++i)
         {
            g.close(rows[i].first, hist[i].first, 1e-10 * (1 + std::fabs(tf)), "entropy-log-time", str("row ", i));
            g.close(rows[i].second, hist[i].second, 1e-8 * m, "entropy-log-value", str("row ", i));
         }
      }
      g.label("entropy-log");
   }
}

template <template <int, bool> class Op>
void dispatch(Gen &g)
{
   int dim = g.chance(1, 5) ? 1 : g.chance(1, 5) ? 3 : 2;
   bool ev = g.chance(2, 5);
   g.label(ev ? "entvar" : "consvar");
   if (dim == 1) { ev ? Op<1, true>::run(g) : Op<1, false>::run(g); }
   else if (dim == 2) { ev ? Op<2, true>::run(g) : Op<2, false>::run(g); }
   else { ev ? Op<3, true>::run(g) : Op<3, false>::run(g); }
}
#define OP(name) template <int d, bool e> struct Op_##name { static void run(Gen &g) { T<d, e>::name(g); } }
OP(history);
OP(invariants);
}  // namespace

#ifndef FLOW_WORLD_ONLY
int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P25",
            {{"history", [](Gen &g) { dispatch<Op_history>(g); }, 4000, 80000},
             {"simulate", [](Gen &g) { g.chance(1, 3) ? simulate<1>(g) : simulate<2>(g); }, 150, 3000},
             {"invariants", [](Gen &g) { dispatch<Op_invariants>(g); }, 3000, 60000}},
            "the nodal states differ from one another (or a derivative, the mass matrix or a non-empty boundary functional was compared)");
   r.assumptions = {"simplex meshes on one rank", "the element and face terms are decided by P14 and P15; here their selection, parameters, placement and sum are", "the adept stand-in records and differentiates exactly"};
   return r.main(argc, argv);
}
#endif
