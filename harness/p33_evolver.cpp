// P33: the slopes of MISOEvolver solve the equation of its operators
#include "pbt.hpp"
#include "meshgen.hpp"
#include "mpi_init.hpp"
#include "evolvergen.hpp"
#include <memory>
#include <sstream>

using namespace pbt;
using namespace mfem;
using namespace evolvergen;
namespace
{
bool same(const Vector &a, const Vector &b)
{
   if (a.Size() != b.Size()) { return false; }
   for (int i = 0; i < a.Size(); ++i) { if (a(i) != b(i)) { return false; } }
   return true;
}
Vector rnd(Gen &g, int n, double a)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = g.sym(a); }
   return v;
}

// the parts of one problem, with the same operators in dense arithmetic
struct Problem
{
   std::unique_ptr<ParMesh> mesh;
   std::unique_ptr<H1_FECollection> fec;
   std::unique_ptr<ParFiniteElementSpace> fes;
   std::unique_ptr<ParNonlinearForm> nlmass, res, ent;
   std::unique_ptr<ParBilinearForm> mass, stiff;
   std::unique_ptr<ParNonlinearForm> rmass, rres, rent, rnl;   // for the reference only
   std::unique_ptr<ParBilinearForm> rm, rk;
   std::shared_ptr<Vector> l;
   std::unique_ptr<miso::MISOLoad> load;
   std::unique_ptr<ConstantCoefficient> mc, kc;
   Array<int> ess_bdr, ess;
   int n = 0;
   bool linear = true;

   void operators(Gen &g, const Vector &x, const Vector &k, double dt, bool implicit, Vector &r) const
   {
      // r = [N(x + dt k) - N(x)]/dt + M k + R(x + dt k) + K (x + dt k) + l
      (void)g;
      Vector y(x), w(n);
      if (implicit) { y.Add(dt, k); }
      r.SetSize(n);
      r = 0.0;
      if (rnl)
      {
         rnl->Mult(y, w);
         r += w;
         rnl->Mult(x, w);
         r -= w;
         r *= 1.0 / dt;
      }
      if (rm) { rm->SpMat().AddMult(k, r); }
      if (rk) { rk->SpMat().AddMult(y, r); }
      if (rres) { rres->Mult(y, w); r += w; }
      if (load) { r += *l; }
      for (int i : ess) { r(i) = 0.0; }
   }
};

Problem problem(Gen &g, bool implicit)
{
   Problem p;
   int dim = g.chance(3, 4) ? 2 : 3;
   MeshOpts mo;
   mo.max2 = 3;
   mo.max3 = 1;
   bool pa = !implicit && g.chance(1, 3), pak = !implicit && g.chance(1, 3);
   std::unique_ptr<Mesh> m;
   if (pa || pak || g.chance(1, 4))
   {
      // the finite element library only has partial assembly for these
      m.reset(new Mesh(dim == 2 ? Mesh::MakeCartesian2D(g.irange(1, 3), g.irange(1, 3), Element::QUADRILATERAL, true, g.real(0.5, 2), 1.0, false)
                                : Mesh::MakeCartesian3D(g.irange(1, 2), 1, 1, Element::HEXAHEDRON, g.real(0.5, 2), 1.0, 1.0, false)));
      for (int i = 0; i < m->GetNV(); ++i)
         for (int d = 0; d < dim; ++d) { m->GetVertex(i)[d] += g.sym(0.05); }
   }
   else { m = simplex_mesh(g, dim, mo); }
   p.mesh.reset(new ParMesh(MPI_COMM_SELF, *m));
   int deg = g.irange(1, 2);
   p.fec.reset(new H1_FECollection(deg, dim));
   p.fes.reset(new ParFiniteElementSpace(p.mesh.get(), p.fec.get()));
   p.n = p.fes->GetTrueVSize();
   p.ess_bdr.SetSize(p.mesh->bdr_attributes.Max());
   p.ess_bdr = 0;
   if (g.chance(2, 3))
      for (auto &e : p.ess_bdr) { e = g.chance(1, 3); }
   p.fes->GetEssentialTrueDofs(p.ess_bdr, p.ess);
   // which operators
   int kind = implicit ? g.irange(0, 2) : 0;   // linear mass, nonlinear mass, none
   bool nl = kind == 1;
   bool has_k = g.flip();
   bool has_r = g.chance(2, 3) || (kind == 2 && !has_k);
   if (kind == 2) { has_r = true; }
   double mcoef = g.logreal(0.1, 10), kcoef = g.logreal(0.1, 3);
   p.mc.reset(new ConstantCoefficient(mcoef));
   p.kc.reset(new ConstantCoefficient(kcoef));
   auto bil = [&](bool mass, bool partial)
   {
      std::unique_ptr<ParBilinearForm> f(new ParBilinearForm(p.fes.get()));
      if (partial) { f->SetAssemblyLevel(AssemblyLevel::PARTIAL); }
      if (mass) { f->AddDomainIntegrator(new mfem::MassIntegrator(*p.mc)); }
      else { f->AddDomainIntegrator(new mfem::DiffusionIntegrator(*p.kc)); }
      f->Assemble();
      if (!partial) { f->Finalize(); }
      return f;
   };
   if (kind == 0)
   {
      p.mass = bil(true, pa);
      p.rm = bil(true, false);
   }
   if (has_k)
   {
      p.stiff = bil(false, pak);
      p.rk = bil(false, false);
   }
   double ka = g.chance(1, 2) ? g.logreal(0.1, 3) : 0.0, a = g.real(0.2, 2), b = g.chance(1, 2) ? g.real(0.1, 2) : 0.0;
   p.linear = !has_r || b == 0;
   bool set_ess = has_r && g.chance(1, 2);
   auto form = [&](double k, double aa, double bb)
   {
      std::unique_ptr<ParNonlinearForm> f(new ParNonlinearForm(p.fes.get()));
      f->AddDomainIntegrator(new Cubic(k, aa, bb));
      return f;
   };
   if (has_r)
   {
      p.res = form(ka, a, b);
      if (set_ess) { p.res->SetEssentialBC(p.ess_bdr); }
      p.rres = form(ka, a, b);
   }
   if (nl)
   {
      double na = g.logreal(0.3, 3), nb = g.chance(3, 4) ? g.real(0.1, 2) : 0.0;
      p.linear = p.linear && nb == 0;
      p.nlmass = form(0, na, nb);
      p.rnl = form(0, na, nb);
   }
   if (g.chance(2, 3))
   {
      double ek = g.real(0, 1), ea = g.sym(2), eb = g.sym(1);
      p.ent = form(ek, ea, eb);
      p.rent = form(ek, ea, eb);
   }
   if (g.chance(2, 3))
   {
      p.l = std::make_shared<Vector>(rnd(g, p.n, 0.5));
      p.load.reset(new miso::MISOLoad(Load{p.l}));
   }
   g.label(str(implicit ? "implicit" : "explicit", kind == 0 ? " mass" : nl ? " nlmass" : " nomass", has_r ? " R" : "", has_k ? " K" : "", p.load ? " l" : "", p.ess.Size() ? " ess" : ""));
   if (pa || pak) { g.label("partial assembly"); }
   g.note(str(dim, "D p", deg, " n=", p.n, " ess=", p.ess.Size(), " set_ess=", set_ess, " pa=", pa, pak, " mcoef=", mcoef, " kcoef=", kcoef, " R=", ka, ",", a, ",", b));
   return p;
}
std::unique_ptr<miso::MISOEvolver> evolver(Problem &p, bool implicit, std::ostream &out)
{
   return std::unique_ptr<miso::MISOEvolver>(new miso::MISOEvolver(p.ess_bdr, p.nlmass.get(), p.mass.get(), p.res.get(), p.stiff.get(), p.load.get(), p.ent.get(), out, 0.0,
      implicit ? TimeDependentOperator::IMPLICIT : TimeDependentOperator::EXPLICIT, false));
}
void entropies(Gen &g, Problem &p, miso::MISOEvolver &e, const Vector &x, const Vector &k, double dt)
{
   if (!p.ent)
   {
      bool threw = false;
      try { e.Entropy(x); } catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "entropy without its form was not refused");
      threw = false;
      try { e.EntropyChange(dt, x, k); } catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "entropy change without the entropy's form was not refused");
      return;
   }
   double a = e.Entropy(x), b = p.rent->GetEnergy(x);
   g.close(a, b, 1e-11 * (1 + std::abs(b)), "entropy");
   if (p.res)
   {
      Vector y(x);
      y.Add(dt, k);
      double c = e.EntropyChange(dt, x, k), d = p.rres->GetEnergy(y);
      g.close(c, d, 1e-11 * (1 + std::abs(d)), "entropy change");
   }
}

void explicit_(Gen &g)
{
   auto p = problem(g, false);
   std::ostringstream out;
   // whatever memory held before is not to be seen
   { Vector junk(p.n); junk = 1e3; Vector junk2(p.n); junk2 = -7e2; }
   auto e = evolver(p, false, out);
   int steps = g.irange(1, 4);
   Vector ones(p.n);
   g.nontrivial(p.n - p.ess.Size() > 2);
   for (int s = 0; s < steps; ++s)
   {
      if (p.load && s && g.flip()) { *p.l = rnd(g, p.n, 0.5); }
      Vector x = rnd(g, p.n, 1.0), x0(x);
      Vector k(p.n), r;
      k = g.pick(std::vector<double>{0.0, 1.0, -100.0, 1e200, std::nan("")});   // whatever memory held
      e->SetTime(g.real(0, 1));
      e->Mult(x, k);
      g.check(same(x, x0), "the state given was changed");
      for (int i : p.ess) { g.check(std::abs(k(i)) <= 1e-14, str("slope ", k(i), " at essential degree of freedom ", i, " in call ", s)); }
      p.operators(g, x, k, 0.0, false, r);
      Vector z(p.n), r0;
      z = 0.0;
      p.operators(g, x, z, 0.0, false, r0);
      for (int i = 0; i < p.n; ++i)
         g.close(r(i), 0.0, 1e-6 * r0.Normlinf() + 1e-12, str("M k + R(x) + K x + l at degree of freedom ", i, " of ", p.n, " in call ", s));
      if (g.flip()) { entropies(g, p, *e, x, k, g.real(0, 0.5)); }
   }
}

void implicit_(Gen &g)
{
   auto p = problem(g, true);
   std::ostringstream out;
   auto e = evolver(p, true, out);
   GMRESSolver lin(MPI_COMM_SELF);
   lin.SetRelTol(1e-13);
   lin.SetAbsTol(1e-300);
   lin.SetMaxIter(4 * p.n + 50);
   lin.SetKDim(p.n + 20);
   lin.SetPrintLevel(-1);
   NewtonSolver newt(MPI_COMM_SELF);
   newt.SetSolver(lin);
   newt.SetRelTol(0);
   newt.SetAbsTol(1e-11);
   newt.SetMaxIter(60);
   newt.SetPrintLevel(-1);
   newt.iterative_mode = g.flip();
   bool im = newt.iterative_mode;
   e->SetLinearSolver(&lin);
   e->SetNewtonSolver(&newt);
   g.nontrivial(p.n - p.ess.Size() > 2);
   int steps = g.irange(1, 3);
   for (int s = 0; s < steps; ++s)
   {
      if (p.load && s && g.flip()) { *p.l = rnd(g, p.n, 0.5); }
      Vector x = rnd(g, p.n, 0.5), x0(x), k(p.n), r;
      double dt = g.pick(std::vector<double>{0.3, 0.1, 0.02, 0.6});
      k = g.pick(std::vector<double>{0.0, 1.0, -100.0, 1e200, std::nan("")});
      e->ImplicitSolve(dt, x, k);
      g.check(newt.iterative_mode == im, "the solver's iterative mode was changed");
      g.check(same(x, x0), "the state given was changed");
      if (p.linear)
         g.check(newt.GetConverged() && newt.GetNumIterations() <= 3, str("Newton's method on a linear equation: residual ", newt.GetFinalNorm(), " from ", newt.GetInitialNorm(), " after ", newt.GetNumIterations(), " in call ", s));
      if (newt.GetConverged())
      {
         for (int i : p.ess) { g.check(std::abs(k(i)) <= 1e-10, str("slope ", k(i), " at essential degree of freedom ", i, " in call ", s)); }
         p.operators(g, x, k, dt, true, r);
         for (int i = 0; i < p.n; ++i)
            g.close(r(i), 0.0, 1e-9, str("residual of the implicit equation at degree of freedom ", i, " of ", p.n, " in call ", s, ", dt=", dt));
      }
      else { g.label("Newton without globalization did not converge"); }
      // the gradient is the derivative of the equation at any other slope
      Vector q = rnd(g, p.n, 1.0), d = rnd(g, p.n, 1.0), Jd(p.n);
      for (int i : p.ess) { d(i) = q(i) = 0.0; }
      e->GetGradient(q).Mult(d, Jd);
      double sc = 0;
      Vector fd[2];
      for (int lev = 0; lev < 2; ++lev)
      {
         double h = lev ? 1e-3 : 2e-3;
         Vector qa(q), qb(q), ra, rb;
         qa.Add(h, d);
         qb.Add(-h, d);
         p.operators(g, x, qa, dt, true, ra);
         p.operators(g, x, qb, dt, true, rb);
         fd[lev] = ra;
         fd[lev] -= rb;
         fd[lev] /= 2 * h;
         sc = std::max({sc, fd[lev].Normlinf(), 1e-3 * ra.Normlinf()});
      }
      for (int i = 0; i < p.n; ++i)
         g.close(Jd(i), (4 * fd[1](i) - fd[0](i)) / 3, 1e-8 * (1 + sc), str("gradient in a direction, entry ", i, " of ", p.n, ", dt=", dt));
      if (g.flip()) { entropies(g, p, *e, x, k, dt); }
   }
}
// M k + A x + q k x + s sin(x) entry by entry, as a residual of the state and its rate
struct Rate
{
   std::shared_ptr<DenseMatrix> M, A, J;
   std::shared_ptr<Vector> s, q;
};
int getSize(const Rate &r) { return r.s->Size(); }
void setInputs(Rate &, const miso::MISOInputs &) {}
void setOptions(Rate &, const nlohmann::json &) {}
void rate(const Rate &r, const Vector &x, const Vector &k, Vector &out)
{
   out.SetSize(x.Size());
   r.M->Mult(k, out);
   r.A->AddMult(x, out);
   for (int i = 0; i < x.Size(); ++i) { out(i) += (*r.q)(i) * k(i) * x(i) + (*r.s)(i) * std::sin(x(i)); }
}
void evaluate(Rate &r, const miso::MISOInputs &in, Vector &out)
{
   Vector x, k;
   miso::setVectorFromInputs(in, "state", x, false, true);
   miso::setVectorFromInputs(in, "dxdt", k, false, true);
   rate(r, x, k, out);
}
Operator &getJacobian(Rate &r, const miso::MISOInputs &in, const std::string &wrt)
{
   if (wrt != "dxdt") { throw miso::MISOException("derivatives with respect to " + wrt); }
   Vector x, k;
   double dt = NAN;
   miso::setVectorFromInputs(in, "state", x, false, true);
   miso::setVectorFromInputs(in, "dxdt", k, false, true);
   miso::setValueFromInputs(in, "dt", dt, true);
   *r.J = *r.M;
   r.J->Add(dt, *r.A);
   for (int i = 0; i < x.Size(); ++i) { (*r.J)(i, i) += (*r.q)(i) * (x(i) + dt * k(i)) + dt * (*r.s)(i) * std::cos(x(i)); }
   return *r.J;
}

void system_(Gen &g)
{
   int n = g.irange(1, 7);
   Rate r;
   for (auto m : {&r.M, &r.A, &r.J})
   {
      m->reset(new DenseMatrix(n));
      for (int i = 0; i < n; ++i)
         for (int j = 0; j < n; ++j) { (**m)(i, j) = g.sym(1); }
   }
   r.s = std::make_shared<Vector>(rnd(g, n, 1));
   r.q = std::make_shared<Vector>(rnd(g, n, g.flip() ? 1 : 0));
   miso::MISOResidual res(r);
   miso::ODESystemOperator sys(res);
   g.check(sys.Height() == n && sys.Width() == n, "size of the system", str(sys.Height(), "x", sys.Width(), " instead of ", n));
   std::vector<Vector> xs;
   for (int i = 0; i < 3; ++i) { xs.push_back(rnd(g, n, 2)); }
   double dt = 0;
   Vector *x = nullptr;
   int calls = g.irange(2, 8);
   for (int c = 0; c < calls; ++c)
   {
      if (c == 0 || g.chance(1, 3))
      {
         dt = g.chance(1, 6) ? 0.0 : g.logreal(1e-4, 10);
         x = &xs[g.irange(0, 2)];
         sys.setParameters(dt, x);
      }
      else if (g.chance(1, 4)) { *x = rnd(g, n, 2); }   // the step before is looked up, not copied
      Vector k = rnd(g, n, 2), k0(k), x0(*x), y(*x), out(n), want;
      y.Add(dt, k);
      if (g.flip())
      {
         out = g.pick(std::vector<double>{0.0, 7.0, std::nan("")});
         sys.Mult(k, out);
         rate(r, y, k, want);
         g.label("value");
      }
      else
      {
         Vector d = rnd(g, n, 1);
         sys.GetGradient(k).Mult(d, out);
         want.SetSize(n);
         r.M->Mult(d, want);
         r.A->AddMult_a(dt, d, want);
         for (int i = 0; i < n; ++i) { want(i) += ((*r.q)(i) * (y(i) + dt * k(i)) + dt * (*r.s)(i) * std::cos(y(i))) * d(i); }
         g.label("gradient");
      }
      for (int i = 0; i < n; ++i) { g.close(out(i), want(i), 1e-12 * (1 + dt) * (1 + dt) * 100, "system of a residual", str("entry ", i, " in call ", c, ", dt=", dt)); }
      g.check(same(k, k0) && same(*x, x0), "the system changed what it was given");
   }
   g.nontrivial(n > 1);
}
void refuse(Gen &g)
{
   auto p = problem(g, false);
   std::ostringstream out;
   g.nontrivial(true);
   if (g.flip())
   {
      ParNonlinearForm nl(p.fes.get());
      nl.AddDomainIntegrator(new Cubic(0, 1, 0));
      bool threw = false;
      try { miso::MISOEvolver e(p.ess_bdr, &nl, p.mass.get(), p.res.get(), p.stiff.get(), p.load.get(), p.ent.get(), out, 0.0); }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "a linear and a nonlinear mass together were not refused");
   }
   else
   {
      ParNonlinearForm nl(p.fes.get());
      nl.AddDomainIntegrator(new Cubic(0, 1, 0));
      ParNonlinearForm res(p.fes.get());
      res.AddDomainIntegrator(new Cubic(0, 1, 0));
      miso::MISOEvolver e(p.ess_bdr, &nl, nullptr, &res, p.stiff.get(), p.load.get(), p.ent.get(), out, 0.0);
      Vector x = rnd(g, p.n, 1), k(p.n);
      bool threw = false;
      try { e.Mult(x, k); }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "an explicit slope with a nonlinear mass was not refused");
   }
}
}   // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P33", {{"explicit", explicit_, 3000, 60000}, {"implicit", implicit_, 2000, 40000}, {"system", system_, 3000, 60000}, {"refuse", refuse, 100, 1000}},
            "problems on random triangle and tetrahedron meshes with a linear, nonlinear or no mass, a nonlinear residual with cubic reaction, a stiffness, "
            "a load that changes between calls, assembled or partially assembled, and essential boundaries, each asked several slopes; non-trivial: more than two free unknowns");
   r.assumptions = {"operators of interior integrals on one rank; implicit solves with assembled mass and stiffness, the forms its Jacobian needs"};
   return r.main(argc, argv);
}
