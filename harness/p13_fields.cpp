// P13: finite-element states and duals, their norms and errors, and the PDE
// solver that owns them
#include "mpi_init.hpp"
#include "meshgen.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include "sbp_fe.hpp"
#include "finite_element_state.hpp"
#include "finite_element_dual.hpp"
#include "material_library.hpp"
#include "pde_solver.hpp"
#include "utils.hpp"

using namespace pbt;
using namespace mfem;
using miso::FiniteElementDual;
using miso::FiniteElementState;
using json = nlohmann::json;
using LD = long double;
namespace
{
struct Quiet
{
   std::ostringstream os;
   std::streambuf *o = std::cout.rdbuf(os.rdbuf()), *e = std::cerr.rdbuf(os.rdbuf());
   ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
struct Scratch
{
   std::string dir, old;
   Scratch()
   {
      char b[4096], t[] = "/tmp/pbtXXXXXX";
      old = getcwd(b, sizeof b);
      dir = mkdtemp(t);
      if (chdir(dir.c_str())) { abort(); }
   }
   ~Scratch()
   {
      if (chdir(old.c_str())) { abort(); }
      std::filesystem::remove_all(dir);
   }
};
// ---------------------------------------------------------------- polynomials
struct Poly
{
   int dim = 2;
   std::vector<std::array<int, 3>> e;
   std::vector<double> c;
   double x0[3] = {0, 0, 0}, L = 1;
   double operator()(const Vector &x) const
   {
      double s = 0;
      for (size_t k = 0; k < e.size(); ++k)
      {
         double m = c[k];
         for (int d = 0; d < dim; ++d) { for (int i = 0; i < e[k][d]; ++i) { m *= (x(d) - x0[d]) / L; } }
         s += m;
      }
      return s;
   }
};
Poly make_poly(Gen &g, int dim, int deg)
{
   Poly p;
   p.dim = dim;
   for (int d = 0; d < dim; ++d) { p.x0[d] = g.sym(0.5); }
   for (int a = 0; a <= deg; ++a)
   {
      for (int b = 0; b <= deg - a; ++b)
      {
         for (int q = 0; q <= (dim == 3 ? deg - a - b : 0); ++q) { p.e.push_back({a, b, q}); p.c.push_back(g.chance(1, 4) ? 0.0 : g.sym(2.0)); }
      }
   }
   return p;
}
// ---------------------------------------------------------------- spaces
enum Kind { CSBP, DSBP, H1, L2, ND, RT };
struct Space
{
   Kind kind = H1;
   int deg = 1, dim = 2, nst = 1;
   bool sbp() const { return kind == CSBP || kind == DSBP; }
   bool vecfe() const { return kind == ND || kind == RT; }
   std::string cname() const
   {
      std::string d = std::to_string(dim), p = std::to_string(deg);
      switch (kind)
      {
      case CSBP: return "SBP_" + d + "D_P" + p;
      case DSBP: return "DSBP_" + d + "D_P" + p;
      case H1: return "H1_" + d + "D_P" + p;
      case L2: return "L2_" + d + "D_P" + p;
      case ND: return "ND_" + d + "D_P" + p;
      default: return "RT_" + d + "D_P" + std::to_string(deg);
      }
   }
   FiniteElementCollection *make() const
   {
      switch (kind)
      {
      case CSBP: return new SBPCollection(deg, dim);
      case DSBP: return new DSBPCollection(deg, dim);
      case H1: return new H1_FECollection(deg, dim);
      case L2: return new L2_FECollection(deg, dim);
      case ND: return new ND_FECollection(deg, dim);
      default: return new RT_FECollection(deg, dim);
      }
   }
   // polynomials of this degree are reproduced by projection
   int exact() const { return kind == ND || kind == RT ? deg - 1 : deg; }
   std::string str() const { return pbt::str(cname(), " states=", nst); }
};
Space make_space(Gen &g, int dim, bool vec_ok)
{
   Space s;
   s.dim = dim;
   s.kind = (Kind)g.irange(0, vec_ok ? 5 : 3);
   if (s.sbp()) { s.deg = dim == 2 ? g.irange(1, 4) : 1; if (s.kind == DSBP && dim == 3) { s.kind = CSBP; } }
   else { s.deg = g.irange(s.kind == H1 || s.kind == ND ? 1 : 0, dim == 2 ? 3 : 2); }
   s.nst = s.vecfe() ? 1 : g.pick({1, 1, 2, 3, 4});
   return s;
}
std::unique_ptr<ParMesh> make_mesh(Gen &g, int dim, bool curved, bool nc)
{
   MeshOpts o;
   o.max3 = 1;
   auto m = simplex_mesh(g, dim, o);
   if (nc && dim == 2 && g.flip())
   {
      if (g.flip()) { m.reset(new Mesh(Mesh::MakeCartesian2D(g.irange(1, 3), g.irange(1, 2), Element::QUADRILATERAL, true, 1.0, 1.0, false))); }
      m->EnsureNCMesh(true);
      Array<Refinement> r;
      for (int i = 0; i < m->GetNE(); ++i) { if (g.chance(1, 3)) { r.Append(Refinement(i)); } }
      m->GeneralRefinement(r, 1);
      g.label("nonconforming");
   }
   if (curved)
   {
      m->SetCurvature(2);
      auto &x = *m->GetNodes();
      double a = g.real(0, 0.03);
      for (int i = 0; i < x.Size(); ++i) { x(i) += a * std::sin(3 * x(i) + i % 3); }
   }
   return std::make_unique<ParMesh>(MPI_COMM_SELF, *m);
}
std::vector<double> vals(const Vector &x) { return std::vector<double>(x.GetData(), x.GetData() + x.Size()); }
Vector rnd(Gen &g, int n)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = g.sym(2.0); }
   return v;
}
void same(Gen &g, const Vector &a, const Vector &b, double tol, const std::string &key)
{
   g.check(a.Size() == b.Size(), key, str("sizes ", a.Size(), " ", b.Size()));
   for (int i = 0; i < a.Size(); ++i) { g.close(a(i), b(i), tol, key, str("entry ", i)); }
}
template <class F>
std::unique_ptr<F> build(Gen &g, ParMesh &pm, const Space &s, int &how, std::unique_ptr<FiniteElementCollection> &fec, std::unique_ptr<ParFiniteElementSpace> &fes, const std::string &name)
{
   how = g.irange(0, 2);
   if (how == 0)
   {
      json o;
      o["degree"] = s.deg;
      static const char *names[6][4] = {{"CSBP", "csbp", "csbp", "CSBP"}, {"DSBP", "dsbp", "dsbp", "DSBP"}, {"H1", "h1", "CG", "cg"}, {"L2", "l2", "DG", "dg"}, {"ND", "nd", "nedelec", "ND"}, {"RT", "rt", "rt", "RT"}};
      o["basis-type"] = names[s.kind][g.irange(0, 3)];
      if (s.kind == DSBP && g.chance(1, 3)) { o["GD"] = true; }
      if (g.flip()) { o["GD"] = o.value("GD", false); }
      return std::make_unique<F>(pm, o, s.nst, name);
   }
   if (how == 1)
   {
      return std::make_unique<F>(pm, miso::FiniteElementVector::Options{s.deg, s.nst, std::unique_ptr<FiniteElementCollection>(s.make()), g.flip() ? Ordering::byVDIM : Ordering::byNODES, name});
   }
   fec.reset(s.make());
   fes = std::make_unique<ParFiniteElementSpace>(&pm, fec.get(), s.nst, g.flip() ? Ordering::byVDIM : Ordering::byNODES);
   return std::make_unique<F>(pm, *fes, name);
}
// ---------------------------------------------------------------- vectors
void vectors(Gen &g)
{
   int dim = g.irange(2, 3);
   Space s = make_space(g, dim, true);
   bool nc = !s.sbp() && (s.kind == H1 || s.kind == L2);
   auto pm = make_mesh(g, dim, g.chance(1, 4), nc);
   g.note(s.str());
   int how = 0;
   std::unique_ptr<FiniteElementCollection> fec, fec2;
   std::unique_ptr<ParFiniteElementSpace> fes, fes2;
   auto st = build<FiniteElementState>(g, *pm, s, how, fec, fes, "alpha");
   g.label(how == 0 ? "from-options" : how == 1 ? "from-collection" : "from-space");
   int how2 = 0;
   std::unique_ptr<FiniteElementDual> du;
   // the same kind of vector, in the same dof ordering
   du = std::make_unique<FiniteElementDual>(*pm, st->space(), "beta");
   (void)how2;
   // the originals may go away
   if (how == 2 && g.flip()) { fes.reset(); fec.reset(); }
   std::unique_ptr<FiniteElementCollection> rc(s.make());
   ParFiniteElementSpace ref(pm.get(), rc.get(), s.nst, st->space().GetOrdering());
   auto check_space = [&](const miso::FiniteElementVector &v)
   {
      g.check(std::string(v.coll().Name()) == s.cname(), "wrong-collection", str("got ", v.coll().Name(), " want ", s.cname()));
      g.check(v.space().FEColl() == &v.coll(), "space-uses-another-collection");
      g.check(v.space().GetVDim() == s.nst, "wrong-number-of-states");
      g.check(v.space().GetTrueVSize() == ref.GetTrueVSize() && v.space().GetVSize() == ref.GetVSize(), "wrong-size");
      g.check(v.space().GetParMesh() == pm.get(), "wrong-mesh");
      g.check(v.comm() == pm->GetComm(), "wrong-communicator");
      // the dof tables agree with a space built directly
      Array<int> a, b;
      for (int i = 0; i < pm->GetNE(); ++i)
      {
         v.space().GetElementVDofs(i, a);
         ref.GetElementVDofs(i, b);
         g.check(a == b, "dof-table", str("element ", i));
      }
   };
   if (how == 0) { g.check(st->space().GetOrdering() == Ordering::byVDIM, "ordering"); }
   check_space(*st);
   check_space(*du);
   g.check(&st->mesh() == pm.get() && st->name() == "alpha" && du->name() == "beta", "name");
   g.check(st->gridFunc().ParFESpace() == &st->space(), "grid-function-space");
   g.check(st->gridFunc().Normlinf() == 0.0 && du->localVec().Normlinf() == 0.0 && st->gridFunc().Size() == ref.GetVSize() && du->localVec().Size() == ref.GetVSize(), "not-initialized-to-zero");
   // true dofs: x -> P x -> x, and the dual pairing
   int nt = ref.GetTrueVSize(), nl = ref.GetVSize();
   auto *P = ref.GetProlongationMatrix();
   const Operator *Pc = ref.Conforming() ? nullptr : P;
   Vector x = rnd(g, nt), y(g.flip() ? nt : 0), loc(nl);
   y.SetSize(nt);
   y = 99.0;
   std::vector<double> x0 = vals(x);
   st->distributeSharedDofs(x);
   st->setTrueVec(y);
   same(g, y, x, 0.0, "true-dofs-round-trip");
   if (P) { P->Mult(x, loc); same(g, st->gridFunc(), loc, 1e-12, "prolongation"); }
   for (int i = 0; i < nt; ++i) { g.check(x(i) == x0[i], "true-dofs-modified"); }
   Vector d = rnd(g, nt), l = rnd(g, nl), z(nt);
   du->distributeSharedDofs(d);
   z = 99.0;
   du->setTrueVec(z);
   same(g, z, d, 1e-12, "dual-round-trip");
   // <P^T l, x> = <l, P x> for every local dual vector l
   du->localVec() = l;
   z = -3.0;
   du->setTrueVec(z);
   double lhs = 0, rhs = 0, mag = 0;
   for (int i = 0; i < nt; ++i) { lhs += z(i) * x(i); mag += std::fabs(z(i) * x(i)); }
   for (int i = 0; i < nl; ++i) { rhs += l(i) * st->gridFunc()(i); }
   g.close(lhs, rhs, 1e-13 * (1 + mag) * 10, "dual-pairing");
   // a second distribution replaces the first
   Vector x2 = rnd(g, nt);
   st->distributeSharedDofs(x2);
   st->setTrueVec(y);
   same(g, y, x2, 0.0, "true-dofs-second");
   // move construction and assignment keep everything
   FiniteElementState mv(std::move(*st));
   check_space(mv);
   g.check(mv.name() == "alpha", "moved-name");
   mv.setTrueVec(y);
   same(g, y, x2, 0.0, "moved-values");
   FiniteElementState other(*pm);
   g.check(std::string(other.coll().Name()) == (dim == 2 ? "H1_2D_P1" : "H1_3D_P1"), "default-collection");
   other = std::move(mv);
   check_space(other);
   other.setTrueVec(y);
   same(g, y, x2, 0.0, "move-assigned-values");
   g.check(other.name() == "alpha", "move-assigned-name");
   g.nontrivial(nt > 1);
   if (g.chance(1, 8))
   {
      json o = {{"degree", 1}, {"basis-type", g.pick({std::string("spline"), std::string("hdiv"), std::string(""), std::string("H2")})}};
      bool threw = false;
      try { FiniteElementState bad(*pm, o, 1, "bad"); }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "unknown-basis-accepted", o["basis-type"].get<std::string>());
      g.label("unknown-basis");
   }
}
// ---------------------------------------------------------------- projections
void project(Gen &g)
{
   int dim = g.irange(2, 3);
   Space s = make_space(g, dim, true);
   auto pm = make_mesh(g, dim, false, false);
   int nc = s.vecfe() ? dim : s.nst, deg = g.irange(0, std::max(0, s.exact()));
   bool exact = s.exact() >= 0;
   std::vector<Poly> p;
   for (int i = 0; i < nc; ++i) { p.push_back(make_poly(g, dim, deg)); }
   g.note(s.str() + str(" polynomial degree ", deg));
   int how = 0;
   std::unique_ptr<FiniteElementCollection> fec;
   std::unique_ptr<ParFiniteElementSpace> fes;
   auto st = build<FiniteElementState>(g, *pm, s, how, fec, fes, "u");
   Vector t(st->space().GetTrueVSize()), t2;
   t = 55.0;
   std::function<double(const Vector &)> sf = [&](const Vector &x) { return p[0](x); };
   std::function<void(const Vector &, Vector &)> vf = [&](const Vector &x, Vector &v) { for (int i = 0; i < nc; ++i) { v(i) = p[i](x); } };
   FunctionCoefficient sc(sf);
   VectorFunctionCoefficient vc(nc, vf);
   bool scalar = !s.vecfe() && nc == 1 && g.flip();
   bool fun = g.flip();
   if (scalar) { if (fun) { st->project(sf, t); } else { st->project(sc, t); } }
   else { if (fun) { st->project(vf, t); } else { st->project(vc, t); } }
   t2.SetSize(t.Size());
   st->setTrueVec(t2);
   same(g, t2, t, 0.0, "projected-true-vector");
   // values anywhere in the elements (through the coefficients)
   auto cs = st->gridFuncCoef();
   auto cv = st->vectorGridFuncCoef();
   g.check(cv.GetVDim() == nc, "coefficient-dimension");
   for (int e = 0; e < pm->GetNE() && exact; ++e)
   {
      auto *T = pm->GetElementTransformation(e);
      for (int k = 0; k < 2; ++k)
      {
         IntegrationPoint ip;
         double a = g.unit(), b = g.unit() * (1 - a), c = dim == 3 ? g.unit() * (1 - a - b) : 0;
         ip.Set3(a, b, c);
         const IntegrationPoint *q = &ip;
         if (s.sbp() && g.flip()) { q = &st->space().GetFE(e)->GetNodes().IntPoint(g.irange(0, st->space().GetFE(e)->GetDof() - 1)); }
         T->SetIntPoint(q);
         Vector x, v(nc);
         T->Transform(*q, x);
         double mg = 0;
         for (int i = 0; i < nc; ++i) { for (double cc : p[i].c) { mg += std::fabs(cc); } }
         mg *= std::pow(1 + x.Normlinf() + 1, deg) * 40;
         if (!s.vecfe() && nc == 1) { g.close(cs.Eval(*T, *q), p[0](x), 1e-11 * (1 + mg), "projection-not-exact", "scalar"); }
         cv.Eval(v, *T, *q);
         for (int i = 0; i < nc; ++i) { g.close(v(i), p[i](x), 1e-11 * (1 + mg), "projection-not-exact", str("component ", i)); }
      }
   }
   // nodal elements interpolate any function at their nodes
   if (!s.vecfe())
   {
      double w = g.real(0.5, 4.0);
      std::function<void(const Vector &, Vector &)> any = [&](const Vector &x, Vector &v) { for (int i = 0; i < nc; ++i) { v(i) = std::sin(w * x(0) + i) * std::exp(x(1) * (i + 1) / nc); } };
      st->project(any, t);
      Array<int> vd;
      for (int e = 0; e < pm->GetNE(); ++e)
      {
         auto *T = pm->GetElementTransformation(e);
         const auto &nodes = st->space().GetFE(e)->GetNodes();
         st->space().GetElementVDofs(e, vd);
         for (int k = 0; k < nodes.GetNPoints(); ++k)
         {
            Vector x, v(nc);
            T->Transform(nodes.IntPoint(k), x);
            any(x, v);
            for (int i = 0; i < nc; ++i)
            {
               double got = st->gridFunc()(vd[k + i * nodes.GetNPoints()]);
               g.close(got, v(i), 1e-11 * (1 + std::fabs(v(i))) * 10, "not-interpolated-at-the-nodes", str("element ", e, " node ", k));
            }
         }
      }
   }
   g.label(s.cname());
   g.nontrivial(deg > 0);
}
// ---------------------------------------------------------------- norms and errors
void errors(Gen &g)
{
   int dim = g.irange(2, 3);
   Space s = make_space(g, dim, true);
   bool curved = g.chance(1, 3);
   auto pm = make_mesh(g, dim, curved, false);
   int nc = s.vecfe() ? dim : s.nst;
   int how = 0;
   std::unique_ptr<FiniteElementCollection> fec;
   std::unique_ptr<ParFiniteElementSpace> fes;
   auto st = build<FiniteElementState>(g, *pm, s, how, fec, fes, "u");
   // the field and the solution
   bool rough = curved || g.flip();
   std::vector<Poly> p;
   std::vector<double> shift(nc);
   int deg = rough ? 1 : g.irange(0, std::max(0, s.exact()));
   for (int i = 0; i < nc; ++i) { p.push_back(make_poly(g, dim, deg)); shift[i] = g.sym(2.0); }
   double freq = g.real(0.5, 3.0);
   bool same_sol = !rough && s.exact() >= 0 && g.chance(1, 8);
   Vector t(st->space().GetTrueVSize());
   std::function<void(const Vector &, Vector &)> ex;
   if (rough)
   {
      t = rnd(g, t.Size());
      st->distributeSharedDofs(t);
      ex = [&](const Vector &x, Vector &v) { for (int i = 0; i < nc; ++i) { v(i) = p[i](x) + std::sin(freq * x(1)); } };
   }
   else
   {
      std::function<void(const Vector &, Vector &)> f = [&](const Vector &x, Vector &v) { for (int i = 0; i < nc; ++i) { v(i) = p[i](x); } };
      st->project(f, t);
      ex = [&, same_sol](const Vector &x, Vector &v) { for (int i = 0; i < nc; ++i) { v(i) = same_sol ? p[i](x) : 0.5 * p[i](x) - shift[i]; } };
   }
   std::vector<double> before = vals(st->gridFunc());
   double pw = g.pick({2.0, 2.0, 1.0, 3.0, 4.0, 1.5, (double)infinity(), 6.0});
   int entry = g.irange(-1, nc - 1);
   bool norm = g.chance(1, 5);
   if (norm) { entry = -1; }
   bool l2 = !norm && pw == 2.0 && g.flip();
   bool scalar = nc == 1 && !s.vecfe() && g.flip();
   if (scalar) { entry = -1; }
   VectorFunctionCoefficient vc(nc, ex);
   std::function<double(const Vector &)> sex = [&](const Vector &x) { Vector v(nc); ex(x, v); return v(0); };
   FunctionCoefficient sc(sex);
   g.note(s.str() + str(" p=", pw, " entry=", entry, norm ? " norm" : "", l2 ? " L2" : "", scalar ? " scalar" : "", curved ? " curved" : "", rough ? " rough" : ""));
   double got;
   bool fun = g.flip();
   if (norm) { got = pw == 2.0 && g.flip() ? miso::calcLpNorm(*st) : miso::calcLpNorm(*st, pw); }
   else if (l2) { got = scalar ? miso::calcL2Error(*st, sc) : miso::calcL2Error(*st, vc, entry); }
   else if (scalar) { got = fun ? miso::calcLpError(*st, sex, pw) : miso::calcLpError(*st, sc, pw); }
   else { got = fun ? miso::calcLpError(*st, ex, pw, entry) : miso::calcLpError(*st, vc, pw, entry); }
   for (int i = 0; i < st->gridFunc().Size(); ++i) { g.check(st->gridFunc()(i) == before[i], "field-modified"); }
   // the same integral: with the element's own nodes for SBP elements and a
   // Gauss rule otherwise; `extra` raises the order of the Gauss rule
   auto integral = [&](bool gauss, int order)
   {
      LD sum = 0, mx = 0;
      for (int e = 0; e < pm->GetNE(); ++e)
      {
         const FiniteElement *fe = st->space().GetFE(e);
         const IntegrationRule &ir = gauss ? IntRules.Get(fe->GetGeomType(), order) : fe->GetNodes();
         auto *T = pm->GetElementTransformation(e);
         for (int q = 0; q < ir.GetNPoints(); ++q)
         {
            const auto &ip = ir.IntPoint(q);
            T->SetIntPoint(&ip);
            Vector v, x, w(nc);
            st->gridFunc().GetVectorValue(*T, ip, v);
            T->Transform(ip, x);
            if (norm) { w = 0.0; }
            else { ex(x, w); }
            LD err = 0;
            for (int i = 0; i < nc; ++i) { if (entry < 0 || entry == i) { err += ((LD)v(i) - w(i)) * ((LD)v(i) - w(i)); } }
            err = sqrtl(err);
            mx = std::max(mx, err);
            sum += (LD)ip.weight * T->Weight() * powl(err, pw);
         }
      }
      return (double)(pw == infinity() ? mx : sum < 0 ? -powl(-sum, 1 / (LD)pw) : powl(sum, 1 / (LD)pw));
   };
   const FiniteElement *fe0 = st->space().GetFE(0);
   double want = s.sbp() ? integral(false, 0) : integral(true, 2 * fe0->GetOrder() + 3);
   g.check(!std::isnan(got), "error-is-nan", str("want ", want));
   g.close(got, want, 1e-10 * (1 + std::fabs(want)), "error-value", s.cname());
   g.label(norm ? "norm" : l2 ? "L2" : "Lp");
   if (entry >= 0) { g.label("entry"); }
   if (!rough && s.exact() >= 0)
   {
      if (same_sol && !norm) { g.close(got, 0.0, pw == infinity() ? 1e-9 : pw >= 3 ? 1e-7 : 1e-8, "error-of-the-exact-solution"); }
      // the exact integral, where the quadrature is exact
      double lim = s.sbp() ? 2 * s.deg - 1 : 2 * fe0->GetOrder() + 3;
      bool even = pw == 2.0 || pw == 4.0 || pw == 6.0;
      if (even && pw * deg <= lim)
      {
         double exact = integral(true, (int)(pw * deg) + 6);
         g.close(got, exact, (1e-8) * (1 + std::fabs(exact)), "error-not-the-norm", s.cname());
         g.label("exact");
      }
   }
   g.nontrivial(std::fabs(want) > 1e-8 && pm->GetNE() > 1);
}
// ---------------------------------------------------------------- the PDE solver
struct Res { int n; };
int getSize(const Res &r) { return r.n; }
Operator &getJacobian(Res &, const miso::MISOInputs &, const std::string &) { static IdentityOperator id(1); return id; }
void evaluate(Res &, const miso::MISOInputs &, Vector &r) { r = 0.0; }
struct Solver : miso::PDESolver
{
   using miso::PDESolver::PDESolver;
   using miso::PDESolver::duals;
   using miso::PDESolver::fields;
   using miso::PDESolver::initialHook;
   using miso::PDESolver::iterationHook;
   using miso::PDESolver::materials;
   using miso::PDESolver::mesh;
   using miso::PDESolver::terminalHook;
   using miso::PDESolver::spatial_res;
   std::vector<std::string> calls;
   Vector last;
   void derivedPDEInitialHook(const Vector &s) override { calls.push_back("initial"); last = s; }
   void derivedPDEIterationHook(int i, double t, double dt, const Vector &s) override { calls.push_back(str("iteration ", i, " ", t, " ", dt)); last = s; }
   void derivedPDETerminalHook(int i, double t, const Vector &s) override { calls.push_back(str("terminal ", i, " ", t)); last = s; }
};
void solver(Gen &g)
{
   Quiet q;
   Scratch sd;
   int dim = g.irange(2, 3);
   Space s = make_space(g, dim, true);
   MeshOpts mo;
   mo.max3 = 1;
   auto sm = simplex_mesh(g, dim, mo);
   int curv = g.irange(0, 2);
   if (curv) { sm->SetCurvature(curv, g.chance(1, 4), -1, g.flip() ? Ordering::byVDIM : Ordering::byNODES); }
   json o;
   o["print-options"] = false;
   o["space-dis"] = {{"degree", s.deg}, {"basis-type", s.kind == CSBP ? "csbp" : s.kind == DSBP ? "dsbp" : s.kind == H1 ? "H1" : s.kind == L2 ? "dg" : s.kind == ND ? "nedelec" : "RT"}};
   int src = g.irange(0, 7);
   o["mesh"]["file"] = src == 0 ? g.pick({std::string("m.mesh"), std::string("a.b/../m.mesh")}) : src == 1 ? g.pick({std::string("mesh"), std::string("m.xyz"), std::string("m.smb")}) : std::string("none.mesh");
   if (src == 0) { std::filesystem::create_directory("a.b"); std::ofstream f("m.mesh"); f.precision(17); sm->Print(f); }
   // materials
   bool comp = g.flip();
   if (comp)
   {
      o["components"] = {{"a", {{"attrs", {1}}, {"material", "copperwire"}}}};
      o["components"]["b"] = {{"attrs", {2}}, {"material", {{"name", g.flip() ? "mine" : "iron"}, {"kappa", 12.5}, {"nested", {{"x", 1}}}}}};
   }
   Space f2 = make_space(g, dim, true);
   bool ext = g.flip();
   if (ext) { o["external-fields"]["extra"] = {{"degree", f2.deg}, {"basis-type", f2.kind == CSBP ? "csbp" : f2.kind == DSBP ? "dsbp" : f2.kind == H1 ? "h1" : f2.kind == L2 ? "l2" : f2.kind == ND ? "nd" : "rt"}, {"num-states", f2.nst}}; }
   g.note(o.dump());
   bool viafun = g.flip();
   json seen;
   int seen_dim = 0;
   auto nsf = [&](const json &opt, int d) { seen = opt; seen_dim = d; return s.nst; };
   auto mk = [&]() -> std::unique_ptr<Solver>
   {
      std::unique_ptr<Mesh> give = src >= 2 ? std::make_unique<Mesh>(*sm) : nullptr;
      if (viafun) { return std::make_unique<Solver>(MPI_COMM_SELF, o, std::function<int(const json &, int)>(nsf), std::move(give)); }
      return std::make_unique<Solver>(MPI_COMM_SELF, o, s.nst, std::move(give));
   };
   if (src == 1)
   {
      bool threw = false;
      try { mk(); }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "unusable-mesh-file-accepted", o["mesh"].dump());
      g.label("bad-mesh-file");
      return;
   }
   auto sp = mk();
   Solver &S = *sp;
   S.spatial_res = std::make_unique<miso::MISOResidual>(Res{S.getState().space().GetTrueVSize()});
   if (viafun) { g.check(seen == o && seen_dim == dim, "number-of-states-function"); }
   // the mesh is the one given
   g.check(S.mesh().GetNE() == sm->GetNE() && S.mesh().GetNBE() == sm->GetNBE() && S.mesh().GetNV() == sm->GetNV() && S.mesh().Dimension() == dim, "mesh");
   for (int e = 0; e < sm->GetNE(); ++e)
   {
      IntegrationPoint ip;
      ip.Set3(dim == 3 ? 0.25 : 1.0 / 3, dim == 3 ? 0.25 : 1.0 / 3, dim == 3 ? 0.25 : 0);
      Vector a, b;
      sm->GetElementTransformation(e)->Transform(ip, a);
      S.mesh().GetElementTransformation(e)->Transform(ip, b);
      same(g, b, a, 1e-12, "mesh-geometry");
      g.check(S.mesh().GetAttribute(e) == sm->GetAttribute(e), "mesh-attributes");
   }
   // fields
   std::unique_ptr<FiniteElementCollection> rc(s.make());
   ParFiniteElementSpace ref(&S.mesh(), rc.get(), s.nst, Ordering::byVDIM);
   int n = ref.GetTrueVSize();
   for (auto nm : {"state", "dirichlet_bc", "adjoint"})
   {
      auto &f = S.fields.at(nm);
      g.check(f.name() == nm && f.space().GetTrueVSize() == n && f.space().GetVDim() == s.nst && std::string(f.coll().Name()) == s.cname() && &f.mesh() == &S.mesh(), "field", nm);
      g.check(S.getFieldSize(nm) == n, "field-size", nm);
   }
   g.check(&S.getState() == &S.fields.at("state") && &S.getResVec() == &S.duals.at("residual") && S.getNumStates() == s.nst, "state-access");
   g.check(S.getResVec().space().GetTrueVSize() == n && S.getResVec().name() == "residual", "residual-vector");
   g.check(S.getFieldSize("no-such-field") == 0, "unknown-field-size");
   if (ext)
   {
      g.check(S.fields.count("extra") == 1, "external-field-missing");
      auto &f = S.fields.at("extra");
      g.check(std::string(f.coll().Name()) == f2.cname() && f.space().GetVDim() == f2.nst && f.name() == "extra" && S.getFieldSize("extra") == f.space().GetTrueVSize(), "external-field");
   }
   // the mesh coordinates are a field, and the mesh follows it
   auto &mc = S.fields.at("mesh_coords");
   g.check(S.mesh().GetNodes() == &mc.gridFunc(), "mesh-does-not-use-the-coordinate-field");
   Vector x(S.getFieldSize("mesh_coords"));
   x = 1e9;
   S.getMeshCoordinates(x);
   {
      Vector y(x.Size());
      S.mesh().GetNodes()->GetTrueDofs(y);
      same(g, x, y, 0.0, "mesh-coordinates");
      Vector a, b, sh(dim);
      for (int d = 0; d < dim; ++d) { sh(d) = g.sym(1.0); }
      IntegrationPoint ip;
      ip.Set3(dim == 3 ? 0.25 : 1.0 / 3, dim == 3 ? 0.25 : 1.0 / 3, dim == 3 ? 0.25 : 0);
      S.mesh().GetElementTransformation(0)->Transform(ip, a);
      mc.gridFunc() *= 1.0;
      for (int i = 0; i < mc.space().GetNDofs(); ++i) { for (int d = 0; d < dim; ++d) { mc.gridFunc()(mc.space().DofToVDof(i, d)) += sh(d); } }
      Vector x2(x.Size());
      S.getMeshCoordinates(x2);
      mc.gridFunc() = 0.0;
      mc.distributeSharedDofs(x2);
      S.mesh().GetElementTransformation(0)->Transform(ip, b);
      a += sh;
      same(g, b, a, 1e-12, "mesh-does-not-follow-the-coordinates");
      mc.distributeSharedDofs(x);
   }
   // materials
   json want = miso::material_library;
   if (comp) { auto &m = o["components"]["b"]["material"]; want[m["name"].get<std::string>()].merge_patch(m); }
   g.check(S.materials == want, "materials", viafun ? "function constructor" : "plain constructor");
   // setting the state and its error
   int nc = s.vecfe() ? dim : s.nst;
   int deg = g.irange(0, std::max(0, s.exact()));
   std::vector<Poly> p;
   for (int i = 0; i < nc; ++i) { p.push_back(make_poly(g, dim, deg)); }
   std::function<double(const Vector &)> sf = [&](const Vector &v) { return p[0](v); };
   std::function<void(const Vector &, Vector &)> vf = [&](const Vector &v, Vector &r) { for (int i = 0; i < nc; ++i) { r(i) = p[i](v); } };
   FunctionCoefficient sc(sf);
   VectorFunctionCoefficient vc(nc, vf);
   std::string name = g.pick({std::string("state"), std::string("adjoint"), std::string("state")});
   Vector u(n), r(n);
   u = 77.0;
   int how = g.irange(0, 4);
   bool scalar = !s.vecfe() && nc == 1;
   if (how <= 1 && !scalar) { how += 2; }
   FiniteElementState rs(S.mesh(), ref, "r");
   if (how == 0) { S.setState(sf, u, name); }
   else if (how == 1) { S.setState((Coefficient *)&sc, u, name); }
   else if (how == 2) { S.setState(vf, u, name); }
   else if (how == 3) { S.setState((VectorCoefficient *)&vc, u, name); }
   else { S.setState([&](Vector &v) { for (int i = 0; i < v.Size(); ++i) { v(i) = std::sin(i); } }, u, name); }
   if (how == 4) { for (int i = 0; i < n; ++i) { g.check(u(i) == std::sin(i), "set-state-callable"); } }
   else
   {
      rs.project(vc, r);
      same(g, u, r, 1e-11 * 100, "set-state-projection");
      S.fields.at(name).setTrueVec(r);
      same(g, r, u, 0.0, "field-not-set");
      S.fields.at("dirichlet_bc").setTrueVec(r);
      if (name == "state") { same(g, r, u, 0.0, "boundary-field-not-set"); }
      else { g.check(r.Normlinf() == 0.0, "boundary-field-set"); }
   }
   if (g.chance(1, 3))
   {
      // set once more, to something that vanishes
      std::function<double(const Vector &)> z = [](const Vector &) { return 0.0; };
      std::function<void(const Vector &, Vector &)> vz = [](const Vector &, Vector &r) { r = 0.0; };
      Vector w(n), b(n);
      w = 5.0;
      if (scalar) { S.setState(z, w, "state"); }
      else { S.setState(vz, w, "state"); }
      S.fields.at("state").setTrueVec(r);
      S.fields.at("dirichlet_bc").setTrueVec(b);
      g.check(w.Normlinf() == 0 && r.Normlinf() == 0 && b.Normlinf() == 0, "state set to zero", str(w.Normlinf(), " ", r.Normlinf(), " ", b.Normlinf()));
   }
   // error against something else
   for (auto &q : p) { for (auto &c : q.c) { c *= 0.5; } p[0].c[0] += 0.25; }
   rs.distributeSharedDofs(u);
   double we = miso::calcLpError(rs, vc, 2.0), ge;
   S.fields.at(name).gridFunc() = 3.0;
   int eh = scalar ? g.irange(0, 3) : g.irange(2, 3);
   std::vector<double> u0 = vals(u);
   if (eh == 0) { ge = S.calcStateError(sf, u, name); }
   else if (eh == 1) { ge = S.calcStateError((Coefficient *)&sc, u, name); }
   else if (eh == 2) { ge = S.calcStateError(vf, u, name); }
   else { ge = S.calcStateError((VectorCoefficient *)&vc, u, name); }
   g.close(ge, we, 1e-11 * (1 + we), "state-error");
   g.check(vals(u) == u0, "state-modified-by-error");
   // hooks hand the state to the derived class and to the state field
   Vector h = rnd(g, n);
   S.getState().gridFunc() = 0.0;
   bool invert = g.chance(1, 4);
   if (invert)
   {
      // reflect the whole mesh or collapse through one vertex
      if (g.flip() && dim == 2) { for (int i = 0; i < mc.space().GetNDofs(); ++i) { mc.gridFunc()(mc.space().DofToVDof(i, 0)) *= -1; } }
      else { for (int i = 0; i < mc.space().GetNDofs(); ++i) { mc.gridFunc()(mc.space().DofToVDof(i, 1)) *= -1; } }
      bool threw = false;
      try { S.initialHook(h); }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "inverted-mesh-accepted");
      g.check(S.calls.empty(), "hook-called-on-an-inverted-mesh");
      g.label("inverted");
   }
   else
   {
      S.initialHook(h);
      g.check(S.calls == std::vector<std::string>{"initial"} && vals(S.last) == vals(h), "initial-hook");
      S.getState().setTrueVec(r);
      same(g, r, h, 0.0, "initial-hook-does-not-set-the-state-field");
      S.calls.clear();
      S.iterationHook(3, 0.5, 0.25, h);
      S.terminalHook(7, 0.75, u);
      g.check(S.calls == std::vector<std::string>{"iteration 3 0.5 0.25", "terminal 7 0.75"} && vals(S.last) == vals(u), "hooks");
   }
   g.label(viafun ? "states-function" : "states-number");
   g.nontrivial(n > 2);
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P13", {{"vectors", vectors, 600, 20000}, {"project", project, 600, 20000}, {"errors", errors, 1000, 40000}, {"solver", solver, 400, 10000}},
            "vectors: more than one true dof; project: polynomial degree above zero; errors: a non-zero error on more than one element; solver: more than two true dofs");
   r.assumptions = {"conforming simplex meshes (for H1 and L2 also non-conforming ones) on one rank", "Ubuntu MFEM 4.5.2 evaluates grid functions"};
   return r.main(argc, argv);
}
