// P16: material laws and sources: value, region and derivatives
namespace miso { class ElementFunctionCoefficient; }
#include "coeffgen.hpp"
#include "material_library.hpp"
#include "fdcheck.hpp"
#include "mpi_init.hpp"
#include "adept.h"
#include "coefficient.hpp"
#include "reluctivity_coefficient.hpp"
#include "conductivity_coefficient.hpp"
#include "demag_flux_coefficient.hpp"
#include "remnant_flux_coefficient.hpp"
#include "cal2_ke_coefficient.hpp"
#include "cal2_kh_coefficient.hpp"
#include "pm_demag_constraint_coeff.hpp"
#include "current_source_functions.hpp"
#include "magnetic_source_functions.hpp"

using namespace coeffgen;
using namespace pbt;
using json = nlohmann::json;
using miso::MISOInputs;

namespace
{
adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}
struct Quiet  // the code under test writes to stdout
{
   std::streambuf *b;
   std::ostringstream o;
   Quiet() : b(std::cout.rdbuf(o.rdbuf())) { }
   ~Quiet() { std::cout.rdbuf(b); }
};

// ------------------------------------------------------------------ dispatch
/// returns a value that tells which method of which coefficient was called,
/// with which states
double tag(int id, int method, double a = 0, double b = 0, double c = 0)
{
   return 1000.0 * id + 10.0 * method + std::sin(a + 2 * b + 5 * c + 0.1 * id * method);
}
int n_inputs[64];
struct PlainTag : public mfem::Coefficient
{
   int id;
   explicit PlainTag(int id) : id(id) { }
   double Eval(ElementTransformation &, const IntegrationPoint &) override { return tag(id, 1); }
   void EvalRevDiff(double q, ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { P(0, 0) += q * tag(id, 2); }
};
struct StateTag : public miso::StateCoefficient
{
   int id;
   explicit StateTag(int id) : id(id) { }
   double Eval(ElementTransformation &, const IntegrationPoint &, double s) override { return tag(id, 3, s); }
   double EvalStateDeriv(ElementTransformation &, const IntegrationPoint &, double s) override { return tag(id, 4, s); }
   double EvalState2ndDeriv(ElementTransformation &, const IntegrationPoint &, const double s) override { return tag(id, 5, s); }
   void EvalRevDiff(double q, ElementTransformation &, const IntegrationPoint &, double s, DenseMatrix &P) override { P(0, 0) += q * tag(id, 6, s); }
   void setInputs(const MISOInputs &) override { ++n_inputs[id]; }
};
#define TWO(NAME, M) \
   double NAME(ElementTransformation &, const IntegrationPoint &, double a, double b) override { return tag(id, M, a, b); }
struct TwoTag : public miso::TwoStateCoefficient
{
   int id;
   explicit TwoTag(int id) : id(id) { }
   TWO(Eval, 11) TWO(EvalDerivS1, 12) TWO(EvalDerivS2, 13) TWO(Eval2ndDerivS1, 14) TWO(Eval2ndDerivS2, 15)
   TWO(Eval2ndDerivS1S2, 16) TWO(Eval2ndDerivS2S1, 17)
   void EvalRevDiff(double q, ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { P(0, 0) += q * tag(id, 18); }
};
#define THREE(NAME, M) \
   double NAME(ElementTransformation &, const IntegrationPoint &, double a, double b, double c) override { return tag(id, M, a, b, c); }
struct ThreeTag : public miso::ThreeStateCoefficient
{
   int id;
   explicit ThreeTag(int id) : id(id) { }
   THREE(Eval, 21) THREE(EvalDerivS1, 22) THREE(EvalDerivS2, 23) THREE(EvalDerivS3, 24) THREE(Eval2ndDerivS1, 25)
   THREE(Eval2ndDerivS2, 26) THREE(Eval2ndDerivS3, 27) THREE(Eval2ndDerivS1S2, 28) THREE(Eval2ndDerivS1S3, 29)
   THREE(Eval2ndDerivS2S3, 30) THREE(Eval2ndDerivS2S1, 31) THREE(Eval2ndDerivS3S1, 32) THREE(Eval2ndDerivS3S2, 33)
   void EvalRevDiff(double q, ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { P(0, 0) += q * tag(id, 34); }
};
struct VecTag : public mfem::VectorCoefficient
{
   int id;
   VecTag(int id, int dim) : mfem::VectorCoefficient(dim), id(id) { }
   using mfem::VectorCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &, const IntegrationPoint &) override
   {
      v.SetSize(vdim);
      for (int d = 0; d < vdim; ++d) { v(d) = tag(id, 41 + d); }
   }
   void EvalRevDiff(const Vector &b, ElementTransformation &, const IntegrationPoint &, DenseMatrix &P) override { P(0, 0) += b(0) * tag(id, 44) + b(b.Size() - 1); }
};
struct VecStateTag : public miso::VectorStateCoefficient
{
   int id;
   VecStateTag(int id, int dim) : miso::VectorStateCoefficient(dim), id(id) { }
   using miso::VectorStateCoefficient::Eval;
   using miso::VectorStateCoefficient::EvalRevDiff;
   void Eval(Vector &v, ElementTransformation &, const IntegrationPoint &, double s) override
   {
      v.SetSize(vdim);
      for (int d = 0; d < vdim; ++d) { v(d) = tag(id, 51 + d, s); }
   }
   void EvalStateDeriv(Vector &v, ElementTransformation &, const IntegrationPoint &, double s) override
   {
      v.SetSize(vdim);
      for (int d = 0; d < vdim; ++d) { v(d) = tag(id, 61 + d, s); }
   }
   void EvalRevDiff(const Vector &b, ElementTransformation &, const IntegrationPoint &, double s, DenseMatrix &P) override { P(0, 0) += b(0) * tag(id, 64, s) + b(b.Size() - 1); }
};

/// which coefficient answers for an attribute: kind 0 none, 1 plain, 2 state
struct Who
{
   int kind = 0, id = 0;
};
struct Table
{
   std::map<int, Who> map;
   Who dflt;
   Table(Gen &g)
   {
      int n = g.irange(0, 4), id = 1;
      for (int i = 0; i < n; ++i)
      {
         int a = g.irange(1, 6);
         if (map.count(a)) { continue; }
         map[a] = {g.irange(1, 2), id++};
      }
      dflt = {g.irange(0, 2), id++};
      g.label(dflt.kind == 0 ? "no-default" : "default");
      g.nontrivial(map.size() >= 2);
   }
   Who who(int a) const
   {
      auto it = map.find(a);
      return it != map.end() ? it->second : dflt;
   }
};
template <typename ST>
std::unique_ptr<mfem::Coefficient> make(Who w)
{
   if (w.kind == 0) { return nullptr; }
   if (w.kind == 1) { return std::make_unique<PlainTag>(w.id); }
   return std::make_unique<ST>(w.id);
}

void dispatch(Gen &g)
{
   Table t(g);
   Elem e(g, 2);
   for (auto &n : n_inputs) { n = 0; }
   miso::MeshDependentCoefficient m1(make<StateTag>(t.dflt));
   miso::MeshDependentTwoStateCoefficient m2(make<TwoTag>(t.dflt));
   miso::MeshDependentThreeStateCoefficient m3(make<ThreeTag>(t.dflt));
   for (auto &[a, w] : t.map)
   {
      m1.addCoefficient(a, make<StateTag>(w));
      m2.addCoefficient(a, make<TwoTag>(w));
      m3.addCoefficient(a, make<ThreeTag>(w));
   }
   int q = g.irange(1, 6);
   for (int k = 0; k < q; ++k)
   {
      int a = g.irange(1, 7);
      e.T.Attribute = a;
      Who w = t.who(a);
      double s = g.sym(3.0), s2 = g.sym(3.0), s3 = g.sym(3.0), qb = g.sym(2.0);
      auto want = [&](int plain, int st, double a = 0, double b = 0, double c = 0)
      { return w.kind == 2 ? tag(w.id, st, a, b, c) : (w.kind == 1 && plain ? tag(w.id, plain) : 0.0); };
      auto chk = [&](double got, double wnt, const char *key)
      { g.check(got == wnt, key, str("attribute ", a, ": got ", fmt(got), ", want ", fmt(wnt))); };
      auto &T = e.T;
      auto &ip = e.ip;
      chk(m1.Eval(T, ip), want(1, 3, 0), "one-state-value");
      chk(m1.Eval(T, ip, s), want(1, 3, s), "one-state-value");
      chk(m1.EvalStateDeriv(T, ip, s), want(0, 4, s), "one-state-derivative");
      chk(m1.EvalState2ndDeriv(T, ip, s), want(0, 5, s), "one-state-second-derivative");
      auto rev = [&](auto f, double wnt, const char *key)
      {
         DenseMatrix P(2, 3);
         P = 0.0;
         P(0, 0) = 0.5;
         f(P);
         g.close(P(0, 0), 0.5 + wnt, 1e-12 * (1 + std::fabs(wnt)), key, str("attribute ", a));
         double rest = 0;
         for (int i = 1; i < 6; ++i) { rest += std::fabs(P.GetData()[i]); }
         g.check(rest == 0, key);
      };
      rev([&](DenseMatrix &P) { m1.EvalRevDiff(qb, T, ip, P); }, qb * want(2, 6, 0), "one-state-node-derivative");
      rev([&](DenseMatrix &P) { m1.EvalRevDiff(qb, T, ip, s, P); }, qb * want(2, 6, s), "one-state-node-derivative");
      chk(m2.Eval(T, ip), want(1, 11, 0, 0), "two-state-value");
      chk(m2.Eval(T, ip, s, s2), want(1, 11, s, s2), "two-state-value");
      chk(m2.EvalDerivS1(T, ip, s, s2), want(0, 12, s, s2), "two-state-derivative");
      chk(m2.EvalDerivS2(T, ip, s, s2), want(0, 13, s, s2), "two-state-derivative");
      chk(m2.Eval2ndDerivS1(T, ip, s, s2), want(0, 14, s, s2), "two-state-second-derivative");
      chk(m2.Eval2ndDerivS2(T, ip, s, s2), want(0, 15, s, s2), "two-state-second-derivative");
      chk(m2.Eval2ndDerivS1S2(T, ip, s, s2), want(0, 16, s, s2), "two-state-second-derivative");
      chk(m2.Eval2ndDerivS2S1(T, ip, s, s2), want(0, 17, s, s2), "two-state-second-derivative");
      rev([&](DenseMatrix &P) { m2.EvalRevDiff(qb, T, ip, P); }, qb * want(2, 18), "two-state-node-derivative");
      chk(m3.Eval(T, ip), want(1, 21, 0, 0, 0), "three-state-value");
      chk(m3.Eval(T, ip, s, s2, s3), want(1, 21, s, s2, s3), "three-state-value");
      chk(m3.EvalDerivS1(T, ip, s, s2, s3), want(0, 22, s, s2, s3), "three-state-derivative");
      chk(m3.EvalDerivS2(T, ip, s, s2, s3), want(0, 23, s, s2, s3), "three-state-derivative");
      chk(m3.EvalDerivS3(T, ip, s, s2, s3), want(0, 24, s, s2, s3), "three-state-derivative");
      chk(m3.Eval2ndDerivS1(T, ip, s, s2, s3), want(0, 25, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS2(T, ip, s, s2, s3), want(0, 26, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS3(T, ip, s, s2, s3), want(0, 27, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS1S2(T, ip, s, s2, s3), want(0, 28, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS1S3(T, ip, s, s2, s3), want(0, 29, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS2S3(T, ip, s, s2, s3), want(0, 30, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS2S1(T, ip, s, s2, s3), want(0, 31, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS3S1(T, ip, s, s2, s3), want(0, 32, s, s2, s3), "three-state-second-derivative");
      chk(m3.Eval2ndDerivS3S2(T, ip, s, s2, s3), want(0, 33, s, s2, s3), "three-state-second-derivative");
      rev([&](DenseMatrix &P) { m3.EvalRevDiff(qb, T, ip, P); }, qb * want(2, 34), "three-state-node-derivative");
   }
   m1.setInputs(MISOInputs());
   for (auto &[a, w] : t.map) { g.check(n_inputs[w.id] == (w.kind == 2), "inputs-forwarded", str("attribute ", a)); }
   g.check(n_inputs[t.dflt.id] == (t.dflt.kind == 2), "inputs-forwarded", "default");
}

void vdispatch(Gen &g)
{
   Table t(g);
   int vdim = g.irange(2, 3);
   Elem e(g, vdim);
   auto mk = [&](Who w) -> std::unique_ptr<mfem::VectorCoefficient>
   {
      if (w.kind == 0) { return nullptr; }
      if (w.kind == 1) { return std::make_unique<VecTag>(w.id, vdim); }
      return std::make_unique<VecStateTag>(w.id, vdim);
   };
   Who sd = t.dflt;
   if (sd.kind == 1) { sd.kind = 0; }  // the default of the state-dependent map is state-dependent
   miso::VectorMeshDependentCoefficient m1(vdim, mk(t.dflt));
   miso::VectorMeshDependentStateCoefficient m2(vdim, sd.kind ? std::make_unique<VecStateTag>(sd.id, vdim) : nullptr);
   for (auto &[a, w] : t.map)
   {
      m1.addCoefficient(a, mk(w));
      m2.addCoefficient(a, mk(w));
   }
   int q = g.irange(1, 6);
   for (int k = 0; k < q; ++k)
   {
      int a = g.irange(1, 7);
      e.T.Attribute = a;
      double s = g.sym(3.0);
      Vector bar(vdim), v(vdim);
      for (int d = 0; d < vdim; ++d) { bar(d) = g.sym(2.0); }
      auto chk = [&](Who w, int plain, int st, double state, const char *key)
      {
         for (int d = 0; d < vdim; ++d)
         {
            double want = w.kind == 2 ? tag(w.id, st + d, state) : (w.kind == 1 && plain ? tag(w.id, plain + d) : 0.0);
            g.check(v.Size() == vdim && v(d) == want, key, str("attribute ", a, " component ", d, ": got ", fmt(v(d)), ", want ", fmt(want)));
         }
      };
      auto rev = [&](auto f, Who w, double state, const char *key)
      {
         DenseMatrix P(2, 3);
         P = 0.0;
         P(0, 0) = 0.5;
         f(P);
         double want = w.kind == 2 ? bar(0) * tag(w.id, 64, state) + bar(vdim - 1) : w.kind == 1 ? bar(0) * tag(w.id, 44) + bar(vdim - 1) : 0.0;
         g.close(P(0, 0), 0.5 + want, 1e-12 * (1 + std::fabs(want)), key, str("attribute ", a));
      };
      Who w1 = t.who(a), w2 = t.map.count(a) ? t.map[a] : sd;
      auto &T = e.T;
      auto &ip = e.ip;
      v = 7.0;
      m1.Eval(v, T, ip);
      chk(w1, 41, 51, 0, "vector-value");
      rev([&](DenseMatrix &P) { m1.EvalRevDiff(bar, T, ip, P); }, w1, 0, "vector-node-derivative");
      v = 7.0;
      m2.Eval(v, T, ip);
      chk(w2, 41, 51, 0, "vector-state-value");
      v = 7.0;
      m2.Eval(v, T, ip, s);
      chk(w2, 41, 51, s, "vector-state-value");
      v = 7.0;
      m2.EvalStateDeriv(v, T, ip, s);
      chk(w2, 0, 61, s, "vector-state-derivative");
      rev([&](DenseMatrix &P) { m2.EvalRevDiff(bar, T, ip, s, P); }, w2, s, "vector-state-node-derivative");
   }
}

// ------------------------------------------------------------------- product
struct SpacePlain : public mfem::Coefficient
{
   Poly p;
   explicit SpacePlain(Poly p) : p(p) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return p(at(T, ip), 0); }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      Vector x = at(T, ip), xb(x.Size());
      xb = 0.0;
      p.grad(x, q * p.fac(0), xb);
      back(T, ip, xb, P);
   }
};
struct SpaceState : public miso::StateCoefficient
{
   Poly p;
   explicit SpaceState(Poly p) : p(p) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return p(at(T, ip), s); }
   double EvalStateDeriv(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return p.ds(at(T, ip), s); }
   double EvalState2ndDeriv(ElementTransformation &T, const IntegrationPoint &ip, const double s) override { return p.d2s(at(T, ip), s); }
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override
   {
      Vector x = at(T, ip), xb(x.Size());
      xb = 0.0;
      p.grad(x, q * p.fac(s), xb);
      back(T, ip, xb, P);
   }
};
struct SpaceVec : public mfem::VectorCoefficient
{
   std::vector<Poly> p;
   explicit SpaceVec(std::vector<Poly> p) : mfem::VectorCoefficient(p.size()), p(p) { }
   using mfem::VectorCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      v.SetSize(vdim);
      for (int d = 0; d < vdim; ++d) { v(d) = p[d](at(T, ip), 0); }
   }
   void EvalRevDiff(const Vector &b, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &P) override
   {
      Vector x = at(T, ip), xb(x.Size());
      xb = 0.0;
      for (int d = 0; d < vdim; ++d) { p[d].grad(x, b(d) * p[d].fac(0), xb); }
      back(T, ip, xb, P);
   }
};
struct SpaceVecState : public miso::VectorStateCoefficient
{
   std::vector<Poly> p;
   explicit SpaceVecState(std::vector<Poly> p) : miso::VectorStateCoefficient(p.size()), p(p) { }
   using miso::VectorStateCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      v.SetSize(vdim);
      for (int d = 0; d < vdim; ++d) { v(d) = p[d](at(T, ip), s); }
   }
   void EvalStateDeriv(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      v.SetSize(vdim);
      for (int d = 0; d < vdim; ++d) { v(d) = p[d].ds(at(T, ip), s); }
   }
   void EvalRevDiff(const Vector &b, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override
   {
      Vector x = at(T, ip), xb(x.Size());
      xb = 0.0;
      for (int d = 0; d < vdim; ++d) { p[d].grad(x, b(d) * p[d].fac(s), xb); }
      back(T, ip, xb, P);
   }
};

/// node derivative of a vector-valued coefficient against finite differences
template <typename EV, typename RD>
void node_check(Gen &g, Elem &e, int vdim, EV ev, RD rd, const char *key)
{
   Vector bar(vdim);
   for (int d = 0; d < vdim; ++d) { bar(d) = g.sym(2.0); }
   Vector dir = e.node_direction(g), u = e.nodes();
   DenseMatrix P(e.dim, e.fe->GetDof());
   // the derivative is added to what is there
   double fill = g.sym(1.0);
   P = fill;
   rd(bar, P);
   Vector jv(1);
   jv(0) = 0;
   for (int i = 0; i < dir.Size(); ++i) { jv(0) += dir(i) * (P.GetData()[i] - fill); }
   auto f = [&](const Vector &x, Vector &r)
   {
      e.set_nodes(x);
      Vector v(vdim);
      ev(v);
      r.SetSize(1);
      r(0) = bar * v;
   };
   fd_check(g, f, u, dir, jv, 1e-3, key);
   e.set_nodes(u);
}

void product(Gen &g)
{
   int vdim = g.irange(2, 3);
   Elem e(g, vdim);
   bool as = g.flip(), bs = g.flip();
   g.label(str(as ? "state" : "plain", "-times-", bs ? "state" : "plain"));
   g.nontrivial(as || bs);
   Poly a(g, as);
   std::vector<Poly> b;
   for (int d = 0; d < vdim; ++d) { b.emplace_back(g, bs); }
   SpacePlain ap(a);
   SpaceState ast(a);
   SpaceVec bp(b);
   SpaceVecState bst(b);
   miso::ScalarVectorProductCoefficient c(as ? static_cast<mfem::Coefficient &>(ast) : ap,
                                          bs ? static_cast<mfem::VectorCoefficient &>(bst) : bp);
   int q = g.irange(1, 3);
   for (int k = 0; k < q; ++k)
   {
      double s = g.sym(2.0);
      e.point(g);
      Vector x = e.x(), v(vdim), v0(vdim), dv(vdim);
      dv = 3.0;
      c.Eval(v, e.T, e.ip, s);
      c.Eval(v0, e.T, e.ip);
      c.EvalStateDeriv(dv, e.T, e.ip, s);
      for (int d = 0; d < vdim; ++d)
      {
         double m = 50.0;
         g.close(v(d), a(x, s) * b[d](x, s), 1e-13 * m, "product-value");
         g.close(v0(d), a(x, 0) * b[d](x, 0), 1e-13 * m, "product-value-no-state");
         g.close(dv(d), a.ds(x, s) * b[d](x, s) + a(x, s) * b[d].ds(x, s), 1e-12 * m, "product-state-derivative");
      }
      node_check(g, e, vdim, [&](Vector &r) { c.Eval(r, e.T, e.ip, s); },
                 [&](const Vector &bar, DenseMatrix &P) { c.EvalRevDiff(bar, e.T, e.ip, s, P); }, "product-node-derivative");
   }
}

// ---------------------------------------------- functions of element and point
double per_element(const Vector &x, int e)
{
   double v = 1 + 0.7 * e;
   for (int d = 0; d < x.Size(); ++d) { v += (d + 1) * x(d) * (e % 3 - 0.5); }
   return v + 10 * x.Size();
}
double per_element_time(const Vector &x, int e, double t) { return per_element(x, e) * (1 + t) + 0.1 * t * t; }
template <typename Function>
void element_function_of(Gen &g)
{
   Elem e(g, g.irange(2, 3));
   Function plain(per_element), timed(per_element_time);
   double t = 0;
   int n = g.irange(1, 4);
   g.nontrivial(n > 1);
   for (int k = 0; k < n; ++k)
   {
      if (g.flip())
      {
         t = g.sym(3);
         plain.SetTime(t);
         timed.SetTime(t);
      }
      e.T.ElementNo = g.irange(0, 50);
      e.T.Attribute = g.irange(1, 5);
      e.point(g);
      e.T.SetIntPoint(&e.ip);
      Vector x = e.x();
      int el = e.T.ElementNo;
      g.close(plain.Eval(e.T, e.ip), per_element(x, el), 1e-11, "function of the element", str("element ", el));
      g.close(timed.Eval(e.T, e.ip), per_element_time(x, el, t), 1e-11, "function of element and time", str("element ", el, " time ", fmt(t)));
   }
}
// not used in the repository: do without it if it is gone
template <typename T, typename = void>
struct complete : std::false_type { };
template <typename T>
struct complete<T, std::void_t<decltype(sizeof(T))>> : std::true_type { };
template <typename T>
void element_function_if(Gen &g)
{
   if constexpr (complete<T>::value) { element_function_of<T>(g); }
   else { g.nontrivial(); }
}
void element_function(Gen &g) { element_function_if<miso::ElementFunctionCoefficient>(g); }

// ------------------------------------------------- the materials that come along
/// wires of the library: properties between those of metal and insulation, and
/// the sensitivities to the fill factor the derivatives of the properties
void library(Gen &g)
{
   Elem e(g, 2);
   std::vector<std::string> names;
   for (auto &m : miso::material_library.items())
   {
      for (auto &p : m.value().items())
         if (p.value().is_object() && p.value().contains("weighted_by") && p.key()[0] != 'd') { names.push_back(m.key() + "/" + p.key()); }
   }
   g.check(!names.empty(), "library has no weighted property");
   std::string name = g.pick(names);
   std::string mat = name.substr(0, name.find('/')), prop = name.substr(name.find('/') + 1);
   g.label(name);
   bool list = g.flip();
   json comps = {{"wire", list ? json{{"attrs", {1, 2}}, {"material", mat}} : json{{"attr", 1}, {"material", mat}}}};
   auto c = miso::constructMaterialCoefficient(prop, comps, miso::material_library);
   auto at = [&](auto &k, double f) {
      k.setInputs(MISOInputs{{"fill_factor", f}});
      return k.Eval(e.T, e.ip);
   };
   double lo = at(*c, 0), hi = at(*c, 1), f = g.real(0.01, 0.99), v = at(*c, f);
   g.note(str(name, " at ", fmt(f), ": ", fmt(v), " of ", fmt(lo), " .. ", fmt(hi)));
   auto &parts = miso::material_library.at(mat).at(prop).at("materials");
   g.close(hi, miso::material_library.at(parts.at(0).get<std::string>()).at(prop).get<double>(), 1e-12 * std::fabs(hi), "full wire", name);
   g.close(lo, miso::material_library.at(parts.at(1).get<std::string>()).at(prop).get<double>(), 1e-12 * std::fabs(lo), "empty wire", name);
   g.check(v >= std::min(lo, hi) && v <= std::max(lo, hi), "wire outside its materials", name);
   std::string dprop = "d" + prop + "_df";
   if (miso::material_library.at(mat).contains(dprop))
   {
      decltype(c) d;
      try { d = miso::constructMaterialCoefficient(dprop, comps, miso::material_library); }
      catch (const std::exception &x) { g.check(false, "fill-factor sensitivity of a wire cannot be built", str(mat, "/", dprop, ": ", x.what())); }
      double h = 5e-3 * std::min(f, 1 - f);
      auto cd = [&](double s) { return (at(*c, f + s) - at(*c, f - s)) / (2 * s); };
      double want = (4 * cd(h) - cd(2 * h)) / 3;
      g.close(at(*d, f), want, 1e-6 * std::fabs(want), "fill-factor sensitivity of a wire", str(mat, "/", dprop, " at ", fmt(f)));
      g.nontrivial();
   }
}

// ------------------------------------------ weighted materials, continuation
void weights(Gen &g)
{
   Elem e(g, 2);
   double v1 = g.logreal(0.1, 100), v2 = g.chance(1, 8) ? v1 : g.logreal(0.1, 100), dflt = g.chance(1, 2) ? 0.0 : g.sym(5.0);
   json mats = {{"a", {{"rho", v1}}}, {"b", {{"rho", v2}}}, {"none", {{"other", 3.0}}}};
   const char *names[] = {"Hashin-Shtrikman", "dHashin-Shtrikman", "average", "daverage"};
   int kind = g.irange(0, 3);
   g.label(names[kind]);
   g.nontrivial(v1 != v2);
   mats["mix"] = {{"rho", {{"materials", {"a", "b"}}, {"weight", names[kind]}, {"weighted_by", "dens"}}}};
   // components: attribute 1 (2, 3) mix, 4 plain, 5 has no such property
   bool obj = g.flip(), list = g.flip();
   auto mat = [&](const char *n) { return obj ? json{{"name", n}} : json(n); };
   json comps;
   comps["mix"] = list ? json{{"attrs", {1, 2}}, {"material", mat("mix")}} : json{{"attr", 1}, {"material", mat("mix")}};
   comps["plain"] = list ? json{{"attrs", {4}}, {"material", mat("a")}} : json{{"attr", 4}, {"material", mat("a")}};
   comps["void"] = list ? json{{"attrs", {5}}, {"material", mat("none")}} : json{{"attr", 5}, {"material", mat("none")}};
   if (g.flip()) { comps = json::array({comps["mix"], comps["plain"], comps["void"]}); }
   auto c = miso::constructMaterialCoefficient("rho", comps, mats, dflt);
   auto c2 = miso::constructMaterialTwoStateCoefficient("other", json{{"x", comps.is_array() ? comps[1] : comps["plain"]}, {"y", comps.is_array() ? comps[2] : comps["void"]}}, mats, dflt);
   auto c3 = miso::constructMaterialThreeStateCoefficient("other", json{{"x", comps.is_array() ? comps[1] : comps["plain"]}, {"y", comps.is_array() ? comps[2] : comps["void"]}}, mats, dflt);
   double w = 0.5, hi = std::max(v1, v2), lo = std::min(v1, v2);
   int q = g.irange(1, 5);
   for (int k = 0; k < q; ++k)
   {
      if (g.chance(2, 3))
      {
         double x = g.chance(1, 4) ? g.irange(0, 1) : g.unit();
         bool mine = g.chance(3, 4);
         MISOInputs in{{mine ? "dens" : "density", x}};
         c->setInputs(in);
         if (mine) { w = x; }
      }
      double s = g.sym(3.0);
      auto hs = [&](double w) { return lo * ((1 + w) * hi + (1 - w) * lo) / ((1 - w) * hi + (1 + w) * lo); };
      double den = (1 - w) * hi + (1 + w) * lo;
      double want = kind == 0 ? hs(w) : kind == 1 ? 2 * lo * (hi - lo) * (hi + lo) / (den * den) : kind == 2 ? w * hi + (1 - w) * lo : hi - lo;
      double mag = kind == 1 ? 2 * lo * (hi + lo) * (hi + lo) / (den * den) : hi;
      for (int a = 1; a <= (list ? 2 : 1); ++a)
      {
         e.T.Attribute = a;
         g.close(c->Eval(e.T, e.ip), want, 1e-12 * mag, "weighted-value", str(names[kind], " w=", w));
         g.close(c->Eval(e.T, e.ip, s), want, 1e-12 * mag, "weighted-value", str(names[kind], " w=", w));
         g.check(c->EvalStateDeriv(e.T, e.ip, s) == 0, "weighted-state-derivative");
         if (kind == 0)
         {
            double got = c->Eval(e.T, e.ip);
            g.check(got >= lo * (1 - 1e-12) && got <= hi * (1 + 1e-12), "weighted-out-of-bounds");
         }
      }
      e.T.Attribute = 4;
      g.check(c->Eval(e.T, e.ip) == v1, "plain-value");
      g.check(c2->Eval(e.T, e.ip) == dflt && c2->Eval(e.T, e.ip, s, s) == dflt, "missing-property-two-state");
      g.check(c3->Eval(e.T, e.ip) == dflt && c3->Eval(e.T, e.ip, s, s, s) == dflt, "missing-property-three-state");
      e.T.Attribute = 5;
      g.check(c->Eval(e.T, e.ip) == dflt, "missing-property", str("got ", c->Eval(e.T, e.ip), ", default ", dflt));
      g.check(c2->Eval(e.T, e.ip) == 3.0 && c2->Eval(e.T, e.ip, s, s) == 3.0, "property-two-state");
      g.check(c3->Eval(e.T, e.ip) == 3.0 && c3->Eval(e.T, e.ip, s, s, s) == 3.0, "property-three-state");
      e.T.Attribute = 6;
      g.check(c->Eval(e.T, e.ip) == 0 && c2->Eval(e.T, e.ip) == 0 && c3->Eval(e.T, e.ip) == 0, "no-material");
   }
   // constants of the loss models sit in a sub-table
   {
      json m = {{"steel", {{"core_loss", {{"steinmetz", {{"ks", v1}, {"alpha", v2}}}}}}}};
      json co = {{"c", {{"attrs", {2, 3}}, {"material", "steel"}}}};
      e.T.Attribute = g.irange(2, 3);
      const char *n[] = {"ks", "alpha", "beta"};
      double want[] = {v1, v2, dflt};
      for (int i = 0; i < 3; ++i)
      {
         g.check(miso::constructMaterialTwoStateCoefficient(n[i], co, m, dflt)->Eval(e.T, e.ip, 1, 2) == want[i], "steinmetz-constant", n[i]);
      }
   }
   // continuation between a linear and a nonlinear law
   {
      Poly a(g, false), b(g, true);
      miso::ParameterContinuationCoefficient pc(std::make_unique<SpacePlain>(a), std::make_unique<SpaceState>(b));
      double lam = g.chance(1, 4) ? g.irange(0, 1) : g.unit(), s = g.sym(2.0);
      {
         Quiet quiet;
         miso::ParameterContinuationCoefficient::setLambda(lam);
      }
      Vector x = e.x();
      g.check(miso::ParameterContinuationCoefficient::getLambda() == lam, "continuation-parameter");
      g.close(pc.Eval(e.T, e.ip, s), (1 - lam) * a(x, 0) + lam * b(x, s), 1e-11, "continuation-value");
      g.close(pc.EvalStateDeriv(e.T, e.ip, s), lam * b.ds(x, s), 1e-11, "continuation-state-derivative");
      g.close(pc.EvalState2ndDeriv(e.T, e.ip, s), lam * b.d2s(x, s), 1e-11, "continuation-second-state-derivative");
   }
}

// ------------------------------------------------------- material components
/// how a component names its attributes and its material
struct Comp
{
   std::vector<int> attrs;
   json j;
   int kind;  // 0 name only, 1 object without the model, 2 object with the model
};
Comp component(Gen &g, int &next, const std::string &mat, const std::string &key, const json &model)
{
   Comp c;
   bool single = g.flip();
   int n = single ? 1 : g.irange(1, 3);
   for (int i = 0; i < n; ++i) { c.attrs.push_back(next++); }
   c.kind = std::min(2, g.irange(0, 4));
   if (single) { c.j["attr"] = c.attrs[0]; }
   else { c.j["attrs"] = c.attrs; }
   if (c.kind == 0) { c.j["material"] = mat; }
   else
   {
      c.j["material"] = {{"name", mat}};
      if (c.kind == 2) { c.j["material"][key] = model; }
   }
   g.label(str(single ? "attr" : "attrs", c.kind == 0 ? "-name" : c.kind == 1 ? "-object" : "-model"));
   g.nontrivial(c.kind == 2);
   return c;
}
json container(Gen &g, const std::vector<Comp> &cs, bool wrap)
{
   json comps;
   int i = 0;
   bool arr = g.chance(1, 3);
   if (arr) { comps = json::array(); }
   else { comps = json::object(); }
   for (auto &c : cs)
   {
      if (arr) { comps.push_back(c.j); }
      else { comps[str("c", i++)] = c.j; }
   }
   return wrap ? json{{"components", comps}} : comps;
}

/// value from the component's own options, else from the library
double param(Gen &g, json &own, json &lib, const char *name, double v)
{
   if (g.flip()) { lib[name] = v; }
   else
   {
      own[name] = v;
      if (g.flip()) { lib[name] = v + 1 + std::fabs(v); }
   }
   return v;
}

template <typename C>
void one_state(Gen &g, C &c, Elem &e, int attr, double s, double v, double d, double d2, const char *key, double mag)
{
   e.T.Attribute = attr;
   std::string w = str("attribute ", attr, " state ", s);
   g.close(c.Eval(e.T, e.ip, s), v, 1e-12 * mag, str(key, "-value"), w);
   g.close(c.EvalStateDeriv(e.T, e.ip, s), d, 1e-12 * (std::fabs(d)), str(key, "-derivative"), w);
   g.close(c.EvalState2ndDeriv(e.T, e.ip, s), d2, 1e-12 * (std::fabs(d2)), str(key, "-second-derivative"), w);
}

void scalars(Gen &g)
{
   Elem e(g, 2);
   int next = 1;
   // conductivity
   {
      json lib = json::object(), mats;
      std::vector<Comp> cs;
      std::vector<std::array<double, 4>> par;  // kind, a, T0, s0
      int n = g.irange(1, 3);
      for (int i = 0; i < n; ++i)
      {
         std::string m = str("m", i);
         json l = json::object(), model;
         mats[m] = json::object();
         double sig = 58.14e6;
         if (g.flip()) { mats[m]["sigma"] = sig = g.logreal(1e3, 1e8); }
         bool lin = g.flip();
         double a = g.logreal(1e-4, 1e-2), T0 = g.real(200, 400), s0 = g.logreal(1e3, 1e8);
         if (lin)
         {
            model["model"] = "linear";
            param(g, model, l, "alpha_resistivity", a);
            param(g, model, l, "T_ref", T0);
            param(g, model, l, "sigma_T_ref", s0);
            mats[m]["conductivity"]["linear"] = l;
         }
         else { model["model"] = "constant"; }
         Comp c = component(g, next, m, "conductivity", model);
         cs.push_back(c);
         if (c.kind == 2 && lin) { par.push_back({1, a, T0, s0}); }
         else { par.push_back({0, 0, 0, sig}); }
      }
      miso::ConductivityCoefficient c(container(g, cs, true), mats);
      for (int i = 0; i < n; ++i)
         for (int a : cs[i].attrs)
         {
            double T = g.real(150, 500), f = 1 + par[i][1] * (T - par[i][2]), s0 = par[i][3], al = par[i][1];
            one_state(g, c, e, a, T, s0 / f, -s0 * al / (f * f), 2 * s0 * al * al / (f * f * f), "conductivity", std::fabs(s0 / f) / std::min(1.0, std::fabs(f)) * 2);
            // without a temperature, at state zero
            double f0 = 1 - par[i][1] * par[i][2];
            g.close(c.Eval(e.T, e.ip), s0 / f0, 1e-11 * std::fabs(s0 / f0) / std::min(1.0, std::fabs(f0)), "conductivity-value-no-state");
         }
      one_state(g, c, e, next + 1, g.real(150, 500), 58.14e6, 0, 0, "conductivity-default", 58.14e6);
      json bad = {{"components", {{"x", {{"attr", 1}, {"material", {{"name", "m0"}, {"conductivity", {{"model", "nope"}}}}}}}}}};
      bool threw = false;
      try { miso::ConductivityCoefficient b(bad, mats); }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "unknown-model-accepted");
   }
   // flux density at the knee of the demagnetization curve
   {
      next = 1;
      json mats;
      std::vector<Comp> cs;
      std::vector<std::array<double, 2>> par;
      int n = g.irange(1, 3);
      for (int i = 0; i < n; ++i)
      {
         std::string m = str("m", i);
         json l = json::object(), model = json::object();
         double a = g.sym(0.01), b = g.sym(3.0);
         param(g, model, l, "alpha_B_knee", a);
         param(g, model, l, "beta_B_knee", b);
         mats[m] = {{"Demag", l}};
         Comp c = component(g, next, m, "Demag", model);
         cs.push_back(c);
         if (c.kind == 2) { par.push_back({a, b}); }
         else { par.push_back({0, 0}); }
      }
      auto opt = container(g, cs, g.flip());
      miso::DemagFluxCoefficient c(opt, mats);
      for (int i = 0; i < n; ++i)
         for (int a : cs[i].attrs)
         {
            double T = g.real(150, 500);
            one_state(g, c, e, a, T, par[i][0] * T + par[i][1], par[i][0], 0, "knee", 10);
         }
      one_state(g, c, e, next + 1, 300, 0, 0, 0, "knee-default", 1);
   }
   // remnant flux
   {
      json m = json::object();
      double a = -0.12, T0 = 293.15, B = 1.39;
      if (g.flip()) { m["alpha_B_r"] = a = g.sym(0.5); }
      if (g.flip()) { m["T_ref"] = T0 = g.real(250, 350); }
      if (g.flip()) { m["B_r_T_ref"] = B = g.real(0.2, 2); }
      miso::RemnantFluxCoefficient c(m);
      double T = g.real(150, 500);
      one_state(g, c, e, g.irange(1, 4), T, B * (1 + a / 100 * (T - T0)), B * a / 100, 0, "remnant", 10);
   }
}

// --------------------------------------------------------------- reluctivity
/// B-spline by the Cox-de Boor recursion, with derivatives
struct Spline
{
   std::vector<double> c, k;
   int p;
   double basis(int i, int q, double t) const
   {
      if (q == 0)
      {
         int last = static_cast<int>(c.size()) - 1 + (p - 0);  // not used for the interval test
         (void)last;
         bool in = k[i] <= t && t < k[i + 1];
         if (!in && t == k.back() && k[i] < k[i + 1] && k[i + 1] == k.back()) { in = true; }
         return in ? 1.0 : 0.0;
      }
      double r = 0;
      if (k[i + q] > k[i]) { r += (t - k[i]) / (k[i + q] - k[i]) * basis(i, q - 1, t); }
      if (k[i + q + 1] > k[i + 1]) { r += (k[i + q + 1] - t) / (k[i + q + 1] - k[i + 1]) * basis(i + 1, q - 1, t); }
      return r;
   }
   double dbasis(int i, int q, int o, double t) const
   {
      if (o == 0) { return basis(i, q, t); }
      if (q == 0) { return 0; }
      double r = 0;
      if (k[i + q] > k[i]) { r += q / (k[i + q] - k[i]) * dbasis(i, q - 1, o - 1, t); }
      if (k[i + q + 1] > k[i + 1]) { r -= q / (k[i + q + 1] - k[i + 1]) * dbasis(i + 1, q - 1, o - 1, t); }
      return r;
   }
   double operator()(double t, int o = 0) const
   {
      double r = 0;
      for (size_t i = 0; i < c.size(); ++i) { r += c[i] * dbasis(i, p, o, t); }
      return r;
   }
   double mag(double t, int o) const
   {
      double r = 0;
      for (size_t i = 0; i < c.size(); ++i) { r += std::fabs(c[i]) * std::fabs(dbasis(i, p, o, t)); }
      // rounding acts on the control points of the derivative
      double h = k.back();
      for (size_t i = 0; i + 1 < k.size(); ++i)
         if (k[i + 1] > k[i]) { h = std::min(h, k[i + 1] - k[i]); }
      double cm = 0;
      for (double x : c) { cm = std::max(cm, std::fabs(x)); }
      return r + cm * std::pow(p / h, o);
   }
};

constexpr double nu0 = 1 / (4e-7 * M_PI);

void reluctivity(Gen &g)
{
   Elem e(g, g.irange(2, 3));
   int next = 1;
   json mats;
   struct Law
   {
      int kind;  // 0 constant, 1 lognu, 2 bh
      double mu;
      Spline s;
   };
   std::vector<Comp> cs;
   std::vector<Law> laws;
   int n = g.irange(1, 3);
   for (int i = 0; i < n; ++i)
   {
      std::string m = str("m", i);
      mats[m] = json::object();
      Law l;
      l.mu = 1.0;
      l.kind = g.irange(0, 2);
      if (g.flip()) { mats[m]["mu_r"] = l.mu = g.logreal(0.5, 5000); }
      json model, lib = json::object();
      const char *names[] = {"linear", "lognu", "bh"};
      model["model"] = names[l.kind];
      if (l.kind > 0)
      {
         l.s.p = g.chance(1, 3) ? g.irange(2, 4) : 3;
         int nc = l.s.p + 1 + g.irange(0, 5);
         double bm = g.real(0.5, 4.0);
         std::vector<double> in;
         double tot = 0;
         for (int j = 0; j < nc - l.s.p; ++j)
         {
            tot += g.real(0.3, 1.0);
            in.push_back(tot);
         }
         l.s.k.assign(l.s.p + 1, 0.0);
         for (int j = 0; j + 1 < static_cast<int>(in.size()); ++j) { l.s.k.push_back(bm * in[j] / tot); }
         for (int j = 0; j <= l.s.p; ++j) { l.s.k.push_back(bm); }
         double acc = 0;
         for (int j = 0; j < nc; ++j)
         {
            if (l.kind == 1) { l.s.c.push_back(g.real(4, 14)); }
            else
            {
               l.s.c.push_back(acc);
               acc += g.logreal(10, 1e5);
            }
         }
         auto put = [&](const char *key, const json &v, bool needed)
         {
            bool own = g.flip();
            if (own) { model[key] = v; }
            if (!own || g.flip())
            {
               if (own && v.is_array())
               {
                  json o = v;
                  for (auto &x : o) { x = x.get<double>() * 2; }
                  lib[key] = o;
               }
               else if (own) { lib[key] = v.get<int>() + 1; }
               else if (needed || g.flip()) { lib[key] = v; }
            }
         };
         put("cps", l.s.c, true);
         put("knots", l.s.k, true);
         put("degree", l.s.p, l.s.p != 3);
         mats[m]["reluctivity"][names[l.kind]] = lib;
      }
      Comp c = component(g, next, m, "reluctivity", model);
      if (c.kind != 2) { l.kind = 0; }
      g.label(names[l.kind]);
      cs.push_back(c);
      laws.push_back(l);
   }
   miso::ReluctivityCoefficient nu(container(g, cs, true), mats);
   for (int i = 0; i < n; ++i)
   {
      const Law &l = laws[i];
      for (int a : cs[i].attrs)
      {
         if (l.kind == 0)
         {
            double v = 1 / (l.mu * 4e-7 * M_PI);
            one_state(g, nu, e, a, g.real(0, 3), v, 0, 0, "linear", v);
            g.close(nu.Eval(e.T, e.ip), v, 1e-12 * v, "linear-value-no-state");
            continue;
         }
         double bm = l.s.k.back(), B;
         int where = g.irange(0, 7);
         if (where == 0) { B = 0; }
         else if (where == 1) { B = bm * g.real(1.001, 3); }
         else if (where == 2) { B = bm; }
         else if (where == 3) { B = bm * g.logreal(1e-6, 1e-2); }
         else { B = bm * g.real(0.01, 0.999); }
         g.label(where == 0 ? "zero-field" : where == 1 ? "beyond-data" : "in-data");
         bool near_knot = false;
         for (double k : l.s.k)
            if (k > 0 && std::fabs(B - k) < 1e-9 * bm) { near_knot = true; }
         e.T.Attribute = a;
         double v, d, d2, got, gd, gd2;
         {
            Quiet quiet;
            got = nu.Eval(e.T, e.ip, B);
            gd = nu.EvalStateDeriv(e.T, e.ip, B);
            gd2 = nu.EvalState2ndDeriv(e.T, e.ip, B);
         }
         std::string w = str(l.kind == 1 ? "lognu" : "bh", " B=", fmt(B), " of ", fmt(bm), " degree ", l.s.p);
         double tv, td, td2;
         const Spline &S = l.s;
         if (l.kind == 1)
         {
            if (B > bm)
            {
               v = nu0;
               d = d2 = 0;
               tv = td = td2 = nu0;
            }
            else
            {
               v = std::exp(S(B));
               d = v * S(B, 1);
               d2 = v * (S(B, 2) + S(B, 1) * S(B, 1));
               tv = v * S.mag(B, 0);
               td = v * S.mag(B, 1) * 20;
               td2 = v * (S.mag(B, 2) + S.mag(B, 1) * S.mag(B, 1)) * 20;
            }
         }
         else
         {
            double h = S(B > bm ? bm : B);
            if (B > bm)
            {
               double hm = S.c.back();
               v = (hm - nu0 * bm) / B + nu0;
               d = -(hm - nu0 * bm) / (B * B);
               d2 = 2 * (hm - nu0 * bm) / (B * B * B);
               double m = hm / bm + nu0;
               tv = m;
               td = m / bm;
               td2 = m / bm / bm;
            }
            else if (B == 0)
            {
               v = S(0, 1);
               d = S(0, 2) / 2;
               d2 = S.p >= 3 ? S(0, 3) / 3 : 0.0;
               tv = S.mag(0, 1);
               td = S.mag(0, 2);
               td2 = S.mag(0, 3);
            }
            else
            {
               v = h / B;
               d = S(B, 1) / B - h / (B * B);
               d2 = S(B, 2) / B - 2 * S(B, 1) / (B * B) + 2 * h / (B * B * B);
               tv = S.mag(B, 0) / B;
               td = S.mag(B, 1) / B + S.mag(B, 0) / (B * B);
               td2 = S.mag(B, 2) / B + 2 * S.mag(B, 1) / (B * B) + 2 * S.mag(B, 0) / (B * B * B);
            }
         }
         g.close(got, v, 1e-11 * tv, "spline-value", w);
         if (!near_knot || S.p > 2) { g.close(gd, d, 1e-11 * td, "spline-derivative", w); }
         if (!near_knot) { g.close(gd2, d2, 1e-11 * td2, "spline-second-derivative", w); }
         // the value is continuous where the data end
         if (l.kind == 2)
         {
            double up = nu.Eval(e.T, e.ip, bm * (1 + 1e-9)), dn = nu.Eval(e.T, e.ip, bm);
            g.close(up, dn, 1e-7 * (std::fabs(dn) + nu0), "spline-jump-at-the-end", w);
         }
      }
   }
   one_state(g, nu, e, next + 1, g.real(0, 3), nu0, 0, 0, "reluctivity-default", nu0);
   for (const char *bad : {"team13", "spline"})
   {
      json o = {{"components", {{"x", {{"attr", 1}, {"material", {{"name", "m0"}, {"reluctivity", {{"model", bad}}}}}}}}}};
      bool threw = false;
      try { miso::ReluctivityCoefficient b(o, mats); }
      catch (const miso::MISOException &) { threw = true; }
      g.check(threw, "unknown-model-accepted", bad);
   }
}

// --------------------------------------------------------- core loss (CAL2)
template <typename C>
void cal2(Gen &g, const char *name)
{
   std::string k = name;  // "ke" or "kh"
   Elem e(g, 2);
   int next = 1;
   json mats;
   struct Law
   {
      bool poly;
      double c, T0, T1;
      std::vector<double> a, b;
   };
   std::vector<Comp> cs;
   std::vector<Law> laws;
   int n = g.irange(1, 3);
   for (int i = 0; i < n; ++i)
   {
      std::string m = str("m", i);
      mats[m] = json::object();
      Law l;
      l.c = 1.0;
      if (g.flip()) { mats[m][k] = l.c = g.logreal(1e-3, 10); }
      l.T0 = g.real(250, 350);
      l.T1 = l.T0 + g.real(20, 200);
      auto coefs = [&](std::vector<double> &v)
      {
         int len = g.irange(1, 5);
         for (int j = 0; j < len; ++j) { v.push_back(g.chance(1, 4) ? 0.0 : g.sym(3.0)); }
      };
      coefs(l.a);
      coefs(l.b);
      json own = json::object(), lib = json::object();
      param(g, own, lib, "T0", l.T0);
      param(g, own, lib, "T1", l.T1);
      auto pv = [&](const std::string &key, const std::vector<double> &v)
      {
         if (g.flip()) { lib[key] = v; }
         else
         {
            own[key] = v;
            if (g.flip()) { lib[key] = std::vector<double>{9.0, 8.0}; }
         }
      };
      pv(k + "_T0", l.a);
      pv(k + "_T1", l.b);
      mats[m]["core_loss"] = {{"CAL2", lib}};
      Comp c = component(g, next, m, "core_loss", own);
      l.poly = c.kind == 2;
      cs.push_back(c);
      laws.push_back(l);
   }
   C c(container(g, cs, g.flip()), mats);
   for (int i = 0; i <= n; ++i)
   {
      Law l;
      std::vector<int> at;
      if (i < n)
      {
         l = laws[i];
         at = cs[i].attrs;
      }
      else
      {
         l.poly = false;
         l.c = 1.0;
         at = {next + 1};
      }
      for (int a : at)
      {
         e.T.Attribute = a;
         double T = g.real(200, 500), f = g.logreal(1, 1e4), B = g.chance(1, 4) ? 0.0 : g.real(0, 3);
         if (l.poly) { g.label(B == 0 ? "zero-flux" : "flux"); }
         auto poly = [&](const std::vector<double> &p, int o, bool absv)
         {
            double r = 0;
            for (int j = o; j < static_cast<int>(p.size()); ++j)
            {
               double t = p[j];
               for (int q = 0; q < o; ++q) { t *= (j - q); }
               for (int q = 0; q < j - o; ++q) { t *= B; }
               r += absv ? std::fabs(t) : t;
            }
            return r;
         };
         double tau = l.poly ? (T - l.T0) / (l.T1 - l.T0) : 0, dT = l.poly ? 1 / (l.T1 - l.T0) : 0;
         auto mix = [&](int o) { return poly(l.a, o, false) + tau * (poly(l.b, o, false) - poly(l.a, o, false)); };
         auto dmix = [&](int o) { return dT * (poly(l.b, o, false) - poly(l.a, o, false)); };
         auto mag = [&](int o, double s) { return s * (poly(l.a, o, true) + (1 + std::fabs(tau)) * (poly(l.b, o, true) + poly(l.a, o, true))); };
         std::string w = str(k, " attribute ", a, " T=", T, " B=", B);
         auto chk = [&](double got, double want, double m, const char *key) { g.close(got, l.poly ? want : 0.0, l.poly ? 1e-12 * m : 0.0, key, w); };
         g.close(c.Eval(e.T, e.ip, T, f, B), l.poly ? mix(0) : l.c, 1e-12 * (l.poly ? mag(0, 1) : l.c), "core-loss-value", w);
         chk(c.EvalDerivS1(e.T, e.ip, T, f, B), dmix(0), mag(0, dT), "core-loss-derivative-T");
         chk(c.EvalDerivS2(e.T, e.ip, T, f, B), 0, 0, "core-loss-derivative-f");
         chk(c.EvalDerivS3(e.T, e.ip, T, f, B), mix(1), mag(1, 1), "core-loss-derivative-B");
         chk(c.Eval2ndDerivS1(e.T, e.ip, T, f, B), 0, 0, "core-loss-second-derivative-TT");
         chk(c.Eval2ndDerivS2(e.T, e.ip, T, f, B), 0, 0, "core-loss-second-derivative-ff");
         chk(c.Eval2ndDerivS3(e.T, e.ip, T, f, B), mix(2), mag(2, 1), "core-loss-second-derivative-BB");
         chk(c.Eval2ndDerivS1S2(e.T, e.ip, T, f, B), 0, 0, "core-loss-second-derivative-Tf");
         chk(c.Eval2ndDerivS1S3(e.T, e.ip, T, f, B), dmix(1), mag(1, dT), "core-loss-second-derivative-TB");
         chk(c.Eval2ndDerivS2S3(e.T, e.ip, T, f, B), 0, 0, "core-loss-second-derivative-fB");
         chk(c.Eval2ndDerivS2S1(e.T, e.ip, T, f, B), 0, 0, "core-loss-second-derivative-Tf");
         chk(c.Eval2ndDerivS3S1(e.T, e.ip, T, f, B), dmix(1), mag(1, dT), "core-loss-second-derivative-TB");
         chk(c.Eval2ndDerivS3S2(e.T, e.ip, T, f, B), 0, 0, "core-loss-second-derivative-fB");
      }
   }
}
void cal2_ke(Gen &g) { cal2<miso::CAL2keCoefficient>(g, "ke"); }
void cal2_kh(Gen &g) { cal2<miso::CAL2khCoefficient>(g, "kh"); }

// --------------------------------------------------- demagnetization margin
/// value, both first, both pure second and the mixed second derivative
struct Jet
{
   double v, b, t, bb, tt, bt, m;  // m: magnitude of the terms
};
Jet cst(double c) { return {c, 0, 0, 0, 0, 0, std::fabs(c)}; }
Jet operator+(Jet x, Jet y) { return {x.v + y.v, x.b + y.b, x.t + y.t, x.bb + y.bb, x.tt + y.tt, x.bt + y.bt, x.m + y.m}; }
Jet operator*(double s, Jet x) { return {s * x.v, s * x.b, s * x.t, s * x.bb, s * x.tt, s * x.bt, std::fabs(s) * x.m}; }
Jet operator-(Jet x, Jet y) { return x + (-1.0) * y; }
Jet operator*(Jet x, Jet y)
{
   return {x.v * y.v, x.b * y.v + x.v * y.b, x.t * y.v + x.v * y.t, x.bb * y.v + 2 * x.b * y.b + x.v * y.bb,
           x.tt * y.v + 2 * x.t * y.t + x.v * y.tt, x.bt * y.v + x.b * y.t + x.t * y.b + x.v * y.bt, x.m * y.m};
}
Jet inv(Jet y)
{
   double r = 1 / y.v;
   return {r, -r * r * y.b, -r * r * y.t, 2 * r * r * r * y.b * y.b - r * r * y.bb, 2 * r * r * r * y.t * y.t - r * r * y.tt,
           2 * r * r * r * y.b * y.t - r * r * y.bt, r * r * y.m};
}

void demag(Gen &g)
{
   Elem e(g, 2);
   int next = 1;
   json mats;
   const char *names[] = {"T0", "alpha_B_r", "B_r_T0", "alpha_H_ci", "H_ci_T0", "alpha_B_knee", "beta_B_knee", "alpha_H_knee", "beta_H_knee"};
   std::vector<Comp> cs;
   std::vector<std::array<double, 9>> par;
   int n = g.irange(1, 3);
   for (int i = 0; i < n; ++i)
   {
      std::string m = str("m", i);
      std::array<double, 9> p{g.real(280, 320), g.real(-0.3, 0.0), g.real(0.5, 2), g.real(-0.8, 0), -g.logreal(10, 1e6), g.real(0.0005, 0.01), -g.real(0.5, 4), g.sym(5e3), -g.logreal(10, 1e6)};
      json own = json::object(), lib = json::object();
      for (int j = 0; j < 9; ++j) { param(g, own, lib, names[j], p[j]); }
      mats[m] = {{"Demag", lib}};
      Comp c = component(g, next, m, "Demag", own);
      cs.push_back(c);
      if (c.kind != 2) { p.fill(NAN); }
      par.push_back(p);
   }
   miso::PMDemagConstraintCoefficient c(container(g, cs, g.flip()), mats);
   for (int i = 0; i <= n; ++i)
   {
      for (int a : i < n ? cs[i].attrs : std::vector<int>{next + 1})
      {
         e.T.Attribute = a;
         double B = g.sym(2.0), T = g.real(250, 450);
         Jet r = cst(0);
         double scale = 1;
         bool law = i < n && !std::isnan(par[i][0]);
         if (law)
         {
            auto &p = par[i];
            Jet jB{B, 1, 0, 0, 0, 0, std::fabs(B)}, jT{T, 0, 1, 0, 0, 0, T};
            Jet Bk = p[5] * jT + cst(p[6]), Hk = p[7] * jT + cst(p[8]);
            Jet Br = p[2] * (cst(1) + (p[1] / 100) * (jT - cst(p[0]))), Hc = p[4] * (cst(1) + (p[3] / 100) * (jT - cst(p[0])));
            Jet D = Bk - Br;
            if (std::fabs(Bk.v) < 0.05 || std::fabs(D.v) < 0.05) { continue; }
            r = (Hk * inv(D) - (Hk - Hc) * inv(Bk)) * jB - (Hc + Br * Hk * inv(D));
            double x = 1 / std::min({1.0, std::fabs(Bk.v), std::fabs(D.v)});
            scale = (Hk.m + Hc.m) * 30 * x * x * x * x;
         }
         g.label(law ? "law" : "default");
         std::string w = str("attribute ", a, " B=", B, " T=", T);
         auto chk = [&](double got, double want, double s, const char *key) { g.close(got, want, 1e-12 * (law ? scale * s + std::fabs(want) : 0), key, w); };
         chk(c.Eval(e.T, e.ip, B, T), r.v, 1, "demag-value");
         chk(c.EvalDerivS1(e.T, e.ip, B, T), r.b, 1, "demag-derivative-B");
         chk(c.EvalDerivS2(e.T, e.ip, B, T), r.t, 0.1, "demag-derivative-T");
         chk(c.Eval2ndDerivS1(e.T, e.ip, B, T), r.bb, 0, "demag-second-derivative-BB");
         chk(c.Eval2ndDerivS2(e.T, e.ip, B, T), r.tt, 0.01, "demag-second-derivative-TT");
         chk(c.Eval2ndDerivS1S2(e.T, e.ip, B, T), r.bt, 0.1, "demag-second-derivative-BT");
         chk(c.Eval2ndDerivS2S1(e.T, e.ip, B, T), r.bt, 0.1, "demag-second-derivative-BT");
      }
   }
}

// ------------------------------------------------------------------- sources
/// unit source direction at x; false where the law is not smooth nearby
bool source_dir(const std::string &s, const Vector &x, double slots, double len, double *J)
{
   J[0] = J[1] = J[2] = 0;
   if (s == "x") { J[0] = 1; }
   else if (s == "y") { J[1] = 1; }
   else if (s == "z") { J[2] = 1; }
   else if (s == "-z") { J[2] = -1; }
   else if (s == "box1") { J[2] = -6 * (x(1) - 0.5); }
   else if (s == "box2") { J[2] = 6 * (x(1) - 0.5); }
   else if (s == "ring")
   {
      double r = std::hypot(x(0), x(1));
      if (r < 0.05) { return false; }
      J[0] = -x(1) / r;
      J[1] = x(0) / r;
   }
   else if (s == "team13")
   {
      // counter-clockwise around a square of side 0.15 with rounded corners
      const double h = 0.075;
      double dx = std::fabs(x(0)) <= h ? 0 : x(0) - std::copysign(h, x(0)), dy = std::fabs(x(1)) <= h ? 0 : x(1) - std::copysign(h, x(1));
      if (std::fabs(std::fabs(x(0)) - h) < 1e-3 || std::fabs(std::fabs(x(1)) - h) < 1e-3 || std::fabs(x(0)) < 1e-3 || std::fabs(x(1)) < 1e-3) { return false; }
      if (std::fabs(x(1)) <= h) { dx = x(0); dy = 0; }  // side, or inside
      double r = std::hypot(dx, dy);
      J[0] = -dy / r;
      J[1] = dx / r;
   }
   else
   {
      int n = static_cast<int>(slots);
      double pitch = 2 * M_PI / n, th = std::atan2(x(1), x(0)), w = std::floor(th / pitch + 0.5), off = th - w * pitch;
      if (std::hypot(x(0), x(1)) < 0.05 || std::fabs(off) < 0.02 * pitch || std::fabs(off) > 0.48 * pitch || std::fabs(std::fabs(x(2)) - len / 2) < 1e-3) { return false; }
      double sg = s == "cwStator" ? -1 : 1;
      if (std::fabs(x(2)) < len / 2) { J[2] = sg * (off > 0 ? -1 : 1); }
      else
      {
         // end turn: tangent to the circle around the tooth's axis
         double ax[3] = {std::cos(w * pitch), std::sin(w * pitch), 0}, r[3] = {x(0), x(1), x(2) - std::copysign(len / 2, x(2))};
         double c[3] = {r[1] * ax[2] - r[2] * ax[1], r[2] * ax[0] - r[0] * ax[2], r[0] * ax[1] - r[1] * ax[0]};
         double m = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
         if (m < 0.02) { return false; }
         for (int d = 0; d < 3; ++d) { J[d] = sg * c[d] / m; }
      }
   }
   return true;
}

/// groups of sources with a current density each, and the history of inputs
struct Groups
{
   struct Src
   {
      std::string group, source;
   };
   json opt;
   std::map<int, Src> at;
   std::map<std::string, double> cur, cache;
   double slots = 24, len = 0.345;
   Groups(Gen &g, const std::vector<std::string> &kinds)
   {
      int n = g.irange(1, 3), a = 1;
      for (int i = 0; i < n; ++i)
      {
         std::string name = str("g", i);
         cur[name] = 1.0;
         cache[name] = 0.0;
         opt[name] = json::object();
         int m = g.irange(1, 3);
         for (int k = 0; k < m; ++k)
         {
            std::string s = g.pick(kinds);
            if (opt[name].contains(s)) { continue; }
            int c = g.irange(1, 2);
            for (int j = 0; j < c; ++j)
            {
               opt[name][s].push_back(a);
               at[a] = {name, s};
               ++a;
            }
            g.label(s);
         }
      }
      g.nontrivial(n > 1);
   }
   template <typename C>
   void history(Gen &g, C &c)
   {
      int ops = g.irange(0, 5);
      for (int k = 0; k < ops; ++k)
      {
         int op = g.irange(0, 5);
         if (op == 0)
         {
            c.cacheCurrentDensity();
            cache = cur;
         }
         else if (op == 1)
         {
            c.zeroCurrentDensity();
            for (auto &[n, v] : cur) { v = 0; }
         }
         else if (op == 2)
         {
            c.resetCurrentDensityFromCache();
            cur = cache;
            g.label("reset");
         }
         else
         {
            MISOInputs in;
            bool changed = false;
            for (auto &[n, v] : cur)
            {
               if (g.flip())
               {
                  double x = g.chance(1, 4) ? v : g.sym(10.0);
                  in["current_density:" + n] = x;
                  if (x != v) { changed = true; }
                  v = x;
               }
            }
            if (g.chance(1, 4)) { in["current_density:other"] = g.sym(3.0); }
            if (g.chance(1, 4)) { in["unrelated"] = g.sym(3.0); }
            bool stator = false;
            for (auto &[a, s] : at) { stator = stator || s.source == "cwStator" || s.source == "ccwStator"; }
            if (stator && g.flip())
            {
               double x = g.irange(3, 48), y = g.real(0.1, 2.0);
               in["n_slots"] = x;
               in["stack_length"] = y;
               changed = changed || x != slots || y != len;
               slots = x;
               len = y;
               g.label("stator-inputs");
            }
            bool got = setInputs(c, in);
            g.check(got == changed, "inputs-changed-report", str("reported ", got));
         }
      }
   }
};

void current(Gen &g)
{
   Groups gr(g, {"x", "y", "z", "-z", "ring", "box1", "box2", "team13", "cwStator", "ccwStator"});
   miso::CurrentDensityCoefficient c(stack(), gr.opt, 3);
   g.check(c.GetVDim() == 3, "vdim");
   int rounds = g.irange(1, 3);
   for (int k = 0; k < rounds; ++k)
   {
      gr.history(g, c);
      for (auto &[a, s] : gr.at)
      {
         double centre[3] = {g.sym(0.4), g.sym(0.4), g.sym(0.6)};
         Elem e(g, 3, 0.02, centre);
         e.T.Attribute = a;
         Vector x = e.x(), v(3);
         double J[3], j = gr.cur.at(s.group);
         if (!source_dir(s.source, x, gr.slots, gr.len, J)) { continue; }
         v = 5.0;
         c.Eval(v, e.T, e.ip);
         for (int d = 0; d < 3; ++d)
         {
            g.close(v(d), j * J[d], 1e-10 * (1 + std::fabs(j)), str("current-", s.source), str("component ", d, " at ", x(0), ",", x(1), ",", x(2), " slots ", gr.slots, " length ", gr.len));
         }
         node_check(g, e, 3, [&](Vector &r) { c.Eval(r, e.T, e.ip); },
                    [&](const Vector &bar, DenseMatrix &P) { c.EvalRevDiff(bar, e.T, e.ip, P); }, "current-node-derivative");
      }
      Elem e(g, 3);
      e.T.Attribute = 40;
      Vector v(3);
      v = 5.0;
      c.Eval(v, e.T, e.ip);
      g.check(v(0) == 0 && v(1) == 0 && v(2) == 0, "current-elsewhere");
   }
}

void current2d(Gen &g)
{
   Groups gr(g, {"z", "-z", "box1", "box2"});
   miso::CurrentDensityCoefficient2D c(stack(), gr.opt);
   int rounds = g.irange(1, 3);
   for (int k = 0; k < rounds; ++k)
   {
      gr.history(g, c);
      for (auto &[a, s] : gr.at)
      {
         Elem e(g, 2);
         e.T.Attribute = a;
         Vector x = e.x();
         double J[3], j = gr.cur.at(s.group);
         source_dir(s.source, x, 0, 0, J);
         // the 2D unknown solves -div(nu grad A) = ..., so the source enters negated
         g.close(c.Eval(e.T, e.ip), -j * J[2], 1e-11 * (1 + std::fabs(j * J[2])), str("current-2d-", s.source));
         node_check(g, e, 1, [&](Vector &r) { r(0) = c.Eval(e.T, e.ip); },
                    [&](const Vector &bar, DenseMatrix &P) { c.EvalRevDiff(bar(0), e.T, e.ip, P); }, "current-2d-node-derivative");
      }
      Elem e(g, 2);
      e.T.Attribute = 40;
      g.check(c.Eval(e.T, e.ip) == 0, "current-2d-elsewhere");
   }
}

void magnet(Gen &g)
{
   int vdim = g.irange(2, 3);
   json opt, mats;
   struct M
   {
      std::string dir;
      double a, T0, B;
   };
   std::map<int, M> at;
   int n = g.irange(1, 2), attr = 1;
   for (int i = 0; i < n; ++i)
   {
      std::string name = str("mag", i);
      M m{"", -0.12, 293.15, 1.39};
      mats[name] = json::object();
      if (g.flip()) { mats[name]["alpha_B_r"] = m.a = g.sym(0.4); }
      if (g.flip()) { mats[name]["T_ref"] = m.T0 = g.real(250, 350); }
      if (g.flip()) { mats[name]["B_r_T_ref"] = m.B = g.real(0.2, 2); }
      opt[name] = json::object();
      std::vector<std::string> dirs{"north", "south", "cw", "ccw", "x", "y"};
      if (vdim == 3) { dirs.push_back("z"); }
      int k = g.irange(1, 4);
      for (int j = 0; j < k; ++j)
      {
         m.dir = g.pick(dirs);
         if (opt[name].contains(m.dir)) { continue; }
         int c = g.irange(1, 2);
         for (int q = 0; q < c; ++q)
         {
            opt[name][m.dir].push_back(attr);
            at[attr++] = m;
         }
         g.label(m.dir);
      }
   }
   g.nontrivial(at.size() > 1);
   miso::MagnetizationCoefficient c(stack(), opt, mats, vdim);
   g.check(c.GetVDim() == vdim, "vdim");
   for (auto &[a, m] : at)
   {
      Elem e(g, vdim, 0.3);
      e.T.Attribute = a;
      Vector x = e.x(), v(vdim), v0(vdim), dv(vdim);
      double r = std::hypot(x(0), x(1)), d[3] = {0, 0, 0}, T = g.real(200, 450);
      if (r < 0.2) { continue; }
      if (m.dir == "north") { d[0] = x(0) / r; d[1] = x(1) / r; }
      else if (m.dir == "south") { d[0] = -x(0) / r; d[1] = -x(1) / r; }
      else if (m.dir == "cw") { d[0] = -x(1) / r; d[1] = x(0) / r; }
      else if (m.dir == "ccw") { d[0] = x(1) / r; d[1] = -x(0) / r; }
      else { d[m.dir[0] - 'x'] = 1; }
      v = v0 = dv = 4.0;
      c.Eval(v, e.T, e.ip, T);
      c.Eval(v0, e.T, e.ip);
      c.EvalStateDeriv(dv, e.T, e.ip, T);
      double B = m.B * (1 + m.a / 100 * (T - m.T0)), B0 = m.B * (1 - m.a / 100 * m.T0), dB = m.B * m.a / 100;
      for (int i = 0; i < vdim; ++i)
      {
         g.close(v(i), B * d[i], 1e-11 * 20, "magnetization", str(m.dir, " component ", i));
         g.close(v0(i), B0 * d[i], 1e-11 * 20, "magnetization-no-state", str(m.dir, " component ", i));
         g.close(dv(i), dB * d[i], 1e-12, "magnetization-state-derivative", str(m.dir, " component ", i));
      }
      node_check(g, e, vdim, [&](Vector &q) { c.Eval(q, e.T, e.ip, T); },
                 [&](const Vector &bar, DenseMatrix &P) { c.EvalRevDiff(bar, e.T, e.ip, T, P); }, "magnetization-node-derivative");
   }
   Elem e(g, vdim);
   e.T.Attribute = 40;
   Vector v(vdim);
   v = 4.0;
   c.Eval(v, e.T, e.ip, 300.0);
   g.check(v.Normlinf() == 0, "magnetization-elsewhere");
   v = 4.0;
   c.EvalStateDeriv(v, e.T, e.ip, 300.0);
   g.check(v.Normlinf() == 0, "magnetization-elsewhere");
}
}  // namespace

int main(int argc, char **argv)
{
   stack();
   std::vector<Prop> props = {
       {"dispatch", dispatch, 6000, 400000},
       {"vector-dispatch", vdispatch, 6000, 400000},
       {"product", product, 2000, 150000},
       {"weights", weights, 3000, 200000},
       {"element-function", element_function, 1500, 100000},
       {"library", library, 600, 20000},
       {"temperature-laws", scalars, 3000, 200000},
       {"reluctivity", reluctivity, 3000, 200000},
       {"core-loss-ke", cal2_ke, 2000, 150000},
       {"core-loss-kh", cal2_kh, 2000, 150000},
       {"demagnetization", demag, 2500, 150000},
       {"current", current, 1500, 100000},
       {"current-2d", current2d, 1500, 100000},
       {"magnet", magnet, 1500, 100000},
   };
   Runner r("P16", props, "several regions or materials, or a law (not a default) in play");
   r.assumptions = {
       "the adept, tinyspline and MFEM additions MISO needs are stand-ins (shim/); splines have simple interior knots",
       "states at interior knots are skipped for the derivatives that jump there; BH curves start at H(0)=0",
       "points on the seams of the stator, ring and team13 sources are skipped",
   };
   return r.main(argc, argv);
}
