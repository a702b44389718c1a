// the operators given to MISOEvolver
#ifndef VERIF_EVOLVERGEN_HPP
#define VERIF_EVOLVERGEN_HPP
#include "evolver.hpp"
#include "miso_load.hpp"
#include <memory>

namespace evolvergen
{
using namespace mfem;
// kappa grad u . grad v + (a u + b u^3) v, with its energy and gradient
struct Cubic : NonlinearFormIntegrator
{
   double kap, a, b;
   Cubic(double k, double a_, double b_) : kap(k), a(a_), b(b_) {}
   const IntegrationRule &rule(const FiniteElement &el, ElementTransformation &T) const
   {
      return IntRules.Get(el.GetGeomType(), 4 * el.GetOrder() + T.OrderW());
   }
   void AssembleElementVector(const FiniteElement &el, ElementTransformation &T, const Vector &u, Vector &r) override
   {
      int n = el.GetDof();
      Vector N(n), g(T.GetSpaceDim());
      DenseMatrix D(n, T.GetSpaceDim());
      r.SetSize(n);
      r = 0.0;
      auto &ir = rule(el, T);
      for (int i = 0; i < ir.GetNPoints(); ++i)
      {
         T.SetIntPoint(&ir.IntPoint(i));
         el.CalcPhysShape(T, N);
         el.CalcPhysDShape(T, D);
         double v = N * u, w = T.Weight() * ir.IntPoint(i).weight;
         D.MultTranspose(u, g);
         r.Add(w * (a * v + b * v * v * v), N);
         D.AddMult_a(w * kap, g, r);
      }
   }
   void AssembleElementGrad(const FiniteElement &el, ElementTransformation &T, const Vector &u, DenseMatrix &J) override
   {
      int n = el.GetDof();
      Vector N(n);
      DenseMatrix D(n, T.GetSpaceDim());
      J.SetSize(n);
      J = 0.0;
      auto &ir = rule(el, T);
      for (int i = 0; i < ir.GetNPoints(); ++i)
      {
         T.SetIntPoint(&ir.IntPoint(i));
         el.CalcPhysShape(T, N);
         el.CalcPhysDShape(T, D);
         double v = N * u, w = T.Weight() * ir.IntPoint(i).weight;
         AddMult_a_VVt(w * (a + 3 * b * v * v), N, J);
         AddMult_a_AAt(w * kap, D, J);
      }
   }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &u) override
   {
      int n = el.GetDof();
      Vector N(n), g(T.GetSpaceDim());
      DenseMatrix D(n, T.GetSpaceDim());
      double e = 0;
      auto &ir = rule(el, T);
      for (int i = 0; i < ir.GetNPoints(); ++i)
      {
         T.SetIntPoint(&ir.IntPoint(i));
         el.CalcPhysShape(T, N);
         el.CalcPhysDShape(T, D);
         double v = N * u, w = T.Weight() * ir.IntPoint(i).weight;
         D.MultTranspose(u, g);
         e += w * (a * v * v / 2 + b * v * v * v * v / 4 + kap * (g * g) / 2);
      }
      return e;
   }
};
// a load whose value is looked up when it is added
struct Load
{
   std::shared_ptr<Vector> l;
};
int getSize(const Load &x) { return x.l->Size(); }
void setInputs(Load &, const miso::MISOInputs &) {}
void setOptions(Load &, const nlohmann::json &) {}
void addLoad(Load &x, Vector &tv) { tv += *x.l; }
double jacobianVectorProduct(Load &, const Vector &, const std::string &) { return 0.0; }
void jacobianVectorProduct(Load &, const Vector &, const std::string &, Vector &) {}
double vectorJacobianProduct(Load &, const Vector &, const std::string &) { return 0.0; }
void vectorJacobianProduct(Load &, const Vector &, const std::string &, Vector &) {}
}  // namespace evolvergen
#endif
