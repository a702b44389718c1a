// Elements and test coefficients shared by the electromagnetic checks
#ifndef VERIF_COEFFGEN_HPP
#define VERIF_COEFFGEN_HPP
#include <memory>
#include <vector>
#include "mfem.hpp"
#include "pbt.hpp"

namespace coeffgen
{
using namespace mfem;
using pbt::Gen;

/// one stand-alone, possibly curved, simplex with its own node coordinates
struct Elem
{
   std::unique_ptr<FiniteElement> fe;
   IsoparametricTransformation T;
   IntegrationPoint ip;
   int dim;

   Elem(Gen &g, int dim, double size = 1.0, const double *centre = nullptr) : dim(dim)
   {
      int order = g.chance(1, 3) ? 2 : 1;
      g.label(order == 2 ? "curved" : "straight");
      if (dim == 2) { fe = std::make_unique<H1_TriangleElement>(order); }
      else { fe = std::make_unique<H1_TetrahedronElement>(order); }
      int n = fe->GetDof();
      DenseMatrix P(dim, n), A(dim);
      double c[3];
      for (int d = 0; d < dim; ++d) { c[d] = centre ? centre[d] : g.sym(2.0); }
      double s = size * g.real(0.3, 1.0);
      for (int i = 0; i < dim; ++i)
         for (int j = 0; j < dim; ++j) { A(i, j) = s * ((i == j ? 1.0 : 0.0) + g.sym(0.25)); }
      for (int k = 0; k < n; ++k)
      {
         double r[3] = {0, 0, 0};
         fe->GetNodes().IntPoint(k).Get(r, dim);
         for (int i = 0; i < dim; ++i)
         {
            P(i, k) = c[i];
            for (int j = 0; j < dim; ++j) { P(i, k) += A(i, j) * (r[j] - 0.3); }
            if (order == 2) { P(i, k) += s * g.sym(0.06); }
         }
      }
      T.SetFE(fe.get());
      T.SetPointMat(P);
      T.Attribute = 1;
      T.ElementNo = 0;
      point(g);
   }
   void point(Gen &g)
   {
      double a = g.real(0.05, 0.6), b = g.real(0.05, 0.35), c = g.real(0.05, 0.35);
      if (dim == 2) { ip.Set2(a, b * (1 - a)); }
      else { ip.Set3(a, b * (1 - a), c * (1 - a - b * (1 - a))); }
      T.SetIntPoint(&ip);
   }
   Vector x()
   {
      Vector v(dim);
      T.Transform(ip, v);
      return v;
   }
   Vector nodes()
   {
      DenseMatrix &P = T.GetPointMat();
      Vector v(P.Height() * P.Width());
      for (int i = 0; i < v.Size(); ++i) { v(i) = P.GetData()[i]; }
      return v;
   }
   void set_nodes(const Vector &v)
   {
      DenseMatrix P(dim, fe->GetDof());
      for (int i = 0; i < v.Size(); ++i) { P.GetData()[i] = v(i); }
      T.SetPointMat(P);
      T.SetIntPoint(&ip);
   }
   Vector node_direction(Gen &g)
   {
      Vector v(dim * fe->GetDof());
      double s = T.GetPointMat().FNorm() > 0 ? 1.0 : 1.0;
      for (int i = 0; i < v.Size(); ++i) { v(i) = s * g.sym(1.0); }
      return v;
   }
};

/// smooth space- and state-dependent scalar: (c0 + c.x + c1 x0^2)(1 + k s + m s^2)
struct Poly
{
   double c0, c[3], c2, k, m;
   Poly() : c0(1), c{0, 0, 0}, c2(0), k(0), m(0) { }
   Poly(Gen &g, bool state) : c0(g.sym(2.0)), c{g.sym(1.0), g.sym(1.0), g.sym(1.0)}, c2(g.sym(0.5)), k(state ? g.sym(1.0) : 0), m(state ? g.sym(0.5) : 0) { }
   double space(const Vector &x) const
   {
      double v = c0 + c2 * x(0) * x(0);
      for (int d = 0; d < x.Size(); ++d) { v += c[d] * x(d); }
      return v;
   }
   void grad(const Vector &x, double bar, Vector &xb) const
   {
      for (int d = 0; d < x.Size(); ++d) { xb(d) += bar * c[d]; }
      xb(0) += bar * 2 * c2 * x(0);
   }
   double fac(double s) const { return 1 + k * s + m * s * s; }
   double dfac(double s) const { return k + 2 * m * s; }
   double operator()(const Vector &x, double s) const { return space(x) * fac(s); }
   double ds(const Vector &x, double s) const { return space(x) * dfac(s); }
   double d2s(const Vector &x, double) const { return space(x) * 2 * m; }
};
inline Vector at(ElementTransformation &T, const IntegrationPoint &ip)
{
   Vector x(T.GetSpaceDim());
   T.Transform(ip, x);
   return x;
}
inline void back(ElementTransformation &T, const IntegrationPoint &ip, const Vector &xb, DenseMatrix &Pb)
{
   dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, xb, Pb);
}
}  // namespace coeffgen
#endif
