id="P04-jacobi-unequal-weights"; prop="P04"; file="src/common/orthopoly.cpp"
edits=[("      double bnew = -((alpha * alpha) - (beta * beta)) / (h1 * (h1 + 2));","      double bnew = -((alpha - beta) * (alpha - beta)) / (h1 * (h1 + 2));")]
needs="degree two or more with both weight exponents different and beta nonzero"
breaks="The three-term recurrence uses (alpha-beta)^2 for alpha^2-beta^2: the polynomials are no longer orthogonal when both exponents are nonzero and differ (beta = 0 and alpha = beta are unaffected)."
srcs=["common/orthopoly.cpp","utils/utils.cpp"]
demo=r'''
#include "mfem.hpp"
#include "orthopoly.hpp"
#include <cmath>
int main()
{
   // inner product of P_2 and P_0, P_1 with alpha=1, beta=2 by a fine Gauss rule
   mfem::IntegrationRules rules;
   const auto &ir = rules.Get(mfem::Geometry::SEGMENT, 20);
   const int n = ir.GetNPoints();
   mfem::Vector x(n), p0(n), p1(n), p2(n);
   for (int i = 0; i < n; ++i) { x(i) = 2 * ir.IntPoint(i).x - 1; }
   miso::jacobiPoly(x, 1.0, 2.0, 0, p0);
   miso::jacobiPoly(x, 1.0, 2.0, 1, p1);
   miso::jacobiPoly(x, 1.0, 2.0, 2, p2);
   double a = 0, b = 0, c = 0;
   for (int i = 0; i < n; ++i)
   {
      double w = 2 * ir.IntPoint(i).weight * (1 - x(i)) * (1 + x(i)) * (1 + x(i));
      a += w * p2(i) * p0(i); b += w * p2(i) * p1(i); c += w * p2(i) * p2(i);
   }
   std::cout << a << " " << b << " " << c << "\n";
   return !(std::fabs(a) < 1e-10 && std::fabs(b) < 1e-10 && std::fabs(c - 1) < 1e-10);
}
'''
shim=["adept.h"]
