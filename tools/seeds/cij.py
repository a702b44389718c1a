id="P07-mixed-second-derivatives"; prop="P07"; file="src/physics/fluidflow/navier_stokes_fluxes.hpp"
edits=[("""                  u[i] * u[j] * vec[dim + 1] / 3.0);""","""                  u[i] * u[i] * vec[dim + 1] / 3.0);""")]
needs="a flow with a nonzero velocity along two different axes, and an entropy-variable derivative of the last variable across directions"
breaks="The mixed viscous coefficient matrices are no longer transposes of each other, so the viscous flux can create entropy."
srcs=[]
shim=["adept.h"]
demo=r'''
#include "mfem.hpp"
#include "adept.h"
#include "navier_stokes_fluxes.hpp"
#include <cmath>
#include <iostream>
// C_01 must be the transpose of C_10
int main()
{
   double q[4] = {1.2, 0.7, -0.4, 3.1};
   double A[4][4], B[4][4];
   for (int j = 0; j < 4; ++j)
   {
      double e[4] = {0, 0, 0, 0}, a[4] = {0, 0, 0, 0}, b[4] = {0, 0, 0, 0};
      e[j] = 1.0;
      miso::applyCijMatrix<double, 2>(0, 1, 0.3, 0.72, q, e, a);
      miso::applyCijMatrix<double, 2>(1, 0, 0.3, 0.72, q, e, b);
      for (int i = 0; i < 4; ++i) { A[i][j] = a[i]; B[i][j] = b[i]; }
   }
   double worst = 0;
   for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j) { worst = std::max(worst, std::fabs(A[i][j] - B[j][i])); }
   std::cout << "asymmetry " << worst << "\n";
   return worst > 1e-12;
}
'''
