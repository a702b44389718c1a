id="P08-inexact-rhs"; prop="P08"; file="src/common/inexact_newton.cpp"
edits=[('''      add(x, -s, c, x_new);
      oper->Mult(x_new, r);
      if (have_b)
      {
         r -= b;
      }
      err_new = Norm(r);

      // Check''','''      add(x, -s, c, x_new);
      oper->Mult(x_new, r);
      err_new = Norm(r);

      // Check''')]
needs="an inexact Newton solve with a right-hand side that has to backtrack"
breaks="After the first backtrack the trial residual forgets the right-hand side, so steps that increase the residual norm are accepted (or good ones refused)."
srcs=["common/inexact_newton.cpp","utils/utils.cpp"]
demo=r'''
#include "mfem.hpp"
#include "inexact_newton.hpp"
#include <cmath>
struct F : public mfem::Operator
{
   mutable mfem::DenseMatrix J;
   mutable double worst = 0;
   F() : Operator(1), J(1) {}
   void Mult(const mfem::Vector &x, mfem::Vector &y) const override { y(0) = std::atan(x(0)) + 2.0; }
   mfem::Operator &GetGradient(const mfem::Vector &x) const override
   {
      worst = std::max(worst, std::fabs(std::atan(x(0))));   // residual norm at each iterate
      J(0, 0) = 1.0 / (1.0 + x(0) * x(0));
      return J;
   }
};
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   F f;
   mfem::DenseMatrixInverse inv;
   mfem::InexactNewton newton(MPI_COMM_SELF);
   newton.SetSolver(inv);
   newton.SetOperator(f);
   newton.SetRelTol(1e-10); newton.SetAbsTol(1e-12); newton.SetMaxIter(40); newton.SetPrintLevel(-1);
   newton.iterative_mode = true;
   mfem::Vector x(1), b(1);
   b = 2.0; x = 3.0;
   double r0 = std::fabs(std::atan(3.0));
   newton.Mult(b, x);
   std::cout << "x " << x(0) << " worst " << f.worst << " start " << r0 << "\n";
   bool ok = f.worst <= r0 && std::fabs(std::atan(x(0))) < 1e-8;
   MPI_Finalize();
   return !ok;
}
'''
shim=["adept.h"]
