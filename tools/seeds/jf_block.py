id="P09-diagonal-block-scale"; prop="P09"; file="src/common/matrix_operators.cpp"
edits=[('''      *dense_jac *= scale;
      if (block_op)
      {
         Operator &exp_block = block_op->GetBlock(i, i);
         DenseMatrix *dense_exp = dynamic_cast<DenseMatrix *>(&exp_block);
         *dense_jac += *dense_exp;
      }
''','''      if (block_op)
      {
         Operator &exp_block = block_op->GetBlock(i, i);
         DenseMatrix *dense_exp = dynamic_cast<DenseMatrix *>(&exp_block);
         *dense_jac += *dense_exp;
      }
      *dense_jac *= scale;
''')]
needs="a Jacobian-free operator with an explicit block part and a scaling other than one, whose diagonal block is a dense matrix"
breaks="The time-step scaling is also applied to the explicit (mass) block, so the block preconditioner is built from the wrong diagonal block."
srcs=["common/matrix_operators.cpp","utils/utils.cpp","physics/miso_input.cpp"]
demo=r'''
#include "mfem.hpp"
#include "adept.h"
#include "matrix_operators.hpp"
#include "miso_residual.hpp"
using namespace miso;
struct Res { mfem::DenseMatrix J; };
int getSize(const Res &) { return 2; }
mfem::Operator &getJacobian(Res &r, const MISOInputs &, const std::string &) { return r.J; }
void setInputs(Res &, const MISOInputs &) {}
void setOptions(Res &, const nlohmann::json &) {}
MPI_Comm getMPIComm(const Res &) { return MPI_COMM_SELF; }
void evaluate(Res &, const MISOInputs &, mfem::Vector &r) { r = 0.0; }
mfem::Operator &getJacobianBlock(Res &r, const MISOInputs &, int)
{
   r.J.SetSize(2); r.J(0,0) = 3; r.J(0,1) = 1; r.J(1,0) = -1; r.J(1,1) = 2;
   return r.J;
}
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   MISOResidual res{Res()};
   mfem::DenseMatrix M(2); M = 0.0; M(0,0) = 5; M(1,1) = 7;
   mfem::Array<int> off(2); off[0] = 0; off[1] = 2;
   mfem::BlockOperator bm(off); bm.SetBlock(0, 0, &M);
   JacobianFree jf(res, bm); jf.setScaling(0.5);
   mfem::Vector u(2); u = 0.0; jf.setState(u);
   auto &b = dynamic_cast<mfem::DenseMatrix &>(jf.getDiagonalBlock(0));
   std::cout << b(0,0) << " " << b(0,1) << " " << b(1,0) << " " << b(1,1) << "\n";
   bool ok = b(0,0) == 6.5 && b(0,1) == 0.5 && b(1,0) == -0.5 && b(1,1) == 8.0;
   MPI_Finalize();
   return !ok;
}
'''
shim=["adept.h"]
