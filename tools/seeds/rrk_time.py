id="P10-midpoint-time"; prop="P10"; file="src/common/mfem_extensions.cpp"
edits=[('''   x.Add(gamma * dt, k);
   t += gamma * dt;
}

ExplicitRRKSolver::ExplicitRRKSolver(''','''   x.Add(gamma * dt, k);
   t += dt;
}

ExplicitRRKSolver::ExplicitRRKSolver(''')]
needs="an entropy-relaxed implicit midpoint step whose relaxation parameter differs from one (nonlinear entropy)"
breaks="The relaxed step advances the state by gamma*dt but the time by dt, so the time and the state drift apart."
srcs=["common/mfem_extensions.cpp","common/matrix_operators.cpp","common/linesearch.cpp","common/relaxed_newton.cpp","utils/utils.cpp","physics/miso_input.cpp"]
demo=r'''
#include "mfem.hpp"
#include "adept.h"
#include "mfem_extensions.hpp"
#include "evolver.hpp"
#include <cmath>
// u' = -u, entropy u^2/2 + u^4/4
struct Op : public miso::EntropyConstrainedOperator
{
   Op() : EntropyConstrainedOperator(1, 0.0) {}
   double Entropy(const mfem::Vector &x) override { return 0.5*x(0)*x(0) + 0.25*std::pow(x(0), 4); }
   double EntropyChange(double, const mfem::Vector &x, const mfem::Vector &k) override { return -(x(0) + std::pow(x(0), 3)) * k(0); }
   void ImplicitSolve(const double dt, const mfem::Vector &x, mfem::Vector &k) override { k(0) = -x(0) / (1 + dt); }
};
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   Op op;
   miso::RRKImplicitMidpointSolver ode(nullptr);
   ode.Init(op);
   mfem::Vector x(1); x = 1.0;
   double t = 0, dt = 0.2;
   ode.Step(x, t, dt);
   double k = -1.0 / 1.1;
   std::cout << "x " << x(0) << " t " << t << "\n";
   bool ok = std::fabs((x(0) - 1.0) / k - t) < 1e-12 && std::fabs(t - dt) > 1e-8;
   MPI_Finalize();
   return !ok;
}
'''
shim=["adept.h"]
