id="P02-stale-previous-step"; prop="P02"; file="src/common/linesearch.cpp"
edits=[("      alpha_tmp = std::min(alpha_tmp, alpha2 * rho_hi);\n      alpha2 = std::max(alpha_tmp, alpha2 * rho_lo);\n",
"      alpha_tmp = std::min(alpha_tmp, alpha1 * rho_hi);\n      alpha2 = std::max(alpha_tmp, alpha * rho_lo);\n")]
needs="two or more backtracking iterations with an acceptable step below rho_lo times the initial step"
breaks="The lower clamp uses the initial step instead of the current one: from the second iteration the search can stall at rho_lo*alpha (no shrink) and give up although acceptable steps exist."
srcs=["common/linesearch.cpp"]
demo=r'''
#include "mfem.hpp"
#include "linesearch.hpp"
#include <vector>
int main()
{
   miso::BacktrackingLineSearch ls;
   std::vector<double> tr;
   // quartic wall: the acceptable steps are below about 0.005
   auto phi = [&](double a) { tr.push_back(a); return 1.0 - a + 40000.0 * a * a * a; };
   double s = ls.search(phi, 1.0, -1.0, 1.0);
   std::cout << "step " << s << "\n";
   for (size_t i = 1; i < tr.size(); ++i)
   {
      if (tr[i] > ls.rho_hi * tr[i - 1] * (1 + 1e-12)) { std::cout << "trial step not reduced\n"; return 1; }
   }
   return !(s > 0);
}
'''
