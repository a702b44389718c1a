id="P06-logavg-series"; prop="P06"; file="src/physics/fluidflow/euler_fluxes.hpp"
edits=[("      F = 1.0 + u * (1. / 3. + u * (1. / 5. + u * (1. / 7. + u / 9.)));","      F = 1.0 + u * (1. / 3. + u * (1. / 7. + u * (1. / 9. + u / 11.)));")]
needs="two states a few percent apart, where the logarithmic mean switches to its series"
breaks="One series coefficient of the logarithmic mean is dropped: relative error up to 6e-8 for nearly equal states, so the Ismail-Roe flux no longer conserves entropy there."
srcs=[]
demo=r'''
#include "mfem.hpp"
#include "euler_fluxes.hpp"
#include <cmath>
int main()
{
   double worst = 0.0;
   for (int i = 1; i <= 5; ++i)
   {
      double a = 1.0, b = 1.0 + 0.02 * i;
      double m = miso::logavg(a, b);
      double ref = double(((long double)b - a) / std::log((long double)b / a));
      worst = std::max(worst, std::fabs(m / ref - 1.0));
   }
   std::cout << "largest relative error " << worst << "\n";
   return worst > 1e-11;
}
'''
shim=["adept.h"]
