id="P01-ascii-precision"; prop="P01"; file="src/common/data_logging.hpp"
edits=[("      file << std::setprecision(18);\n      file << time","      file << std::setprecision(std::numeric_limits<double>::digits10 + 1);\n      file << time")]
needs="a stored value that needs 17 significant digits to round-trip (about half of all doubles), and an exact comparison"
breaks="The ASCII logger writes 16 significant digits, so reading a field back gives a neighbouring double for many values."
srcs=[]
demo=r'''
#include <limits>
#include <iomanip>
#include "data_logging.hpp"
int main()
{
   mfem::Vector v(400), w;
   double x = 0.1;
   for (int i = 0; i < v.Size(); ++i) { x = std::fmod(x * 3.999 * (1 + x), 7.0) + 0.01; v(i) = x; }
   miso::ASCIILogger::saveState(v, "demo", 3, 0.25, 0);
   double t;
   miso::ASCIILogger::readState("demo", 3, 0, t, w);
   int bad = 0;
   for (int i = 0; i < v.Size(); ++i) { bad += v(i) != w(i); }
   std::cout << bad << " values differ\n";
   return bad != 0;
}
'''
