id="P01-name-collision"; prop="P01"; file="src/common/data_logging.hpp"
edits=[('''      auto filename = prefix + "/" + fieldname + "_" +
                      std::to_string(timestep) + "_" + std::to_string(rank);
      const double *data = state.GetData();
      int size = state.Size();
      std::ofstream file(filename, std::ios::out | std::ios::binary);''','''      auto filename = prefix + "/" + fieldname + "_" +
                      std::to_string(timestep) + std::to_string(rank);
      const double *data = state.GetData();
      int size = state.Size();
      std::ofstream file(filename, std::ios::out | std::ios::binary);'''),
('''      auto filename = prefix + "/" + fieldname + "_" +
                      std::to_string(timestep) + "_" + std::to_string(rank);
      std::ifstream infile(filename, std::ios::binary);''','''      auto filename = prefix + "/" + fieldname + "_" +
                      std::to_string(timestep) + std::to_string(rank);
      std::ifstream infile(filename, std::ios::binary);''')]
needs="a save at step 1 rank 12 followed by one at step 11 rank 2 of the same field with the binary logger (two sites changed consistently)"
breaks="Step and rank run together in the file name, so different (step, rank) pairs share one file and loads return another step's data."
srcs=[]
demo=r'''
#include "mfem.hpp"
#include "data_logging.hpp"
int main()
{
   mfem::Vector a(3), b(2), c;
   a = 1.5; b = -2.0;
   miso::BinaryLogger::saveState(a, "u", 1, 0.1, 12);
   miso::BinaryLogger::saveState(b, "u", 11, 0.2, 2);
   double t = 0.0;
   miso::BinaryLogger::readState("u", 1, 12, t, c);
   std::cout << t << " " << c.Size() << "\n";
   return !(t == 0.1 && c.Size() == 3 && c(0) == 1.5);
}
'''
