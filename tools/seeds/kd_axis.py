id="P03-prune-distance"; prop="P03"; file="src/utils/kdtree.hpp"
edits=[("      if (dx * dx >= best_dist_)\n","      if (dx > 0 ? dx * dx >= best_dist_ : -dx >= best_dist_)\n")]
needs="a query to the right of a splitting plane at distance between d^2 and d of the best point so far, with the nearest point on the left, and coordinates below one"
breaks="For subtrees to the left the pruning compares a distance with a squared distance, so the nearest neighbour is missed on clouds smaller than one unit."
srcs=[]
demo=r'''
#include <array>
#include <vector>
#include <stdexcept>
#include "mfem.hpp"
#include "kdtree.hpp"
int main()
{
   unsigned s = 12345;
   auto rnd = [&]() { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; };
   int bad = 0;
   for (int c = 0; c < 50; ++c)
   {
      miso::kdtree<double, 2> t;
      std::vector<std::array<double, 2>> p(40);
      t.set_size(p.size());
      for (size_t i = 0; i < p.size(); ++i)
      {
         p[i] = {0.1 * rnd(), 0.1 * rnd()};
         mfem::Vector v(p[i].data(), 2);
         t.add_node(v, i);
      }
      t.finalize();
      for (int q = 0; q < 20; ++q)
      {
         std::array<double, 2> x = {0.1 * rnd(), 0.1 * rnd()};
         mfem::Vector xv(x.data(), 2);
         t.nearest(xv);
         double best = 1e9;
         for (auto &a : p) { best = std::min(best, std::hypot(a[0] - x[0], a[1] - x[1])); }
         bad += t.distance() > best * (1 + 1e-12);
      }
   }
   std::cout << bad << " wrong neighbours\n";
   return bad != 0;
}
'''
