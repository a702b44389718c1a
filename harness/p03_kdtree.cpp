// P03: kd-tree nearest neighbour == brute force
#include "pbt.hpp"
#include <stdexcept>
#include "kdtree.hpp"

using namespace pbt;
namespace
{
template <size_t D>
void nn(Gen &g)
{
   int n = g.irange(1, 60);
   if (g.chance(1, 12)) { n = g.irange(60, 600); }
   int mode = g.irange(0, 3);   // coarse lattice (ties), uniform, collinear, clustered
   std::vector<std::array<double, D>> pts(n);
   double scale = g.pick({1.0, 1e-3, 1e3, 1e-8});
   auto coord = [&](int d) -> double
   {
      if (mode == 0) { return static_cast<double>(g.irange(-3, 3)); }
      if (mode == 2 && d > 0) { return 0.5; }
      if (mode == 3) { return g.sym(1.0) + 10.0 * g.irange(0, 1); }
      return g.sym(1.0);
   };
   for (auto &p : pts)
   {
      for (size_t d = 0; d < D; ++d) { p[d] = scale * coord(static_cast<int>(d)); }
      if (g.chance(1, 10)) { p = pts[g.draw(n - 1)]; }   // duplicates
   }
   // labels need not be the insertion order
   std::vector<int> id(n);
   int stride = g.irange(1, 7), base = g.irange(0, 100);
   for (int i = 0; i < n; ++i) { id[i] = base + stride * i; }

   miso::kdtree<double, D> tree;
   bool presize = g.flip();
   if (presize) { tree.set_size(g.flip() ? n : n / 2); }
   for (int i = 0; i < n; ++i)
   {
      mfem::Vector x(D);
      for (size_t d = 0; d < D; ++d) { x(d) = pts[i][d]; }
      tree.add_node(x, id[i]);
   }
   tree.finalize();
   g.check(!tree.empty(), "empty");
   int nq = g.irange(1, 12);
   for (int q = 0; q < nq; ++q)
   {
      mfem::Vector x(D);
      int kind = g.irange(0, 2);
      for (size_t d = 0; d < D; ++d)
      {
         if (kind == 0) { x(d) = scale * coord(static_cast<int>(d)); }
         else if (kind == 1) { x(d) = scale * g.sym(20.0); }
      }
      if (kind == 2)
      {
         auto &p = pts[g.draw(n - 1)];
         for (size_t d = 0; d < D; ++d) { x(d) = p[d]; }
      }
      int got = tree.nearest(x);
      double best = std::numeric_limits<double>::infinity();
      auto dist2 = [&](int i)
      {
         double s = 0;
         for (size_t d = 0; d < D; ++d) { double e = pts[i][d] - x(d); s += e * e; }
         return s;
      };
      for (int i = 0; i < n; ++i) { best = std::min(best, dist2(i)); }
      int idx = (got - base) / stride;
      g.check(got >= base && (got - base) % stride == 0 && idx < n, "index", str("returned index ", got, " was never added"));
      double mine = dist2(idx);
      if (q == 0) { g.note(str("D=", D, " n=", n, " mode=", mode, " scale=", scale, " query=", vec_str(x, D), " -> ", got)); }
      g.check(mine <= best * (1 + 1e-14), "not-nearest",
              str("query ", vec_str(x, D), " returned point at distance ", std::sqrt(mine), ", nearest is at ", std::sqrt(best)));
      g.check(std::fabs(tree.distance() - std::sqrt(best)) <= 1e-14 * std::sqrt(best) + 1e-300, "distance",
              str("distance() ", tree.distance(), " want ", std::sqrt(best)));
      g.check(tree.visited() >= 1 && tree.visited() <= static_cast<size_t>(n), "visited");
   }
   g.label(mode == 0 ? "lattice" : mode == 1 ? "uniform" : mode == 2 ? "collinear" : "clustered");
   g.nontrivial(n >= 4);
}

void ctors(Gen &g)
{
   // iterator constructor: same distance as brute force (indices are unset)
   using tree_t = miso::kdtree<double, 3>;
   int n = g.irange(1, 40);
   std::vector<miso::point<double, 3>> pts;
   for (int i = 0; i < n; ++i)
   {
      pts.emplace_back(std::array<double, 3>{g.sym(1), g.sym(1), g.sym(1)});
   }
   tree_t a(pts.begin(), pts.end());
   int k = 0;
   tree_t b([&]() { return pts[k++]; }, n);
   tree_t e;
   bool threw = false;
   miso::point<double, 3> q(std::array<double, 3>{g.sym(2), g.sym(2), g.sym(2)});
   try { e.nearest(q); } catch (const std::logic_error &) { threw = true; }
   g.check(threw && e.empty(), "empty-tree");
   double best = 1e300;
   for (auto &p : pts) { best = std::min(best, p.distance(q)); }
   a.nearest(q);
   b.nearest(q);
   g.check(a.distance() == std::sqrt(best), "iterator-ctor");
   g.check(b.distance() == std::sqrt(best), "function-ctor");
   g.note(str("n=", n, " q=", q));
   g.nontrivial(n >= 4);
}

// nodes added to a tree that has been built and queried already, in several
// rounds: each finalize makes all of them known, whatever was asked before
template <size_t D>
void grow(Gen &g)
{
   miso::kdtree<double, D> tree;
   std::vector<std::array<double, D>> pts;
   int rounds = g.irange(2, 4);
   bool lattice = g.flip();
   auto coord = [&] { return lattice ? static_cast<double>(g.irange(-3, 3)) : g.sym(2.0); };
   for (int r = 0; r < rounds; ++r)
   {
      int add = g.irange(r == 0 ? 1 : 0, 25);
      if (g.chance(1, 3)) { tree.set_size(pts.size() + add); }
      for (int i = 0; i < add; ++i)
      {
         std::array<double, D> p;
         mfem::Vector x(D);
         for (size_t d = 0; d < D; ++d) { p[d] = x(d) = coord(); }
         tree.add_node(x, static_cast<int>(pts.size()));
         pts.push_back(p);
      }
      tree.finalize();
      int nq = g.irange(1, 4);
      for (int q = 0; q < nq; ++q)
      {
         mfem::Vector x(D);
         for (size_t d = 0; d < D; ++d) { x(d) = coord(); }
         int got = tree.nearest(x);
         auto dist2 = [&](int i)
         {
            double s = 0;
            for (size_t d = 0; d < D; ++d) { double e = pts[i][d] - x(d); s += e * e; }
            return s;
         };
         double best = std::numeric_limits<double>::infinity();
         for (size_t i = 0; i < pts.size(); ++i) { best = std::min(best, dist2(static_cast<int>(i))); }
         g.check(got >= 0 && got < static_cast<int>(pts.size()), "grow-index", str(got));
         g.check(dist2(got) <= best * (1 + 1e-14), "grow-not-nearest",
                 str("round ", r, " distance ", std::sqrt(dist2(got)), " nearest ", std::sqrt(best)));
         g.check(std::fabs(tree.distance() - std::sqrt(best)) <= 1e-14 * std::sqrt(best) + 1e-300, "grow-distance");
      }
   }
   g.note(str("D=", D, " n=", pts.size(), " rounds=", rounds));
   g.nontrivial(pts.size() >= 4);
}
}  // namespace

int main(int argc, char **argv)
{
   Runner r("P03",
            {{"nn1d", nn<1>, 2000, 20000}, {"nn2d", nn<2>, 5000, 80000}, {"nn3d", nn<3>, 5000, 80000}, {"ctors", ctors, 1500, 10000},
             {"grow2d", grow<2>, 1500, 20000}, {"grow3d", grow<3>, 1500, 20000}},
            "random point sets (lattice with ties, uniform, collinear, clustered, duplicates; 1-600 points, 1/2/3-D, several scales) with several queries "
            "each, against an exhaustive search; non-trivial: at least 4 points");
   return r.main(argc, argv);
}
