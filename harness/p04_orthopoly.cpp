// P04: orthogonal polynomials, Lobatto quadrature, Vandermonde matrices
#include "pbt.hpp"
#include "mfem.hpp"
#include "orthopoly.hpp"

using namespace pbt;
using namespace mfem;
namespace
{
long double binomg(long double a, int k)   // generalised binomial C(a, k)
{
   long double r = 1;
   for (int i = 0; i < k; ++i) { r *= (a - i) / (i + 1); }
   return r;
}
long double jacobi_ref(long double x, double al, double be, int n)
{
   long double s = 0, a = al, b = be;
   for (int k = 0; k <= n; ++k)
   {
      s += binomg(n + a, n - k) * binomg(n + b, k) * powl((x - 1) / 2, k) * powl((x + 1) / 2, n - k);
   }
   // h_n = 2^{a+b+1}/(2n+a+b+1) * G(n+a+1)G(n+b+1)/(n! G(n+a+b+1)); for n = 0
   // (2n+a+b+1) G(n+a+b+1) = G(a+b+2)
   long double h = n == 0 ? powl(2, a + b + 1) * tgammal(a + 1) * tgammal(b + 1) / tgammal(a + b + 2)
                          : powl(2, a + b + 1) / (2 * n + a + b + 1) * tgammal(n + a + 1) * tgammal(n + b + 1) / (tgammal(n + 1.0L) * tgammal(n + a + b + 1));
   return s / sqrtl(h);
}

void jacobi(Gen &g)
{
   double al, be;
   int kind = g.irange(0, 2);
   if (kind == 0) { al = g.irange(0, 9); be = 0; }
   else if (kind == 1) { al = g.irange(0, 5); be = g.irange(0, 5); }
   else
   {
      al = g.real(-0.9, 4);
      be = g.real(-0.9, 4);
      if (std::fabs(al + be + 1) < 0.05) { g.discard(); }
   }
   int deg = g.irange(0, 10), m = g.irange(1, 8);
   Vector x(m), p(m);
   for (int i = 0; i < m; ++i) { x(i) = g.chance(1, 8) ? (g.flip() ? 1.0 : -1.0) : g.real(-1, 1); }
   Vector x0(x);
   miso::jacobiPoly(x, al, be, deg, p);
   g.note(str("alpha=", al, " beta=", be, " degree=", deg, " x=", vec_str(x, m)));
   g.label(be == al ? "symmetric" : be == 0 ? "beta=0" : "general");
   g.nontrivial(deg >= 1 && m >= 2);
   g.check(p.Size() == m, "size");
   for (int i = 0; i < m; ++i)
   {
      long double w = jacobi_ref(x(i), al, be, deg), sc = fabsl(w) + 1;
      // the reference sum itself cancels: allow for it
      long double big = fabsl(jacobi_ref(1, al, be, deg)) + fabsl(jacobi_ref(-1, al, be, deg));
      g.check(fabsl(p(i) - w) <= 1e-11L * (sc + big), "value",
              str("P_", deg, "^(", al, ",", be, ")(", x(i), ") = ", p(i), " want ", (double)w));
      g.check(x(i) == x0(i), "input-modified");
   }
}

void lobatto(Gen &g)
{
   int n = g.irange(2, 30);
   Vector x(n), w(n);
   miso::getLobattoQuadrature(n, x, w);
   g.note(str("n=", n));
   g.check(std::fabs(x(0) + 1) <= 1e-14 && std::fabs(x(n - 1) - 1) <= 1e-14, "endpoints");
   for (int i = 0; i < n; ++i)
   {
      g.check(w(i) > 0, "positive-weight", str("w(", i, ")=", w(i)));
      if (i > 0) { g.check(x(i) > x(i - 1), "ordering"); }
      g.close(x(i), -x(n - 1 - i), 1e-13, "symmetric-nodes");
      g.close(w(i), w(n - 1 - i), 1e-12, "symmetric-weights");
   }
   // a random polynomial of degree <= 2n-3, in the Legendre basis
   int d = g.irange(0, 2 * n - 3);
   std::vector<double> c = g.syms(d + 1, 1.0);
   long double s = 0;
   for (int i = 0; i < n; ++i)
   {
      long double v = 0, p0 = 1, p1 = x(i);
      for (int k = 0; k <= d; ++k)
      {
         v += c[k] * p0;
         long double p2 = ((2 * k + 3) * (long double)x(i) * p1 - (k + 1) * p0) / (k + 2);
         p0 = p1;
         p1 = p2;
      }
      s += w(i) * v;
   }
   g.close(static_cast<double>(s), 2 * c[0], 1e-12 * n, "exactness", str("degree ", d, " with ", n, " nodes"));
   g.nontrivial(d >= n);
}

// random polynomial of total degree <= deg in monomials about the origin
struct Poly
{
   int dim, deg;
   std::vector<std::array<int, 3>> e;
   std::vector<double> c;
   Poly(Gen &g, int dim, int deg) : dim(dim), deg(deg)
   {
      for (int i = 0; i <= deg; ++i)
      {
         for (int j = 0; j <= (dim > 1 ? deg - i : 0); ++j)
         {
            for (int k = 0; k <= (dim > 2 ? deg - i - j : 0); ++k)
            {
               e.push_back({i, j, k});
               c.push_back(g.sym(1.0));
            }
         }
      }
   }
   double operator()(double x, double y = 0, double z = 0) const
   {
      double s = 0;
      for (size_t q = 0; q < e.size(); ++q) { s += c[q] * std::pow(x, e[q][0]) * std::pow(y, e[q][1]) * std::pow(z, e[q][2]); }
      return s;
   }
};

// the columns of the Vandermonde matrix are an L2-orthonormal basis of the
// polynomials of total degree <= d on the reference simplex with vertices
// (-1,..), (1,-1,..), ...
void vandermonde(Gen &g)
{
   int dim = g.irange(1, 3), deg = g.irange(0, dim == 3 ? 7 : 9);
   const IntegrationRule &ir = IntRules.Get(dim == 1 ? Geometry::SEGMENT : dim == 2 ? Geometry::TRIANGLE : Geometry::TETRAHEDRON, 2 * deg + 1);
   int nq = ir.GetNPoints(), m = g.irange(1, 6), n = nq + m;
   Vector x(n), y(n), z(n);
   for (int i = 0; i < nq; ++i)
   {
      x(i) = 2 * ir.IntPoint(i).x - 1;
      y(i) = 2 * ir.IntPoint(i).y - 1;
      z(i) = 2 * ir.IntPoint(i).z - 1;
   }
   for (int i = nq; i < n; ++i)   // extra points: interior, faces, edges, vertices
   {
      double b[4], s = 0;
      for (int k = 0; k <= dim; ++k) { b[k] = g.chance(1, 3) ? 0.0 : g.chance(1, 4) ? g.logreal(1e-10, 1e-3) : g.real(0.001, 1); s += b[k]; }
      if (s == 0) { b[dim] = 1; s = 1; g.label("vertex"); }
      for (int k = 0; k <= dim; ++k) { b[k] /= s; }
      x(i) = 2 * b[0] - 1;
      y(i) = 2 * b[1] - 1;
      z(i) = 2 * b[2] - 1;
      if (b[dim > 1 ? 1 : 0] == 1 || (dim == 3 && b[2] == 1)) { g.label("degenerate-vertex"); }
   }
   DenseMatrix V;
   int N;
   if (dim == 1) { miso::getVandermondeForSeg(x, deg, V); N = deg + 1; }
   else if (dim == 2) { miso::getVandermondeForTri(x, y, deg, V); N = (deg + 1) * (deg + 2) / 2; }
   else { miso::getVandermondeForTet(x, y, z, deg, V); N = (deg + 1) * (deg + 2) * (deg + 3) / 6; }
   g.note(str("dim=", dim, " degree=", deg, " extra point (", x(nq), ",", y(nq), ",", z(nq), ")"));
   g.label(str("dim", dim));
   g.check(V.Height() == n && V.Width() == N, "shape", str(V.Height(), "x", V.Width()));
   double jac = std::pow(2.0, dim);
   for (int a = 0; a < N; ++a)
   {
      for (int b = 0; b <= a; ++b)
      {
         double s = 0;
         for (int i = 0; i < nq; ++i) { s += jac * ir.IntPoint(i).weight * V(i, a) * V(i, b); }
         g.close(s, a == b ? 1.0 : 0.0, 1e-10, "orthonormal", str("columns ", a, ",", b));
      }
   }
   // projecting any polynomial of degree <= deg onto the columns reproduces it
   // at points that were not used for the projection
   Poly p(g, dim, deg);
   std::vector<double> coef(N, 0.0);
   for (int a = 0; a < N; ++a)
   {
      for (int i = 0; i < nq; ++i) { coef[a] += jac * ir.IntPoint(i).weight * V(i, a) * p(x(i), y(i), z(i)); }
   }
   double mag = 0;
   for (double c : p.c) { mag += std::fabs(c); }
   for (int i = nq; i < n; ++i)
   {
      double s = 0, sc = 0;
      for (int a = 0; a < N; ++a) { s += coef[a] * V(i, a); sc += std::fabs(coef[a] * V(i, a)); }
      g.close(s, p(x(i), y(i), z(i)), 1e-11 * (sc + mag + 1), "reproduction", str("at (", x(i), ",", y(i), ",", z(i), ")"));
   }
   // hierarchical: the leading columns are the basis of the lower degree
   if (deg > 0)
   {
      int dl = g.irange(0, deg - 1);
      DenseMatrix W;
      if (dim == 1) { miso::getVandermondeForSeg(x, dl, W); }
      else if (dim == 2) { miso::getVandermondeForTri(x, y, dl, W); }
      else { miso::getVandermondeForTet(x, y, z, dl, W); }
      for (int a = 0; a < W.Width(); ++a)
      {
         for (int i = 0; i < n; ++i) { g.close(W(i, a), V(i, a), 1e-13 * (1 + std::fabs(V(i, a))), "hierarchical"); }
      }
   }
   g.nontrivial(deg >= 1);
}
}  // namespace

int main(int argc, char **argv)
{
   Runner r("P04", {{"jacobi", jacobi, 20000, 200000}, {"lobatto", lobatto, 3000, 20000}, {"vandermonde", vandermonde, 3000, 30000}},
            "random (alpha, beta, degree) and points in [-1,1] incl. end points; random node counts and polynomials; random points of the reference simplices "
            "incl. collapsed vertices; non-trivial: degree >= 1 (jacobi, vandermonde), integrand degree >= n (lobatto)");
   return r.main(argc, argv);
}
