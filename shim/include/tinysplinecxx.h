// Stand-in for tinyspline's C++ interface (B-spline evaluation by de Boor's
// algorithm), written for the checks in /verif: the library is not available
// in this sandbox.  Only what MISO uses.
#ifndef VERIF_TINYSPLINE_SHIM
#define VERIF_TINYSPLINE_SHIM

#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>

namespace tinyspline
{
typedef double real;
using std_real_vector = std::vector<real>;

class DeBoorNet
{
public:
   explicit DeBoorNet(std::vector<real> r) : r_(std::move(r)) { }
   std::vector<real> result() const { return r_; }

private:
   std::vector<real> r_;
};

class BSpline
{
public:
   BSpline(std::size_t n, std::size_t dim = 2, std::size_t degree = 3)
    : dim_(dim), deg_(degree), cps_(n * dim, 0.0), knots_(n + degree + 1)
   {
      if (n <= degree) throw std::runtime_error("tinyspline: degree >= num control points");
      // clamped, equally spaced on [0,1]
      for (std::size_t i = 0; i < knots_.size(); ++i)
      {
         if (i <= degree) knots_[i] = 0.0;
         else if (i >= n) knots_[i] = 1.0;
         else knots_[i] = double(i - degree) / double(n - degree);
      }
   }
   std::size_t degree() const { return deg_; }
   std::size_t dimension() const { return dim_; }
   std::vector<real> knots() const { return knots_; }
   std::vector<real> controlPoints() const { return cps_; }
   void setControlPoints(const std::vector<real> &c)
   {
      if (c.size() != cps_.size()) throw std::runtime_error("tinyspline: wrong number of control points");
      cps_ = c;
   }
   void setKnots(const std::vector<real> &k)
   {
      if (k.size() != knots_.size()) throw std::runtime_error("tinyspline: wrong number of knots");
      for (std::size_t i = 1; i < k.size(); ++i)
         if (k[i] < k[i - 1]) throw std::runtime_error("tinyspline: knots decreasing");
      knots_ = k;
   }
   DeBoorNet eval(real u) const
   {
      std::size_t n = cps_.size() / dim_;
      real lo = knots_[deg_], hi = knots_[n];
      const real eps = 1e-5;  // TS_KNOT_EPSILON
      if (u < lo - eps || u > hi + eps) throw std::runtime_error("tinyspline: knot outside the domain");
      if (u < lo) u = lo;
      if (u > hi) u = hi;
      std::size_t k = deg_;
      while (k + 1 < n && u >= knots_[k + 1]) ++k;
      std::vector<real> d((deg_ + 1) * dim_);
      for (std::size_t j = 0; j <= deg_; ++j)
         for (std::size_t c = 0; c < dim_; ++c) d[j * dim_ + c] = cps_[(k - deg_ + j) * dim_ + c];
      for (std::size_t r = 1; r <= deg_; ++r)
         for (std::size_t j = deg_; j >= r; --j)
         {
            real a0 = knots_[k - deg_ + j], a1 = knots_[k + 1 + j - r];
            real a = a1 > a0 ? (u - a0) / (a1 - a0) : 0.0;
            for (std::size_t c = 0; c < dim_; ++c)
               d[j * dim_ + c] = (1 - a) * d[(j - 1) * dim_ + c] + a * d[j * dim_ + c];
         }
      return DeBoorNet(std::vector<real>(d.begin() + deg_ * dim_, d.end()));
   }
   DeBoorNet operator()(real u) const { return eval(u); }
   BSpline derive(std::size_t order = 1) const
   {
      BSpline s(*this);
      for (std::size_t o = 0; o < order; ++o) s = s.derive1();
      return s;
   }

private:
   BSpline derive1() const
   {
      std::size_t n = cps_.size() / dim_;
      if (deg_ == 0) throw std::runtime_error("tinyspline: cannot derive degree 0");
      BSpline s(n - 1, dim_, deg_ - 1);
      for (std::size_t i = 0; i + 1 < n; ++i)
      {
         real dk = knots_[i + deg_ + 1] - knots_[i + 1];
         for (std::size_t c = 0; c < dim_; ++c)
            s.cps_[i * dim_ + c] = dk > 0 ? double(deg_) * (cps_[(i + 1) * dim_ + c] - cps_[i * dim_ + c]) / dk : 0.0;
      }
      s.knots_.assign(knots_.begin() + 1, knots_.end() - 1);
      return s;
   }
   std::size_t dim_, deg_;
   std::vector<real> cps_, knots_;
};

}  // namespace tinyspline

#endif
