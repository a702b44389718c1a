// Stand-in for the Adept automatic-differentiation library, written for the
// checks in /verif because Adept is not available in this sandbox.  It offers
// the part of Adept 2's interface that MISO uses, with the same semantics:
// statements are recorded on a tape in terms of gradient slots, slots are
// reused, `jacobian` is stored column major (dependents fastest).
#ifndef VERIF_ADEPT_SHIM
#define VERIF_ADEPT_SHIM

#include <cmath>
#include <cstddef>
#include <limits>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace adept
{
typedef double Real;

namespace internal
{
struct Tape
{
   struct Stmt
   {
      int lhs;
      int end;
   };
   std::vector<Stmt> stmts;
   std::vector<std::pair<int, double>> ops;
   std::vector<int> free_slots;
   int n_slots = 0;
   bool recording = false;
   std::vector<double> grad;
   bool grad_init = false;

   int alloc()
   {
      if (!free_slots.empty())
      {
         int s = free_slots.back();
         free_slots.pop_back();
         return s;
      }
      return n_slots++;
   }
   void release(int s) { free_slots.push_back(s); }
   void push(int lhs) { if (recording) stmts.push_back({lhs, int(ops.size())}); }
   void op(int rhs, double m) { if (recording) ops.emplace_back(rhs, m); }
   static Tape &get()
   {
      static Tape *t = new Tape;  // never destroyed: adoubles may outlive main
      return *t;
   }
   void reverse(std::vector<double> &g) const
   {
      for (int s = int(stmts.size()) - 1; s >= 0; --s)
      {
         double a = g[stmts[s].lhs];
         g[stmts[s].lhs] = 0.0;
         if (a == 0.0) continue;
         int b = s > 0 ? stmts[s - 1].end : 0;
         for (int k = b; k < stmts[s].end; ++k)
            g[ops[k].first] += ops[k].second * a;
      }
   }
   void forward(std::vector<double> &g) const
   {
      int b = 0;
      for (size_t s = 0; s < stmts.size(); ++s)
      {
         double a = 0.0;
         for (int k = b; k < stmts[s].end; ++k)
            a += ops[k].second * g[ops[k].first];
         b = stmts[s].end;
         g[stmts[s].lhs] = a;
      }
   }
};
}  // namespace internal

class adouble
{
public:
   adouble() : v_(0.0), s_(T().alloc()) { T().push(s_); }
   template <typename N, typename = std::enable_if_t<std::is_arithmetic_v<N>>>
   adouble(N x) : v_(double(x)), s_(T().alloc()) { T().push(s_); }
   adouble(const adouble &o) : v_(o.v_), s_(T().alloc())
   {
      T().op(o.s_, 1.0);
      T().push(s_);
   }
   ~adouble() { T().release(s_); }
   adouble &operator=(const adouble &o)
   {
      v_ = o.v_;
      T().op(o.s_, 1.0);
      T().push(s_);
      return *this;
   }
   template <typename N, typename = std::enable_if_t<std::is_arithmetic_v<N>>>
   adouble &operator=(N x)
   {
      v_ = double(x);
      T().push(s_);
      return *this;
   }
   // results of operations
   adouble(double v, const adouble &a, double da) : v_(v), s_(T().alloc())
   {
      T().op(a.s_, da);
      T().push(s_);
   }
   adouble(double v, const adouble &a, double da, const adouble &b, double db)
    : v_(v), s_(T().alloc())
   {
      T().op(a.s_, da);
      T().op(b.s_, db);
      T().push(s_);
   }
   double value() const { return v_; }
   // as in Adept: sets the value without recording
   void set_value(double x) { v_ = x; }
   int gradient_index() const { return s_; }
   void set_gradient(double g) const
   {
      Tape_init();
      T().grad[s_] = g;
   }
   double get_gradient() const
   {
      if (!T().grad_init || size_t(s_) >= T().grad.size())
      {
         throw std::runtime_error("adept: gradients not initialized");
      }
      return T().grad[s_];
   }
   void get_gradient(double &g) const { g = get_gradient(); }

   adouble &operator+=(const adouble &o) { return *this = adouble(v_ + o.v_, *this, 1.0, o, 1.0); }
   adouble &operator-=(const adouble &o) { return *this = adouble(v_ - o.v_, *this, 1.0, o, -1.0); }
   adouble &operator*=(const adouble &o) { return *this = adouble(v_ * o.v_, *this, o.v_, o, v_); }
   adouble &operator/=(const adouble &o)
   {
      return *this = adouble(v_ / o.v_, *this, 1.0 / o.v_, o, -v_ / (o.v_ * o.v_));
   }
   template <typename N, typename = std::enable_if_t<std::is_arithmetic_v<N>>>
   adouble &operator+=(N c) { return *this = adouble(v_ + c, *this, 1.0); }
   template <typename N, typename = std::enable_if_t<std::is_arithmetic_v<N>>>
   adouble &operator-=(N c) { return *this = adouble(v_ - c, *this, 1.0); }
   template <typename N, typename = std::enable_if_t<std::is_arithmetic_v<N>>>
   adouble &operator*=(N c) { return *this = adouble(v_ * c, *this, double(c)); }
   template <typename N, typename = std::enable_if_t<std::is_arithmetic_v<N>>>
   adouble &operator/=(N c) { return *this = adouble(v_ / c, *this, 1.0 / double(c)); }

private:
   static internal::Tape &T() { return internal::Tape::get(); }
   static void Tape_init()
   {
      if (!T().grad_init)
      {
         T().grad.assign(T().n_slots, 0.0);
         T().grad_init = true;
      }
      if (int(T().grad.size()) < T().n_slots) T().grad.resize(T().n_slots, 0.0);
   }
   double v_;
   int s_;
};

template <typename N>
using if_num = std::enable_if_t<std::is_arithmetic_v<N>, int>;

inline adouble operator+(const adouble &a) { return a; }
inline adouble operator-(const adouble &a) { return adouble(-a.value(), a, -1.0); }
inline adouble operator+(const adouble &a, const adouble &b) { return adouble(a.value() + b.value(), a, 1.0, b, 1.0); }
inline adouble operator-(const adouble &a, const adouble &b) { return adouble(a.value() - b.value(), a, 1.0, b, -1.0); }
inline adouble operator*(const adouble &a, const adouble &b) { return adouble(a.value() * b.value(), a, b.value(), b, a.value()); }
inline adouble operator/(const adouble &a, const adouble &b)
{
   double q = a.value() / b.value();
   return adouble(q, a, 1.0 / b.value(), b, -q / b.value());
}
template <typename N, if_num<N> = 0> adouble operator+(const adouble &a, N c) { return adouble(a.value() + c, a, 1.0); }
template <typename N, if_num<N> = 0> adouble operator+(N c, const adouble &a) { return adouble(c + a.value(), a, 1.0); }
template <typename N, if_num<N> = 0> adouble operator-(const adouble &a, N c) { return adouble(a.value() - c, a, 1.0); }
template <typename N, if_num<N> = 0> adouble operator-(N c, const adouble &a) { return adouble(c - a.value(), a, -1.0); }
template <typename N, if_num<N> = 0> adouble operator*(const adouble &a, N c) { return adouble(a.value() * c, a, double(c)); }
template <typename N, if_num<N> = 0> adouble operator*(N c, const adouble &a) { return adouble(c * a.value(), a, double(c)); }
template <typename N, if_num<N> = 0> adouble operator/(const adouble &a, N c) { return adouble(a.value() / c, a, 1.0 / double(c)); }
template <typename N, if_num<N> = 0> adouble operator/(N c, const adouble &a)
{
   double q = double(c) / a.value();
   return adouble(q, a, -q / a.value());
}

#define VERIF_ADEPT_CMP(OP)                                                                             \
   inline bool operator OP(const adouble &a, const adouble &b) { return a.value() OP b.value(); }       \
   template <typename N, if_num<N> = 0> bool operator OP(const adouble &a, N b) { return a.value() OP b; } \
   template <typename N, if_num<N> = 0> bool operator OP(N a, const adouble &b) { return a OP b.value(); }
VERIF_ADEPT_CMP(<)
VERIF_ADEPT_CMP(>)
VERIF_ADEPT_CMP(<=)
VERIF_ADEPT_CMP(>=)
VERIF_ADEPT_CMP(==)
VERIF_ADEPT_CMP(!=)
#undef VERIF_ADEPT_CMP

inline adouble sqrt(const adouble &a) { double r = std::sqrt(a.value()); return adouble(r, a, 0.5 / r); }
inline adouble exp(const adouble &a) { double r = std::exp(a.value()); return adouble(r, a, r); }
inline adouble log(const adouble &a) { return adouble(std::log(a.value()), a, 1.0 / a.value()); }
inline adouble log10(const adouble &a) { return adouble(std::log10(a.value()), a, 1.0 / (a.value() * std::log(10.0))); }
inline adouble sin(const adouble &a) { return adouble(std::sin(a.value()), a, std::cos(a.value())); }
inline adouble cos(const adouble &a) { return adouble(std::cos(a.value()), a, -std::sin(a.value())); }
inline adouble tan(const adouble &a) { double t = std::tan(a.value()); return adouble(t, a, 1.0 + t * t); }
inline adouble asin(const adouble &a) { return adouble(std::asin(a.value()), a, 1.0 / std::sqrt(1.0 - a.value() * a.value())); }
inline adouble acos(const adouble &a) { return adouble(std::acos(a.value()), a, -1.0 / std::sqrt(1.0 - a.value() * a.value())); }
inline adouble atan(const adouble &a) { return adouble(std::atan(a.value()), a, 1.0 / (1.0 + a.value() * a.value())); }
inline adouble sinh(const adouble &a) { return adouble(std::sinh(a.value()), a, std::cosh(a.value())); }
inline adouble cosh(const adouble &a) { return adouble(std::cosh(a.value()), a, std::sinh(a.value())); }
inline adouble tanh(const adouble &a) { double t = std::tanh(a.value()); return adouble(t, a, 1.0 - t * t); }
inline adouble abs(const adouble &a) { return adouble(std::fabs(a.value()), a, a.value() > 0 ? 1.0 : (a.value() < 0 ? -1.0 : 0.0)); }
inline adouble fabs(const adouble &a) { return abs(a); }
inline adouble round(const adouble &a) { return adouble(std::round(a.value())); }
inline adouble floor(const adouble &a) { return adouble(std::floor(a.value())); }
inline adouble ceil(const adouble &a) { return adouble(std::ceil(a.value())); }
inline adouble atan2(const adouble &y, const adouble &x)
{
   double d = x.value() * x.value() + y.value() * y.value();
   return adouble(std::atan2(y.value(), x.value()), y, x.value() / d, x, -y.value() / d);
}
inline adouble pow(const adouble &a, const adouble &b)
{
   double r = std::pow(a.value(), b.value());
   return adouble(r, a, b.value() * std::pow(a.value(), b.value() - 1.0), b, a.value() > 0 ? r * std::log(a.value()) : 0.0);
}
template <typename N, if_num<N> = 0> adouble pow(const adouble &a, N b)
{
   double p = double(b);
   return adouble(std::pow(a.value(), p), a, p == 0.0 ? 0.0 : p * std::pow(a.value(), p - 1.0));
}
template <typename N, if_num<N> = 0> adouble pow(N a, const adouble &b)
{
   double r = std::pow(double(a), b.value());
   return adouble(r, b, r * std::log(double(a)));
}
inline adouble max(const adouble &a, const adouble &b) { return a.value() < b.value() ? b : a; }
inline adouble min(const adouble &a, const adouble &b) { return b.value() < a.value() ? b : a; }
template <typename N, if_num<N> = 0> adouble max(const adouble &a, N b) { return a.value() < b ? adouble(b) : a; }
template <typename N, if_num<N> = 0> adouble max(N a, const adouble &b) { return a < b.value() ? b : adouble(a); }
template <typename N, if_num<N> = 0> adouble min(const adouble &a, N b) { return b < a.value() ? adouble(b) : a; }
template <typename N, if_num<N> = 0> adouble min(N a, const adouble &b) { return b.value() < a ? b : adouble(a); }
inline bool isfinite(const adouble &a) { return std::isfinite(a.value()); }
inline bool isnan(const adouble &a) { return std::isnan(a.value()); }

/// Sets values without recording (as Adept does).
inline void set_values(adouble *a, std::size_t n, const double *data)
{
   for (std::size_t i = 0; i < n; ++i) a[i].set_value(data[i]);
}
inline void get_values(const adouble *a, std::size_t n, double *data)
{
   for (std::size_t i = 0; i < n; ++i) data[i] = a[i].value();
}
inline void set_gradients(adouble *a, std::size_t n, const double *data)
{
   for (std::size_t i = 0; i < n; ++i) a[i].set_gradient(data[i]);
}
inline void get_gradients(const adouble *a, std::size_t n, double *data)
{
   for (std::size_t i = 0; i < n; ++i) data[i] = a[i].get_gradient();
}
inline double value(const adouble &a) { return a.value(); }
inline double value(double a) { return a; }

/// All Stack objects share one tape, which is what Adept's rule of one active
/// stack per thread comes to.
class Stack
{
public:
   Stack(bool = true) { T().recording = true; }
   ~Stack() = default;
   Stack(const Stack &) = delete;
   Stack &operator=(const Stack &) = delete;
   void new_recording()
   {
      T().stmts.clear();
      T().ops.clear();
      T().grad_init = false;
      T().recording = true;
      indep_.clear();
      dep_.clear();
   }
   bool pause_recording() { T().recording = false; return true; }
   bool continue_recording() { T().recording = true; return true; }
   bool is_recording() const { return T().recording; }
   void independent(const adouble &a) { indep_.push_back(a.gradient_index()); }
   void dependent(const adouble &a) { dep_.push_back(a.gradient_index()); }
   void independent(const adouble *a, std::size_t n)
   {
      for (std::size_t i = 0; i < n; ++i) independent(a[i]);
   }
   void dependent(const adouble *a, std::size_t n)
   {
      for (std::size_t i = 0; i < n; ++i) dependent(a[i]);
   }
   void clear_independents() { indep_.clear(); }
   void clear_dependents() { dep_.clear(); }
   void compute_adjoint()
   {
      if (!T().grad_init) throw std::runtime_error("adept: gradients not initialized");
      if (int(T().grad.size()) < T().n_slots) T().grad.resize(T().n_slots, 0.0);
      T().reverse(T().grad);
   }
   void reverse() { compute_adjoint(); }
   void compute_tangent_linear()
   {
      if (!T().grad_init) throw std::runtime_error("adept: gradients not initialized");
      if (int(T().grad.size()) < T().n_slots) T().grad.resize(T().n_slots, 0.0);
      T().forward(T().grad);
   }
   void forward() { compute_tangent_linear(); }
   void jacobian(double *jac) { jacobian_reverse(jac); }
   void jacobian_reverse(double *jac)
   {
      check();
      std::vector<double> g;
      std::size_t nd = dep_.size();
      for (std::size_t i = 0; i < nd; ++i)
      {
         g.assign(T().n_slots, 0.0);
         g[dep_[i]] = 1.0;
         T().reverse(g);
         for (std::size_t j = 0; j < indep_.size(); ++j) jac[i + nd * j] = g[indep_[j]];
      }
   }
   void jacobian_forward(double *jac)
   {
      check();
      std::vector<double> g;
      std::size_t nd = dep_.size();
      for (std::size_t j = 0; j < indep_.size(); ++j)
      {
         g.assign(T().n_slots, 0.0);
         g[indep_[j]] = 1.0;
         T().forward(g);
         for (std::size_t i = 0; i < nd; ++i) jac[i + nd * j] = g[dep_[i]];
      }
   }

private:
   static internal::Tape &T() { return internal::Tape::get(); }
   void check() const
   {
      if (indep_.empty() || dep_.empty())
         throw std::runtime_error("adept: dependents or independents not identified");
   }
   std::vector<int> indep_, dep_;
};

}  // namespace adept

#endif
