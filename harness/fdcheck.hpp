// Directional derivatives against extrapolated finite differences
#ifndef VERIF_FDCHECK_HPP
#define VERIF_FDCHECK_HPP
#include "pbt.hpp"
#include "mfem.hpp"

namespace pbt
{
/// Central differences of F at u in direction v, Richardson-extrapolated from
/// steps h, h/2, h/4; err: how far the two extrapolations are apart; bend:
/// jump of the slope at u itself, invisible to central differences
template <typename F>
inline mfem::Vector fd_deriv(F f, const mfem::Vector &u, const mfem::Vector &v, double h, double &err, double &fmag, mfem::Vector *bend = nullptr)
{
   using mfem::Vector;
   Vector d[3], x(u), p, m, c;
   fmag = 0;
   if (bend)
   {
      f(x, c);
      bend->SetSize(c.Size());
      *bend = 0.0;
   }
   for (int k = 0; k < 3; ++k)
   {
      double s = h / (1 << k);
      x = u;
      x.Add(s, v);
      f(x, p);
      x = u;
      x.Add(-s, v);
      f(x, m);
      fmag = std::max({fmag, p.Normlinf(), m.Normlinf()});
      d[k].SetSize(p.Size());
      if (bend)
         for (int i = 0; i < p.Size(); ++i) { (*bend)(i) += (k == 0 ? -0.25 : k == 2 ? 1.0 : 0.0) * (p(i) - 2 * c(i) + m(i)) / s; }
      for (int i = 0; i < p.Size(); ++i) { d[k](i) = (p(i) - m(i)) / (2 * s); }
   }
   Vector r1(d[0].Size()), r2(d[0].Size());
   err = 0;
   for (int i = 0; i < r1.Size(); ++i)
   {
      r1(i) = (4 * d[1](i) - d[0](i)) / 3;
      r2(i) = (4 * d[2](i) - d[1](i)) / 3;
      double e = std::fabs(r1(i) - r2(i));
      if (!(e <= 1e300)) { e = 1e300; }
      err = std::max(err, e);
      r2(i) = (16 * r2(i) - r1(i)) / 15;
   }
   return r2;
}

/// checks that jv = F'(u) v.  h: step relative to the size of v; the check is
/// skipped (label "kink") where the differences do not converge, i.e. where F
/// is not smooth along the segment.
template <typename F>
inline bool fd_check(Gen &g, F f, const mfem::Vector &u, const mfem::Vector &v, const mfem::Vector &jv, double h,
                     const std::string &key, const std::string &msg = "", double rtol = 1e-6, double atol = 1e-15)
{
   double err, fmag;
   mfem::Vector bend, d = fd_deriv(f, u, v, h, err, fmag, &bend);
   double scale = std::max(d.Normlinf(), jv.Normlinf());
   if (!(scale <= 1e300)) { g.check(false, key, str("derivative not finite ", msg)); }
   double noise = 1e-13 * fmag / h;
   if (err > 1e-3 * scale + 100 * noise)
   {
      // one more try with a smaller step before giving up
      d = fd_deriv(f, u, v, h / 16, err, fmag, &bend);
      noise *= 16;
      if (err > 1e-3 * scale + 100 * noise)
      {
         g.label("kink");
         return false;
      }
   }
   double tol = rtol * scale + 20 * err + 100 * noise + atol;
   for (int i = 0; i < d.Size(); ++i)
   {
      if (!(std::fabs(d(i) - jv(i)) <= tol))
      {
         if (std::fabs(bend(i)) >= 0.25 * std::fabs(d(i) - jv(i)))
         {
            g.label("kink");
            return false;
         }
         g.check(false, key, str("entry ", i, " of ", d.Size(), ": finite differences ", fmt(d(i)), ", computed ", fmt(jv(i)),
                                 " (tolerance ", fmt(tol), ") ", msg));
      }
   }
   return true;
}
}  // namespace pbt
#endif
