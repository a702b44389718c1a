// Dense reference for projections of edge element fields on gradients, and for
// the load of divergence-free currents
#ifndef VERIF_PROJGEN_HPP
#define VERIF_PROJGEN_HPP
#include "femgen.hpp"
#include "current_source_functions.hpp"

namespace projgen
{
using namespace femgen;

inline DenseMatrix dense(const SparseMatrix &A)
{
   DenseMatrix D(A.Height(), A.Width());
   D = 0.0;
   for (int i = 0; i < A.Height(); ++i)
      for (int k = A.GetI()[i]; k < A.GetI()[i + 1]; ++k) { D(i, A.GetJ()[k]) += A.GetData()[k]; }
   return D;
}
/// x := A^-1 b for a symmetric positive definite A
inline Vector spd_solve(DenseMatrix A, Vector b, bool &ok)
{
   int n = b.Size();
   ok = true;
   for (int k = 0; k < n; ++k)
   {
      double d = A(k, k);
      for (int m = 0; m < k; ++m) { d -= A(k, m) * A(k, m); }
      if (!(d > 1e-10 * std::abs(A(k, k))))
      {
         ok = false;
         return b;
      }
      d = A(k, k) = std::sqrt(d);
      for (int i = k + 1; i < n; ++i)
      {
         double s = A(i, k);
         for (int m = 0; m < k; ++m) { s -= A(i, m) * A(k, m); }
         A(i, k) = s / d;
      }
   }
   for (int k = 0; k < n; ++k)
   {
      for (int m = 0; m < k; ++m) { b(k) -= A(k, m) * b(m); }
      b(k) /= A(k, k);
   }
   for (int k = n - 1; k >= 0; --k)
   {
      for (int m = k + 1; m < n; ++m) { b(k) -= A(m, k) * b(m); }
      b(k) /= A(k, k);
   }
   return b;
}

/// the projection on gradients of potentials that vanish on the boundary,
/// orthogonal in the sense of the mass matrix under the given rule
struct Projection
{
   FiniteElementSpace h1, nd;
   const IntegrationRule *ir;
   DenseMatrix G;       // gradients of potentials inside
   DenseMatrix curl;    // of fields
   Array<int> inside;
   bool ok = true;

   Projection(Mesh &m, const FiniteElementCollection &h1c, const FiniteElementCollection &ndc, int order) : h1(&m, &h1c), nd(&m, &ndc)
   {
      ir = &IntRules.Get(h1.GetFE(0)->GetGeomType(), order);
      DiscreteLinearOperator grad(&h1, &nd);
      grad.AddDomainInterpolator(new GradientInterpolator);
      grad.Assemble();
      grad.Finalize();
      DenseMatrix all = dense(grad.SpMat());
      Array<int> ess, bdr(m.bdr_attributes.Max());
      bdr = 1;
      h1.GetEssentialTrueDofs(bdr, ess);
      std::vector<bool> e(h1.GetVSize(), false);
      for (int i : ess) { e[i] = true; }
      for (int i = 0; i < h1.GetVSize(); ++i)
         if (!e[i]) { inside.Append(i); }
      G.SetSize(nd.GetVSize(), inside.Size());
      for (int j = 0; j < inside.Size(); ++j)
         for (int i = 0; i < nd.GetVSize(); ++i) { G(i, j) = all(i, inside[j]); }
   }
   DenseMatrix mass(const IntegrationRule *rule)
   {
      BilinearForm b(&nd);
      auto *I = new mfem::VectorFEMassIntegrator;
      if (rule) { I->SetIntRule(rule); }
      b.AddDomainIntegrator(I);
      b.Assemble(0);
      b.Finalize(0);
      return dense(b.SpMat());
   }
   /// the square of the curl
   double curl2(const Vector &y)
   {
      BilinearForm b(&nd);
      b.AddDomainIntegrator(new mfem::CurlCurlIntegrator);
      b.Assemble(0);
      b.Finalize(0);
      return b.InnerProduct(y, y);
   }
   Vector apply(const Vector &x)
   {
      Vector y(nd.GetVSize());
      y = 0.0;
      if (inside.Size() == 0) { return y; }
      DenseMatrix M = mass(ir), MG(M.Height(), G.Width()), A(G.Width());
      Multiply_(M, G, MG);
      MultAtB(G, MG, A);
      Vector mx(M.Height()), b(G.Width());
      M.Mult(x, mx);
      G.MultTranspose(mx, b);
      bool good;
      Vector psi = spd_solve(A, b, good);
      ok = ok && good;
      G.Mult(psi, y);
      return y;
   }
   /// the transpose of the projection
   Vector transpose(const Vector &w)
   {
      Vector y(nd.GetVSize());
      y = 0.0;
      if (inside.Size() == 0) { return y; }
      DenseMatrix M = mass(ir), MG(M.Height(), G.Width()), A(G.Width());
      Multiply_(M, G, MG);
      MultAtB(G, MG, A);
      Vector b(G.Width());
      G.MultTranspose(w, b);
      bool good;
      Vector psi = spd_solve(A, b, good);
      ok = ok && good;
      MG.Mult(psi, y);
      return y;
   }
   static void Multiply_(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &C)
   {
      C.SetSize(A.Height(), B.Width());
      C = 0.0;
      for (int j = 0; j < B.Width(); ++j)
         for (int k = 0; k < A.Width(); ++k)
         {
            double f = B(k, j);
            if (f != 0)
               for (int i = 0; i < A.Height(); ++i) { C(i, j) += A(i, k) * f; }
         }
   }
};

/// the load of currents: M (1 - P) M^-1 J, taken from the residual
struct CurrentRef
{
   H1_FECollection h1c;
   Projection p;
   miso::CurrentDensityCoefficient current;
   CurrentRef(adept::Stack &stack, Mesh &m, const FiniteElementCollection &ndc, int degree, const nlohmann::json &opt)
       : h1c(degree, m.Dimension()), p(m, h1c, ndc, order(m, degree)), current(stack, opt)
   {
   }
   static int order(Mesh &m, int degree) { return m.GetElementTransformation(0)->OrderW() + 2 * degree; }
   Vector value(const miso::MISOInputs &in)
   {
      setInputs(current, in);
      LinearForm J(&p.nd);
      J.AddDomainIntegrator(new mfem::VectorFEDomainLFIntegrator(current));
      J.Assemble();
      DenseMatrix M = p.mass(nullptr);
      bool good;
      Vector j = spd_solve(M, J, good);
      p.ok = p.ok && good;
      Vector y = p.apply(j), l(j.Size());
      j -= y;
      M.Mult(j, l);
      return l;
   }
};
}  // namespace projgen
#endif
