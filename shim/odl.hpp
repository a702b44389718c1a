// Stand-in for the additions of the Optimal Design Lab's MFEM branch that MISO
// uses, on top of the stock MFEM library of this sandbox.  Included at the end
// of the patched copy of mfem.hpp that bin/make_odl.py writes.
//
//  * reverse-mode derivatives of element transformations and shape functions
//    are plain member functions added to the copied headers (make_odl.py) and
//    defined here;
//  * additions that are virtual in the branch (EvalRevDiff, GetFaceEnergy)
//    live in subclasses, so that the layout of the library's own classes is
//    unchanged; macros at the end make MISO's code see the subclasses.
#ifndef VERIF_ODL
#define VERIF_ODL

#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace mfem
{
// ------------------------------------------------------------ coefficients
class OdlCoefficient : public Coefficient
{
public:
   /// adds d(Q_bar * Eval)/d(mesh nodes) to PointMat_bar
   virtual void EvalRevDiff(double Q_bar, ElementTransformation &T,
                            const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
   { }
};

class OdlVectorCoefficient : public VectorCoefficient
{
public:
   using VectorCoefficient::VectorCoefficient;
   using VectorCoefficient::Eval;
   virtual void EvalRevDiff(const Vector &V_bar, ElementTransformation &T,
                            const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
   { }
};

class OdlConstantCoefficient : public OdlCoefficient
{
public:
   double constant;
   explicit OdlConstantCoefficient(double c = 1.0) : constant(c) { }
   double Eval(ElementTransformation &, const IntegrationPoint &) override { return constant; }
};

class OdlFunctionCoefficient : public OdlCoefficient
{
   std::function<double(const Vector &)> F;
   std::function<double(const Vector &, double)> TDF;
   std::function<void(const Vector &, double, Vector &)> FRev;

public:
   OdlFunctionCoefficient(std::function<double(const Vector &)> f,
                          std::function<void(const Vector &, double, Vector &)> rev = nullptr)
    : F(std::move(f)), FRev(std::move(rev))
   { }
   OdlFunctionCoefficient(std::function<double(const Vector &, double)> f) : TDF(std::move(f)) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double x[3];
      Vector transip(x, 3);
      T.Transform(ip, transip);
      return F ? F(transip) : TDF(transip, GetTime());
   }
   void EvalRevDiff(double Q_bar, ElementTransformation &T, const IntegrationPoint &ip,
                    DenseMatrix &PointMat_bar) override
   {
      if (!FRev)
      {
         return;
      }
      double x[3], xb[3] = {0, 0, 0};
      Vector transip(x, 3);
      T.Transform(ip, transip);
      Vector x_bar(xb, transip.Size());
      FRev(transip, Q_bar, x_bar);
      dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, x_bar, PointMat_bar);
   }
};

class OdlGridFunctionCoefficient : public OdlCoefficient
{
   GridFunctionCoefficient c;

public:
   OdlGridFunctionCoefficient() { }
   OdlGridFunctionCoefficient(const GridFunction *gf, int comp = 1) : c(gf, comp) { }
   void SetGridFunction(const GridFunction *gf) { c.SetGridFunction(gf); }
   const GridFunction *GetGridFunction() const { return c.GetGridFunction(); }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return c.Eval(T, ip); }
};

class OdlProductCoefficient : public OdlCoefficient
{
   double ac = 1.0;
   Coefficient *a = nullptr;
   Coefficient *b;

public:
   OdlProductCoefficient(double A, Coefficient &B) : ac(A), b(&B) { }
   OdlProductCoefficient(Coefficient &A, Coefficient &B) : a(&A), b(&B) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      return (a ? a->Eval(T, ip) : ac) * b->Eval(T, ip);
   }
   void EvalRevDiff(double Q_bar, ElementTransformation &T, const IntegrationPoint &ip,
                    DenseMatrix &PointMat_bar) override
   {
      double av = a ? a->Eval(T, ip) : ac;
      double bv = b->Eval(T, ip);
      if (auto *bo = dynamic_cast<OdlCoefficient *>(b)) bo->EvalRevDiff(Q_bar * av, T, ip, PointMat_bar);
      if (auto *ao = dynamic_cast<OdlCoefficient *>(a)) ao->EvalRevDiff(Q_bar * bv, T, ip, PointMat_bar);
   }
};

class OdlVectorConstantCoefficient : public OdlVectorCoefficient
{
   Vector vec;

public:
   OdlVectorConstantCoefficient(const Vector &v) : OdlVectorCoefficient(v.Size()), vec(v) { }
   using OdlVectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &, const IntegrationPoint &) override { V = vec; }
   const Vector &GetVec() const { return vec; }
};

class OdlVectorFunctionCoefficient : public OdlVectorCoefficient
{
   std::function<void(const Vector &, Vector &)> F;
   std::function<void(const Vector &, double, Vector &)> TDF;
   std::function<void(const Vector &, const Vector &, Vector &)> FRev;
   Coefficient *Q = nullptr;

public:
   OdlVectorFunctionCoefficient(int dim, std::function<void(const Vector &, Vector &)> f, Coefficient *q = nullptr)
    : OdlVectorCoefficient(dim), F(std::move(f)), Q(q)
   { }
   OdlVectorFunctionCoefficient(int dim, std::function<void(const Vector &, Vector &)> f,
                                std::function<void(const Vector &, const Vector &, Vector &)> rev)
    : OdlVectorCoefficient(dim), F(std::move(f)), FRev(std::move(rev))
   { }
   OdlVectorFunctionCoefficient(int dim, std::function<void(const Vector &, double, Vector &)> f,
                                Coefficient *q = nullptr)
    : OdlVectorCoefficient(dim), TDF(std::move(f)), Q(q)
   { }
   using OdlVectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double x[3];
      Vector transip(x, 3);
      T.Transform(ip, transip);
      V.SetSize(vdim);
      if (F) F(transip, V); else TDF(transip, GetTime(), V);
      if (Q) V *= Q->Eval(T, ip);
   }
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip,
                    DenseMatrix &PointMat_bar) override
   {
      if (!FRev) return;
      double x[3], xb[3] = {0, 0, 0};
      Vector transip(x, 3);
      T.Transform(ip, transip);
      Vector x_bar(xb, transip.Size());
      FRev(transip, V_bar, x_bar);
      dynamic_cast<IsoparametricTransformation &>(T).TransformRevDiff(ip, x_bar, PointMat_bar);
   }
};

class OdlScalarVectorProductCoefficient : public OdlVectorCoefficient
{
   double ac = 1.0;
   Coefficient *a = nullptr;
   VectorCoefficient *b;

public:
   OdlScalarVectorProductCoefficient(double A, VectorCoefficient &B) : OdlVectorCoefficient(B.GetVDim()), ac(A), b(&B) { }
   OdlScalarVectorProductCoefficient(Coefficient &A, VectorCoefficient &B)
    : OdlVectorCoefficient(B.GetVDim()), a(&A), b(&B)
   { }
   using OdlVectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double av = a ? a->Eval(T, ip) : ac;
      b->Eval(V, T, ip);
      V *= av;
   }
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip,
                    DenseMatrix &PointMat_bar) override
   {
      double av = a ? a->Eval(T, ip) : ac;
      Vector W(V_bar.Size()), Wb(V_bar);
      b->Eval(W, T, ip);
      Wb *= av;
      if (auto *bo = dynamic_cast<OdlVectorCoefficient *>(b)) bo->EvalRevDiff(Wb, T, ip, PointMat_bar);
      if (auto *ao = dynamic_cast<OdlCoefficient *>(a)) ao->EvalRevDiff(V_bar * W, T, ip, PointMat_bar);
   }
};

class OdlVectorGridFunctionCoefficient : public OdlVectorCoefficient
{
   VectorGridFunctionCoefficient c;

public:
   OdlVectorGridFunctionCoefficient(const GridFunction *gf) : OdlVectorCoefficient(gf->VectorDim()), c(gf) { }
   using OdlVectorCoefficient::Eval;
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override { c.Eval(V, T, ip); }
};

// ------------------------------------------------- nonlinear form integrator
class OdlNonlinearFormIntegrator : public NonlinearFormIntegrator
{
public:
   using NonlinearFormIntegrator::NonlinearFormIntegrator;
   virtual double GetFaceEnergy(const FiniteElement &, const FiniteElement &,
                                FaceElementTransformations &, const Vector &)
   {
      return 0.0;
   }
};

// ------------------------------------------------------------------- forms
namespace odl
{
/// attribute of the boundary element on each face of a mesh, else 0
inline std::vector<int> face_bdr_attr(Mesh &m)
{
   std::vector<int> a(m.GetNumFaces(), 0);
   for (int i = 0; i < m.GetNBE(); ++i) a[m.GetBdrElementEdgeIndex(i)] = m.GetBdrAttribute(i);
   return a;
}
/// whether an (internal) boundary of attribute a is selected
inline bool marked(int a, const Array<int> *marker)
{
   return a > 0 && (!marker || (a <= marker->Size() && (*marker)[a - 1]));
}

/// a domain integrator restricted to marked element attributes
class MarkedDomain : public OdlNonlinearFormIntegrator
{
   std::unique_ptr<NonlinearFormIntegrator> integ;
   const Array<int> &marker;

public:
   MarkedDomain(NonlinearFormIntegrator *i, const Array<int> &m) : integ(i), marker(m) { }
   void AssembleElementVector(const FiniteElement &el, ElementTransformation &T, const Vector &u, Vector &r) override
   {
      if (marked(T.Attribute, &marker)) { integ->AssembleElementVector(el, T, u, r); return; }
      r.SetSize(u.Size());
      r = 0.0;
   }
   void AssembleElementGrad(const FiniteElement &el, ElementTransformation &T, const Vector &u, DenseMatrix &A) override
   {
      if (marked(T.Attribute, &marker)) { integ->AssembleElementGrad(el, T, u, A); return; }
      A.SetSize(u.Size());
      A = 0.0;
   }
   double GetElementEnergy(const FiniteElement &el, ElementTransformation &T, const Vector &u) override
   {
      return marked(T.Attribute, &marker) ? integ->GetElementEnergy(el, T, u) : 0.0;
   }
};

/// an interior-face integrator restricted to faces with a marked boundary element
class MarkedFace : public OdlNonlinearFormIntegrator
{
   std::unique_ptr<NonlinearFormIntegrator> integ;
   std::vector<int> attr;
   const Array<int> *marker;

public:
   MarkedFace(NonlinearFormIntegrator *i, Mesh &m, const Array<int> *mk) : integ(i), attr(face_bdr_attr(m)), marker(mk) { }
   void AssembleFaceVector(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, const Vector &u, Vector &r) override
   {
      if (marked(attr[T.ElementNo], marker)) { T.Attribute = attr[T.ElementNo]; integ->AssembleFaceVector(a, b, T, u, r); return; }
      r.SetSize(u.Size());
      r = 0.0;
   }
   void AssembleFaceGrad(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, const Vector &u, DenseMatrix &A) override
   {
      if (marked(attr[T.ElementNo], marker)) { T.Attribute = attr[T.ElementNo]; integ->AssembleFaceGrad(a, b, T, u, A); return; }
      A.SetSize(u.Size());
      A = 0.0;
   }
   double GetFaceEnergy(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, const Vector &u) override
   {
      auto *o = dynamic_cast<OdlNonlinearFormIntegrator *>(integ.get());
      if (!o || !marked(attr[T.ElementNo], marker)) return 0.0;
      T.Attribute = attr[T.ElementNo];
      return o->GetFaceEnergy(a, b, T, u);
   }
};

class MarkedFaceLF : public LinearFormIntegrator
{
   std::unique_ptr<LinearFormIntegrator> integ;
   std::vector<int> attr;
   const Array<int> *marker;

public:
   MarkedFaceLF(LinearFormIntegrator *i, Mesh &m, const Array<int> *mk) : integ(i), attr(face_bdr_attr(m)), marker(mk) { }
   using LinearFormIntegrator::AssembleRHSElementVect;
   void AssembleRHSElementVect(const FiniteElement &, ElementTransformation &, Vector &) override { mfem_error("MarkedFaceLF"); }
   void AssembleRHSElementVect(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, Vector &r) override
   {
      if (marked(attr[T.ElementNo], marker)) { T.Attribute = attr[T.ElementNo]; integ->AssembleRHSElementVect(a, b, T, r); return; }
      r.SetSize(T.Elem1->GetSpaceDim() * (a.GetDof() + b.GetDof()));
      r = 0.0;
   }
};
}  // namespace odl

class OdlParNonlinearForm : public ParNonlinearForm
{
   double face_energy(const GridFunction &x) const
   {
      double e = 0.0;
      Mesh &m = *FESpace()->GetMesh();
      Array<int> d, d2;
      Vector u;
      for (int f = 0; fnfi.Size() && f < m.GetNumFaces(); ++f)
      {
         auto *T = m.GetInteriorFaceTransformations(f);
         if (!T) continue;
         FESpace()->GetElementVDofs(T->Elem1No, d);
         FESpace()->GetElementVDofs(T->Elem2No, d2);
         d.Append(d2);
         x.GetSubVector(d, u);
         for (auto *i : fnfi)
            if (auto *o = dynamic_cast<OdlNonlinearFormIntegrator *>(i))
               e += o->GetFaceEnergy(*FESpace()->GetFE(T->Elem1No), *FESpace()->GetFE(T->Elem2No), *T, u);
      }
      for (int b = 0; bfnfi.Size() && b < m.GetNBE(); ++b)
      {
         auto *T = m.GetBdrFaceTransformations(b);
         if (!T) continue;
         FESpace()->GetElementVDofs(T->Elem1No, d);
         x.GetSubVector(d, u);
         const FiniteElement &fe = *FESpace()->GetFE(T->Elem1No);
         for (int k = 0; k < bfnfi.Size(); ++k)
            if (!bfnfi_marker[k] || odl::marked(m.GetBdrAttribute(b), bfnfi_marker[k]))
               if (auto *o = dynamic_cast<OdlNonlinearFormIntegrator *>(bfnfi[k])) e += o->GetFaceEnergy(fe, fe, *T, u);
      }
      return e;
   }

public:
   explicit OdlParNonlinearForm(ParFiniteElementSpace *f) : ParNonlinearForm(f) { }
   /// takes the integrators; the other form must not be assembled yet
   OdlParNonlinearForm(OdlParNonlinearForm &&o) : ParNonlinearForm(o.ParFESpace())
   {
      if (o.ext) mfem_error("OdlParNonlinearForm: move of an assembled form");
      assembly = o.assembly;
      mfem::Swap(dnfi, o.dnfi);
      mfem::Swap(fnfi, o.fnfi);
      mfem::Swap(bfnfi, o.bfnfi);
      mfem::Swap(bfnfi_marker, o.bfnfi_marker);
      o.ess_tdof_list.Copy(ess_tdof_list);
   }
   void AddDomainIntegrator(NonlinearFormIntegrator *i) { ParNonlinearForm::AddDomainIntegrator(i); }
   void AddDomainIntegrator(NonlinearFormIntegrator *i, Array<int> &marker)
   {
      ParNonlinearForm::AddDomainIntegrator(new odl::MarkedDomain(i, marker));
   }
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *i)
   {
      AddInteriorFaceIntegrator(new odl::MarkedFace(i, *FESpace()->GetMesh(), nullptr));
   }
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *i, Array<int> &marker)
   {
      AddInteriorFaceIntegrator(new odl::MarkedFace(i, *FESpace()->GetMesh(), &marker));
   }
   /// MFEM's own, which aborts when there are interior face terms even if no
   /// face is shared between ranks
   Operator &GetGradient(const Vector &x) const override
   {
      if (fnfi.Size() == 0) { return ParNonlinearForm::GetGradient(x); }
      ParFiniteElementSpace *f = ParFESpace();
      if (f->GetNRanks() > 1) mfem_error("OdlParNonlinearForm: gradient of shared faces");
      pGrad.Clear();
      NonlinearForm::GetGradient(x);
      OperatorHandle dA(pGrad.Type()), Ph(pGrad.Type()), e;
      dA.MakeSquareBlockDiag(f->GetComm(), f->GlobalVSize(), f->GetDofOffsets(), Grad);
      Ph.ConvertFrom(f->Dof_TrueDof_Matrix());
      pGrad.MakePtAP(dA, Ph);
      e.EliminateRowsCols(pGrad, ess_tdof_list);
      return *pGrad.Ptr();
   }
   /// MFEM's own, plus the face terms
   double GetGridFunctionEnergy(const Vector &x) const
   {
      Mesh &m = *FESpace()->GetMesh();
      Array<int> d;
      Vector u;
      double e = 0.0;
      GridFunction gf(const_cast<FiniteElementSpace *>(FESpace()), const_cast<double *>(x.GetData()));
      for (int k = 0; dnfi.Size() && k < m.GetNE(); ++k)
      {
         DofTransformation *t = FESpace()->GetElementVDofs(k, d);
         gf.GetSubVector(d, u);
         if (t) t->InvTransformPrimal(u);
         for (auto *i : dnfi) e += i->GetElementEnergy(*FESpace()->GetFE(k), *FESpace()->GetElementTransformation(k), u);
      }
      return e + face_energy(gf);
   }
   double GetParGridFunctionEnergy(const Vector &x) const
   {
      double e = GetGridFunctionEnergy(x), s;
      MPI_Allreduce(&e, &s, 1, MPI_DOUBLE, MPI_SUM, ParFESpace()->GetComm());
      return s;
   }
   double GetEnergy(const Vector &x) const override
   {
      Vector l(ParFESpace()->GetVSize());
      ParFESpace()->GetProlongationMatrix()->Mult(x, l);
      return GetParGridFunctionEnergy(l);
   }
};

class OdlParLinearForm : public ParLinearForm
{
public:
   using ParLinearForm::ParLinearForm;
   OdlParLinearForm() = default;
   OdlParLinearForm(OdlParLinearForm &&o) : ParLinearForm()
   {
      pfes = o.pfes;
      fes = o.fes;
      Vector::operator=(static_cast<Vector &>(o));
      std::swap(ext, o.ext);
      std::swap(extern_lfs, o.extern_lfs);
      fast_assembly = o.fast_assembly;
      mfem::Swap(domain_integs, o.domain_integs);
      mfem::Swap(domain_integs_marker, o.domain_integs_marker);
      mfem::Swap(domain_delta_integs, o.domain_delta_integs);
      mfem::Swap(boundary_integs, o.boundary_integs);
      mfem::Swap(boundary_integs_marker, o.boundary_integs_marker);
      mfem::Swap(boundary_face_integs, o.boundary_face_integs);
      mfem::Swap(boundary_face_integs_marker, o.boundary_face_integs_marker);
      mfem::Swap(interior_face_integs, o.interior_face_integs);
   }
   OdlParLinearForm &operator=(double v)
   {
      ParLinearForm::operator=(v);
      return *this;
   }
   OdlParLinearForm &operator=(const Vector &v)
   {
      ParLinearForm::operator=(v);
      return *this;
   }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *i)
   {
      AddInteriorFaceIntegrator(new odl::MarkedFaceLF(i, *ParFESpace()->GetMesh(), nullptr));
   }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *i, Array<int> &marker)
   {
      AddInteriorFaceIntegrator(new odl::MarkedFaceLF(i, *ParFESpace()->GetMesh(), &marker));
   }
};

class OdlParBilinearForm : public ParBilinearForm
{
public:
   using ParBilinearForm::ParBilinearForm;
   /// takes the integrators and the assembled matrix
   OdlParBilinearForm(OdlParBilinearForm &&o) : ParBilinearForm(o.pfes)
   {
      if (o.ext) mfem_error("OdlParBilinearForm: move of a form with an extension");
      std::swap(mat, o.mat);
      std::swap(mat_e, o.mat_e);
      std::swap(extern_bfs, o.extern_bfs);
      assembly = o.assembly;
      diag_policy = o.diag_policy;
      mfem::Swap(domain_integs, o.domain_integs);
      mfem::Swap(domain_integs_marker, o.domain_integs_marker);
      mfem::Swap(boundary_integs, o.boundary_integs);
      mfem::Swap(boundary_integs_marker, o.boundary_integs_marker);
      mfem::Swap(boundary_face_integs, o.boundary_face_integs);
      mfem::Swap(boundary_face_integs_marker, o.boundary_face_integs_marker);
      mfem::Swap(interior_face_integs, o.interior_face_integs);
   }
};

// --------------------------------------------------- reverse-mode derivatives
/// J_bar = (d CalcOrtho(J)/dJ)^T n_bar
inline void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &n_bar, DenseMatrix &J_bar)
{
   J_bar.SetSize(J.Height(), J.Width());
   if (J.Height() == 2)
   {
      // n = [J(1), -J(0)]
      J_bar(1, 0) = n_bar(0);
      J_bar(0, 0) = -n_bar(1);
   }
   else if (J.Height() == 3)
   {
      const double *d = J.Data();
      double *b = J_bar.Data();
      // n(0) = d[1]*d[5] - d[2]*d[4]; n(1) = d[2]*d[3] - d[0]*d[5]; n(2) = d[0]*d[4] - d[1]*d[3]
      b[0] = -n_bar(1) * d[5] + n_bar(2) * d[4];
      b[1] = n_bar(0) * d[5] - n_bar(2) * d[3];
      b[2] = -n_bar(0) * d[4] + n_bar(1) * d[3];
      b[3] = n_bar(1) * d[2] - n_bar(2) * d[1];
      b[4] = -n_bar(0) * d[2] + n_bar(2) * d[0];
      b[5] = n_bar(0) * d[1] - n_bar(1) * d[0];
   }
}

/// PointMat_bar += (dJ/dPointMat)^T J_bar
inline void IsoparametricTransformation::JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &PointMat_bar)
{
   DenseMatrix ds(FElem->GetDof(), FElem->GetDim());
   FElem->CalcDShape(GetIntPoint(), ds);
   AddMultABt(J_bar, ds, PointMat_bar);
}

inline void IsoparametricTransformation::TransformRevDiff(const IntegrationPoint &ip, const Vector &x_bar,
                                                          DenseMatrix &PointMat_bar)
{
   Vector s(FElem->GetDof());
   FElem->CalcShape(ip, s);
   for (int j = 0; j < s.Size(); ++j)
      for (int d = 0; d < PointMat_bar.Height() && d < x_bar.Size(); ++d)
         PointMat_bar(d, j) += s(j) * x_bar(d);
}

namespace odl
{
/// J_bar += (d det(J)/dJ)^T w_bar; for non-square J the weight is sqrt(det(J^T J))
inline void weight_rev(const DenseMatrix &J, double w_bar, DenseMatrix &J_bar)
{
   if (J.Height() == J.Width())
   {
      DenseMatrix adj(J.Height());
      CalcAdjugate(J, adj);
      for (int i = 0; i < J.Height(); ++i)
         for (int j = 0; j < J.Width(); ++j)
            J_bar(i, j) += w_bar * adj(j, i);
   }
   else
   {
      DenseMatrix G(J.Width()), Ginv(J.Width()), P(J.Height(), J.Width());
      MultAtB(J, J, G);
      double w = std::sqrt(G.Det());
      CalcInverse(G, Ginv);
      Mult(J, Ginv, P);
      J_bar.Add(w_bar * w, P);
   }
}

/// J_bar += (d adj(J)/dJ)^T A_bar
inline void adjugate_rev(const DenseMatrix &J, const DenseMatrix &A_bar, DenseMatrix &J_bar)
{
   int n = J.Height();
   if (n == 1) return;
   if (n == 2)
   {
      // adj = [J11 -J01; -J10 J00]
      J_bar(1, 1) += A_bar(0, 0);
      J_bar(0, 1) -= A_bar(0, 1);
      J_bar(1, 0) -= A_bar(1, 0);
      J_bar(0, 0) += A_bar(1, 1);
      return;
   }
   // adj(i,j) = J(a,b) J(c,d) - J(a,d) J(c,b) with a=j+1, c=j+2, b=i+1, d=i+2 (mod 3)
   for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
      {
         int a = (j + 1) % 3, c = (j + 2) % 3, b = (i + 1) % 3, d = (i + 2) % 3;
         double s = A_bar(i, j);
         J_bar(a, b) += s * J(c, d);
         J_bar(c, d) += s * J(a, b);
         J_bar(a, d) -= s * J(c, b);
         J_bar(c, b) -= s * J(a, d);
      }
}

/// J_bar += (d inv(J)/dJ)^T I_bar = -inv(J)^T I_bar inv(J)^T
inline void inverse_rev(const DenseMatrix &J, const DenseMatrix &I_bar, DenseMatrix &J_bar)
{
   DenseMatrix inv(J.Width(), J.Height());
   CalcInverse(J, inv);
   DenseMatrix t(J.Height(), J.Height()), r(J.Height(), J.Width());
   MultAtB(inv, I_bar, t);
   MultABt(t, inv, r);
   J_bar.Add(-1.0, r);
}
}  // namespace odl

inline void IsoparametricTransformation::WeightRevDiff(double w_bar, DenseMatrix &PointMat_bar)
{
   DenseMatrix Jb(Jacobian().Height(), Jacobian().Width());
   Jb = 0.0;
   odl::weight_rev(Jacobian(), w_bar, Jb);
   JacobianRevDiff(Jb, PointMat_bar);
}
inline void IsoparametricTransformation::WeightRevDiff(DenseMatrix &PointMat_bar)
{
   WeightRevDiff(1.0, PointMat_bar);
}
inline void IsoparametricTransformation::AdjugateJacobianRevDiff(const DenseMatrix &A_bar, DenseMatrix &PointMat_bar)
{
   DenseMatrix Jb(Jacobian().Height(), Jacobian().Width());
   Jb = 0.0;
   odl::adjugate_rev(Jacobian(), A_bar, Jb);
   JacobianRevDiff(Jb, PointMat_bar);
}
inline void IsoparametricTransformation::InverseJacobianRevDiff(const DenseMatrix &I_bar, DenseMatrix &PointMat_bar)
{
   DenseMatrix Jb(Jacobian().Height(), Jacobian().Width());
   Jb = 0.0;
   odl::inverse_rev(Jacobian(), I_bar, Jb);
   JacobianRevDiff(Jb, PointMat_bar);
}

// shape functions in physical space, by map type
inline void FiniteElement::CalcPhysShapeRevDiff(ElementTransformation &T, const Vector &s_bar,
                                                DenseMatrix &PointMat_bar) const
{
   if (GetMapType() != INTEGRAL)
   {
      return;
   }
   Vector s(GetDof());
   CalcShape(T.GetIntPoint(), s);
   double w = T.Weight();
   dynamic_cast<IsoparametricTransformation &>(T).WeightRevDiff(-(s * s_bar) / (w * w), PointMat_bar);
}

inline void FiniteElement::CalcVShapeRevDiff(ElementTransformation &T, const DenseMatrix &vs_bar,
                                             DenseMatrix &PointMat_bar) const
{
   auto &it = dynamic_cast<IsoparametricTransformation &>(T);
   DenseMatrix vs(GetDof(), GetDim());
   CalcVShape(T.GetIntPoint(), vs);
   if (GetMapType() == H_CURL)
   {
      // shape = vs * inv(J)
      DenseMatrix ib(T.InverseJacobian().Height(), T.InverseJacobian().Width());
      MultAtB(vs, vs_bar, ib);
      it.InverseJacobianRevDiff(ib, PointMat_bar);
   }
   else if (GetMapType() == H_DIV)
   {
      // shape = (1/w) vs * J^T
      double w = T.Weight();
      DenseMatrix jb(T.Jacobian().Height(), T.Jacobian().Width());
      MultAtB(vs_bar, vs, jb);
      double dot = 0.0;
      for (int i = 0; i < jb.Height(); ++i)
         for (int j = 0; j < jb.Width(); ++j) dot += jb(i, j) * T.Jacobian()(i, j);
      jb *= 1.0 / w;
      it.JacobianRevDiff(jb, PointMat_bar);
      it.WeightRevDiff(-dot / (w * w), PointMat_bar);
   }
   else
   {
      mfem_error("CalcVShapeRevDiff: map type");
   }
}

inline void FiniteElement::CalcPhysCurlShapeRevDiff(ElementTransformation &T, const DenseMatrix &cs_bar,
                                                    DenseMatrix &PointMat_bar) const
{
   auto &it = dynamic_cast<IsoparametricTransformation &>(T);
   DenseMatrix cs(GetDof(), GetDim() == 3 ? 3 : 1);
   CalcCurlShape(T.GetIntPoint(), cs);
   double w = T.Weight();
   double dot = 0.0;
   if (GetDim() == 3)
   {
      DenseMatrix jb(3);
      MultAtB(cs_bar, cs, jb);
      for (int i = 0; i < 3; ++i)
         for (int j = 0; j < 3; ++j) dot += jb(i, j) * T.Jacobian()(i, j);
      jb *= 1.0 / w;
      it.JacobianRevDiff(jb, PointMat_bar);
   }
   else
   {
      for (int i = 0; i < cs.Height(); ++i) dot += cs(i, 0) * cs_bar(i, 0);
   }
   it.WeightRevDiff(-dot / (w * w), PointMat_bar);
}
}  // namespace mfem

#define Coefficient OdlCoefficient
#define VectorCoefficient OdlVectorCoefficient
#define ConstantCoefficient OdlConstantCoefficient
#define FunctionCoefficient OdlFunctionCoefficient
#define GridFunctionCoefficient OdlGridFunctionCoefficient
#define ProductCoefficient OdlProductCoefficient
#define VectorConstantCoefficient OdlVectorConstantCoefficient
#define VectorFunctionCoefficient OdlVectorFunctionCoefficient
#define ScalarVectorProductCoefficient OdlScalarVectorProductCoefficient
#define VectorGridFunctionCoefficient OdlVectorGridFunctionCoefficient
#define NonlinearFormIntegrator OdlNonlinearFormIntegrator
#define ParNonlinearForm OdlParNonlinearForm
#define ParLinearForm OdlParLinearForm
#define ParBilinearForm OdlParBilinearForm

#endif
