#!/usr/bin/env python3
"""make_odl.py OUT/mfem.hpp: a copy of the installed MFEM headers with the
non-virtual member functions the Optimal Design Lab branch adds, followed by
shim/odl.hpp.  Object layout and virtual tables are unchanged, so the code
links against the stock library."""
import os, shutil, sys
out = sys.argv[1]
d = os.path.dirname(out)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dst = os.path.join(d, "mfem")
tmp = dst + ".tmp"
shutil.rmtree(tmp, ignore_errors=True)
shutil.copytree("/usr/include/mfem", tmp)


def patch(f, anchor, add, after=True):
    p = os.path.join(tmp, f)
    s = open(p).read()
    if s.count(anchor) != 1:
        sys.exit("make_odl.py: %s: anchor found %d times: %s" % (f, s.count(anchor), anchor))
    s = s.replace(anchor, anchor + add if after else add + anchor)
    open(p, "w").write(s)


patch("fem/eltrans.hpp", "   IsoparametricTransformation() : FElem(NULL) {}\n", """
   void JacobianRevDiff(const DenseMatrix &J_bar, DenseMatrix &PointMat_bar);
   void TransformRevDiff(const IntegrationPoint &ip, const Vector &x_bar, DenseMatrix &PointMat_bar);
   void WeightRevDiff(double w_bar, DenseMatrix &PointMat_bar);
   void WeightRevDiff(DenseMatrix &PointMat_bar);
   void AdjugateJacobianRevDiff(const DenseMatrix &A_bar, DenseMatrix &PointMat_bar);
   void InverseJacobianRevDiff(const DenseMatrix &I_bar, DenseMatrix &PointMat_bar);
""")
patch("fem/fe/fe_base.hpp", "   int GetDim() const { return dim; }\n", """
   void CalcPhysShapeRevDiff(ElementTransformation &T, const Vector &s_bar, DenseMatrix &PointMat_bar) const;
   void CalcVShapeRevDiff(ElementTransformation &T, const DenseMatrix &vs_bar, DenseMatrix &PointMat_bar) const;
   void CalcPhysCurlShapeRevDiff(ElementTransformation &T, const DenseMatrix &cs_bar, DenseMatrix &PointMat_bar) const;
""")
shutil.rmtree(dst, ignore_errors=True)
os.rename(tmp, dst)
open(out, "w").write('#include "mfem/mfem.hpp"\n#include "%s/shim/odl.hpp"\n' % root)
