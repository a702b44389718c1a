// Random simplex meshes for the FE-level harnesses
#ifndef VERIF_MESHGEN_HPP
#define VERIF_MESHGEN_HPP
#include "pbt.hpp"
#include "mfem.hpp"
#include <memory>

namespace pbt
{
struct MeshOpts
{
   bool perturb = true;    // move interior vertices
   bool shuffle = true;    // random local vertex order (orientation preserved)
   bool affine = true;     // random shear/scale of the domain
   int max2 = 3, max3 = 2; // cells per direction
};

/// random permutation by choices
inline std::vector<int> permutation(Gen &g, int n)
{
   std::vector<int> p(n);
   for (int i = 0; i < n; ++i) { p[i] = i; }
   for (int i = 0; i + 1 < n; ++i) { std::swap(p[i], p[i + g.irange(0, n - 1 - i)]); }
   return p;
}

/// Simplex mesh of a box with random size, perturbation, element order, local
/// vertex order and boundary attributes (1.. per side).
inline std::unique_ptr<mfem::Mesh> simplex_mesh(Gen &g, int dim, const MeshOpts &o = MeshOpts())
{
   using namespace mfem;
   Mesh base;
   int nx, ny, nz;
   if (dim == 2)
   {
      nx = g.irange(1, o.max2);
      ny = g.irange(1, o.max2);
      base = Mesh::MakeCartesian2D(nx, ny, Element::TRIANGLE, true, 1.0, 1.0, false);
   }
   else
   {
      nx = g.irange(1, o.max3);
      ny = g.irange(1, o.max3);
      nz = g.irange(1, o.max3);
      base = Mesh::MakeCartesian3D(nx, ny, nz, Element::TETRAHEDRON, 1.0, 1.0, 1.0, false);
   }
   int nv = base.GetNV(), ne = base.GetNE(), nb = base.GetNBE();
   std::vector<int> vp(nv), ep(ne);
   bool shuf = o.shuffle && g.flip();
   vp = shuf ? permutation(g, nv) : vp;
   if (!shuf) { for (int i = 0; i < nv; ++i) { vp[i] = i; } }
   ep = shuf ? permutation(g, ne) : ep;
   if (!shuf) { for (int i = 0; i < ne; ++i) { ep[i] = i; } }
   double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, b[3] = {0, 0, 0};
   if (o.affine && g.flip())
   {
      for (int i = 0; i < dim; ++i)
      {
         b[i] = g.sym(1.0);
         for (int j = 0; j < dim; ++j) { A[i][j] = i == j ? g.real(0.5, 2.0) : g.sym(0.2); }
      }
   }
   double hx = 1.0 / nx, hy = 1.0 / ny, hz = dim == 3 ? 1.0 / nz : 1.0;
   double amp = o.perturb ? g.real(0, 0.2) : 0.0;
   std::vector<std::array<double, 3>> X(nv);
   for (int i = 0; i < nv; ++i)
   {
      const double *v = base.GetVertex(i);
      double c[3] = {v[0], v[1], dim == 3 ? v[2] : 0.0};
      double h[3] = {hx, hy, hz}, q[3];
      for (int d = 0; d < dim; ++d)
      {
         bool bd = c[d] < 1e-9 || c[d] > 1 - 1e-9;
         q[d] = c[d] + (bd || amp == 0 ? 0.0 : g.sym(amp) * h[d]);
      }
      for (int d = 0; d < 3; ++d) { X[vp[i]][d] = 0; }
      for (int d = 0; d < dim; ++d)
      {
         X[vp[i]][d] = b[d];
         for (int e = 0; e < dim; ++e) { X[vp[i]][d] += A[d][e] * q[e]; }
      }
   }
   std::unique_ptr<Mesh> m(new Mesh(dim, nv, ne, nb, dim));
   for (int i = 0; i < nv; ++i) { m->AddVertex(X[i].data()); }
   for (int k = 0; k < ne; ++k)
   {
      Array<int> v;
      base.GetElementVertices(ep[k], v);
      int w[4];
      for (int i = 0; i < v.Size(); ++i) { w[i] = vp[v[i]]; }
      if (shuf)
      {
         if (dim == 2)
         {
            int r = g.irange(0, 2), t[3];
            for (int i = 0; i < 3; ++i) { t[i] = w[(i + r) % 3]; }
            std::copy(t, t + 3, w);
         }
         else
         {
            // even permutations of the four vertices
            static const int P[12][4] = {{0, 1, 2, 3}, {0, 2, 3, 1}, {0, 3, 1, 2}, {1, 0, 3, 2}, {1, 2, 0, 3}, {1, 3, 2, 0},
                                         {2, 0, 1, 3}, {2, 1, 3, 0}, {2, 3, 0, 1}, {3, 0, 2, 1}, {3, 1, 0, 2}, {3, 2, 1, 0}};
            int r = g.irange(0, 11), t[4];
            for (int i = 0; i < 4; ++i) { t[i] = w[P[r][i]]; }
            std::copy(t, t + 4, w);
         }
      }
      if (dim == 2) { m->AddTriangle(w, 1); }
      else { m->AddTet(w, 1); }
   }
   for (int k = 0; k < nb; ++k)
   {
      Array<int> v;
      base.GetBdrElementVertices(k, v);
      int w[3];
      for (int i = 0; i < v.Size(); ++i) { w[i] = vp[v[i]]; }
      int a = base.GetBdrAttribute(k);
      if (dim == 2) { m->AddBdrSegment(w, a); }
      else { m->AddBdrTriangle(w, a); }
   }
   if (dim == 2) { m->FinalizeTriMesh(1, 0, false); }
   else { m->FinalizeTetMesh(1, 0, false); }
   g.note(str("mesh dim=", dim, " elems=", ne, " perturb=", amp, shuf ? " shuffled" : ""));
   return m;
}

inline double mesh_volume(mfem::Mesh &m)
{
   double s = 0;
   for (int i = 0; i < m.GetNE(); ++i) { s += m.GetElementVolume(i); }
   return s;
}
}  // namespace pbt
#endif
