// P32: distance to a surface == exhaustive search over the curve
#include "pbt.hpp"
#include "surface.hpp"
#include <memory>

using namespace pbt;
using namespace mfem;
namespace
{
// one element as its nodes in the order of the parameter: 0, 1 (and 1/2)
struct Piece
{
   std::array<double, 2> a, b, m;   // m only for quadratic pieces
   bool quad = false;
   void at(double t, double *c, double *d1 = nullptr, double *d2 = nullptr) const
   {
      for (int k = 0; k < 2; ++k)
      {
         if (!quad)
         {
            c[k] = a[k] + t * (b[k] - a[k]);
            if (d1) { d1[k] = b[k] - a[k]; }
            if (d2) { d2[k] = 0.0; }
         }
         else
         {
            double A = 2 * (a[k] - 2 * m[k] + b[k]), B = -3 * a[k] + 4 * m[k] - b[k];
            c[k] = a[k] + t * (B + t * A);
            if (d1) { d1[k] = B + 2 * A * t; }
            if (d2) { d2[k] = 2 * A; }
         }
      }
   }
   double dist(double t, const Vector &x) const
   {
      double c[2];
      at(t, c);
      return std::hypot(c[0] - x(0), c[1] - x(1));
   }
   // derivative of half the squared distance
   double slope(double t, const Vector &x) const
   {
      double c[2], d[2];
      at(t, c, d);
      return (c[0] - x(0)) * d[0] + (c[1] - x(1)) * d[1];
   }
   // every stationary point and both ends
   double exact(const Vector &x) const
   {
      double best = std::min(dist(0, x), dist(1, x));
      const int n = quad ? 400 : 1;
      double s0 = slope(0, x);
      for (int i = 1; i <= n; ++i)
      {
         double s1 = slope(i / double(n), x);
         if (s0 < 0 && s1 >= 0)
         {
            double lo = (i - 1) / double(n), hi = i / double(n);
            for (int k = 0; k < 60; ++k)
            {
               double mid = 0.5 * (lo + hi);
               (slope(mid, x) < 0 ? lo : hi) = mid;
            }
            best = std::min(best, dist(0.5 * (lo + hi), x));
         }
         s0 = s1;
      }
      return best;
   }
   // least curvature of half the squared distance relative to its flat part
   double convexity(const Vector &x) const
   {
      double worst = 1e300;
      for (int i = 0; i <= 20; ++i)
      {
         double c[2], d[2], h[2];
         at(i / 20.0, c, d, h);
         double f = d[0] * d[0] + d[1] * d[1];
         double s = f + (c[0] - x(0)) * h[0] + (c[1] - x(1)) * h[1];
         worst = std::min(worst, s / f);
      }
      return worst;
   }
};

struct Curve
{
   std::unique_ptr<Mesh> mesh;   // the curve itself, or the volume mesh it bounds
   Array<int> marker;            // empty for a curve
   std::vector<Piece> pieces;
   std::string what;
};

// A chain of segments, open or closed, of very different lengths, vertices and
// elements numbered in any order
Curve chain(Gen &g, int order)
{
   Curve C;
   int n = g.irange(1, 12);
   bool closed = n >= 3 && g.flip();
   double scale = g.pick({1.0, 1.0, 1e-2, 1e-6, 30.0});
   double ox = scale * g.pick({0.0, 0.0, 5.0}), oy = scale * g.pick({0.0, 0.0, -3.0});
   int nv = closed ? n : n + 1;
   std::vector<std::array<double, 2>> v(nv);
   double x = 0, y = 0, th = g.sym(3.0);
   for (int i = 0; i < nv; ++i)
   {
      v[i] = {ox + scale * x, oy + scale * y};
      double len = g.chance(1, 3) ? 0.1 + 0.2 * g.unit() : 0.5 + 2 * g.unit();
      th += closed ? 2 * M_PI / n + g.sym(0.3) : g.sym(1.2);
      x += len * std::cos(th);
      y += len * std::sin(th);
   }
   std::vector<int> perm(nv);
   for (int i = 0; i < nv; ++i) { perm[i] = i; }
   for (int i = nv - 1; i > 0; --i) { std::swap(perm[i], perm[g.draw(i)]); }
   std::vector<int> pos(nv);
   for (int i = 0; i < nv; ++i) { pos[perm[i]] = i; }
   C.mesh.reset(new Mesh(1, nv, n, 0, 2));
   for (int i = 0; i < nv; ++i) { C.mesh->AddVertex(v[perm[i]].data()); }
   bool turn = g.flip();
   for (int i = 0; i < n; ++i)
   {
      int s[2] = {pos[i], pos[(i + 1) % nv]};
      if (turn && i % 2) { std::swap(s[0], s[1]); }
      C.mesh->AddSegment(s, 1 + i % 3);
   }
   C.mesh->FinalizeMesh();
   C.what = str(closed ? "closed" : "open", " chain of ", n, " order ", order, " scale ", scale);
   bool bare = order == 1 && g.flip();
   if (!bare) { C.mesh->SetCurvature(order); }
   if (order == 2)
   {
      GridFunction &nd = *C.mesh->GetNodes();
      const FiniteElementSpace *f = nd.FESpace();
      for (int e = 0; e < n; ++e)
      {
         Array<int> dofs;
         f->GetElementDofs(e, dofs);
         int ia = f->DofToVDof(dofs[0], 0), ja = f->DofToVDof(dofs[0], 1);
         int ib = f->DofToVDof(dofs[1], 0), jb = f->DofToVDof(dofs[1], 1);
         double s = g.chance(1, 4) ? 0.0 : g.sym(0.15);
         double tx = nd(ib) - nd(ia), ty = nd(jb) - nd(ja), l = 0.06 * g.sym(1.0);
         nd(f->DofToVDof(dofs[2], 0)) = 0.5 * (nd(ia) + nd(ib)) - s * ty + l * tx;
         nd(f->DofToVDof(dofs[2], 1)) = 0.5 * (nd(ja) + nd(jb)) + s * tx + l * ty;
      }
   }
   return C;
}

// Part of the boundary of a distorted two-dimensional mesh
Curve boundary(Gen &g, int order)
{
   Curve C;
   int nx = g.irange(1, 4), ny = g.irange(1, 4);
   double sx = g.pick({1.0, 3.0, 0.2}), sy = g.pick({1.0, 0.1, 1e-4});
   C.mesh.reset(new Mesh(Mesh::MakeCartesian2D(nx, ny, g.flip() ? Element::TRIANGLE : Element::QUADRILATERAL, true, sx, sy)));
   Mesh &m = *C.mesh;
   int na = g.irange(1, 5);
   bool own = g.chance(2, 3);
   if (own)
   {
      for (int i = 0; i < m.GetNBE(); ++i) { m.GetBdrElement(i)->SetAttribute(g.irange(1, na)); }
      m.SetAttributes();
   }
   double h = 0.2 * std::min(sx / nx, sy / ny);
   bool bare = order == 1 && g.flip();
   if (bare)
   {
      for (int i = 0; i < m.GetNV(); ++i)
      {
         m.GetVertex(i)[0] += g.sym(h);
         m.GetVertex(i)[1] += g.sym(h);
      }
   }
   else
   {
      m.SetCurvature(order);
      GridFunction &nd = *m.GetNodes();
      for (int i = 0; i < nd.Size(); ++i) { nd(i) += g.sym(0.4 * h); }
   }
   C.marker.SetSize(m.bdr_attributes.Max());
   C.marker = 0;
   bool any = false;
   for (int i = 0; i < C.marker.Size(); ++i) { C.marker[i] = g.chance(1, 2) ? g.pick({1, 1, 7}) : 0; }
   for (int i = 0; i < m.GetNBE(); ++i) { any = any || C.marker[m.GetBdrAttribute(i) - 1]; }
   if (!any) { C.marker[m.GetBdrAttribute(0) - 1] = 1; }
   C.what = str("boundary of ", nx, "x", ny, " order ", order, bare ? " bare" : "");
   for (int i = 0; i < C.marker.Size(); ++i) { C.what += str(i ? "," : " marker ", C.marker[i]); }
   return C;
}

// The pieces as the mesh itself evaluates them
void read_pieces(Curve &C)
{
   Mesh &m = *C.mesh;
   bool vol = C.marker.Size() > 0;
   int n = vol ? m.GetNBE() : m.GetNE();
   for (int e = 0; e < n; ++e)
   {
      if (vol && C.marker[m.GetBdrAttribute(e) - 1] == 0) { continue; }
      ElementTransformation *T = vol ? m.GetBdrElementTransformation(e) : m.GetElementTransformation(e);
      Piece p;
      Vector c(2);
      IntegrationPoint ip;
      auto at = [&](double t, std::array<double, 2> &o)
      {
         ip.Set1w(t, 1.0);
         T->Transform(ip, c);
         o = {c(0), c(1)};
      };
      at(0.0, p.a);
      at(1.0, p.b);
      at(0.5, p.m);
      p.quad = m.GetNodes() != nullptr && m.GetNodes()->FESpace()->GetMaxElementOrder() == 2;
      C.pieces.push_back(p);
   }
}

void distance(Gen &g, int order)
{
   Curve C = g.flip() ? chain(g, order) : boundary(g, order);
   read_pieces(C);
   Vector before;
   if (C.mesh->GetNodes()) { before = *C.mesh->GetNodes(); }
   else { C.mesh->GetVertices(before); }
   double size = 0, lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}, far = 0;
   for (auto &p : C.pieces)
   {
      for (auto *q : {&p.a, &p.b, &p.m})
      {
         for (int k = 0; k < 2; ++k)
         {
            lo[k] = std::min(lo[k], (*q)[k]);
            hi[k] = std::max(hi[k], (*q)[k]);
            far = std::max(far, std::fabs((*q)[k]));
         }
      }
   }
   size = std::max(hi[0] - lo[0], hi[1] - lo[1]);
   std::unique_ptr<miso::Surface<2>> S;
   if (C.marker.Size() > 0) { S.reset(new miso::Surface<2>(*C.mesh, C.marker)); }
   else { S.reset(new miso::Surface<2>(*C.mesh)); }
   int nq = g.irange(2, 8), asked = 0;
   for (int q = 0; q < nq; ++q)
   {
      Vector x(2);
      int kind = g.irange(0, 3);
      const Piece &p = C.pieces[g.draw(C.pieces.size() - 1)];
      double t = g.pick({0.0, 0.5, 1.0, -1.0});
      if (t < 0) { t = g.unit(); }
      double c[2], d[2];
      p.at(t, c, d);
      double off = 0;
      if (kind == 0)   // anywhere around
      {
         for (int k = 0; k < 2; ++k) { x(k) = lo[k] - 0.5 * size + (hi[k] - lo[k] + size) * g.unit(); }
      }
      else   // beside a point of the curve, on it, or far away
      {
         off = kind == 1 ? g.sym(0.5) * size : kind == 2 ? g.pick({0.0, 1e-9, 1e-3}) * size : (order == 1 ? g.sym(50.0) : g.sym(3.0)) * size;
         double l = std::hypot(d[0], d[1]);
         x(0) = c[0] - off * d[1] / l;
         x(1) = c[1] + off * d[0] / l;
      }
      double best = 1e300, worst = 1e300;
      for (auto &e : C.pieces) { best = std::min(best, e.exact(x)); }
      // pieces that bend around the point have several nearest points, which
      // the class does not promise to tell apart
      for (auto &e : C.pieces)
      {
         if (e.exact(x) <= best * (1 + 1e-9)) { worst = std::min(worst, e.convexity(x)); }
      }
      if (worst < 0.3)
      {
         // whatever it finds there is a point of the curve, and the same one
         // on a surface that was asked nothing before
         g.label("bends-around");
         auto ask = [&](miso::Surface<2> &s)
         {
            try { return s.calcDistance(x); }
            catch (const miso::MISOException &) { return -1.0; }
         };
         double used = ask(*S);
         std::unique_ptr<miso::Surface<2>> F;
         if (C.marker.Size() > 0) { F.reset(new miso::Surface<2>(*C.mesh, C.marker)); }
         else { F.reset(new miso::Surface<2>(*C.mesh)); }
         double fresh = ask(*F), tol = 1e-9 * (size + best + far);
         g.check(std::fabs(used - fresh) <= tol, "distance depends on what was asked before", str(C.what, ": point ", x(0), ",", x(1), " got ", used, ", a new surface ", fresh));
         if (used >= 0) { g.check(used >= best - tol, "distance to no point of the curve", str(C.what, ": point ", x(0), ",", x(1), " got ", used, " nearest point is at ", best)); }
         continue;
      }
      ++asked;
      double tol = 1e-11 * (size + best + far);
      double got = S->calcDistance(x);
      if (q == 0) { g.note(str(C.what, " x=", x(0), ",", x(1), " -> ", got)); }
      g.check(std::fabs(got - best) <= tol, "distance", str(C.what, ": point ", x(0), ",", x(1), " got ", got, " nearest point is at ", best));
      if (C.marker.Size() == 0 && C.mesh->GetNodes() != nullptr)
      {
         int e = static_cast<int>(g.draw(C.pieces.size() - 1));
         double one = S->solveDistance(*C.mesh->GetElementTransformation(e), x);
         double want = C.pieces[e].exact(x);
         if (C.pieces[e].convexity(x) < 0.3) { continue; }
         g.check(std::fabs(one - want) <= 1e-11 * (size + want + far), "element-distance",
                 str(C.what, ": element ", e, " point ", x(0), ",", x(1), " got ", one, " nearest point is at ", want));
      }
   }
   // what was given is not changed
   Vector after;
   if (C.mesh->GetNodes()) { after = *C.mesh->GetNodes(); }
   else { C.mesh->GetVertices(after); }
   g.check(after.Size() == before.Size(), "given-mesh");
   for (int i = 0; i < after.Size(); ++i) { g.check(after(i) == before(i), "given-mesh", str("entry ", i)); }
   g.label(C.marker.Size() ? "boundary" : "chain");
   g.nontrivial(asked > 0 && C.pieces.size() > 1);
}
void straight(Gen &g) { distance(g, 1); }
void curved(Gen &g) { distance(g, 2); }
}  // namespace

int main(int argc, char **argv)
{
   Runner r("P32", {{"straight", straight, 3000, 60000}, {"curved", curved, 3000, 60000}},
            "chains of segments (open, closed, in any numbering and orientation, of very different lengths, several scales) and marked parts of the "
            "boundaries of distorted triangle and quadrilateral meshes, straight or quadratic, with several points each (around, beside, on and far from "
            "the curve), against every stationary point and end of every element; non-trivial: more than one element and at least one point asked");
   r.assumptions = {"two space dimensions, elements of order one and two, the cases the class documents",
                    "points around which some element bends (several local nearest points) are skipped and labelled"};
   return r.main(argc, argv);
}
