// Random problems for the checks of whole outputs and residuals: a parallel
// mesh with named fields, inputs given in several steps, and derivatives of
// anything that is evaluated from named inputs
#ifndef VERIF_OUTGEN_HPP
#define VERIF_OUTGEN_HPP
#include "femgen.hpp"
#include "finite_element_state.hpp"
#include "miso_input.hpp"
#include "miso_output.hpp"
#include "nlohmann/json.hpp"
#include <map>
#include <set>

namespace outgen
{
using namespace femgen;
using nlohmann::json;
typedef miso::MISOInputs Inputs;

/// mesh and fields, as a solver keeps them
struct World
{
   FemMesh serial;
   std::unique_ptr<ParMesh> mesh;
   std::map<std::string, miso::FiniteElementState> fields;
   std::map<std::string, Vector> tv;       // current true values of each field
   std::map<std::string, double> num;      // current values of scalar inputs
   std::vector<int> attrs;                 // attributes present
   std::set<std::string> dirty;            // changed since last named in inputs
   int dim;
   bool affine, simplex;

   World(Gen &g, int d, const MeshSpec &s = MeshSpec()) : serial(fem_mesh(g, d, s)), mesh(new ParMesh(MPI_COMM_WORLD, *serial.mesh)), dim(d)
   {
      affine = serial.affine;
      simplex = serial.simplex;
      auto &nodes = *dynamic_cast<ParGridFunction *>(mesh->GetNodes());
      fields.emplace(std::piecewise_construct, std::forward_as_tuple("mesh_coords"), std::forward_as_tuple(*mesh, *nodes.ParFESpace(), "mesh_coords"));
      auto &x = fields.at("mesh_coords");
      x.gridFunc() = nodes;
      mesh->NewNodes(x.gridFunc(), false);
      x.setTrueVec(tv["mesh_coords"]);
      for (int i = 0; i < mesh->attributes.Size(); ++i) { attrs.push_back(mesh->attributes[i]); }
   }
   miso::FiniteElementState &at(const std::string &n) { return fields.at(n); }
   /// kind: "H1", "DG", "nedelec", "RT"
   miso::FiniteElementState &add(const std::string &n, const std::string &kind, int p, int vdim = 1)
   {
      fields.emplace(std::piecewise_construct, std::forward_as_tuple(n),
                     std::forward_as_tuple(*mesh, json{{"degree", p}, {"basis-type", kind}}, vdim, n));
      auto &f = fields.at(n);
      f.gridFunc() = 0.0;
      f.setTrueVec(tv[n]);
      return f;
   }
   void set(const std::string &n, const Vector &v)
   {
      tv[n] = v;
      dirty.insert(n);
      at(n).distributeSharedDofs(tv[n]);
   }
   void random(Gen &g, const std::string &n, double a = 1, double shift = 0)
   {
      Vector v = random_dir(g, at(n).space().GetTrueVSize(), a);
      v += shift;
      set(n, v);
   }
   void move_nodes(Gen &g, double a = 0.02)
   {
      Vector v = tv.at("mesh_coords");
      v += random_dir(g, v.Size(), a);
      set("mesh_coords", v);
   }
   /// inputs naming the given fields and numbers; the arrays stay in tv, and
   /// the fields themselves are spoilt until whoever gets the inputs sets them
   Inputs inputs(const std::vector<std::string> &names)
   {
      Inputs in;
      for (auto &n : names)
      {
         dirty.erase(n);
         if (num.count(n))
         {
            in.emplace(n, num.at(n));
            continue;
         }
         in.emplace(n, tv.at(n));
         if (!fields.count(n)) { continue; }
         auto &gf = at(n).gridFunc();
         double a = n == "mesh_coords" ? 1e-3 : 0.3;
         for (int i = 0; i < gf.Size(); ++i) { gf(i) += a * std::sin(1.0 + 3 * i); }
      }
      return in;
   }
   /// inputs naming what has changed, some more, and what is always needed
   Inputs changes(Gen &g, const std::vector<std::string> &all, const std::vector<std::string> &needed)
   {
      std::vector<std::string> n;
      for (auto &s : all)
         if (dirty.count(s) || std::count(needed.begin(), needed.end(), s) || g.chance(1, 4)) { n.push_back(s); }
      return inputs(n);
   }
   std::vector<int> some_attrs(Gen &g)
   {
      std::vector<int> a;
      for (int k : attrs)
         if (g.flip()) { a.push_back(k); }
      if (a.empty()) { a.push_back(attrs[g.irange(0, int(attrs.size()) - 1)]); }
      return a;
   }
   bool in(int attr, const std::vector<int> &a) { return a.empty() || std::count(a.begin(), a.end(), attr); }
   template <typename F>
   double integral(int order, const std::vector<int> &a, F f)
   {
      return quad(*mesh, order, [&](ElementTransformation &T, const IntegrationPoint &ip) { return in(T.Attribute, a) ? f(T, ip) : 0.0; });
   }
   double volume(const std::vector<int> &a)
   {
      return integral(8, a, [](ElementTransformation &, const IntegrationPoint &) { return 1.0; });
   }
   double value(const std::string &n, ElementTransformation &T, const IntegrationPoint &ip) { return at(n).gridFunc().GetValue(T, ip); }
};

/// forward and reverse derivatives of a scalar output with respect to a field
/// or a number; eval(): the output at the world's current values, prepare():
/// what has to be called before asking for derivatives
template <typename Out, typename Eval, typename Prep>
void output_derivative(Gen &g, World &w, Out &out, const std::string &wrt, Eval eval, Prep prepare, double h, const std::string &key,
                       bool forward = true, bool reverse = true, double rtol = 1e-6)
{
   bool scalar = w.num.count(wrt) > 0;
   double a = g.sym(2);
   Vector bar = one(a);
   if (scalar)
   {
      double x0 = w.num[wrt], d = g.sym(1.0);
      double jv = 0, vj = 0;
      prepare();
      bool rev_first = g.flip();
      for (int k = 0; k < 2; ++k)
      {
         if ((k == 0) == rev_first) { if (reverse) { vj = vectorJacobianProduct(out, bar, wrt); } }
         else if (forward) { jv = jacobianVectorProduct(out, one(d), wrt); }
      }
      auto f = [&](const Vector &x, Vector &y) {
         w.num[wrt] = x(0);
         y = one(eval());
      };
      if (forward) { fd_check(g, f, one(x0), one(d), one(jv), h, key + " forward", "", rtol, 1e-12); }
      if (reverse)
      {
         auto fa = [&](const Vector &x, Vector &y) {
            f(x, y);
            y *= a;
         };
         fd_check(g, fa, one(x0), one(1.0), one(vj), h, key + " reverse", "", rtol, 1e-12);
      }
      w.num[wrt] = x0;
      return;
   }
   Vector x0 = w.tv.at(wrt), d = random_dir(g, x0.Size());
   if (g.chance(1, 3))
   {
      d = 0.0;
      d(g.irange(0, d.Size() - 1)) = 1.0;
   }
   Vector was = random_dir(g, x0.Size()), wb(was);
   double jv = 0;
   prepare();
   bool rev_first = g.flip();
   for (int k = 0; k < 2; ++k)
   {
      if ((k == 0) == rev_first)
      {
         if (reverse) { vectorJacobianProduct(out, bar, wrt, wb); }
      }
      else if (forward) { jv = jacobianVectorProduct(out, d, wrt); }
   }
   auto f = [&](const Vector &x, Vector &y) {
      w.set(wrt, x);
      y = one(eval());
   };
   if (forward) { fd_check(g, f, x0, d, one(jv), h, key + " forward", "", rtol, 1e-12); }
   if (reverse)
   {
      wb -= was;
      auto fa = [&](const Vector &x, Vector &y) {
         f(x, y);
         y *= a;
      };
      fd_check(g, fa, x0, d, one(wb * d), h, key + " reverse", "", rtol, 1e-12);
   }
   w.set(wrt, x0);
}

/// reverse derivatives of a vector output; eval(): the output's vector at the
/// world's current values
template <typename Out, typename Eval, typename Prep>
void vector_output_derivative(Gen &g, World &w, Out &out, const std::string &wrt, Eval eval, Prep prepare, double h, const std::string &key, double rtol = 1e-6)
{
   Vector y0 = eval();
   Vector bar = random_dir(g, y0.Size());
   auto dot = [&](const Vector &v) { return one(v * bar); };
   if (w.num.count(wrt) > 0)
   {
      double x0 = w.num[wrt];
      prepare();
      double vj = vectorJacobianProduct(out, bar, wrt);
      auto f = [&](const Vector &x, Vector &y) {
         w.num[wrt] = x(0);
         y = dot(eval());
      };
      fd_check(g, f, one(x0), one(1.0), one(vj), h, key + " reverse", "", rtol, 1e-12);
      w.num[wrt] = x0;
      return;
   }
   Vector x0 = w.tv.at(wrt), d = random_dir(g, x0.Size()), was = random_dir(g, x0.Size()), wb(was);
   prepare();
   vectorJacobianProduct(out, bar, wrt, wb);
   wb -= was;
   auto f = [&](const Vector &x, Vector &y) {
      w.set(wrt, x);
      y = dot(eval());
   };
   fd_check(g, f, x0, d, one(wb * d), h, key + " reverse", "", rtol, 1e-12);
   w.set(wrt, x0);
}
/// the energies of an integrator (checked on its own elsewhere) on the
/// elements with the given attributes
template <typename I>
double sum(World &w, I &i, const std::vector<int> &attrs, const std::string &field)
{
   auto &fes = w.at(field).space();
   Vector ue;
   Array<int> d;
   DofTransformation *t;
   double s = 0;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      if (!w.in(fes.GetAttribute(e), attrs)) { continue; }
      local(fes, e, w.at(field).gridFunc(), ue, d, t);
      s += i.GetElementEnergy(*fes.GetFE(e), *fes.GetElementTransformation(e), ue);
   }
   return s;
}
/// the vector of a linear form integrator on the elements with the given
/// attributes
template <typename I>
Vector load(World &w, I &i, const std::vector<int> &attrs, const std::string &field)
{
   auto &fes = w.at(field).space();
   Vector v(fes.GetVSize()), ve;
   v = 0.0;
   Array<int> d;
   for (int e = 0; e < fes.GetNE(); ++e)
   {
      if (!w.in(fes.GetAttribute(e), attrs)) { continue; }
      i.AssembleRHSElementVect(*fes.GetFE(e), *fes.GetElementTransformation(e), ve);
      fes.GetElementVDofs(e, d);
      v.AddElementVector(d, ve);
   }
   Vector tv(fes.GetTrueVSize());
   fes.GetProlongationMatrix()->MultTranspose(v, tv);
   return tv;
}
}  // namespace outgen
#endif
