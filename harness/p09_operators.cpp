// P09: composite, matrix-free and block operators; linear-solver factory
#include "mpi_init.hpp"
#include "mfem_extensions.hpp"
#include "matrix_operators.hpp"
#include "miso_residual.hpp"
#include "utils.hpp"

using namespace pbt;
using namespace mfem;
using miso::MISOInputs;
namespace
{
double norm(const Vector &x)
{
   long double s = 0;
   for (int i = 0; i < x.Size(); ++i) { s += (long double)x(i) * x(i); }
   return (double)sqrtl(s);
}
DenseMatrix dense(Gen &g, int h, int w, double mag = 1.0)
{
   DenseMatrix m(h, w);
   for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { m(i, j) = g.sym(mag); } }
   return m;
}
Vector rnd(Gen &g, int n, double mag = 1.0)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = g.sym(mag); }
   return v;
}
std::string mat_str(const DenseMatrix &m)
{
   std::string s;
   for (int i = 0; i < m.Height(); ++i) { Vector r(m.Width()); m.GetRow(i, r); s += vec_str(r, m.Width()); }
   return s;
}
double scalar(Gen &g)
{
   switch (g.irange(0, 5))
   {
   case 0: return 0.0;
   case 1: return 1.0;
   case 2: return -1.0;
   case 3: return g.logreal(1e-8, 1e8);
   case 4: return g.pick({-1e-12, 1 + 1e-12, 1 - 1e-9, 2.0, 0.5, 1e-15, 1 + 1e-15});
   default: return g.sym(3);
   }
}

void sums(Gen &g)
{
   int h = g.irange(1, 6), w = g.flip() ? h : g.irange(1, 6);
   if (h != w) { g.label("rectangular"); }
   DenseMatrix A = dense(g, h, w), B = dense(g, h, w), C = dense(g, h, w);
   double a = scalar(g), b = scalar(g);
   bool empty_ctor = g.chance(1, 3);
   std::unique_ptr<miso::SumOfOperators> s;
   if (empty_ctor)
   {
      s = h == w && g.flip() ? std::make_unique<miso::SumOfOperators>(h) : std::make_unique<miso::SumOfOperators>(h, w);
      s->Add(a, A, b, B);
   }
   else { s = std::make_unique<miso::SumOfOperators>(a, A, b, B); }
   g.check(s->Height() == h && s->Width() == w, "sizes");
   DenseMatrix *p = &A, *q = &B;
   int steps = g.irange(1, 6);
   std::string hist = str("h=", h, " w=", w, " a=", a, " b=", b);
   bool any = false;
   Vector y(h);
   for (int i = 0; i < h; ++i) { y(i) = g.chance(1, 8) ? std::nan("") : g.sym(100); }
   for (int k = 0; k < steps; ++k)
   {
      if (k > 0 && g.flip())
      {
         a = scalar(g);
         b = scalar(g);
         DenseMatrix *all[] = {&A, &B, &C};
         p = all[g.irange(0, 2)];
         q = all[g.irange(0, 2)];
         s->Add(a, *p, b, *q);
         hist += str("; Add ", a, " ", b);
      }
      if (g.chance(1, 4)) { y.SetSize(g.irange(0, 7)); y = 7.0; g.label("resized-output"); if (y.Size() < h) { y.SetSize(h); } }
      Vector x = rnd(g, w, g.pick({1.0, 1e6, 1e-6}));
      hist += "; Mult " + vec_str(x, w);
      g.note(hist);
      Vector x0(x);
      s->Mult(x, y);
      g.check(y.Size() == h, "output-size", str(y.Size()));
      for (int i = 0; i < w; ++i) { g.check(x(i) == x0(i), "input-changed"); }
      for (int i = 0; i < h; ++i)
      {
         long double r = 0, sc = 0;
         for (int j = 0; j < w; ++j)
         {
            long double t = (long double)a * (*p)(i, j) * x(j), u = (long double)b * (*q)(i, j) * x(j);
            r += t + u;
            sc += fabsl(t) + fabsl(u);
         }
         // scalars are compared to zero and one with an absolute tolerance of 1e-16
         sc += 10 * norm(x) * w;
         g.close(y(i), (double)r, 1e-14 * (double)sc, a == 0 || b == 0 ? "sum-with-zero-scalar" : "sum", str("row ", i, " a=", a, " b=", b));
      }
      any = any || (a != 0 && b != 0);
      if (a == 0 || b == 0) { g.label("zero-scalar"); }
   }
   // incompatible sizes are rejected
   if (g.chance(1, 4))
   {
      DenseMatrix D = dense(g, h + (g.flip() ? 1 : 0), w + 1);
      bool thrown = false;
      try { miso::SumOfOperators bad(1.0, A, 1.0, D); }
      catch (const miso::MISOException &) { thrown = true; }
      g.check(thrown, "incompatible-sizes-accepted");
   }
   g.nontrivial(any);
}

/// block-structured residual R_i = sum_j A_ij u_j + c_i sin(u_i) + p * u_i^2 + q_i
struct Res
{
   int n;
   DenseMatrix A;
   Vector c, q;
   double p = 0.0;
   Array<int> offsets;
   std::vector<std::shared_ptr<DenseMatrix>> dense_blocks;
   std::vector<std::shared_ptr<SparseMatrix>> sparse_blocks;
   std::vector<std::shared_ptr<HypreParMatrix>> hypre_blocks;
   bool hypre = false;
   int evals = 0;
   DenseMatrix jac(const Vector &u) const
   {
      DenseMatrix J(A);
      for (int i = 0; i < n; ++i) { J(i, i) += c(i) * std::cos(u(i)) + 2 * p * u(i); }
      return J;
   }
   Vector value(const Vector &u) const
   {
      Vector r(n);
      A.Mult(u, r);
      for (int i = 0; i < n; ++i) { r(i) += c(i) * std::sin(u(i)) + p * u(i) * u(i) + q(i); }
      return r;
   }
};
int getSize(const Res &r) { return r.n; }
MPI_Comm getMPIComm(const Res &) { return MPI_COMM_SELF; }
void setInputs(Res &r, const MISOInputs &in) { miso::setValueFromInputs(in, "p", r.p); }
void evaluate(Res &r, const MISOInputs &in, Vector &out)
{
   setInputs(r, in);
   Vector u;
   miso::setVectorFromInputs(in, "state", u, false, true);
   out = r.value(u);
   ++r.evals;
}
Operator &getJacobian(Res &, const MISOInputs &, const std::string &) { throw std::runtime_error("full Jacobian not wanted"); }
Operator &getJacobianBlock(Res &r, const MISOInputs &in, int i)
{
   Vector u;
   miso::setVectorFromInputs(in, "state", u, false, true);
   DenseMatrix J = r.jac(u);
   int o = r.offsets[i], m = r.offsets[i + 1] - o;
   auto d = std::make_shared<DenseMatrix>(m);
   for (int a = 0; a < m; ++a) { for (int b = 0; b < m; ++b) { (*d)(a, b) = J(o + a, o + b); } }
   if (!r.hypre) { r.dense_blocks.push_back(d); return *d; }
   auto s = std::make_shared<SparseMatrix>(m, m);
   for (int a = 0; a < m; ++a) { for (int b = 0; b < m; ++b) { s->Set(a, b, (*d)(a, b)); } }
   s->Finalize(0);
   r.sparse_blocks.push_back(s);
   HYPRE_BigInt rs[2] = {0, m};
   auto h = std::make_shared<HypreParMatrix>(MPI_COMM_SELF, m, rs, s.get());
   r.hypre_blocks.push_back(h);
   return *h;
}
std::shared_ptr<SparseMatrix> sparse_of(const DenseMatrix &d)
{
   auto s = std::make_shared<SparseMatrix>(d.Height(), d.Width());
   for (int a = 0; a < d.Height(); ++a) { for (int b = 0; b < d.Width(); ++b) { s->Set(a, b, d(a, b)); } }
   s->Finalize(0);
   return s;
}
/// a solver that stands for the inverse of the matrix it is given
class Inv : public Solver
{
public:
   mutable DenseMatrixInverse inv;
   DenseMatrix m;
   int set = 0;
   Inv(int n) : Solver(n) { }
   void SetOperator(const Operator &op) override
   {
      ++set;
      m.SetSize(op.Height());
      Vector e(op.Width()), col(op.Height());
      for (int j = 0; j < op.Width(); ++j)
      {
         e = 0.0;
         e(j) = 1.0;
         op.Mult(e, col);
         m.SetCol(j, col);
      }
      height = width = op.Height();
   }
   void Mult(const Vector &x, Vector &y) const override { m.Mult(x, y); }
   void MultTranspose(const Vector &x, Vector &y) const override { m.MultTranspose(x, y); }
};

void matrix_free(Gen &g)
{
   int nb = g.irange(1, 3);
   Res r;
   r.offsets.SetSize(nb + 1);
   r.offsets[0] = 0;
   for (int i = 0; i < nb; ++i) { r.offsets[i + 1] = r.offsets[i] + g.irange(1, 4); }
   r.n = r.offsets[nb];
   int n = r.n;
   double mag = g.pick({1.0, 1e3, 1e-3});
   r.A = dense(g, n, n, mag);
   r.c.SetSize(n);
   r.q.SetSize(n);
   bool nonlinear = g.flip();
   for (int i = 0; i < n; ++i) { r.c(i) = nonlinear ? g.sym(mag) : 0.0; r.q(i) = g.sym(mag); }
   r.hypre = g.chance(1, 3);
   bool hyp = r.hypre;
   Array<int> offs(r.offsets);
   Vector state = rnd(g, n, g.pick({1.0, 10.0}));
   double pval = nonlinear ? g.sym(mag) : 0.0;
   // explicit part: block diagonal (plus off-diagonal blocks)
   std::vector<DenseMatrix> ed;
   std::vector<std::shared_ptr<SparseMatrix>> es;
   std::vector<std::shared_ptr<HypreParMatrix>> eh;
   BlockOperator E(offs);
   DenseMatrix Efull(n);
   Efull = 0.0;
   bool has_explicit = g.flip();
   ed.reserve(16);
   for (int i = 0; i < nb; ++i)
   {
      for (int j = 0; j < nb; ++j)
      {
         int hi = offs[i + 1] - offs[i], wj = offs[j + 1] - offs[j];
         if (i != j && (hyp || g.flip())) { continue; }
         ed.push_back(dense(g, hi, wj));
         for (int a = 0; a < hi; ++a) { for (int b = 0; b < wj; ++b) { Efull(offs[i] + a, offs[j] + b) = ed.back()(a, b); } }
         if (hyp)
         {
            es.push_back(sparse_of(ed.back()));
            HYPRE_BigInt rs[2] = {0, hi};
            eh.push_back(std::make_shared<HypreParMatrix>(MPI_COMM_SELF, hi, rs, es.back().get()));
            E.SetBlock(i, j, eh.back().get());
         }
         else { E.SetBlock(i, j, &ed.back()); }
      }
   }
   Res model = r;
   miso::MISOResidual res(std::move(r));
   std::unique_ptr<miso::JacobianFree> J = has_explicit ? std::make_unique<miso::JacobianFree>(res, E) : std::make_unique<miso::JacobianFree>(res);
   g.check(J->Height() == n && J->Width() == n, "sizes");
   double scale = 1.0;
   bool set = false;
   std::string hist = str("n=", n, " blocks=", nb, hyp ? " hypre" : " dense", nonlinear ? " nonlinear" : " linear", has_explicit ? " explicit" : "", " mag=", mag, " A=", mat_str(model.A));
   int steps = g.irange(2, 7);
   bool ok = false;
   for (int k = 0; k < steps; ++k)
   {
      int op = k == 0 ? g.irange(0, 1) : g.irange(0, 5);
      if (op <= 1)
      {
         state = rnd(g, n, g.pick({1.0, 10.0}));
         pval = nonlinear ? g.sym(mag) : 0.0;
         if (op == 0)
         {
            Vector st(state);
            J->setState(MISOInputs{{"state", st}, {"p", pval}});
            // the operator keeps its own copy of the state
            if (g.flip()) { st = 1e3; }
         }
         else
         {
            miso::setInputs(res, MISOInputs{{"p", pval}});
            Vector st(state);
            J->setState(st);
            if (g.flip()) { st = 1e3; }
         }
         set = true;
         hist += str("; state ", vec_str(state, n), " p=", pval);
      }
      else if (op == 2)
      {
         scale = scalar(g);
         J->setScaling(scale);
         hist += str("; scale ", scale);
      }
      else if (op <= 4)
      {
         double xm = g.pick({1.0, 1e4, 1e-4, 1e-7, 0.0});
         Vector x = rnd(g, n, xm), y(n), x0(x);
         y = g.flip() ? 55.0 : std::nan("");
         hist += "; Mult " + vec_str(x, n);
         g.note(hist);
         J->Mult(x, y);
         for (int i = 0; i < n; ++i) { g.check(x(i) == x0(i), "input-changed"); }
         DenseMatrix D = model.A;
         Res m2 = model;
         m2.p = pval;
         D = m2.jac(state);
         double x2 = norm(x);
         double eps = x2 * x2 > 1e-6 ? 1e-5 / x2 : 1e-7;
         Vector f0 = m2.value(state);
         double fmag = mag * (norm(state) * n + 3) + std::fabs(pval) * norm(state) * norm(state);
         for (int i = 0; i < n; ++i)
         {
            long double e = 0, es = 0;
            for (int j = 0; j < n; ++j)
            {
               e += (long double)scale * D(i, j) * x(j) + (has_explicit ? (long double)Efull(i, j) * x(j) : 0.0L);
               es += has_explicit ? std::fabs(Efull(i, j) * x(j)) : 0.0;
            }
            // truncation of the forward difference and cancellation
            double tol = std::fabs(scale) * (0.5 * eps * (std::fabs(m2.c(i)) + 2 * std::fabs(pval)) * x(i) * x(i) * 1.01 + 64 * n * 1.2e-16 * (fmag + mag * norm(state)) / eps) + 1e-14 * (double)es;
            tol += 3e-16 * 10 * (mag + std::fabs(pval)) * x2 * n;
            tol = std::max(tol, 1e-300);
            g.close(y(i), (double)e, tol, scale == 0 ? "product-with-zero-scaling" : "product", str("row ", i, " |x|=", x2));
         }
         if (x2 > 0 && scale != 0) { ok = true; }
      }
      else
      {
         int b = g.irange(0, nb - 1);
         hist += str("; block ", b);
         g.note(hist);
         Operator &blk = J->getDiagonalBlock(b);
         int o = offs[b], m = offs[b + 1] - o;
         g.check(blk.Height() == m && blk.Width() == m, "block-size");
         Res m2 = model;
         m2.p = pval;
         DenseMatrix D = m2.jac(state);
         Vector x = rnd(g, m), y(m);
         blk.Mult(x, y);
         for (int i = 0; i < m; ++i)
         {
            long double e = 0, s = 0;
            for (int j = 0; j < m; ++j)
            {
               long double t = (long double)scale * D(o + i, o + j), u = has_explicit ? Efull(o + i, o + j) : 0.0;
               e += (t + u) * x(j);
               s += (fabsl(t) + fabsl(u)) * std::fabs(x(j));
            }
            g.close(y(i), (double)e, 1e-12 * (double)s + 1e-300, "diagonal-block", str("block ", b, " row ", i));
         }
         // and the block preconditioner is given these blocks
         g.label("blocks");
         std::vector<std::unique_ptr<Inv>> inv;
         miso::BlockJacobiPreconditioner pre(offs);
         std::vector<int> null(nb, 0);
         for (int i = 0; i < nb; ++i)
         {
            inv.push_back(std::make_unique<Inv>(offs[i + 1] - offs[i]));
            if (g.chance(1, 4)) { null[i] = 1; }
            else { pre.SetDiagonalBlock(i, inv.back().get()); }
         }
         pre.SetOperator(*J);
         Vector xx = rnd(g, n), yy(n);
         pre.Mult(xx, yy);
         for (int bb = 0; bb < nb; ++bb)
         {
            for (int i = offs[bb]; i < offs[bb + 1]; ++i)
            {
               long double e = 0, s = 0;
               for (int j = offs[bb]; j < offs[bb + 1]; ++j)
               {
                  long double t = null[bb] ? (i == j) : (long double)scale * D(i, j) + (has_explicit ? Efull(i, j) : 0.0);
                  e += t * xx(j);
                  s += fabsl(t) + std::fabs(scale * D(i, j));
               }
               g.close(yy(i), (double)e, 1e-11 * (double)s + 1e-300, "preconditioner-block", str("block ", bb, " row ", i));
            }
         }
      }
      if (!set) { break; }
   }
   g.nontrivial(ok);
}

void block_jacobi(Gen &g)
{
   int nb = g.irange(1, 5);
   Array<int> offs(nb + 1);
   offs[0] = 0;
   for (int i = 0; i < nb; ++i) { offs[i + 1] = offs[i] + g.irange(1, 4); }
   int n = offs[nb];
   miso::BlockJacobiPreconditioner pre(offs);
   g.check(pre.NumBlocks() == nb && pre.Height() == n && pre.Width() == n, "sizes");
   std::vector<std::unique_ptr<Inv>> sol;
   std::vector<Inv *> cur(nb, nullptr);
   std::vector<std::vector<DenseMatrix>> blk;
   std::string hist = str("blocks ", nb, " n=", n);
   int steps = g.irange(2, 9);
   bool ok = false;
   std::vector<std::unique_ptr<BlockOperator>> ops;
   std::vector<std::vector<std::unique_ptr<DenseMatrix>>> mats;
   for (int k = 0; k < steps; ++k)
   {
      switch (g.irange(0, 3))
      {
      case 0:
      {
         int i = g.irange(0, nb - 1);
         sol.push_back(std::make_unique<Inv>(offs[i + 1] - offs[i]));
         DenseMatrix d = dense(g, offs[i + 1] - offs[i], offs[i + 1] - offs[i]);
         sol.back()->m = d;
         cur[i] = sol.back().get();
         pre.SetDiagonalBlock(i, cur[i]);
         g.check(&pre.GetDiagonalBlock(i) == cur[i], "get-diagonal-block");
         hist += str("; set ", i);
         break;
      }
      case 1:
      {
         ops.push_back(std::make_unique<BlockOperator>(offs));
         mats.emplace_back();
         for (int i = 0; i < nb; ++i)
         {
            for (int j = 0; j < nb; ++j)
            {
               if (i != j && g.flip()) { continue; }
               mats.back().push_back(std::make_unique<DenseMatrix>(dense(g, offs[i + 1] - offs[i], offs[j + 1] - offs[j])));
               ops.back()->SetBlock(i, j, mats.back().back().get());
            }
         }
         std::vector<int> before(nb);
         for (int i = 0; i < nb; ++i) { before[i] = cur[i] ? cur[i]->set : 0; }
         hist += "; operator";
         pre.SetOperator(*ops.back());
         for (int i = 0; i < nb; ++i)
         {
            if (!cur[i]) { continue; }
            g.check(cur[i]->set == before[i] + 1, "operator-set-once");
            auto &b = dynamic_cast<DenseMatrix &>(ops.back()->GetBlock(i, i));
            for (int a = 0; a < b.Height(); ++a) { for (int c = 0; c < b.Width(); ++c) { g.check(cur[i]->m(a, c) == b(a, c), "wrong-block-given"); } }
         }
         break;
      }
      case 2:
      {
         DenseMatrix d = dense(g, n, n);
         bool thrown = false;
         try { pre.SetOperator(d); }
         catch (const miso::MISOException &) { thrown = true; }
         g.check(thrown, "accepts-an-operator-without-blocks");
         hist += "; bad operator";
         break;
      }
      default:
      {
         bool tr = g.flip();
         Vector x = rnd(g, n), y(n), x0(x);
         y = g.flip() ? 9.0 : std::nan("");
         hist += tr ? "; MultTranspose" : "; Mult";
         g.note(hist);
         if (tr) { pre.MultTranspose(x, y); }
         else { pre.Mult(x, y); }
         for (int b = 0; b < nb; ++b)
         {
            for (int i = offs[b]; i < offs[b + 1]; ++i)
            {
               long double e = cur[b] ? 0 : x0(i);
               for (int j = offs[b]; cur[b] && j < offs[b + 1]; ++j) { e += (long double)(tr ? cur[b]->m(j - offs[b], i - offs[b]) : cur[b]->m(i - offs[b], j - offs[b])) * x0(j); }
               g.close(y(i), (double)e, 1e-14 * n, tr ? "block-transpose" : "block-product", str("block ", b));
               g.check(x(i) == x0(i), "input-changed");
               ok = ok || cur[b];
            }
         }
      }
      }
   }
   g.nontrivial(ok);
}

/// counts applications
class Counted : public Operator
{
public:
   const Operator &m;
   mutable int applied = 0;
   Counted(const Operator &a) : Operator(a.Height()), m(a) { }
   void Mult(const Vector &x, Vector &y) const override { ++applied; m.Mult(x, y); }
};

void linear_factory(Gen &g)
{
   std::string type = g.pick({"gmres", "fgmres", "pcg", "minres", "hypregmres", "hyprefgmres", "hyprepcg", "cg", "GMRES", "", "hypre", "bicgstab"});
   int n = g.irange(1, 12);
   bool hypre = type.substr(0, 5) == "hypre" && type != "hypre";
   bool spd = type == "pcg" || type == "hyprepcg" || type == "minres";
   DenseMatrix A(n);
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { A(i, j) = g.sym(1) * (g.chance(1, 3) ? 1.0 : 0.2); } }
   if (spd)
   {
      DenseMatrix B(A), C(n);
      MultAAt(B, C);
      A = C;
   }
   for (int i = 0; i < n; ++i) { A(i, i) += spd ? g.real(0.2, 2.0) : g.real(1.2, 4.0) + (g.flip() ? n * 0.2 : 0.0); }
   if (type == "minres" && g.flip()) { for (int i = 0; i < n; i += 2) { A(i, i) = -A(i, i) - 1; } g.label("indefinite"); }
   auto S = sparse_of(A);
   HYPRE_BigInt rs[2] = {0, n};
   HypreParMatrix H(MPI_COMM_SELF, n, rs, S.get());
   nlohmann::json o = {{"type", type}, {"reltol", g.pick({1e-8, 1e-2, 1e-12, 0.0})}, {"maxiter", g.pick({100, 3, 1, 10})}, {"printlevel", g.pick({-1, 0})}};
   if (hypre) { o["printlevel"] = 0; }
   if (g.flip()) { o["abstol"] = g.pick({1e-6, 0.0, 1.0, 1e-10}); }
   if (g.flip()) { o["kdim"] = g.pick({2, 5, 20, 50}); }
   double rel = o["reltol"], abs = o.value("abstol", 0.0);
   int maxit = o["maxiter"];
   int use_prec = g.irange(0, 1);
   Vector d(n);
   for (int i = 0; i < n; ++i) { d(i) = std::fabs(A(i, i)); }
   DSmoother jac(*S, 0);
   HypreDiagScale hjac(H);
   bool known = hypre || type == "gmres" || type == "fgmres" || type == "pcg" || type == "minres";
   if (type == "minres") { use_prec = 0; }
   Solver *prec = !use_prec ? nullptr : hypre ? static_cast<Solver *>(&hjac) : static_cast<Solver *>(&jac);
   g.note(str("n=", n, " options ", o.dump(), " prec ", use_prec, " A=", mat_str(A)));
   std::unique_ptr<Solver> s;
   try
   {
      s = miso::constructLinearSolver(MPI_COMM_SELF, o, prec);
      g.check(known, "unknown-type-accepted", type);
   }
   catch (const miso::MISOException &)
   {
      g.check(!known, "known-type-rejected", type);
      g.label("rejected");
      return;
   }
   g.check(s != nullptr, "no-solver");
   g.label(type);
   Vector b = rnd(g, n, g.pick({1.0, 100.0, 1e-3}));
   auto residual = [&](const Vector &x)
   {
      Vector r(n);
      A.Mult(x, r);
      r -= b;
      return norm(r);
   };
   Vector x(n), z(n);
   x = 0.0;
   z = 0.0;
   if (hypre)
   {
      // the same hypre solver configured by hand
      std::unique_ptr<HypreSolver> ref;
      int kd = o.value("kdim", -1), it = 0;
      if (type == "hypregmres")
      {
         auto r = std::make_unique<HypreGMRES>(MPI_COMM_SELF);
         r->SetTol(rel); r->SetAbsTol(abs); r->SetMaxIter(maxit); r->SetPrintLevel(0);
         if (kd > 0) { r->SetKDim(kd); }
         if (prec) { r->SetPreconditioner(hjac); }
         ref = std::move(r);
         g.check(dynamic_cast<HypreGMRES *>(s.get()) != nullptr, "wrong-solver-built", type);
      }
      else if (type == "hyprefgmres")
      {
         auto r = std::make_unique<HypreFGMRES>(MPI_COMM_SELF);
         r->SetTol(rel); r->SetMaxIter(maxit); r->SetPrintLevel(0);
         if (kd > 0) { r->SetKDim(kd); }
         if (prec) { r->SetPreconditioner(hjac); }
         ref = std::move(r);
         g.check(dynamic_cast<HypreFGMRES *>(s.get()) != nullptr, "wrong-solver-built", type);
      }
      else
      {
         auto r = std::make_unique<HyprePCG>(MPI_COMM_SELF);
         r->SetTol(rel); r->SetAbsTol(abs); r->SetMaxIter(maxit); r->SetPrintLevel(0);
         if (prec) { r->SetPreconditioner(hjac); }
         ref = std::move(r);
         g.check(dynamic_cast<HyprePCG *>(s.get()) != nullptr, "wrong-solver-built", type);
      }
      if (type == "hyprepcg" && rel == 0 && abs == 0) { g.discard(); }
      s->SetOperator(H);
      ref->SetOperator(H);
      s->iterative_mode = ref->iterative_mode = g.flip();
      s->Mult(b, x);
      ref->Mult(b, z);
      (void)it;
   }
   else
   {
      std::unique_ptr<IterativeSolver> ref;
      int kd = o.value("kdim", -1);
      if (type == "gmres") { auto r = std::make_unique<GMRESSolver>(MPI_COMM_SELF); if (kd > 0) { r->SetKDim(kd); } ref = std::move(r); g.check(dynamic_cast<GMRESSolver *>(s.get()), "wrong-solver-built", type); }
      else if (type == "fgmres") { auto r = std::make_unique<FGMRESSolver>(MPI_COMM_SELF); if (kd > 0) { r->SetKDim(kd); } ref = std::move(r); g.check(dynamic_cast<FGMRESSolver *>(s.get()), "wrong-solver-built", type); }
      else if (type == "pcg") { ref = std::make_unique<CGSolver>(MPI_COMM_SELF); g.check(dynamic_cast<CGSolver *>(s.get()), "wrong-solver-built", type); }
      else { ref = std::make_unique<MINRESSolver>(MPI_COMM_SELF); g.check(dynamic_cast<MINRESSolver *>(s.get()), "wrong-solver-built", type); }
      ref->SetRelTol(rel);
      ref->SetAbsTol(abs);
      ref->SetMaxIter(maxit);
      ref->SetPrintLevel(-1);
      if (prec) { ref->SetPreconditioner(*prec); }
      Counted c1(A), c2(A);
      // the iterative solver must not touch the preconditioner's operator here
      auto *it = dynamic_cast<IterativeSolver *>(s.get());
      g.check(it != nullptr, "not-iterative");
      if (prec) { s->SetOperator(*S); ref->SetOperator(*S); }
      else { s->SetOperator(c1); ref->SetOperator(c2); }
      s->iterative_mode = ref->iterative_mode = g.flip();
      s->Mult(b, x);
      ref->Mult(b, z);
      g.check(it->GetNumIterations() == ref->GetNumIterations(), "iteration-count", str(it->GetNumIterations(), " vs ", ref->GetNumIterations()));
      g.check(it->GetConverged() == ref->GetConverged(), "converged-flag");
      g.check(c1.applied == c2.applied, "operator-applications", str(c1.applied, " vs ", c2.applied));
      if (it->GetConverged() && !prec && rel > 0 && (type == "gmres" || type == "fgmres" || type == "minres") && std::isfinite(norm(x)))
      {
         g.label("converged");
         g.check(residual(x) <= std::max(rel * norm(b), abs) * (1 + 1e-6) + 1e-12 * (norm(b) + norm(x) * n), "converged-above-tolerance", str(residual(x)));
      }
   }
   for (int i = 0; i < n; ++i)
   {
      if (std::isnan(z(i)) && std::isnan(x(i))) { g.label("breakdown"); continue; }
      g.check(x(i) == z(i), "differs-from-the-named-solver", str("component ", i, " ", x(i), " vs ", z(i)));
   }
   g.nontrivial(n > 1);
}
}  // namespace


int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P09", {{"sums", sums, 60000, 1000000}, {"matrix_free", matrix_free, 30000, 600000}, {"block_jacobi", block_jacobi, 40000, 600000}, {"linear_factory", linear_factory, 20000, 400000}},
            "random matrices, scalars (zeros, ones and near ones included), block structures and operation sequences on one operator object; residuals with a closed-form Jacobian; "
            "non-trivial: a product with both terms active, a non-zero direction, a set block, or a solve of more than one unknown");
   r.assumptions = {"the linear solvers themselves are MFEM's and hypre's: the factory is compared with the same solver configured by hand"};
   return r.main(argc, argv);
}
