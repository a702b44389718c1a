// P01: data-logger round trip
#include "pbt.hpp"
#include "data_logging.hpp"
#include "mpi_init.hpp"
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include <deque>

using namespace pbt;

namespace
{
struct Key
{
   std::string field;
   int step, rank;
   bool operator<(const Key &o) const { return std::tie(field, step, rank) < std::tie(o.field, o.step, o.rank); }
};
struct Rec
{
   double time;
   std::vector<double> v;
};

bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }

struct Scratch
{
   std::string dir;
   std::filesystem::path old;
   Scratch()
   {
      char t[] = "/tmp/pbtlogXXXXXX";
      dir = mkdtemp(t);
      old = std::filesystem::current_path();
      std::filesystem::current_path(dir);
   }
   ~Scratch()
   {
      std::filesystem::current_path(old);
      if (dir.compare(0, 11, "/tmp/pbtlog") == 0) { std::filesystem::remove_all(dir); }
   }
};

std::string fieldname(Gen &g)
{
   static const std::vector<std::string> pool = {"state", "u", "adjoint", "mesh_coords", "state_1", "state_1_2", "a.b", "x-y", "T"};
   return g.pick(pool);
}

double value(Gen &g, bool subnormal)
{
   double d = g.anydouble();
   (void)subnormal;
   return d;
}

// A history of saves (possibly overwriting, growing, shrinking) and reads,
// interleaved over fields, steps, ranks and both loggers, against a map.
void history(Gen &g)
{
   Scratch s;
   std::map<Key, Rec> model[2];
   int nops = g.irange(2, 14);
   bool over = false, shrink = false, reads = false;
   for (int k = 0; k < nops; ++k)
   {
      int which = g.irange(0, 1);
      auto &m = model[which];
      bool save = m.empty() || g.chance(1, 2);
      if (save)
      {
         Key key{fieldname(g), g.pick({0, 1, 2, 10, 11, 100, 99999, -1}), g.pick({0, 1, 11})};
         if (!m.empty() && g.chance(1, 3)) { key = std::next(m.begin(), g.draw(m.size() - 1))->first; }
         // "state_1" step 2 rank 0 and "state" step 1... would share a file name
         // by construction of the naming scheme only when field names end in
         // _<int>; such clashes are kept out (see DESIGN.md).
         bool clash = false;
         auto fname = [](const Key &q) { return q.field + "_" + std::to_string(q.step) + "_" + std::to_string(q.rank); };
         for (auto &e : m) { clash = clash || (fname(e.first) == fname(key) && (e.first < key || key < e.first)); }
         if (clash) { g.label("name-clash-skipped"); continue; }
         Rec r;
         r.time = value(g, false);
         int n = g.irange(0, 24);
         for (int i = 0; i < n; ++i) { r.v.push_back(value(g, false)); }
         auto it = m.find(key);
         if (it != m.end())
         {
            over = true;
            if (it->second.v.size() > r.v.size()) { shrink = true; }
         }
         // the logged object may be a view into a larger block of memory
         std::vector<double> block(r.v.size() + 4, 1234.5);
         int off = g.irange(0, 2);
         std::copy(r.v.begin(), r.v.end(), block.begin() + off);
         mfem::Vector view(block.data() + off, static_cast<int>(r.v.size()));
         if (which == 0) { miso::ASCIILogger::saveState(view, key.field, key.step, r.time, key.rank); }
         else { miso::BinaryLogger::saveState(view, key.field, key.step, r.time, key.rank); }
         for (size_t i = 0; i < r.v.size(); ++i)
         {
            g.check(same_bits(block[off + i], r.v[i]), "save-modifies-state");
         }
         g.note(str(which ? "B" : "A", ".save(", key.field, ",", key.step, ",", key.rank, ",n=", r.v.size(), ",t=", r.time, ")"));
         m[key] = r;
      }
      // after every operation read back something (old entries included)
      if (!m.empty())
      {
         auto it = std::next(m.begin(), g.draw(m.size() - 1));
         double t = -77.0;
         int n0 = g.irange(0, 30);
         mfem::Vector out(n0);
         out = 3.25;
         if (which == 0) { miso::ASCIILogger::readState(it->first.field, it->first.step, it->first.rank, t, out); }
         else { miso::BinaryLogger::readState(it->first.field, it->first.step, it->first.rank, t, out); }
         reads = true;
         std::string L = which ? "binary" : "ascii";
         g.check(out.Size() == static_cast<int>(it->second.v.size()), L + "-size",
                 str("read ", out.Size(), " values, saved ", it->second.v.size()));
         g.check(same_bits(t, it->second.time) || t == it->second.time, L + "-time", str("read time ", t, " saved ", it->second.time));
         for (int i = 0; i < out.Size(); ++i)
         {
            bool ok = which ? same_bits(out(i), it->second.v[i]) : out(i) == it->second.v[i];
            g.check(ok, L + "-value", str("entry ", i, " read ", out(i), " saved ", it->second.v[i]));
         }
      }
   }
   // final full scan: nothing lost, changed or mixed up
   for (int which = 0; which < 2; ++which)
   {
      for (auto &e : model[which])
      {
         double t = 0;
         mfem::Vector out;
         if (which == 0) { miso::ASCIILogger::readState(e.first.field, e.first.step, e.first.rank, t, out); }
         else { miso::BinaryLogger::readState(e.first.field, e.first.step, e.first.rank, t, out); }
         g.check(out.Size() == static_cast<int>(e.second.v.size()) && t == e.second.time, "scan-header");
         for (int i = 0; i < out.Size(); ++i) { g.check(out(i) == e.second.v[i], "scan-value"); }
      }
   }
   if (over) { g.label("overwrite"); }
   if (shrink) { g.label("overwrite-with-shorter"); }
   g.nontrivial(reads && model[0].size() + model[1].size() >= 2);
}

// ASCII and binary logs of the same state are interchangeable
void agree(Gen &g)
{
   Scratch s;
   int n = g.irange(1, 60);
   mfem::Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = value(g, false); }
   double t = value(g, false);
   std::string f = fieldname(g);
   int step = g.irange(0, 1000000), rank = g.irange(0, 4096);
   miso::ASCIILogger::saveState(v, f, step, t, rank);
   miso::BinaryLogger::saveState(v, f, step, t, rank);
   mfem::Vector a, b;
   double ta, tb;
   miso::ASCIILogger::readState(f, step, rank, ta, a);
   miso::BinaryLogger::readState(f, step, rank, tb, b);
   g.note(str("n=", n, " t=", t, " v0=", v(0)));
   g.nontrivial(n > 1);
   g.check(a.Size() == n && b.Size() == n, "size");
   g.check(ta == t && tb == t, "time");
   for (int i = 0; i < n; ++i) { g.check(a(i) == v(i) && b(i) == v(i), "value", str(a(i), " ", b(i), " ", v(i))); }
}

// states of the sizes real runs have, logged over a record of another size,
// and (binary only) with values a diverging run has: infinities and NaNs
void large(Gen &g)
{
   Scratch s;
   int which = g.irange(0, 1);
   int n = g.chance(1, 4) ? g.irange(5000, 70000) : g.irange(61, 3000);
   mfem::Vector v(n);
   // the engine draws the shape, a hash of the index the values
   uint64_t salt = g.draw(UINT64_MAX);
   for (int i = 0; i < n; ++i)
   {
      uint64_t x = (salt + static_cast<uint64_t>(i)) * 0x9E3779B97F4A7C15ull;
      x ^= x >> 29;
      x *= 0xBF58476D1CE4E5B9ull;
      x ^= x >> 32;
      double m = 1.0 + static_cast<double>(x >> 12) * 0x1p-52;
      v(i) = std::ldexp((x & 1) ? -m : m, static_cast<int>((x >> 1) % 200) - 100);
   }
   bool odd = false;
   if (which == 1)
   {
      static const std::vector<double> wild = {std::numeric_limits<double>::infinity(),
                                               -std::numeric_limits<double>::infinity(),
                                               std::numeric_limits<double>::quiet_NaN(),
                                               -std::numeric_limits<double>::quiet_NaN()};
      int m = g.irange(0, 3);
      for (int k = 0; k < m; ++k)
      {
         v(g.chance(1, 3) ? (g.chance(1, 2) ? 0 : n - 1) : g.irange(0, n - 1)) = g.pick(wild);
         odd = true;
      }
   }
   double t = value(g, false);
   std::string f = fieldname(g);
   int step = g.irange(0, 1000000), rank = g.irange(0, 4096);
   auto save = [&](const mfem::Vector &x, double time)
   {
      if (which == 0) { miso::ASCIILogger::saveState(x, f, step, time, rank); }
      else { miso::BinaryLogger::saveState(x, f, step, time, rank); }
   };
   if (g.chance(1, 2))
   {
      mfem::Vector w(g.irange(0, 4000));
      w = -2.5;
      save(w, 17.0);
      g.label("overwrites");
   }
   save(v, t);
   mfem::Vector out(g.irange(0, 5000));
   out = 1.0;
   double rt = -1.0;
   if (which == 0) { miso::ASCIILogger::readState(f, step, rank, rt, out); }
   else { miso::BinaryLogger::readState(f, step, rank, rt, out); }
   g.note(str(which ? "binary" : "ascii", " n=", n, odd ? " non-finite" : ""));
   g.nontrivial(true);
   g.check(out.Size() == n, "large-size", str(out.Size(), " of ", n));
   g.check(same_bits(rt, t) || rt == t, "large-time");
   for (int i = 0; i < n; ++i)
   {
      if (!same_bits(out(i), v(i)))
      {
         g.check(false, "large-value", str("entry ", i, " of ", n, ": ", out(i), " for ", v(i)));
      }
   }
}
// ParaView logs: the collection holds, for every save of a registered field,
// what a collection fed with the logged states directly holds, byte for byte
std::map<std::string, std::string> tree(const std::string &dir)
{
   std::map<std::string, std::string> m;
   if (!std::filesystem::exists(dir)) { return m; }
   for (auto &e : std::filesystem::recursive_directory_iterator(dir))
   {
      if (!e.is_regular_file()) { continue; }
      std::ifstream in(e.path(), std::ios::binary);
      std::stringstream ss;
      ss << in.rdbuf();
      m[std::filesystem::relative(e.path(), dir).string()] = ss.str();
   }
   return m;
}
void paraview(Gen &g)
{
   Scratch s;
   int dim = g.irange(1, 2), n = g.irange(1, 2);
   mfem::Mesh serial = dim == 1 ? mfem::Mesh::MakeCartesian1D(n + 1)
                                : mfem::Mesh::MakeCartesian2D(n, 2, g.flip() ? mfem::Element::TRIANGLE : mfem::Element::QUADRILATERAL);
   mfem::ParMesh mesh(MPI_COMM_WORLD, serial);
   struct Field
   {
      std::string name;
      std::unique_ptr<mfem::FiniteElementCollection> fec;
      std::unique_ptr<mfem::ParFiniteElementSpace> fes;
      std::unique_ptr<mfem::ParGridFunction> logged, want;
   };
   std::deque<Field> fields;
   std::map<std::string, Field *> live;
   std::string name = g.pick({std::string("run"), std::string("flow_solver")});
   miso::ParaViewLogger log(name, &mesh);
   mfem::ParaViewDataCollection ref(name, &mesh);
   ref.SetPrefixPath("Want");
   ref.SetDataFormat(mfem::VTKFormat::BINARY);
   ref.SetHighOrderOutput(true);
   int refine = 1, ops = g.irange(1, 7), saves = 0, cycle = -1;
   ref.SetLevelsOfDetail(refine);
   bool replaced = false;
   for (int k = 0; k < ops; ++k)
   {
      if (live.empty() || g.chance(1, 3))
      {
         Field &f = fields.emplace_back();
         f.name = fieldname(g);
         int p = g.irange(1, 3), vdim = g.irange(1, 2);
         if (g.flip()) { f.fec.reset(new mfem::H1_FECollection(p, dim)); }
         else { f.fec.reset(new mfem::L2_FECollection(p = p - 1, dim)); }
         f.fes.reset(new mfem::ParFiniteElementSpace(&mesh, f.fec.get(), vdim));
         f.logged.reset(new mfem::ParGridFunction(f.fes.get()));
         f.want.reset(new mfem::ParGridFunction(f.fes.get()));
         *f.logged = 0.5;
         *f.want = 0.5;
         replaced = replaced || live.count(f.name);
         log.registerField(f.name, *f.logged);
         ref.RegisterField(f.name, f.want.get());
         live[f.name] = &f;
         refine = std::max(refine, p);
         ref.SetLevelsOfDetail(refine);
         g.note(str("register ", f.name, " p", p, "x", vdim));
         continue;
      }
      cycle += g.irange(1, 3);
      double t = g.sym(10);
      Field &f = *std::next(live.begin(), g.draw(live.size() - 1))->second;
      mfem::Vector x(f.fes->GetTrueVSize());
      for (int i = 0; i < x.Size(); ++i) { x(i) = g.sym(5); }
      if (g.chance(1, 6))
      {
         std::string other = "unknown_" + f.name;
         log.saveState(x, other, cycle, t, 0);
         g.label("name not registered");
      }
      else
      {
         mfem::Vector before(x);
         log.saveState(x, f.name, cycle, t, 0);
         f.want->SetFromTrueDofs(before);
         ref.SetCycle(cycle);
         ref.SetTime(t);
         ref.Save();
         ++saves;
         g.note(str("save ", f.name, " ", cycle));
         for (int i = 0; i < x.Size(); ++i) { g.check(same_bits(x(i), before(i)), "paraview save modifies the state"); }
      }
      auto got = tree("ParaView"), want = tree("Want");
      for (auto &w : want)
      {
         g.check(got.count(w.first), "paraview file missing", w.first);
         g.check(got[w.first] == w.second, "paraview file differs", w.first);
      }
      for (auto &h : got) { g.check(want.count(h.first), "paraview file not asked for", h.first); }
   }
   if (replaced) { g.label("registered again"); }
   if (live.size() > 1) { g.label("several fields"); }
   g.nontrivial(saves > 1);
}
}  // namespace

int main(int argc, char **argv)
{
   use_mpi();
   Runner r("P01",
            {{"history", history, 3000, 60000}, {"agree", agree, 2000, 40000}, {"large", large, 400, 8000}, {"paraview", paraview, 300, 20000}},
            "random histories of save/read over two loggers, several fields, steps and ranks, with every value drawn from all finite doubles "
            "(zeros, small integers, random bit patterns, extreme exponents); non-trivial: at least two records live and at least one read-back");
   r.assumptions = {"values are finite and normal-range or random-bit doubles; NaN/Inf are not part of the text format and go to the binary logger only",
                    "two (field, step, rank) keys that spell the same file name are excluded"};
   return r.main(argc, argv);
}
