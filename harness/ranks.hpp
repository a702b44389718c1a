// Cases run on several MPI ranks.  A worker of the Runner keeps one mpirun per
// number of ranks, in which this same program serves cases: all ranks draw the
// same case from the same seed or choices; the choices come back to the worker,
// so that shrinking, confirmation and replays work as for any other check.
#ifndef VERIF_RANKS_HPP
#define VERIF_RANKS_HPP
#include <bits/stdc++.h>
#define private public   // the state of Gen travels
#include "pbt.hpp"
#undef private
#include "mfem.hpp"
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace ranks
{
using namespace pbt;
typedef std::function<void(Gen &)> Fn;
inline std::map<std::string, Fn> &cases()
{
   static std::map<std::string, Fn> m;
   return m;
}
constexpr size_t kBytes = Gen::kShared * 8 + Gen::kNotes;
inline uint64_t *map_file(const std::string &f)
{
   int fd = open(f.c_str(), O_RDWR | O_CREAT, 0600);
   if (fd < 0 || ftruncate(fd, kBytes) != 0) { return nullptr; }
   void *p = mmap(nullptr, kBytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   close(fd);
   return p == MAP_FAILED ? nullptr : static_cast<uint64_t *>(p);
}

// ------------------------------------------------------------ inside mpirun
/// in step: waits for data from rank 0 without burning the processor
inline std::string from_root(const std::string &s)
{
   int rank;
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   long n = s.size();
   MPI_Request r;
   int done = 0;
   MPI_Ibcast(&n, 1, MPI_LONG, 0, MPI_COMM_WORLD, &r);
   while (MPI_Test(&r, &done, MPI_STATUS_IGNORE), !done)
   {
      usleep(300);
      if (getppid() == 1) { _exit(9); }
   }
   std::string t(s);
   t.resize(n);
   if (n > 0) { MPI_Bcast(&t[0], int(n), MPI_CHAR, 0, MPI_COMM_WORLD); }
   return t;
}
inline int serve(const std::string &dir)
{
   MPI_Init(nullptr, nullptr);
   int rank;
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   FILE *in = nullptr, *out = nullptr;
   uint64_t *shm = nullptr;
   if (rank == 0)
   {
      in = fopen((dir + "/req").c_str(), "r");
      out = fopen((dir + "/rsp").c_str(), "w");
      shm = map_file(dir + "/shm");
      if (!in || !out || !shm) { MPI_Abort(MPI_COMM_WORLD, 3); }
   }
   char *line = nullptr;
   size_t cap = 0;
   while (true)
   {
      std::string req;
      if (rank == 0 && getline(&line, &cap, in) > 0) { req = line; }
      req = from_root(req);
      if (req.empty()) { break; }
      std::istringstream is(req);
      std::string name, mode;
      is >> name >> mode;
      std::vector<uint64_t> c;
      for (uint64_t v; is >> v;) { c.push_back(v); }
      Gen g = mode == "seed" ? Gen(c.at(0)) : Gen(c);
      g.shared_ = shm;
      Outcome o;
      try
      {
         cases().at(name)(g);
      }
      catch (const Discard &) { o.kind = Outcome::discard; }
      catch (const Failure &f)
      {
         o.kind = Outcome::fail;
         o.key = f.key;
         o.msg = f.msg;
      }
      catch (const std::exception &e)
      {
         // the other ranks may be waiting anywhere
         fprintf(stderr, "rank %d: exception: %s\n", rank, e.what());
         fflush(stderr);
         usleep(20000);
         MPI_Abort(MPI_COMM_WORLD, 7);
      }
      if (rank == 0)
      {
         nlohmann::json j{{"kind", int(o.kind)}, {"key", o.key}, {"msg", o.msg}, {"out", g.out_}, {"labels", g.labels_}, {"notes", g.notes_}, {"asserts", g.asserts_}, {"nontriv", g.nontriv_}};
         fprintf(out, "%s\n", j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace).c_str());
         fflush(out);
      }
   }
   MPI_Finalize();
   return 0;
}

// ------------------------------------------------------------- in the worker
struct Server
{
   pid_t pid = 0;
   int req = -1, rsp = -1;
   std::string dir;
   uint64_t *shm = nullptr;
   std::string buf;
   void start(int n)
   {
      char t[] = "rXXXXXX", cwd[4096];
      if (!mkdtemp(t) || !getcwd(cwd, sizeof cwd)) { abort(); }
      dir = std::string(cwd) + "/" + t;
      if (mkfifo((dir + "/req").c_str(), 0600) || mkfifo((dir + "/rsp").c_str(), 0600)) { abort(); }
      shm = map_file(dir + "/shm");
      req = open((dir + "/req").c_str(), O_RDWR | O_CLOEXEC);
      rsp = open((dir + "/rsp").c_str(), O_RDWR | O_CLOEXEC);
      buf.clear();
      pid = fork();
      if (pid == 0)
      {
         prctl(PR_SET_PDEATHSIG, SIGTERM);
         setpgid(0, 0);
         int null = open("/dev/null", O_RDONLY), log = open((dir + "/log").c_str(), O_WRONLY | O_CREAT, 0600);
         dup2(null, 0);
         dup2(log, 1);
         dup2(log, 2);
         char self[4096];
         ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
         self[k] = 0;
         unsetenv("OMPI_MCA_ess_singleton_isolated");
         setenv("OMPI_MCA_btl", "self,vader", 1);
         setenv("OMPI_MCA_pml", "ob1", 1);
         setenv("OMPI_MCA_btl_vader_single_copy_mechanism", "none", 1);
         setenv("OMPI_MCA_btl_vader_backing_directory", dir.c_str(), 1);
         setenv("OMPI_MCA_mpi_yield_when_idle", "1", 1);
         setenv("OMPI_MCA_orte_tmpdir_base", dir.c_str(), 1);
         setenv("OMPI_MCA_plm", "isolated", 1);
         setenv("OMPI_MCA_rmaps_base_oversubscribe", "1", 1);
         setenv("OMPI_MCA_hwloc_base_binding_policy", "none", 1);
         std::string np = std::to_string(n);
         execlp("mpirun", "mpirun", "--oversubscribe", "-n", np.c_str(), self, "--serve", dir.c_str(), (char *)nullptr);
         _exit(127);
      }
   }
   std::string log() const
   {
      std::ifstream f(dir + "/log");
      std::stringstream s;
      s << f.rdbuf();
      std::string t = s.str();
      for (const char *mark : {"MFEM abort", "rank ", "exception", "Signal"})
      {
         size_t k = t.find(mark);
         if (k != std::string::npos) { return t.substr(k, 300); }
      }
      return t.size() > 400 ? t.substr(0, 400) : t;
   }
   void stop()
   {
      if (pid > 0)
      {
         kill(-pid, SIGTERM);
         for (int i = 0; i < 300; ++i)
         {
            if (waitpid(pid, nullptr, WNOHANG) != 0) { pid = 0; break; }
            usleep(10000);
         }
         if (pid > 0)
         {
            kill(-pid, SIGKILL);
            waitpid(pid, nullptr, 0);
         }
      }
      pid = 0;
      if (req >= 0) { close(req); close(rsp); }
      req = rsp = -1;
      if (shm) { munmap(shm, kBytes); }
      shm = nullptr;
      if (!dir.empty())
      {
         std::string c = "rm -rf " + dir;
         if (system(c.c_str()) != 0) {}
      }
      dir.clear();
   }
   /// one line of answer, or why there is none
   bool ask(const std::string &line, std::string &answer, int secs, std::string &why)
   {
      std::string l = line + "\n";
      for (size_t k = 0; k < l.size();)
      {
         ssize_t w = write(req, l.data() + k, l.size() - k);
         if (w <= 0) { why = "request"; return false; }
         k += w;
      }
      double end = 0;
      auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
      end = now() + secs;
      while (true)
      {
         size_t nl = buf.find('\n');
         if (nl != std::string::npos)
         {
            answer = buf.substr(0, nl);
            buf.erase(0, nl + 1);
            return true;
         }
         pollfd p{rsp, POLLIN, 0};
         if (poll(&p, 1, 100) > 0)
         {
            char b[65536];
            ssize_t r = read(rsp, b, sizeof b);
            if (r > 0) { buf.append(b, r); }
            continue;
         }
         if (waitpid(pid, nullptr, WNOHANG) != 0)
         {
            pid = 0;
            why = "crash";
            return false;
         }
         if (now() > end) { why = "hang"; return false; }
      }
   }
};
inline Server &server(int n)
{
   static std::map<int, Server> s;
   return s[n];
}
/// the property of the Runner: pick a number of ranks, let them run the case
inline Fn remote(const std::string &name)
{
   return [name](Gen &g)
   {
      int n = 2 + int(g.draw(2));
      g.label(str(n, " ranks"));
      Server &s = server(n);
      if (s.pid == 0) { s.start(n); }
      std::ostringstream q;
      q << name;
      if (g.replay_)
      {
         q << " choices";
         for (size_t i = g.pos_; i < g.in_.size(); ++i) { q << " " << g.in_[i]; }
      }
      else { q << " seed " << splitmix(g.rng_); }
      s.shm[0] = 0;
      *reinterpret_cast<char *>(s.shm + Gen::kShared) = 0;
      std::string a, why;
      auto take = [&](uint64_t v)
      {
         g.out_.push_back(v);
         if (g.shared_) { g.shared_push(v); }
      };
      static int patience = 45;   // seconds; the slowest cases take a few
      if (!s.ask(q.str(), a, patience, why))
      {
         for (uint64_t i = 0; i < s.shm[0]; ++i) { take(s.shm[i + 1]); }
         g.note(reinterpret_cast<char *>(s.shm + Gen::kShared));
         std::string l = s.log();
         s.stop();
         std::string what = why == "hang" ? str("no answer within ", patience, " s ") : "the ranks died ";
         if (why == "hang") { patience = 20; }
         g.fail(why, what + l);
      }
      auto j = nlohmann::json::parse(a);
      for (uint64_t v : j["out"].get<std::vector<uint64_t>>()) { take(v); }
      for (auto &l : j["labels"]) { g.label(l); }
      g.note(j["notes"].get<std::string>());
      g.asserts_ += j["asserts"].get<long>();
      g.nontrivial(j["nontriv"].get<bool>());
      int kind = j["kind"];
      if (kind == Outcome::discard) { g.discard(); }
      if (kind == Outcome::fail) { g.fail(j["key"], j["msg"]); }
   };
}

// ------------------------------------------------------- two ways to compare
/// what a computation on a communicator shows
struct Obs
{
   MPI_Comm comm;
   struct One { std::string key; double v, scale; };
   std::vector<One> all;
   explicit Obs(MPI_Comm c) : comm(c) { }
   double sum(double x) const
   {
      double y = 0;
      MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, MPI_SUM, comm);
      return y;
   }
   double max(double x) const
   {
      double y = 0;
      MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, MPI_MAX, comm);
      return y;
   }
   /// v is compared relative to the larger of itself and scale
   void add(const std::string &key, double v, double scale = 1e-6) { all.push_back({key, v, scale}); }
   /// the pairing of two vectors distributed over the ranks
   void dot(const std::string &key, const mfem::Vector &a, const mfem::Vector &b, double floor = 0)
   {
      double s = 0, m = 0;
      for (int i = 0; i < a.Size(); ++i)
      {
         s += a(i) * b(i);
         m += std::fabs(a(i) * b(i));
      }
      if (a.Size() != b.Size()) { s = NAN; }
      all.push_back({key, sum(s), std::max(sum(m), floor)});
   }
};
/// the computation on all ranks shows what it shows on each one alone
inline void both(Gen &g, const std::function<void(Gen &, Obs &)> &f, double tol)
{
   Obs w(MPI_COMM_WORLD), s(MPI_COMM_SELF);
   size_t from = g.out_.size();
   f(g, w);
   Gen h(std::vector<uint64_t>(g.out_.begin() + from, g.out_.end()));
   f(h, s);
   // the first difference on any rank, agreed on
   int n = std::min(w.all.size(), s.all.size()), bad = w.all.size() == s.all.size() ? INT_MAX : n, first, rank;
   for (int i = 0; i < n && bad == INT_MAX; ++i)
   {
      double a = w.all[i].v, b = s.all[i].v, sc = std::max({std::fabs(b), s.all[i].scale, w.all[i].scale});
      if (w.all[i].key == s.all[i].key && !std::isfinite(a) && !std::isfinite(b)) { continue; }
      if (w.all[i].key != s.all[i].key || !(std::fabs(a - b) <= tol * sc)) { bad = i; }
   }
   MPI_Allreduce(&bad, &first, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   g.asserts_ += n;
   if (first == INT_MAX) { return; }
   struct { double v; int r; } mine{bad == first ? 1.0 : 0.0, rank}, who;
   MPI_Allreduce(&mine, &who, 1, MPI_DOUBLE_INT, MPI_MAXLOC, MPI_COMM_WORLD);
   double v[3] = {0, 0, 0};
   if (rank == who.r && first < n) { v[0] = w.all[first].v; v[1] = s.all[first].v; v[2] = s.all[first].scale; }
   MPI_Bcast(v, 3, MPI_DOUBLE, who.r, MPI_COMM_WORLD);
   std::string key = first < int(w.all.size()) ? w.all[first].key : "number of observations";
   g.fail(key, str("on all ranks (rank ", who.r, ") ", fmt(v[0]), ", on one rank ", fmt(v[1]), ", scale ", fmt(v[2])));
}
/// a random partition in which every rank has an element; drawn even if
/// there is nothing to partition
inline std::vector<int> partition(Gen &g, const mfem::Mesh &m, int ranks)
{
   int ne = m.GetNE();
   if (ne < ranks) { g.discard(); }
   std::vector<int> p(ne);
   bool slabs = g.flip();
   for (int i = 0; i < ne; ++i) { p[i] = slabs ? i * ranks / ne : g.irange(0, ranks - 1); }
   for (int r = 0; r < ranks; ++r)
      if (!std::count(p.begin(), p.end(), r))
      {
         // from a rank that has more than one
         for (int i = 0; i < ne; ++i)
            if (std::count(p.begin(), p.end(), p[i]) > 1) { p[i] = r; break; }
      }
   return p;
}
inline int world()
{
   int n;
   MPI_Comm_size(MPI_COMM_WORLD, &n);
   return n;
}
inline std::unique_ptr<mfem::ParMesh> distribute(Gen &g, mfem::Mesh &m, MPI_Comm c)
{
   auto p = partition(g, m, world());
   return std::make_unique<mfem::ParMesh>(c, m, c == MPI_COMM_WORLD ? p.data() : nullptr);
}
}  // namespace ranks
#endif
