// pbt.hpp -- a small property-based-testing engine (choice-sequence style).
//
// A property is a function of a `Gen&`.  Everything random in a case is drawn
// from the Gen, which records the drawn integers ("choices").  A failing case
// is shrunk by editing its choice sequence (deleting spans, zeroing, halving,
// decrementing) and re-running the property: no generator-specific shrinkers
// are needed and sequences of operations shrink as one value.  The shrunk
// choice sequence is the replay file.
//
// Every sub-property runs in forked worker processes, the cases being dealt
// round-robin, so a crash (signal) in the code under test is a failure of the
// case that was running, and is shrunk by re-running in forked children.
// The run is a pure function of the code and VERIF_SEED.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <nlohmann/json.hpp>

namespace pbt
{
struct Discard
{ };

/// A property violation. `key` identifies what fails (known findings match on
/// it), `msg` is the human-readable detail of this input.
struct Failure
{
   std::string key;
   std::string msg;
};

inline uint64_t splitmix(uint64_t &s)
{
   uint64_t z = (s += 0x9E3779B97F4A7C15ull);
   z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
   z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
   return z ^ (z >> 31);
}

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
   auto c = static_cast<const unsigned char *>(p);
   for (size_t i = 0; i < n; ++i) { h = (h ^ c[i]) * 1099511628211ull; }
   return h;
}

inline std::string fmt(double v)
{
   char b[40];
   snprintf(b, sizeof b, "%.17g", v);
   return b;
}

template <typename... T>
std::string str(const T &...a)
{
   std::ostringstream o;
   o.precision(17);
   (void)std::initializer_list<int>{((o << a), 0)...};
   return o.str();
}

template <typename V>
std::string vec_str(const V &v, int n)
{
   std::ostringstream o;
   o.precision(17);
   o << "[";
   for (int i = 0; i < n; ++i) { o << (i ? "," : "") << v[i]; }
   o << "]";
   return o.str();
}
template <typename T>
std::string vec_str(const std::vector<T> &v) { return vec_str(v, static_cast<int>(v.size())); }

class Gen
{
public:
   // record mode
   explicit Gen(uint64_t seed) : rng_(seed), replay_(false) { }
   // replay mode
   explicit Gen(std::vector<uint64_t> c) : in_(std::move(c)), replay_(true) { }

   /// integer in [0, max], simplest value 0
   uint64_t draw(uint64_t max)
   {
      uint64_t v;
      if (replay_)
      {
         v = pos_ < in_.size() ? in_[pos_] : 0;
         ++pos_;
         if (v > max) { v = max; }
      }
      else
      {
         uint64_t r = splitmix(rng_);
         v = max == UINT64_MAX ? r : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
      }
      out_.push_back(v);
      if (shared_ != nullptr) { shared_push(v); }
      return v;
   }
   /// integer in [lo, hi]; shrinks to 0 when in range, else to lo
   long range(long lo, long hi)
   {
      if (hi < lo) { hi = lo; }
      auto span = static_cast<uint64_t>(hi - lo);
      return lo + static_cast<long>(draw(span));
   }
   int irange(int lo, int hi) { return static_cast<int>(range(lo, hi)); }
   bool flip() { return draw(1) != 0; }
   /// true with probability num/den
   bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
   template <typename T>
   const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
   template <typename T>
   T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }

   /// uniform in [0,1): coarse (multiples of 1/16) one time in five
   double unit()
   {
      if (draw(4) == 0) { return static_cast<double>(draw(15)) / 16.0; }
      return static_cast<double>(draw((1ull << 53) - 1)) * 0x1.0p-53;
   }
   /// real in [lo, hi]
   double real(double lo, double hi)
   {
      double v = lo + (hi - lo) * unit();
      return v > hi ? hi : v;
   }
   /// real in [-m, m], shrinking toward 0
   double sym(double m)
   {
      double s = draw(1) ? -1.0 : 1.0;
      return s * m * unit();
   }
   /// log-uniform in [lo, hi], lo > 0
   double logreal(double lo, double hi)
   {
      double v = std::exp(real(std::log(lo), std::log(hi)));
      return v < lo ? lo : (v > hi ? hi : v);
   }
   /// any finite double: zeros, small integers, tiny, huge, random bits
   double anydouble()
   {
      switch (draw(6))
      {
      case 0: return static_cast<double>(range(0, 4));
      case 1: return sym(10.0);
      case 2: return -static_cast<double>(range(0, 1000000));
      case 3: return sym(1.0) * std::pow(10.0, static_cast<double>(range(-30, 30)));
      case 4: return std::ldexp(real(1.0, 2.0), irange(-1021, 1022));
      case 5: return -0.0;
      default:
      {
         uint64_t b = draw(UINT64_MAX);
         double d;
         memcpy(&d, &b, 8);
         return std::isfinite(d) ? d : 0.5;
      }
      }
   }
   std::vector<double> reals(int n, double lo, double hi)
   {
      std::vector<double> v(n);
      for (auto &x : v) { x = real(lo, hi); }
      return v;
   }
   std::vector<double> syms(int n, double m)
   {
      std::vector<double> v(n);
      for (auto &x : v) { x = sym(m); }
      return v;
   }

   // ---- observation -------------------------------------------------
   void label(const std::string &l) { labels_.insert(l); }
   void nontrivial(bool b = true) { nontriv_ = nontriv_ || b; }
   void note(const std::string &s)
   {
      if (notes_.size() < 6000) { notes_ += (notes_.empty() ? "" : " ") + s; }
      if (shared_ != nullptr)
      {
         char *b = reinterpret_cast<char *>(shared_ + kShared);
         snprintf(b, kNotes, "%s", notes_.c_str());
      }
   }
   void discard() { throw Discard{}; }
   [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Failure{key, msg}; }
   void check(bool ok, const std::string &key, const std::string &msg = "")
   {
      ++asserts_;
      if (!ok) { throw Failure{key, msg}; }
   }
   /// |a-b| <= tol (tol is absolute, caller computes the scale); NaN fails
   void close(double a, double b, double tol, const std::string &key, const std::string &msg = "")
   {
      ++asserts_;
      if (!(std::fabs(a - b) <= tol))
      {
         throw Failure{key, msg + " got " + fmt(a) + " want " + fmt(b) + " tol " + fmt(tol) + " diff " + fmt(a - b)};
      }
   }

   std::vector<uint64_t> out_;
   std::set<std::string> labels_;
   std::string notes_;
   bool nontriv_ = false;
   long asserts_ = 0;
   size_t pos_ = 0;
   uint64_t *shared_ = nullptr;
   static constexpr size_t kShared = 1u << 18;
   static constexpr size_t kNotes = 8192;

private:
   void shared_push(uint64_t v)
   {
      uint64_t n = shared_[0];
      if (n + 1 < kShared)
      {
         shared_[n + 1] = v;
         shared_[0] = n + 1;
      }
   }
   std::vector<uint64_t> in_;
   uint64_t rng_ = 0;
   bool replay_;
};

using PropFn = std::function<void(Gen &)>;

struct Prop
{
   std::string name;
   PropFn fn;
   long quick;     // cases in the quick tier
   long thorough;  // cases in the thorough tier
   int min_nontrivial_pct = 20;   // self-check on the generator (warning only)
};

struct Known
{
   std::string sub, key, what;
};

struct Outcome
{
   enum Kind { pass, discard, fail } kind = pass;
   std::string key, msg;
};

/// set by the harness: run once in every worker before any case (MPI_Init...)
inline std::function<void()> &worker_init() { static std::function<void()> f; return f; }
inline int &case_cpu_limit() { static int s = 60; return s; }

inline Outcome run_case(const Prop &p, Gen &g)
{
   Outcome o;
   try
   {
      p.fn(g);
   }
   catch (const Discard &)
   {
      o.kind = Outcome::discard;
   }
   catch (const Failure &f)
   {
      o.kind = Outcome::fail;
      o.key = f.key;
      o.msg = f.msg;
   }
   catch (const std::exception &e)
   {
      o.kind = Outcome::fail;
      o.key = "exception";
      o.msg = std::string("unexpected exception: ") + e.what();
   }
   catch (...)
   {
      o.kind = Outcome::fail;
      o.key = "exception";
      o.msg = "unexpected exception of unknown type";
   }
   return o;
}

inline void arm_cpu_limit()
{
   itimerval t{};
   t.it_value.tv_sec = case_cpu_limit();
   setitimer(ITIMER_PROF, &t, nullptr);
}
inline void disarm_cpu_limit()
{
   itimerval t{};
   setitimer(ITIMER_PROF, &t, nullptr);
}

/// Shrink in-process: `fails` re-runs a candidate and says whether it still
/// fails with the same key.
inline std::vector<uint64_t> shrink(std::vector<uint64_t> best,
                                    const std::function<bool(const std::vector<uint64_t> &, std::vector<uint64_t> &)> &fails,
                                    long max_runs)
{
   long runs = 0;
   auto attempt = [&](std::vector<uint64_t> cand) -> bool
   {
      if (runs >= max_runs || cand == best) { return false; }
      ++runs;
      std::vector<uint64_t> used;
      if (!fails(cand, used)) { return false; }
      // keep what was consumed
      if (used.size() <= cand.size()) { cand = used; }
      bool better = cand.size() < best.size() ||
                    (cand.size() == best.size() && std::lexicographical_compare(cand.begin(), cand.end(), best.begin(), best.end()));
      if (better) { best = cand; }
      return better;
   };
   bool progress = true;
   while (progress && runs < max_runs)
   {
      progress = false;
      // delete spans
      for (size_t len = best.size() / 2; len >= 1; len /= 2)
      {
         for (size_t i = 0; i + len <= best.size() && runs < max_runs;)
         {
            auto c = best;
            c.erase(c.begin() + i, c.begin() + i + len);
            if (attempt(c)) { progress = true; }
            else { i += (len > 4 ? len / 2 : 1); }
         }
      }
      // zero spans then single minimisation
      for (size_t len : {size_t(16), size_t(4), size_t(1)})
      {
         for (size_t i = 0; i + len <= best.size() && runs < max_runs; i += len)
         {
            auto c = best;
            bool any = false;
            for (size_t k = 0; k < len; ++k) { any = any || c[i + k] != 0; c[i + k] = 0; }
            if (any && attempt(c)) { progress = true; }
         }
      }
      for (size_t i = 0; i < best.size() && runs < max_runs; ++i)
      {
         if (best[i] == 0) { continue; }
         // binary search toward 0
         uint64_t lo = 0, hi = best[i];
         while (lo + 1 < hi && runs < max_runs)
         {
            uint64_t mid = lo + (hi - lo) / 2;
            auto c = best;
            if (i >= c.size()) { break; }
            c[i] = mid;
            if (attempt(c)) { progress = true; if (i >= best.size()) { break; } hi = best[i]; }
            else { lo = mid; }
         }
         if (i < best.size() && best[i] > 0)
         {
            auto c = best;
            c[i] -= 1;
            if (attempt(c)) { progress = true; }
         }
      }
   }
   return best;
}

class Runner
{
public:
   Runner(std::string id, std::vector<Prop> props, std::string rule)
    : id_(std::move(id)), props_(std::move(props)), rule_(std::move(rule))
   { }

   std::vector<std::string> assumptions;

   int main(int argc, char **argv)
   {
      std::string replay, only;
      const char *root = getenv("VERIF_ROOT");
      root_ = root ? root : "/verif";
      const char *t = getenv("VERIF_TIER");
      tier_ = t && std::string(t) == "thorough" ? "thorough" : "quick";
      const char *s = getenv("VERIF_SEED");
      seed_ = s ? strtoull(s, nullptr, 10) : 1;
      const char *sc = getenv("PBT_SCALE");
      scale_ = sc ? atof(sc) : 1.0;
      const char *b = getenv("PBT_BUDGET_S");
      budget_ = b ? atof(b) : (tier_ == "quick" ? 300.0 : 3600.0);
      for (int i = 1; i < argc; ++i)
      {
         std::string a = argv[i];
         if (a == "--replay" && i + 1 < argc) { replay = argv[++i]; }
         else if (a == "--only" && i + 1 < argc) { only = argv[++i]; }
         else if (a == "--tier" && i + 1 < argc) { tier_ = argv[++i]; }
      }
      load_known();
      if (!replay.empty()) { return do_replay(replay); }
      return do_run(only);
   }

private:
   struct Child
   {
      pid_t pid;
      int worker;
      int prop;
      long start;
      std::string file;
      uint64_t *shm;
   };

   static double now()
   {
      timespec ts;
      clock_gettime(CLOCK_MONOTONIC, &ts);
      return ts.tv_sec + 1e-9 * ts.tv_nsec;
   }

   void load_known()
   {
      std::ifstream f(root_ + "/known_findings.jsonl");
      std::string line;
      while (std::getline(f, line))
      {
         if (line.empty() || line[0] == '#') { continue; }
         auto j = nlohmann::json::parse(line, nullptr, false);
         if (j.is_discarded() || !j.is_object()) { continue; }
         if (j.value("property", "") != id_ || j.value("status", "") != "known") { continue; }
         known_.push_back({j.value("sub", ""), j.value("key", ""), j.value("what", "")});
      }
   }
   const Known *is_known(const std::string &sub, const std::string &key) const
   {
      for (auto &k : known_)
      {
         if (k.sub == sub && k.key == key) { return &k; }
      }
      return nullptr;
   }

   static uint64_t *shared_alloc()
   {
      void *p = mmap(nullptr, Gen::kShared * 8 + Gen::kNotes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) { perror("mmap"); exit(3); }
      static_cast<uint64_t *>(p)[0] = 0;
      return static_cast<uint64_t *>(p);
   }

   static void quiet_stdio(bool all)
   {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      if (all && getenv("PBT_VERBOSE") == nullptr) { dup2(n, 2); }
      close(n);
   }

   /// run one choice sequence in a fresh child process
   Outcome run_isolated(const Prop &p, const std::vector<uint64_t> &choices, std::vector<uint64_t> &used, std::string *notes = nullptr)
   {
      char tmpl[] = "/tmp/pbtisoXXXXXX";
      int fd = mkstemp(tmpl);
      close(fd);
      std::string file = tmpl;
      uint64_t *shm = shared_alloc();
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0)
      {
         quiet_stdio(true);
         if (worker_init()) { worker_init()(); }
         Gen g(choices);
         g.shared_ = shm;
         arm_cpu_limit();
         Outcome o = run_case(p, g);
         disarm_cpu_limit();
         nlohmann::json j;
         j["kind"] = static_cast<int>(o.kind);
         j["key"] = o.key;
         j["msg"] = o.msg;
         j["notes"] = g.notes_;
         std::ofstream(file) << j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
         _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      Outcome o;
      used.assign(shm + 1, shm + 1 + shm[0]);
      std::string shnotes = reinterpret_cast<char *>(shm + Gen::kShared);
      munmap(shm, Gen::kShared * 8 + Gen::kNotes);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      {
         std::ifstream f(file);
         auto j = nlohmann::json::parse(f, nullptr, false);
         if (!j.is_discarded())
         {
            o.kind = static_cast<Outcome::Kind>(j["kind"].get<int>());
            o.key = j["key"];
            o.msg = j["msg"];
            if (notes) { *notes = j["notes"]; }
         }
      }
      else
      {
         crash_outcome(st, o);
         if (notes) { *notes = shnotes; }
      }
      unlink(tmpl);
      return o;
   }

   void crash_outcome(int st, Outcome &o)
   {
      o.kind = Outcome::fail;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
      {
         o.key = "hang";
         o.msg = str("no result within ", case_cpu_limit(), " s of CPU time");
      }
      else
      {
         o.key = "crash";
         o.msg = WIFSIGNALED(st) ? str("the code under test died on signal ", WTERMSIG(st))
                                 : str("the code under test ended the process with status ", WEXITSTATUS(st));
      }
   }

   uint64_t case_seed(const Prop &p, long i) const
   {
      uint64_t s = seed_ * 0x9E3779B97F4A7C15ull + 12345;
      s ^= hash_bytes(p.name.data(), p.name.size());
      s += static_cast<uint64_t>(i) * 0xD1342543DE82EF95ull;
      splitmix(s);
      return splitmix(s);
   }

   /// body of a worker process
   void worker(const Prop &p, int w, int nw, long start, long n, const std::string &file, uint64_t *shm, double deadline)
   {
      quiet_stdio(false);
      if (getenv("PBT_VERBOSE") == nullptr)
      {
         int fd = open((file + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
         dup2(fd, 2);
         close(fd);
      }
      if (worker_init()) { worker_init()(); }
      nlohmann::json out;
      long evals = 0, discards = 0, asserts = 0, nontriv = 0;
      std::vector<uint64_t> hashes;
      std::map<std::string, long> labels;
      std::vector<std::string> samples;
      std::map<std::string, long> knowns;
      bool cut = false;
      nlohmann::json failure;
      FILE *hb = fopen((file + ".part").c_str(), "w");
      for (long i = start; i < n; i += nw)
      {
         if (now() > deadline) { cut = true; break; }
         shm[0] = 0;
         *reinterpret_cast<char *>(shm + Gen::kShared) = 0;
         shm[Gen::kShared - 1] = static_cast<uint64_t>(i);
         Gen g(case_seed(p, i));
         g.shared_ = shm;
         arm_cpu_limit();
         Outcome o = run_case(p, g);
         disarm_cpu_limit();
         if (o.kind == Outcome::discard) { ++discards; continue; }
         ++evals;
         asserts += g.asserts_;
         for (auto &l : g.labels_) { ++labels[l]; }
         if (g.nontriv_)
         {
            ++nontriv;
            hashes.push_back(hash_bytes(g.out_.data(), g.out_.size() * 8));
            if (samples.size() < 2 && w < 2) { samples.push_back(g.notes_); }
         }
         if (o.kind == Outcome::fail)
         {
            if (is_known(p.name, o.key)) { ++knowns[o.key]; continue; }
            // shrink in-process; shm holds the candidate in case it crashes
            std::string key = o.key;
            double until = std::min(deadline + 60, now() + (key == "hang" ? 40 : 240));
            auto best = shrink(g.out_,
                               [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &used)
                               {
                                  if (now() > until) { return false; }
                                  Gen h(c);
                                  shm[0] = 0;
                                  h.shared_ = shm;
                                  arm_cpu_limit();
                                  Outcome q = run_case(p, h);
                                  disarm_cpu_limit();
                                  used = h.out_;
                                  return q.kind == Outcome::fail && q.key == key;
                               },
                               tier_ == "quick" ? 1500 : 6000);
            Gen h(best);
            Outcome q;
            if (key == "hang") { q = o; h.notes_ = g.notes_; }
            else { q = run_case(p, h); }
            failure["key"] = key;
            failure["msg"] = q.kind == Outcome::fail ? q.msg : o.msg;
            failure["choices"] = q.kind == Outcome::fail ? best : g.out_;
            failure["original"] = g.out_;
            failure["notes"] = q.kind == Outcome::fail ? h.notes_ : g.notes_;
            failure["index"] = i;
            break;
         }
      }
      fclose(hb);
      out["evals"] = evals;
      out["discards"] = discards;
      out["asserts"] = asserts;
      out["nontriv"] = nontriv;
      out["hashes"] = hashes;
      out["labels"] = labels;
      out["samples"] = samples;
      out["knowns"] = knowns;
      out["cut"] = cut;
      if (!failure.is_null()) { out["failure"] = failure; }
      std::ofstream(file) << out.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
      _exit(0);
   }

   struct Stats
   {
      long evals = 0, discards = 0, asserts = 0, nontriv = 0;
      std::unordered_set<uint64_t> hashes;
      std::map<std::string, long> labels;
      std::vector<std::string> samples;
      std::map<std::string, long> knowns;
      bool cut = false;
      double wall = 0;
      long want = 0;
   };

   struct Fail
   {
      std::string key, msg, notes;
      std::vector<uint64_t> choices, original;
   };

   int do_run(const std::string &only)
   {
      double t0 = now();
      int nw = 8;
      if (const char *e = getenv("PBT_JOBS")) { nw = atoi(e); }
      char tmpl[] = "/tmp/pbtXXXXXX";
      if (mkdtemp(tmpl) == nullptr) { perror("mkdtemp"); return 3; }
      std::string dir = tmpl;
      std::map<std::string, Stats> stats;
      std::map<std::string, Fail> fails;
      std::vector<std::string> flaky;
      double total_cases = 0;
      for (auto &p : props_) { total_cases += tier_ == "quick" ? p.quick : p.thorough; }
      size_t remaining = props_.size();
      for (size_t ip = 0; ip < props_.size(); ++ip, --remaining)
      {
         auto &p = props_[ip];
         if (!only.empty() && p.name != only) { continue; }
         double tp = now();
         long n = tier_ == "quick" ? p.quick : p.thorough;
         n = static_cast<long>(n * scale_);
         if (n < 1) { n = 1; }
         // the rest of the budget is shared by the remaining sub-properties
         double left = t0 + budget_ - now();
         double deadline = now() + std::max(5.0, left / static_cast<double>(remaining) * 1.5);
         Stats &st = stats[p.name];
         st.want = n;
         int k = static_cast<int>(std::min<long>(nw, n));
         std::vector<Child> kids;
         auto spawn = [&](int w, long start)
         {
            Child c;
            c.worker = w;
            c.start = start;
            c.file = dir + "/" + std::to_string(ip) + "_" + std::to_string(w) + "_" + std::to_string(start);
            c.shm = shared_alloc();
            fflush(nullptr);
            c.pid = fork();
            if (c.pid == 0) { worker(p, w, k, start, n, c.file, c.shm, deadline); _exit(0); }
            kids.push_back(c);
         };
         for (int w = 0; w < k; ++w) { spawn(w, w); }
         int crashes = 0;
         while (!kids.empty())
         {
            int status = 0;
            pid_t pid = waitpid(-1, &status, 0);
            if (pid < 0) { break; }
            size_t ci = 0;
            while (ci < kids.size() && kids[ci].pid != pid) { ++ci; }
            if (ci == kids.size()) { continue; }
            Child c = kids[ci];
            kids.erase(kids.begin() + ci);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            {
               std::ifstream f(c.file);
               auto j = nlohmann::json::parse(f, nullptr, false);
               if (j.is_discarded()) { fprintf(stderr, "worker wrote no result\n"); return 3; }
               st.evals += j["evals"].get<long>();
               st.discards += j["discards"].get<long>();
               st.asserts += j["asserts"].get<long>();
               st.nontriv += j["nontriv"].get<long>();
               for (auto &h : j["hashes"]) { st.hashes.insert(h.get<uint64_t>()); }
               for (auto &l : j["labels"].items()) { st.labels[l.key()] += l.value().get<long>(); }
               for (auto &l : j["samples"]) { if (st.samples.size() < 3) { st.samples.push_back(l); } }
               for (auto &l : j["knowns"].items()) { st.knowns[l.key()] += l.value().get<long>(); }
               st.cut = st.cut || j["cut"].get<bool>();
               if (j.contains("failure"))
               {
                  auto &jf = j["failure"];
                  Fail f{jf["key"], jf["msg"], jf["notes"], jf["choices"].get<std::vector<uint64_t>>(), jf["original"].get<std::vector<uint64_t>>()};
                  auto it = fails.find(p.name);
                  if (it == fails.end() || f.choices.size() < it->second.choices.size()) { fails[p.name] = f; }
               }
            }
            else
            {
               // the case in shared memory killed the worker
               Outcome o;
               crash_outcome(status, o);
               std::vector<uint64_t> used(c.shm + 1, c.shm + 1 + c.shm[0]);
               long idx = static_cast<long>(c.shm[Gen::kShared - 1]);
               ++crashes;
               std::string err = tail(c.file + ".err");
               if (is_known(p.name, o.key))
               {
                  ++st.knowns[o.key];
                  if (crashes < 50) { spawn(c.worker, idx + k); }
               }
               else if (fails.find(p.name) == fails.end())
               {
                  std::string key = o.key;
                  double lim = now() + (key == "hang" ? 1 : 60);
                  auto best = shrink(used,
                                     [&](const std::vector<uint64_t> &cand, std::vector<uint64_t> &u)
                                     {
                                        if (now() > lim) { return false; }
                                        Outcome q = run_isolated(p, cand, u);
                                        return q.kind == Outcome::fail && q.key == key;
                                     },
                                     key == "hang" ? 0 : 300);
                  fails[p.name] = Fail{o.key, o.msg + (err.empty() ? "" : " | stderr: " + err), "", best, used};
               }
            }
            munmap(c.shm, Gen::kShared * 8 + Gen::kNotes);
         }
         st.wall = now() - tp;
         // hangs are slow to confirm, and the rest may hang as well
         auto hung = fails.find(p.name);
         if (hung != fails.end() && hung->second.key == "hang") { break; }
      }
      // confirm failures: three fresh processes each
      int violations = 0;
      std::string lines;
      for (auto it = fails.begin(); it != fails.end(); ++it)
      {
         const Prop *p = nullptr;
         for (auto &q : props_) { if (q.name == it->first) { p = &q; } }
         int ok = confirm(*p, it->second.choices, it->second);
         if (ok < 3)
         {
            it->second.choices = it->second.original;
            ok = confirm(*p, it->second.choices, it->second);
         }
         std::string path = root_ + "/replays/" + id_ + "-" + it->first + ".json";
         mkdir((root_ + "/replays").c_str(), 0755);
         nlohmann::json j;
         j["property"] = id_;
         j["sub"] = it->first;
         j["key"] = it->second.key;
         j["message"] = it->second.msg;
         j["case"] = it->second.notes;
         j["choices"] = it->second.choices;
         j["seed"] = seed_;
         std::ofstream(path) << j.dump(1, ' ', false, nlohmann::json::error_handler_t::replace) << "\n";
         if (ok < 3)
         {
            flaky.push_back(it->first + ": " + it->second.key + ": " + it->second.msg);
            std::cout << "UNCONFIRMED sub=" << it->first << " key=" << it->second.key << " (replayed " << ok << "/3): " << it->second.msg << "\n";
            continue;
         }
         ++violations;
         std::cout << "  sub-property " << it->first << " [" << it->second.key << "]: " << it->second.msg << "\n  case: " << it->second.notes << "\n";
         lines += "VIOLATION property=" + id_ + " replay=" + path + "\n";
      }
      // evidence
      Stats tot;
      nlohmann::json subs = nlohmann::json::object();
      nlohmann::json samples = nlohmann::json::array();
      std::set<std::string> known_seen;
      for (auto &p : props_)
      {
         auto it = stats.find(p.name);
         if (it == stats.end()) { continue; }
         auto &s = it->second;
         tot.evals += s.evals;
         tot.discards += s.discards;
         tot.asserts += s.asserts;
         nlohmann::json j;
         j["cases"] = s.evals;
         j["requested"] = s.want;
         j["discarded"] = s.discards;
         j["assertions"] = s.asserts;
         j["distinct_nontrivial"] = s.hashes.size();
         j["labels"] = s.labels;
         j["wall_s"] = s.wall;
         if (s.cut) { j["stopped_early"] = "budget"; }
         if (!s.knowns.empty()) { j["known_findings_hit"] = s.knowns; }
         subs[p.name] = j;
         int cnt = 0;
         for (auto &x : s.samples)
         {
            if (cnt++ < 2) { samples.push_back({{"sub", p.name}, {"case", x.substr(0, 900)}}); }
         }
         for (auto &k : s.knowns) { known_seen.insert(p.name + "\n" + k.first); }
         tot.nontriv += static_cast<long>(s.hashes.size());
         if (getenv("PBT_QUIET") == nullptr)
         {
            std::cout << "  " << id_ << "/" << p.name << ": " << s.evals << " cases, " << s.hashes.size() << " distinct non-trivial, " << s.discards
                      << " discarded, " << s.asserts << " assertions, " << s.wall << " s" << (s.cut ? " (stopped by budget)" : "") << "\n";
            std::cout << "     labels:";
            for (auto &l : s.labels) { std::cout << " " << l.first << "=" << l.second; }
            std::cout << "\n";
         }
      }
      nlohmann::json ev;
      ev["property"] = id_;
      ev["tier"] = tier_;
      ev["seed"] = seed_;
      ev["level"] = "exploration";
      ev["coverage"] = {{"evaluations", tot.evals},
                        {"distinct_nontrivial", tot.nontriv},
                        {"discarded", tot.discards},
                        {"assertions", tot.asserts},
                        {"rule", rule_},
                        {"samples", samples},
                        {"sub_properties", subs}};
      if (!flaky.empty()) { ev["coverage"]["unconfirmed"] = flaky; }
      ev["assumptions"] = assumptions;
      ev["wall_s"] = now() - t0;
      ev["violations"] = violations;
      mkdir((root_ + "/evidence").c_str(), 0755);
      if (only.empty())
      {
         std::ofstream(root_ + "/evidence/" + id_ + ".json") << ev.dump(1, ' ', false, nlohmann::json::error_handler_t::replace) << "\n";
      }
      for (auto &k : known_)
      {
         if (known_seen.count(k.sub + "\n" + k.key)) { std::cout << "KNOWN-FINDING: property=" << id_ << " " << k.what << "\n"; }
      }
      std::cout << lines;
      std::cout.flush();
      rmrf(dir);
      return violations ? 1 : 0;
   }

   int confirm(const Prop &p, const std::vector<uint64_t> &c, Fail &f)
   {
      int ok = 0;
      for (int r = 0; r < 3; ++r)
      {
         std::vector<uint64_t> used;
         std::string notes;
         Outcome o = run_isolated(p, c, used, &notes);
         if (o.kind == Outcome::fail && !is_known(p.name, o.key))
         {
            ++ok;
            f.key = o.key;
            if (o.key != "crash" && o.key != "hang") { f.msg = o.msg; }
            f.notes = notes;
         }
      }
      return ok;
   }

   static std::string tail(const std::string &file)
   {
      std::ifstream f(file);
      std::stringstream ss;
      ss << f.rdbuf();
      std::string s = ss.str();
      return s.size() > 1500 ? s.substr(0, 1500) : s;
   }
   static void rmrf(const std::string &dir)
   {
      if (dir.compare(0, 8, "/tmp/pbt") != 0) { return; }
      std::string cmd = "rm -rf '" + dir + "'";
      if (system(cmd.c_str()) != 0) { }
   }

   int do_replay(const std::string &path)
   {
      std::ifstream f(path);
      auto j = nlohmann::json::parse(f, nullptr, false);
      if (j.is_discarded()) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 3; }
      for (auto &p : props_)
      {
         if (p.name != j["sub"].get<std::string>()) { continue; }
         std::vector<uint64_t> used;
         std::string notes;
         Outcome o = run_isolated(p, j["choices"].get<std::vector<uint64_t>>(), used, &notes);
         std::cout << "case: " << notes << "\n";
         if (o.kind == Outcome::fail)
         {
            std::cout << "[" << o.key << "] " << o.msg << "\nVIOLATION property=" << id_ << " replay=" << path << "\n";
            return 1;
         }
         std::cout << "the property holds on this case\n";
         return 0;
      }
      fprintf(stderr, "no sub-property %s\n", j["sub"].get<std::string>().c_str());
      return 3;
   }

   std::string id_;
   std::vector<Prop> props_;
   std::string rule_;
   std::string root_, tier_;
   uint64_t seed_ = 1;
   double scale_ = 1.0, budget_ = 300;
   std::vector<Known> known_;
};

}  // namespace pbt

#endif
