// Small property-based testing engine: seeded choice sequences, parallel
// workers, crash and hang capture, shrinking on the choice sequence, replay.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};
[[noreturn]] inline void fail(const std::string& m) { throw Fail(m); }
inline void require(bool b, const std::string& m) { if (!b) throw Fail(m); }
[[noreturn]] inline void discard() { throw Discard{}; }

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

// where a child process leaves the choices of its case, so that they survive a crash
inline uint64_t*& recShm() { static uint64_t* p = nullptr; return p; }
constexpr std::size_t REC_SHM = 40000;

// Source of choices. A drawn 0 is always the simplest choice.
struct Src {
  uint64_t state = 0;
  bool replaying = false;
  std::vector<uint64_t> given;
  std::size_t pos = 0;
  std::vector<uint64_t> rec;
  int size = 50; // 0..100

  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v = 0;
    if (replaying) {
      v = pos < given.size() ? given[pos] % n : 0;
      ++pos;
    } else {
      v = splitmix(state) % n;
    }
    if (rec.size() > 2000000) throw Discard{};
    if (recShm() && rec.size() < REC_SHM) { recShm()[1 + rec.size()] = v; recShm()[0] = rec.size() + 1; }
    rec.push_back(v);
    return v;
  }
  int range(int lo, int hi) { return hi <= lo ? lo : lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
  // size-scaled upper bound, at least lo
  int sized(int lo, int hi) { return range(lo, std::max(lo, lo + (hi - lo) * size / 100)); }
  bool coin() { return below(2) == 1; }
  bool chance(int num, int den) { return static_cast<int>(below(static_cast<uint64_t>(den))) >= den - num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  // real in [-1,1) on a fine grid
  double real(double lo, double hi) { return lo + (hi - lo) * (unit() + 1) / 2; }
  double unit() { return static_cast<double>(below(1U << 24)) / static_cast<double>(1U << 23) - 1.0; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (std::size_t i = v.size(); i > 1; --i) { auto j = i - 1 - below(i); std::swap(v[i - 1], v[j]); }
  }
  uint64_t raw64() { uint64_t a = below(1ULL << 32), b = below(1ULL << 32); return (a << 32) | b; }
};

// where a child process leaves the description of its case, so that it survives a crash
inline char*& descShm() { static char* p = nullptr; return p; }
constexpr std::size_t DESC_SHM = 1 << 16;

struct Ctx {
  std::string description;
  bool nontrivial = false;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, bool>* known = nullptr;
  std::string tier = "quick";
  uint64_t seed = 1;
  void label(const std::string& l, uint64_t n = 1) { labels[l] += n; }
  void desc(const std::string& d) {
    description = d;
    if (descShm()) { const auto n = std::min(d.size(), DESC_SHM - 1); memcpy(descShm(), d.data(), n); descShm()[n] = 0; }
  }
  // is this finding listed as known (its inputs are then left out of generation)?
  bool isKnown(const std::string& id) const { return known && known->count(id) && known->at(id); }
};

using CaseFn = std::function<void(Src&, Ctx&)>;
struct Prop {
  std::string name;
  CaseFn fn;
  uint64_t quick = 0, thorough = 0;
  int timeout = 60;
  bool sized = true;
};
// A finding probe throws Fail while the defect is present.
struct Probe { std::string id; std::function<void()> fn; };

struct Suite {
  std::string property, rule;
  std::vector<Prop> props;
  std::vector<Probe> probes;
  std::vector<std::string> assumptions;
  std::string level = "exploration";
  double quickBudget = 240, thoroughBudget = 3000; // wall seconds
};

struct Outcome { enum K { Ok, Failed, Discarded, Crashed, Hung } k = Ok; std::string msg; };

inline std::string jsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"') o += "\\\"";
    else if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

inline Outcome runOne(const Prop& p, Src& s, Ctx& c) {
  try {
    p.fn(s, c);
    return {};
  } catch (const Discard&) {
    return {Outcome::Discarded, ""};
  } catch (const Fail& f) {
    return {Outcome::Failed, f.what()};
  } catch (const std::exception& e) {
    return {Outcome::Failed, std::string("unexpected exception: ") + e.what()};
  } catch (...) {
    return {Outcome::Failed, "unexpected exception of unknown type"};
  }
}

inline uint64_t caseSeed(uint64_t seed, const std::string& name, uint64_t idx) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ULL ^ fnv(name) ^ (idx * 0xD1B54A32D192ED03ULL);
  splitmix(s);
  return s;
}
inline int caseSize(uint64_t idx) { // cycle through sizes so that every prefix mixes small and large
  static const int sz[] = {10, 40, 70, 100, 20, 55, 85, 100, 5, 30, 60, 95, 100, 75, 45, 90};
  return sz[(idx + idx / 16) % 16];
}

struct Slot { volatile uint64_t prop, idx, startMs, done, stop; };

inline uint64_t nowMs() {
  return static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(
      std::chrono::steady_clock::now().time_since_epoch()).count());
}

// Runs fn in a child; collects its outcome.
template <class F> Outcome isolated(int timeoutSec, F fn, std::vector<uint64_t>* recOut = nullptr, std::string* descOut = nullptr) {
  int fd[2];
  if (pipe(fd) != 0) return {Outcome::Ok, "pipe"};
  fflush(nullptr);
  constexpr std::size_t SHM = DESC_SHM + 8 * (REC_SHM + 1);
  void* shmRaw = mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char* shm = shmRaw == MAP_FAILED ? nullptr : static_cast<char*>(shmRaw);
  struct Unmap { char* p; ~Unmap() { if (p) munmap(p, SHM); } } unmap{shm};
  const int errFd = memfd_create("pbt-stderr", 0);
  struct Close { int f; ~Close() { if (f >= 0) close(f); } } closeErr{errFd};
  // the first line of a sanitizer report (or of an abort message)
  auto report = [&]() -> std::string {
    if (errFd < 0) return "";
    std::string s(1 << 16, 0);
    const auto n = pread(errFd, s.data(), s.size(), 0);
    s.resize(n > 0 ? static_cast<std::size_t>(n) : 0);
    for (const char* key : {"runtime error", "ERROR: AddressSanitizer", "Assertion", "terminate called"}) {
      const auto at = s.find(key);
      if (at == std::string::npos) continue;
      const auto b = s.rfind('\n', at);
      auto line = s.substr(b == std::string::npos ? 0 : b + 1);
      line = line.substr(0, line.find('\n'));
      return " [" + line.substr(0, 240) + "]";
    }
    return "";
  };
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    descShm() = shm;
    if (shm) recShm() = reinterpret_cast<uint64_t*>(shm + DESC_SHM);
    int dn = open("/dev/null", O_WRONLY);
    if (!getenv("PBT_VERBOSE")) { dup2(errFd >= 0 ? errFd : dn, 2); dup2(dn, 1); }
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::vector<uint64_t> rec;
    std::string desc;
    Outcome o = fn(rec, desc);
    std::string out;
    uint64_t k = o.k, n = rec.size(), m = o.msg.size(), d = desc.size();
    auto put = [&](const void* p, std::size_t len) { out.append(static_cast<const char*>(p), len); };
    put(&k, 8); put(&n, 8); put(&m, 8); put(&d, 8);
    put(rec.data(), n * 8); put(o.msg.data(), m); put(desc.data(), d);
    std::size_t off = 0;
    while (off < out.size()) { auto w = write(fd[1], out.data() + off, out.size() - off); if (w <= 0) break; off += static_cast<std::size_t>(w); }
    close(fd[1]);
    _exit(0);
  }
  close(fd[1]);
  std::string in;
  fcntl(fd[0], F_SETFL, O_NONBLOCK);
  const uint64_t t0 = nowMs();
  bool hung = false;
  int status = 0;
  bool exited = false;
  for (;;) {
    char buf[65536];
    auto r = read(fd[0], buf, sizeof buf);
    if (r > 0) { in.append(buf, static_cast<std::size_t>(r)); continue; }
    if (r == 0) { if (!exited) { waitpid(pid, &status, 0); exited = true; } break; }
    if (nowMs() - t0 > static_cast<uint64_t>(timeoutSec) * 1000) { hung = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
    usleep(500);
  }
  close(fd[0]);
  if ((hung || in.size() < 32) && shm) {
    if (descOut) *descOut = shm;
    const auto* r = reinterpret_cast<const uint64_t*>(shm + DESC_SHM);
    if (recOut && r[0] < REC_SHM) recOut->assign(r + 1, r + 1 + r[0]);
  }
  if (hung) return {Outcome::Hung, "did not terminate within " + std::to_string(timeoutSec) + " s"};
  if (in.size() < 32) {
    std::string m = WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status)) : "exited with status " + std::to_string(WEXITSTATUS(status));
    return {Outcome::Crashed, "crash: " + m + report()};
  }
  uint64_t h[4];
  memcpy(h, in.data(), 32);
  Outcome o{static_cast<Outcome::K>(h[0]), in.substr(32 + h[1] * 8, h[2])};
  if (recOut) { recOut->resize(h[1]); memcpy(recOut->data(), in.data() + 32, h[1] * 8); }
  if (descOut) *descOut = in.substr(32 + h[1] * 8 + h[2], h[3]);
  return o;
}

struct Env {
  std::string tier = "quick";
  uint64_t seed = 1;
  std::string root = "/verif";
  std::map<std::string, bool> known;          // id -> listed as known (for this property)
  std::map<std::string, std::string> knownWhat;
};

inline Outcome replayChoices(const Prop& p, const std::vector<uint64_t>& choices, int size, Env& env, int timeout,
                             std::vector<uint64_t>* rec = nullptr, std::string* desc = nullptr) {
  return isolated(timeout, [&](std::vector<uint64_t>& r, std::string& d) {
    Src s; s.replaying = true; s.given = choices; s.size = size;
    Ctx c; c.known = &env.known; c.tier = env.tier; c.seed = env.seed;
    Outcome o = runOne(p, s, c);
    r = s.rec; d = c.description;
    return o;
  }, rec, desc);
}

inline bool bad(const Outcome& o) { return o.k == Outcome::Failed || o.k == Outcome::Crashed || o.k == Outcome::Hung; }

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, int size, Env& env, Outcome& out, std::string& desc, double budget) {
  const auto t0 = nowMs();
  const auto kind = out.k;
  if (kind == Outcome::Hung) return best; // too slow to shrink
  auto over = [&] { return static_cast<double>(nowMs() - t0) > budget * 1000; };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (over()) return false;
    std::vector<uint64_t> rec; std::string d;
    Outcome o = replayChoices(p, cand, size, env, 20, &rec, &d);
    if (o.k != kind) return false;
    if (o.k == Outcome::Crashed && rec.empty()) rec = cand;
    if (rec.size() > best.size() || (rec.size() == best.size() && !(rec < best))) return false;
    best = rec; out = o; if (!d.empty()) desc = d;
    return true;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (std::size_t len : {64UL, 32UL, 16UL, 8UL, 4UL, 3UL, 2UL, 1UL}) {
      for (std::size_t i = 0; i + len <= best.size() && !over();) {
        auto c = best;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
        if (attempt(c)) { progress = true; continue; }
        // delete and decrement an earlier count
        i += (len > 8 ? len / 2 : 1);
      }
    }
    for (std::size_t i = 0; i < best.size() && !over(); ++i) {
      if (best[i] == 0) continue;
      auto c = best; c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = best[i];
      while (lo + 1 < hi && !over()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c2 = best; if (i >= c2.size()) break; c2[i] = mid;
        if (attempt(c2)) { hi = mid; progress = true; } else lo = mid;
      }
      // count reduction: lower by one and drop one later chunk
      for (std::size_t len = 1; len <= 6 && i < best.size() && best[i] > 0 && !over(); ++len) {
        auto c3 = best; c3[i] -= 1;
        if (i + 1 + len <= c3.size()) {
          c3.erase(c3.begin() + static_cast<long>(i + 1), c3.begin() + static_cast<long>(i + 1 + len));
          if (attempt(c3)) { progress = true; len = 0; }
        }
      }
    }
  }
  return best;
}

inline void loadKnown(const std::string& file, const std::string& property, Env& env) {
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    // known: property=C03 id=F1 <what fails>
    if (line.rfind("known:", 0) != 0) continue;
    std::istringstream is(line.substr(6));
    std::string a, b;
    is >> a >> b;
    if (a != "property=" + property || b.rfind("id=", 0) != 0) continue;
    std::string rest; std::getline(is, rest);
    env.known[b.substr(3)] = true;
    env.knownWhat[b.substr(3)] = rest.empty() ? "" : rest.substr(1);
  }
}

inline int mainImpl(Suite& su, int argc, char** argv) {
  // the same addresses in every run: hash tables keyed by pointers then behave the same on a replay
  if (getenv("PBT_SAME_ADDRESSES") == nullptr) {
    const int old = personality(0xffffffffUL);
    setenv("PBT_SAME_ADDRESSES", "1", 1);
    if (old != -1 && (old & ADDR_NO_RANDOMIZE) == 0 && personality(static_cast<unsigned long>(old) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  Env env;
  if (const char* t = getenv("VERIF_TIER")) env.tier = t;
  if (const char* s = getenv("VERIF_SEED")) env.seed = strtoull(s, nullptr, 10);
  if (const char* r = getenv("VERIF_ROOT")) env.root = r;
  std::string replayFile, only;
  bool keepGoing = false, noShrink = false;
  uint64_t forceCases = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--replay") replayFile = nxt();
    else if (a == "--only") only = nxt();
    else if (a == "--keep-going") keepGoing = true;
    else if (a == "--no-shrink") noShrink = true;
    else if (a == "--cases") forceCases = strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--seed") env.seed = strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--tier") env.tier = nxt();
  }
  if (env.tier != "thorough") env.tier = "quick";
  loadKnown(env.root + "/known_findings.txt", su.property, env);
  const double t0 = static_cast<double>(nowMs());

  if (!replayFile.empty()) {
    std::ifstream f(replayFile);
    std::string name, line; int size = 50; std::vector<uint64_t> ch; uint64_t prefixWorkers = 0, pw = 0, pidx = 0, seed = env.seed;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k; is >> k;
      if (k == "name") is >> name;
      else if (k == "size") is >> size;
      else if (k == "seed") is >> seed;
      else if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
      else if (k == "prefix") is >> prefixWorkers >> pw >> pidx;
    }
    for (auto& p : su.props) if (p.name == name) {
      setenv("PBT_VERBOSE", "1", 1);
      std::string d;
      Outcome o;
      if (prefixWorkers) {
        o = isolated(3600, [&](std::vector<uint64_t>&, std::string& dd) {
          Outcome r;
          for (uint64_t i = pw; i <= pidx; i += prefixWorkers) {
            Src s; s.state = caseSeed(seed, p.name, i); s.size = p.sized ? caseSize(i) : 100;
            Ctx c; c.known = &env.known; c.tier = env.tier; c.seed = seed;
            r = runOne(p, s, c); dd = c.description;
          }
          return r; }, nullptr, &d);
      } else o = replayChoices(p, ch, size, env, 600, nullptr, &d);
      std::cout << "case: " << d << "\nresult: " << (bad(o) ? "FAILS " : "passes ") << o.msg << std::endl;
      if (bad(o)) { std::cout << "VIOLATION property=" << su.property << " replay=" << replayFile << std::endl; return 1; }
      return 0;
    }
    std::cerr << "no such generator " << name << "\n";
    return 2;
  }

  const char* we = getenv("VERIF_WORKERS");
  uint64_t W = we ? strtoull(we, nullptr, 10) : static_cast<uint64_t>(std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)));
  if (W > 8) W = 8;
  if (W < 1) W = 1;
  auto* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string tmpl = "/tmp/pbt.XXXXXX";
  std::string dir = mkdtemp(tmpl.data());
  const double budget = env.tier == "quick" ? su.quickBudget : su.thoroughBudget;
  auto ncases = [&](const Prop& p) { return forceCases ? forceCases : (env.tier == "quick" ? p.quick : p.thorough); };

  auto workerMain = [&](uint64_t w, uint64_t startProp, uint64_t startIdx, int gen) {
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!getenv("PBT_VERBOSE")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
    std::ofstream log(dir + "/w" + std::to_string(w) + "." + std::to_string(gen));
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    uint64_t evals = 0, discards = 0, nontriv = 0;
    uint64_t sampled = 0;
    auto flush = [&] {
      log << "E " << evals << " " << discards << " " << nontriv << "\n";
      for (auto& [k, v] : labels) log << "L " << v << " " << k << "\n";
      for (auto h : distinct) log << "D " << h << "\n";
      log << "X\n";
      log.flush();
    };
    uint64_t sinceFlush = 0;
    for (uint64_t pi = startProp; pi < su.props.size(); ++pi) {
      const auto& p = su.props[pi];
      if (!only.empty() && p.name.find(only) == std::string::npos) continue;
      uint64_t n = ncases(p);
      uint64_t perPropSample = 0;
      // every generator gets its share of the time budget
      double share = budget * static_cast<double>(pi + 1) / static_cast<double>(su.props.size());
      for (uint64_t i = (pi == startProp ? startIdx : w); i < n; i += W) {
        if ((static_cast<double>(nowMs()) - t0) / 1000 > share && !forceCases) { labels["time-budget-cut:" + p.name] += 1; break; }
        slots[w].prop = pi; slots[w].idx = i; slots[w].startMs = nowMs();
        Src s; s.state = caseSeed(env.seed, p.name, i); s.size = p.sized ? caseSize(i) : 100;
        Ctx c; c.known = &env.known; c.tier = env.tier; c.seed = env.seed;
        Outcome o = runOne(p, s, c);
        if (o.k == Outcome::Discarded) { ++discards; continue; }
        ++evals;
        labels["cases:" + p.name]++;
        for (auto& [k, v] : c.labels) labels[k] += v;
        if (c.nontrivial) { ++nontriv; distinct.insert(fnv(p.name + "|" + (c.description.empty() ? [&] { std::string t; for (auto v : s.rec) t += std::to_string(v) + ","; return t; }() : c.description))); }
        if (c.nontrivial && w == 0 && sampled < 12 && perPropSample < 2 && !c.description.empty()) { ++sampled; ++perPropSample; log << "S " << jsonEscape(p.name + ": " + c.description.substr(0, 1500)) << "\n"; }
        if (o.k == Outcome::Failed) {
          log << "F " << pi << " " << i << " " << jsonEscape(o.msg) << "\n";
          log.flush();
          if (!keepGoing) { flush(); slots[w].done = 1; _exit(0); }
        }
        if (++sinceFlush >= 4096) { sinceFlush = 0; flush(); evals = discards = nontriv = 0; labels.clear(); distinct.clear(); }
      }
    }
    flush();
    slots[w].done = 1;
    _exit(0);
  };

  std::vector<pid_t> pids(W);
  std::vector<int> gens(W, 0);
  for (uint64_t w = 0; w < W; ++w) {
    slots[w] = {0, w, nowMs(), 0, 0};
    fflush(nullptr);
    pids[w] = fork();
    if (pids[w] == 0) workerMain(w, 0, w, 0);
  }
  struct FailRec { uint64_t prop, idx, w; Outcome o; };
  std::vector<FailRec> fails;
  std::vector<FailRec> hangs; // re-verified later
  uint64_t running = W;
  std::vector<bool> alive(W, true);
  auto readFails = [&](uint64_t w) {
    std::ifstream f(dir + "/w" + std::to_string(w) + "." + std::to_string(gens[w]));
    std::string line;
    while (std::getline(f, line)) if (line.rfind("F ", 0) == 0) {
      std::istringstream is(line.substr(2)); FailRec r{}; is >> r.prop >> r.idx; std::getline(is, r.o.msg); r.o.k = Outcome::Failed; r.w = w; fails.push_back(r);
    }
  };
  int violations = 0;
  std::vector<std::string> notes;
  auto report = [&](const FailRec& f) {
    const auto& p = su.props[f.prop];
    int size = p.sized ? caseSize(f.idx) : 100;
    std::vector<uint64_t> rec; std::string d; Outcome o;
    int reproduced = 0;
    const int tries = f.o.k == Outcome::Hung ? 2 : 3;
    for (int t = 0; t < tries; ++t) {
      // a crash loses the recorded choices: draw them again up to the crash through the shared seed
      Outcome oo = isolated(p.timeout * (f.o.k == Outcome::Hung ? 2 : 1), [&](std::vector<uint64_t>& r, std::string& dd) {
        Src s; s.state = caseSeed(env.seed, p.name, f.idx); s.size = size; Ctx c; c.known = &env.known; c.tier = env.tier; c.seed = env.seed;
        Outcome x = runOne(p, s, c); r = s.rec; dd = c.description; return x; }, &rec, &d);
      if (bad(oo)) { ++reproduced; o = oo; }
    }
    mkdir((env.root + "/replay").c_str(), 0755);
    std::string path = env.root + "/replay/" + su.property + "-" + p.name + "-" + std::to_string(env.seed) + "-" + std::to_string(f.idx) + ".txt";
    if (reproduced == tries || (reproduced > 0 && f.o.k != Outcome::Hung)) {
      const bool stable = reproduced == tries;
      if (rec.empty()) { // crashed: regenerate raw choices by giving the seed stream
        uint64_t st = caseSeed(env.seed, p.name, f.idx);
        for (int i = 0; i < 4000; ++i) rec.push_back(splitmix(st));
      }
      if (!noShrink && stable) rec = shrink(p, rec, size, env, o, d, env.tier == "quick" ? 45 : 180);
      std::ofstream out(path);
      out << "property " << su.property << "\nname " << p.name << "\nsize " << size << "\nseed " << env.seed << "\nchoices";
      for (auto v : rec) out << " " << v;
      out << "\nmessage " << jsonEscape(o.msg) << "\ncase " << jsonEscape(d) << "\nrun: bash run.sh " << su.property << " --replay <this file>\n";
      std::cout << "failure in generator " << p.name << ": " << o.msg << "\n  case: " << d << "\n";
      std::cout << "VIOLATION property=" << su.property << " replay=" << path << std::endl;
      ++violations;
      return true;
    }
    if (f.o.k == Outcome::Hung) { notes.push_back("slow case " + p.name + "#" + std::to_string(f.idx) + " finished on re-run"); return false; }
    // depends on earlier cases in the same process: replay the prefix
    Outcome po;
    for (int t = 0; t < 3; ++t) {
      po = isolated(600, [&](std::vector<uint64_t>&, std::string& dd) {
        Outcome r;
        for (uint64_t i = f.w; i <= f.idx; i += W) {
          Src s; s.state = caseSeed(env.seed, p.name, i); s.size = p.sized ? caseSize(i) : 100;
          Ctx c; c.known = &env.known; c.tier = env.tier; c.seed = env.seed;
          r = runOne(p, s, c); dd = c.description;
        }
        return r; }, nullptr, &d);
      if (bad(po)) break;
    }
    if (bad(po)) {
      std::ofstream out(path);
      out << "property " << su.property << "\nname " << p.name << "\nsize " << size << "\nseed " << env.seed << "\nprefix " << W << " " << f.w << " " << f.idx << "\nmessage " << jsonEscape(po.msg) << "\n";
      std::cout << "failure (needs the preceding cases) in generator " << p.name << ": " << po.msg << "\n";
      std::cout << "VIOLATION property=" << su.property << " replay=" << path << std::endl;
      ++violations;
      return true;
    }
    notes.push_back("not reproducible: " + p.name + "#" + std::to_string(f.idx) + ": " + f.o.msg);
    std::cerr << "note: " << notes.back() << "\n";
    return false;
  };
  bool stopAll = false;
  // the failures a worker left behind: true when one of them is confirmed
  auto confirm = [&](std::size_t from) {
    if (keepGoing) return false;
    for (std::size_t i = from; i < fails.size(); ++i) if (report(fails[i])) return true;
    fails.resize(from);
    return false;
  };
  while (running > 0) {
    usleep(5000);
    for (uint64_t w = 0; w < W; ++w) {
      if (!alive[w]) continue;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool restart = false;
      if (r == pids[w]) {
        const std::size_t from = fails.size();
        if (slots[w].done) {
          readFails(w);
          const bool failed = fails.size() > from;
          if (!stopAll && confirm(from)) stopAll = true;
          if (failed && !keepGoing && !stopAll) restart = true; else { alive[w] = false; --running; }
        } else {
          FailRec fr{slots[w].prop, slots[w].idx, w, {Outcome::Crashed, WIFSIGNALED(st) ? "crash: killed by signal " + std::to_string(WTERMSIG(st)) : "crash: exited with status " + std::to_string(WEXITSTATUS(st))}};
          readFails(w);
          fails.push_back(fr);
          if (!stopAll && confirm(from)) stopAll = true;
          if (!stopAll) restart = true; else { alive[w] = false; --running; }
        }
      } else if (!slots[w].done && nowMs() - slots[w].startMs > static_cast<uint64_t>(su.props[slots[w].prop].timeout) * 1000) {
        kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0);
        readFails(w);
        hangs.push_back({slots[w].prop, slots[w].idx, w, {Outcome::Hung, "did not terminate within " + std::to_string(su.props[slots[w].prop].timeout) + " s"}});
        restart = true;
      }
      if (restart && !stopAll) {
        gens[w]++;
        uint64_t np = slots[w].prop, ni = slots[w].idx + W;
        slots[w].startMs = nowMs(); slots[w].done = 0;
        fflush(nullptr);
        pids[w] = fork();
        if (pids[w] == 0) workerMain(w, np, ni, gens[w]);
      } else if (restart) { alive[w] = false; --running; }
    }
    if (stopAll) {
      for (uint64_t w = 0; w < W; ++w) if (alive[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); alive[w] = false; --running; readFails(w); }
    }
    if (hangs.size() > 6) { for (uint64_t w = 0; w < W; ++w) if (alive[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); alive[w] = false; --running; readFails(w); } }
  }
  // aggregate statistics
  uint64_t evals = 0, discards = 0, nontriv = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  for (uint64_t w = 0; w < W; ++w) for (int g = 0; g <= gens[w]; ++g) {
    std::ifstream f(dir + "/w" + std::to_string(w) + "." + std::to_string(g));
    std::string line;
    while (std::getline(f, line)) {
      if (line.size() < 2) continue;
      std::istringstream is(line.substr(2));
      if (line[0] == 'E') { uint64_t a, b, c; is >> a >> b >> c; evals += a; discards += b; nontriv += c; }
      else if (line[0] == 'L') { uint64_t v; is >> v; std::string k; std::getline(is, k); labels[k.substr(1)] += v; }
      else if (line[0] == 'D') { uint64_t h; is >> h; distinct.insert(h); }
      else if (line[0] == 'S') samples.push_back(line.substr(2));
    }
    std::string fn = dir + "/w" + std::to_string(w) + "." + std::to_string(g);
    unlink(fn.c_str());
  }
  rmdir(dir.c_str());

  // verify, shrink and report
  std::sort(fails.begin(), fails.end(), [](const FailRec& a, const FailRec& b) { return a.prop != b.prop ? a.prop < b.prop : a.idx < b.idx; });
  if (keepGoing) {
    std::map<std::string, std::vector<FailRec>> buckets;
    for (auto& f : fails) {
      std::string key; for (char c : f.o.msg.substr(0, 40)) { if (c == '\n' || c == '[' || (isdigit(static_cast<unsigned char>(c)) && key.size() > 8)) break; key += c; }
      buckets[su.props[f.prop].name + ": " + key].push_back(f);
    }
    for (auto& [k, v] : buckets) {
      std::cout << "BUCKET x" << v.size() << " " << k << "\n";
      auto& f = v.front(); auto& p = su.props[f.prop];
      std::vector<uint64_t> rec; std::string d;
      int size = p.sized ? caseSize(f.idx) : 100;
      Outcome o = isolated(p.timeout, [&](std::vector<uint64_t>& r, std::string& dd) {
        Src s; s.state = caseSeed(env.seed, p.name, f.idx); s.size = size; Ctx c; c.known = &env.known; c.tier = env.tier; c.seed = env.seed;
        Outcome oo = runOne(p, s, c); r = s.rec; dd = c.description; return oo; }, &rec, &d);
      if (o.k == Outcome::Failed && !noShrink) { shrink(p, rec, size, env, o, d, 6); }
      std::cout << "   idx " << f.idx << " msg: " << o.msg.substr(0, 600) << "\n   case: " << d.substr(0, 500) << "\n";
    }
    for (auto& h : hangs) std::cout << "HANG " << su.props[h.prop].name << " idx " << h.idx << "\n";
  } else {
    if (violations == 0) for (auto& f : fails) if (report(f)) break;
    if (violations == 0) for (auto& h : hangs) if (report(h)) break;
  }
  // known findings
  for (auto& pr : su.probes) {
    if (!env.known.count(pr.id)) continue;
    Outcome o = isolated(60, [&](std::vector<uint64_t>&, std::string&) -> Outcome {
      try { pr.fn(); } catch (const Fail& f) { return {Outcome::Failed, f.what()}; } catch (const std::exception& e) { return {Outcome::Failed, e.what()}; }
      return {};
    });
    if (bad(o)) std::cout << "KNOWN-FINDING: property=" << su.property << " " << pr.id << " " << env.knownWhat[pr.id] << " [" << o.msg << "]" << std::endl;
    else { notes.push_back("known finding " + pr.id + " no longer fails"); }
  }
  const double wall = (static_cast<double>(nowMs()) - t0) / 1000;
  mkdir((env.root + "/evidence").c_str(), 0755);
  std::ofstream ev(env.root + "/evidence/" + su.property + ".json");
  ev << "{\"property\": \"" << su.property << "\", \"tier\": \"" << env.tier << "\", \"seed\": " << env.seed << ", \"level\": \"" << su.level << "\",\n \"coverage\": {\"evaluations\": " << evals
     << ", \"distinct_nontrivial\": " << distinct.size() << ", \"nontrivial\": " << nontriv << ", \"discarded\": " << discards
     << ",\n  \"rule\": \"" << jsonEscape(su.rule) << "\",\n  \"labels\": {";
  bool first = true;
  for (auto& [k, v] : labels) { ev << (first ? "" : ", ") << "\"" << jsonEscape(k) << "\": " << v; first = false; }
  ev << "},\n  \"samples\": [";
  first = true;
  for (auto& s : samples) { ev << (first ? "" : ",\n    ") << "\"" << s << "\""; first = false; }
  ev << "]},\n \"assumptions\": [";
  first = true;
  for (auto& s : su.assumptions) { ev << (first ? "" : ", ") << "\"" << jsonEscape(s) << "\""; first = false; }
  for (auto& s : notes) { ev << (first ? "" : ", ") << "\"note: " << jsonEscape(s) << "\""; first = false; }
  ev << "],\n \"wall_s\": " << wall << ", \"violations\": " << violations << "}\n";
  ev.close();
  std::cout << su.property << " " << env.tier << " seed " << env.seed << ": " << evals << " cases, " << distinct.size() << " distinct non-trivial, " << discards << " discarded, " << wall << " s, " << violations << " violation(s)" << std::endl;
  if (keepGoing) for (auto& [k, v] : labels) std::cout << "   " << k << ": " << v << "\n";
  return violations ? 1 : 0;
}

} // namespace pbt
