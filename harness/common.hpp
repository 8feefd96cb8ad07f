// Shared machinery of the monitoring harnesses: deterministic randomness, case
// bookkeeping, violation reporting and crash attribution.
#ifndef VH_COMMON_HPP
#define VH_COMMON_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(ASIOEXT_USE_BOOST_ASIO)
# include <boost/system/system_error.hpp>
namespace vh { using boost::system::system_error; namespace errc = boost::system::errc; using boost::system::errc::make_error_code; }
#else
# include <system_error>
namespace vh { using std::system_error; using std::errc; using std::make_error_code; }
#endif

namespace vh {

inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t hash_bytes(const void* p, std::size_t n,
                           uint64_t h = 1469598103934665603ull)
{
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i)
    h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

inline uint64_t hash_str(const std::string& s)
{ return hash_bytes(s.data(), s.size()); }

class Rng
{
public:
  explicit Rng(uint64_t s) : s_(s) {}
  uint64_t next() { s_ += 0x9e3779b97f4a7c15ull; return mix(s_); }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // [a, b]
  int64_t range(int64_t a, int64_t b)
  { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
  bool chance(unsigned percent) { return below(100) < percent; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // sizes biased towards small values and powers of two
  std::size_t size(std::size_t max)
  {
    switch (below(8)) {
    case 0: return 0;
    case 1: return below(3) > max ? max : below(3);
    case 2: case 3: return below((max < 17 ? max : 16) + 1);
    case 4: { std::size_t p = std::size_t(1) << below(12); p += below(3); p -= 1; return p > max ? max : p; }
    default: return below(max + 1);
    }
  }
  std::string bytes(std::size_t n)
  {
    std::string r(n, '\0');
    std::size_t i = 0;
    if (n > 8192)
      for (; i + 8 <= n; i += 8) { const uint64_t x = next(); std::memcpy(&r[i], &x, 8); }
    for (; i < n; ++i) r[i] = static_cast<char>(next() >> 17);
    return r;
  }
private:
  uint64_t s_;
};

struct Violation { std::string key, detail; uint64_t index; };

struct State
{
  std::mutex m;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::set<std::string> seen_keys;
  uint64_t evaluations = 0;
  uint64_t seed = 1, cases = 0, first = 0;
  int64_t only = -1;
  uint64_t index = 0;
  bool thorough = false;
  std::string group, stats, curfile, distfile;
  char* cur = nullptr;
  static const std::size_t cur_size = 65536;
};

inline State& st() { static State* s = new State; return *s; }

// Describe what is being executed right now (survives a crash).
inline void current(const std::string& what)
{
  State& s = st();
  if (!s.cur) return;
  std::size_t n = what.size();
  if (n > State::cur_size - 64) n = State::cur_size - 64;
  int k = std::snprintf(s.cur, 64, "case %llu: ", (unsigned long long)s.index);
  std::memcpy(s.cur + k, what.data(), n);
  s.cur[k + n] = 0;
}

inline void violation(const std::string& key, const std::string& detail)
{
  State& s = st();
  std::lock_guard<std::mutex> l(s.m);
  if (!s.seen_keys.insert(key).second) { ++s.counters["repeat:" + key]; return; }
  if (s.violations.size() < 50)
    s.violations.push_back(Violation{key, detail.substr(0, 4000), s.index});
  std::fprintf(stderr, "MONITOR %s case=%llu: %s\n", key.c_str(),
               (unsigned long long)s.index, detail.substr(0, 2000).c_str());
}

inline void count(const std::string& name, uint64_t n = 1)
{
  State& s = st();
  std::lock_guard<std::mutex> l(s.m);
  s.counters[name] += n;
}

inline void evaluated(uint64_t n = 1)
{
  State& s = st();
  std::lock_guard<std::mutex> l(s.m);
  s.evaluations += n;
}

inline void distinct(uint64_t h)
{
  State& s = st();
  std::lock_guard<std::mutex> l(s.m);
  if (s.distinct.size() < 400000) s.distinct.insert(h);
}

inline void sample(const std::string& text)
{
  State& s = st();
  std::lock_guard<std::mutex> l(s.m);
  if (s.samples.size() < 4) s.samples.push_back(text.substr(0, 1500));
}

inline std::string esc(const std::string& in)
{
  std::string o;
  for (unsigned char c : in) {
    char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

// printable form of arbitrary bytes
inline std::string show(const std::string& in, std::size_t max = 200)
{
  std::string o = "\"";
  for (std::size_t i = 0; i < in.size() && i < max; ++i) {
    unsigned char c = in[i];
    char b[8];
    if (c < 32 || c > 126 || c == '\\' || c == '"') { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  o += "\"";
  if (in.size() > max) o += "...(" + std::to_string(in.size()) + ")";
  return o;
}

template <class A> void cat_one(std::ostringstream& o, const A& a) { o << a; }
template <class... A> std::string cat(const A&... a)
{ std::ostringstream o; (cat_one(o, a), ...); return o.str(); }

inline void write_stats()
{
  State& s = st();
  std::lock_guard<std::mutex> l(s.m);
  if (!s.distfile.empty()) {
    if (FILE* f = std::fopen(s.distfile.c_str(), "wb")) {
      for (uint64_t h : s.distinct) std::fwrite(&h, 8, 1, f);
      std::fclose(f);
    }
  }
  if (s.stats.empty()) return;
  std::string tmp = s.stats + ".tmp";
  FILE* f = std::fopen(tmp.c_str(), "w");
  if (!f) return;
  std::fprintf(f, "{\"group\":\"%s\",\"evaluations\":%llu,\"distinct\":%llu,\"counters\":{",
               esc(s.group).c_str(), (unsigned long long)s.evaluations,
               (unsigned long long)s.distinct.size());
  bool first = true;
  for (auto& c : s.counters) {
    std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second);
    first = false;
  }
  std::fprintf(f, "},\"samples\":[");
  first = true;
  for (auto& x : s.samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",", esc(x).c_str()); first = false; }
  std::fprintf(f, "],\"violations\":[");
  first = true;
  for (auto& v : s.violations) {
    std::fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\",\"case\":%llu}", first ? "" : ",",
                 esc(v.key).c_str(), esc(v.detail).c_str(), (unsigned long long)v.index);
    first = false;
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
  std::rename(tmp.c_str(), s.stats.c_str());
}

typedef std::function<void()> GroupFn;
inline std::map<std::string, GroupFn>& groups() { static std::map<std::string, GroupFn>* g = new std::map<std::string, GroupFn>; return *g; }
struct Reg { Reg(const char* n, GroupFn f) { groups()[n] = std::move(f); } };
#define VH_GROUP(name) \
  static void vh_group_##name(); \
  static vh::Reg vh_reg_##name(#name, &vh_group_##name); \
  static void vh_group_##name()

// Runs body(rng, index) for every case of this process's share.
template <class F> void run_cases(F&& body)
{
  State& s = st();
  const uint64_t g = hash_str(s.group);
  for (uint64_t i = s.first; i < s.first + s.cases; ++i) {
    if (s.only >= 0 && i != static_cast<uint64_t>(s.only)) continue;
    s.index = i;
    Rng r(mix(s.seed * 0x100000001b3ull ^ g) ^ mix(i * 2654435761ull + 12345));
    if (s.cur) current("(starting)");
    body(r, i);
    evaluated();
    if (s.violations.size() >= 50) break;
  }
}

inline int run_main(int argc, char** argv)
{
  State& s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--group") { s.group = v; ++i; }
    else if (a == "--seed") { s.seed = std::strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--cases") { s.cases = std::strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--first") { s.first = std::strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--only") { s.only = std::strtoll(v.c_str(), 0, 10); ++i; }
    else if (a == "--stats") { s.stats = v; ++i; }
    else if (a == "--cur") { s.curfile = v; ++i; }
    else if (a == "--distinct") { s.distfile = v; ++i; }
    else if (a == "--thorough") s.thorough = true;
  }
  if (!s.curfile.empty()) {
    int fd = ::open(s.curfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      if (::ftruncate(fd, State::cur_size) == 0) {
        void* p = ::mmap(0, State::cur_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) s.cur = static_cast<char*>(p);
      }
      ::close(fd);
    }
  }
  auto it = groups().find(s.group);
  if (it == groups().end()) {
    std::fprintf(stderr, "unknown group '%s'; have:", s.group.c_str());
    for (auto& g : groups()) std::fprintf(stderr, " %s", g.first.c_str());
    std::fprintf(stderr, "\n");
    return 3;
  }
  it->second();
  current("(finished)");
  write_stats();
  return 0;
}

// Scratch directory owned by this process, below the working directory given
// by the driver (which removes it).
inline std::string scratch()
{
  static std::string* dir = nullptr;
  if (!dir) {
    const char* base = std::getenv("VH_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/vh.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!::mkdtemp(b.data())) { std::perror("mkdtemp"); std::exit(3); }
    dir = new std::string(b.data());
  }
  return *dir;
}

} // namespace vh

#define VH_MAIN int main(int argc, char** argv) { return vh::run_main(argc, argv); }

// Report a violation when cond is false.
#define VH_CHECK(cond, key, ...) \
  do { if (!(cond)) vh::violation(key, vh::cat("expected " #cond " ; ", __VA_ARGS__)); } while (0)

#endif
