// C06: time conversions against 128-bit arithmetic.
#include "common.hpp"
#include <asioext/chrono.hpp>
#include <asioext/detail/chrono.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/open.hpp>
#include <chrono>
#include <limits>
#include <ratio>
#include <sys/stat.h>

using vh::Rng;
using vh::cat;
typedef __int128 I;
namespace ch = std::chrono;

static std::string str(I v)
{
  if (v == 0) return "0";
  bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v;
  std::string s;
  while (u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; }
  return neg ? "-" + s : s;
}

static I floordiv(I a, I b) { I q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) --q; return q; }

// interesting 64-bit values: limits, limits of unit conversions and their neighbours, random magnitudes
static int64_t val(Rng& r)
{
  static const std::vector<int64_t> units = {1, 2, 3, 10, 60, 1000, 3600, 10000, 100000, 1000000, 10000000, 86400, 1000000000ll, 60000000000ll, 3600000000000ll};
  const int64_t mx = INT64_MAX, mn = INT64_MIN;
  auto jit = [&](int64_t b) {
    int64_t j = r.range(-3, 3);
    I x = (I)b + j;
    if (x > mx) x = mx;
    if (x < mn) x = mn;
    return (int64_t)x;
  };
  switch (r.below(10)) {
  case 0: return jit(mx);
  case 1: return jit(mn);
  case 2: return jit(mx / r.pick(units));
  case 3: return jit(mn / r.pick(units));
  case 4: return jit(0);
  case 5: return jit(r.pick(units) * r.range(-5, 5));
  case 6: { int64_t a = r.pick(units), b = r.pick(units); return jit((int64_t)((I)(mx / a) / b)); }
  case 7: { static const std::vector<int64_t> n = {INT32_MAX, INT32_MIN, INT16_MAX, INT16_MIN, UINT32_MAX}; int64_t u = r.pick(units); I x = (I)r.pick(n) * (r.chance(50) ? u : 1); return x > mx || x < mn ? jit(0) : jit((int64_t)x); }
  default: return (int64_t)(r.next() >> r.below(64)) * (r.chance(50) ? 1 : -1);
  }
}

template <class RI, class PI, class RO, class PO>
static void cast_case(Rng& r, const char* name)
{
  typedef ch::duration<RI, PI> In;
  typedef ch::duration<RO, PO> Out;
  typedef std::ratio_divide<PI, PO> Q;
  int64_t v = val(r);
  if (r.chance(30)) { // around the preimages of what the result type can hold
    I lim = r.chance(50) ? (I)std::numeric_limits<RO>::max() : (I)std::numeric_limits<RO>::min();
    I x = floordiv((lim + r.range(-2, 2)) * Q::den, Q::num) + (r.chance(50) ? (I)r.range(-2, 2) : (I)r.below(Q::den));
    if (x <= INT64_MAX && x >= INT64_MIN) { v = (int64_t)x; vh::count("cast-result-limits"); }
  }
  if (v > (int64_t)std::numeric_limits<RI>::max()) v = std::numeric_limits<RI>::max() - r.below(3);
  if (v < (int64_t)std::numeric_limits<RI>::min()) v = std::numeric_limits<RI>::min() + r.below(3);
  vh::current(cat("cast ", name, " ", v));
  const In in((RI)v);
  const RO canary = (RO)0x5a;
  Out out(canary);
  bool ok = asioext::detail::safe_duration_cast(in, out);
  I prod = (I)v * Q::num;
  I exact = prod / Q::den; // truncated towards zero
  bool fits = exact >= (I)std::numeric_limits<RO>::min() && exact <= (I)std::numeric_limits<RO>::max();
  bool inter = prod >= (I)INT64_MIN && prod <= (I)INT64_MAX;
  // Downscaling and same-unit casts need no intermediate product.
  bool must = fits && (Q::num == 1 || inter);
  // when scaling up exactly (den == 1) the product is the value itself
  VH_CHECK(!ok || fits, "cast-accepts-overflow", name, " ", v, " -> ", (int64_t)out.count());
  VH_CHECK(ok || !must, "cast-rejects-valid", name, " ", v, " exact ", str(exact));
  if (ok && fits) VH_CHECK((I)out.count() == exact, "cast-inexact", name, " ", v, " -> ", (int64_t)out.count(), " want ", str(exact));
  if (!ok) { VH_CHECK(out.count() == canary, "cast-failure-modifies", name, " ", v); vh::count("cast-rejected"); }
  else vh::count("cast-ok");
  vh::distinct(vh::mix(v) ^ vh::hash_str(name));
}

// F and S per D as exact integers in units of the finest period
template <class D, class F, class S>
static void pair_case(Rng& r, const char* name)
{
  // all supported combinations: F coarser than D and S
  typedef std::ratio_divide<typename F::period, typename D::period> FD;
  typedef std::ratio_divide<typename F::period, typename S::period> FS;
  typedef std::ratio_divide<typename D::period, typename S::period> DS;
  static_assert(FD::den == 1 && FS::den == 1, "");
  // decompose
  int64_t v = val(r);
  if (sizeof(typename F::rep) < 8 && r.chance(50)) { // around what the first part can hold
    I lim = r.chance(50) ? (I)std::numeric_limits<typename F::rep>::max() : (I)std::numeric_limits<typename F::rep>::min();
    lim = (lim + r.range(-2, 2)) * FD::num + (r.chance(50) ? (I)r.range(-3, 3) : (I)r.below(FD::num));
    if (lim <= INT64_MAX && lim >= INT64_MIN) v = (int64_t)lim;
  }
  vh::current(cat("decompose ", name, " ", v));
  F f(77); S s(78);
  bool ok = asioext::detail::decompose_time(D(v), f, s);
  I total = (I)v * DS::num / DS::den; // in S units, truncated
  I ff = floordiv(total, FS::num), ss = total - ff * FS::num;
  bool fits = ff >= (I)std::numeric_limits<typename F::rep>::min() && ff <= (I)std::numeric_limits<typename F::rep>::max();
  VH_CHECK(ok == fits, "decompose-accept", name, " ", v, " ok=", ok, " want ", str(ff), "+", str(ss));
  if (ok && fits)
    VH_CHECK((I)f.count() == ff && (I)s.count() == ss, "decompose-wrong", name, " ", v, " -> ", f.count(), "+", s.count(), " want ", str(ff), "+", str(ss));
  vh::count(ok ? "decompose-ok" : "decompose-rejected");
  vh::distinct(vh::mix(v) ^ vh::hash_str(name) ^ 1);
  if constexpr (DS::num == 1 || DS::den != 1) {
    // S is not finer than D: composition is exact
    if constexpr (DS::num == 1) {
      int64_t first = r.chance(50) ? val(r) : 0;
      if (!first) { // around the limits
        I lim = r.chance(50) ? (I)INT64_MAX / FD::num : (I)INT64_MIN / FD::num;
        I x = lim + r.range(-2, 2);
        if (x > INT64_MAX) x = INT64_MAX;
        if (x < INT64_MIN) x = INT64_MIN;
        first = (int64_t)x;
      }
      if (first > (int64_t)std::numeric_limits<typename F::rep>::max() || first < (int64_t)std::numeric_limits<typename F::rep>::min()) first = -1;
      int64_t second;
      switch (r.below(6)) {
      case 0: second = 0; break;
      case 1: second = FS::num - 1 - r.below(2); break;
      case 2: { I rem = (I)INT64_MAX % FD::num / DS::den; second = (int64_t)rem + r.range(-2, 2); break; }
      case 3: { I rem = (((I)INT64_MIN % FD::num) + FD::num) / DS::den; second = (int64_t)rem + r.range(-2, 2); break; }
      default: second = (int64_t)r.below(FS::num);
      }
      if (second < 0) second = 0;
      if (second >= FS::num) second = FS::num - 1;
      vh::current(cat("compose ", name, " ", first, " ", second));
      D out(79);
      bool cok = asioext::detail::compose_time(F((typename F::rep)first), S((typename S::rep)second), out);
      I sum = (I)first * FD::num + (I)second * DS::den;
      bool cfits = sum >= INT64_MIN && sum <= INT64_MAX;
      VH_CHECK(cok == cfits, cok ? "compose-accepts-overflow" : "compose-rejects-valid", name, " ", first, "+", second, " = ", str(sum));
      if (cok && cfits) VH_CHECK((I)out.count() == sum, "compose-wrong", name, " ", first, "+", second, " -> ", out.count(), " want ", str(sum));
      if (!cok) VH_CHECK(out.count() == 79, "compose-failure-modifies", name, " ", first, "+", second);
      vh::count(cok ? "compose-ok" : "compose-rejected");
      if (cok && first < 0) vh::count("compose-negative");
      vh::distinct(vh::mix(first) ^ vh::mix(second) ^ vh::hash_str(name) ^ 2);
      // round trip
      if (DS::den == 1 && ok) {
        D back(0);
        VH_CHECK(asioext::detail::compose_time(f, s, back) && back.count() == v, "round-trip", name, " ", v, " -> ", f.count(), "+", s.count(), " -> ", back.count());
        vh::count("round-trips");
      }
    }
  }
}

typedef ch::duration<int64_t, std::ratio<1, 10000000>> ticks;
typedef ch::duration<int64_t> sec64;
typedef ch::duration<int32_t> sec32;
typedef ch::duration<int64_t, std::ratio<60>> min64;
typedef ch::duration<int64_t, std::ratio<1, 3>> thirds;

VH_GROUP(cast)
{
  vh::run_cases([](Rng& r, uint64_t i) {
    switch (i % 18) {
#define C(n, a, b, c, d) case n: cast_case<a, b, c, d>(r, #a "," #b "->" #c "," #d); break;
    C(0, int64_t, std::ratio<1>, int64_t, std::nano)
    C(1, int64_t, std::nano, int64_t, std::ratio<1>)
    C(2, int64_t, std::micro, int64_t, std::nano)
    C(3, int64_t, std::nano, int64_t, std::micro)
    C(4, int64_t, std::ratio<1>, int32_t, std::ratio<1>)
    C(5, int64_t, std::ratio<3600>, int64_t, std::nano)
    C(6, int64_t, std::nano, int32_t, std::ratio<3600>)
    C(7, int32_t, std::ratio<1>, int64_t, std::milli)
    case 8: cast_case<int64_t, std::ratio<1, 10000000>, int64_t, std::nano>(r, "ticks->ns"); break;
    case 9: cast_case<int64_t, std::nano, int64_t, std::ratio<1, 10000000>>(r, "ns->ticks"); break;
    case 10: cast_case<int64_t, std::ratio<1, 3>, int64_t, std::ratio<1, 2>>(r, "thirds->halves"); break;
    case 11: cast_case<int64_t, std::ratio<1, 2>, int32_t, std::ratio<1, 3>>(r, "halves->thirds32"); break;
    case 12: cast_case<int64_t, std::ratio<7, 5>, int64_t, std::ratio<3, 11>>(r, "77/15"); break;
    case 13: cast_case<int32_t, std::ratio<60>, int32_t, std::milli>(r, "min32->ms32"); break;
    case 14: cast_case<int64_t, std::milli, int16_t, std::ratio<1>>(r, "ms->s16"); break;
    case 15: cast_case<int64_t, std::ratio<1>, int64_t, std::ratio<1>>(r, "s->s"); break;
    case 16: cast_case<int64_t, std::nano, int64_t, std::ratio<86400>>(r, "ns->days"); break;
    case 17: cast_case<int16_t, std::ratio<1>, int64_t, std::nano>(r, "s16->ns"); break;
    }
  });
  vh::sample("safe_duration_cast at limits of 18 type pairs");
}

VH_GROUP(pairs)
{
  vh::run_cases([](Rng& r, uint64_t i) {
    switch (i % 12) {
    case 0: case 1: pair_case<ch::nanoseconds, sec64, ch::nanoseconds>(r, "ns=s+ns"); break;
    case 2: pair_case<ch::nanoseconds, sec64, ch::microseconds>(r, "ns=s+us"); break;
    case 3: pair_case<ch::microseconds, sec64, ch::microseconds>(r, "us=s+us"); break;
    case 4: pair_case<ticks, sec64, ticks>(r, "ticks=s+ticks"); break;
    case 5: pair_case<ch::nanoseconds, min64, ch::nanoseconds>(r, "ns=min+ns"); break;
    case 6: pair_case<ch::milliseconds, sec64, ch::microseconds>(r, "ms=s+us (decompose)"); break;
    case 7: pair_case<ticks, sec64, ch::nanoseconds>(r, "ticks=s+ns (decompose)"); break;
    case 8: pair_case<ch::milliseconds, sec64, ch::milliseconds>(r, "ms=s+ms"); break;
    case 9: pair_case<ch::nanoseconds, sec32, ch::nanoseconds>(r, "ns=s32+ns"); break;
    case 10: pair_case<ch::milliseconds, sec32, ch::milliseconds>(r, "ms=s32+ms"); break;
    case 11: pair_case<ticks, sec32, ch::nanoseconds>(r, "ticks=s32+ns (decompose)"); break;
    }
  });
  vh::sample("decompose_time/compose_time at limits of 8 type triples");
}

VH_GROUP(timet)
{
  typedef asioext::file_clock FC;
  vh::run_cases([](Rng& r, uint64_t) {
    int64_t t = val(r);
    const int64_t lim = INT64_MAX / 1000000000ll;
    if (t > lim || t < -lim) t = r.chance(20) ? (r.chance(50) ? lim : -lim) : r.range(-lim, lim);
    vh::current(cat("time_t ", t));
    FC::time_point p = FC::from_time_t((time_t)t);
    VH_CHECK((I)p.time_since_epoch().count() == (I)t * 1000000000, "from_time_t", t, " -> ", p.time_since_epoch().count());
    VH_CHECK(FC::to_time_t(p) == t, "time_t-round-trip", t, " -> ", FC::to_time_t(p));
    int64_t ns = val(r);
    time_t back = FC::to_time_t(FC::time_point(FC::duration(ns)));
    I diff = (I)ns - (I)back * 1000000000;
    VH_CHECK(diff > -1000000000 && diff < 1000000000, "to_time_t", ns, " -> ", back);
    VH_CHECK(diff == 0 || (diff > 0) == (ns > 0) || diff > 0, "to_time_t-direction", ns, " -> ", back);
    vh::distinct(vh::mix(t) ^ vh::mix(ns));
  });
  // the clock itself
  for (int i = 0; i < 1000; ++i) {
    struct timespec a, b;
    clock_gettime(CLOCK_REALTIME, &a);
    errno = i & 1 ? EIO : 0; // a stale error means nothing
    FC::time_point n = FC::now();
    clock_gettime(CLOCK_REALTIME, &b);
    int64_t x = a.tv_sec * 1000000000ll + a.tv_nsec, y = b.tv_sec * 1000000000ll + b.tv_nsec, m = n.time_since_epoch().count();
    if (y - x < 3600ll * 1000000000 && y >= x)
      VH_CHECK(m >= x - 1000 && m <= y + 1000, "now", x, " ", m, " ", y);
    vh::count("now-samples");
  }
}

// -------- through file handles, with synthetic stat results / captured futimens arguments
static bool synth = false, capture = false;
static uint64_t hits_stat = 0, hits_ut = 0;
static struct timespec synth_a, synth_m, got[2];
extern "C" {
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* st)
{
  int rc = __real_fstat(fd, st);
  if (synth && rc == 0) { ++hits_stat; st->st_atim = synth_a; st->st_mtim = synth_m; }
  return rc;
}
int __real_futimens(int, const struct timespec*);
int __wrap_futimens(int fd, const struct timespec* ts)
{
  if (capture) { ++hits_ut; got[0] = ts[0]; got[1] = ts[1]; return 0; }
  return __real_futimens(fd, ts);
}
}

VH_GROUP(native)
{
  asioext::unique_file_handle f = asioext::open((vh::scratch() + "/t").c_str(),
      asioext::open_args(asioext::open_flags::access_read_write | asioext::open_flags::create_always));
  vh::run_cases([&](Rng& r, uint64_t) {
    auto mk = [&](struct timespec& t) {
      int64_t lim = INT64_MAX / 1000000000ll;
      t.tv_sec = r.chance(40) ? (r.chance(50) ? lim : -lim) + r.range(-3, 3) : r.chance(20) ? val(r) : r.range(-lim, lim);
      switch (r.below(5)) {
      case 0: t.tv_nsec = 0; break;
      case 1: t.tv_nsec = 999999999; break;
      case 2: t.tv_nsec = 854775807 + r.range(-2, 2); break;
      case 3: t.tv_nsec = 145224192 + r.range(-2, 2); break;
      default: t.tv_nsec = r.below(1000000000);
      }
      return (I)t.tv_sec * 1000000000 + t.tv_nsec;
    };
    I a = mk(synth_a), m = mk(synth_m);
    auto fits = [](I x) { return x >= INT64_MIN && x <= INT64_MAX; };
    vh::current(cat("get_times ", str(a), " ", str(m)));
    asioext::error_code ec;
    uint64_t h = hits_stat;
    synth = true;
    const asioext::file_times t2 = f.times(ec);
    synth = false;
    const asioext::file_time_type a2 = t2.atime, m2 = t2.mtime;
    if (hits_stat != h) {
      const bool ok = fits(a) && fits(m);
      VH_CHECK(!ec == ok, ok ? "get_times-rejects-valid" : "get_times-invents", str(a), " ", str(m), ": ", ec.message());
      if (!ec && ok)
        VH_CHECK((I)a2.time_since_epoch().count() == a && (I)m2.time_since_epoch().count() == m, "get_times-wrong",
                 "atime ", a2.time_since_epoch().count(), " want ", str(a), " mtime ", m2.time_since_epoch().count(), " want ", str(m));
      if (!ok) vh::count("unrepresentable-times");
      if (a < 0 || m < 0) vh::count("negative-times");
    }
    int64_t sa = val(r), sm = val(r);
    typedef asioext::file_time_type T;
    vh::current(cat("set_times ", sa, " ", sm));
    h = hits_ut;
    capture = true;
    f.times(asioext::file_times{T(), T(T::duration(sa)), T(T::duration(sm))}, ec);
    capture = false;
    if (hits_ut != h) {
      auto same = [](int64_t v, const struct timespec& t) {
        if (v == 0) return t.tv_nsec == UTIME_OMIT;
        I s = floordiv(v, 1000000000);
        return (I)t.tv_sec == s && (I)t.tv_nsec == (I)v - s * 1000000000;
      };
      VH_CHECK(!ec, "set_times-rejects-valid", sa, " ", sm, " ", ec.message());
      VH_CHECK(same(sa, got[0]) && same(sm, got[1]), "set_times-wrong", sa, " -> ", got[0].tv_sec, ".", got[0].tv_nsec, ", ", sm, " -> ", got[1].tv_sec, ".", got[1].tv_nsec);
    }
    vh::distinct(vh::mix((uint64_t)a) ^ vh::mix((uint64_t)m));
  });
  vh::count("native-stat", hits_stat);
  vh::count("native-futimens", hits_ut);
  vh::sample("get_times with synthetic stat results and set_times with captured arguments");
}

VH_MAIN
