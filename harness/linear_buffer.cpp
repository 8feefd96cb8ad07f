// C01, C02, C03: linear buffers against reference models and a ledger allocator.
#include "common.hpp"
#include <asioext/linear_buffer.hpp>
#include <asioext/error_code.hpp>
#include <asio/read.hpp>
#include <asio/read_until.hpp>
#include <asio/write.hpp>
#include <asio/post.hpp>
#include <asio/io_context.hpp>
#include <asio/completion_condition.hpp>
#include <algorithm>
#include <memory>
#include <memory_resource>
#include <optional>

using vh::Rng;
using vh::cat;

// ---------------------------------------------------------------- ledger
struct Ledger
{
  struct Block { std::size_t n; int arena; };
  std::map<void*, Block> live;
  uint64_t allocs = 0, frees = 0, failures = 0;
  int fail_in = -1; // fail the n-th allocation from now
  // (Like a real allocator, say that the block is fresh: that lets the optimiser reason about it.)
  __attribute__((malloc)) void* get(std::size_t n, int arena)
  {
    if (fail_in == 0) { fail_in = -1; ++failures; throw std::bad_alloc(); }
    if (fail_in > 0) --fail_in;
    if (n > (std::size_t(1) << 30)) { vh::violation("alloc-size-insane", cat("allocate(", n, ")")); throw std::bad_alloc(); }
    void* p = ::malloc(n ? n : 1);
    std::memset(p, 0xA5, n);
    live[p] = Block{n, arena};
    ++allocs;
    return p;
  }
  void put(void* p, std::size_t n, int arena)
  {
    ++frees;
    auto it = live.find(p);
    if (it == live.end()) {
      vh::violation(p ? "dealloc-unknown" : "dealloc-null", cat("deallocate(", p, ",", n, ") of a block that is not live"));
      return;
    }
    if (it->second.n != n)
      vh::violation("dealloc-size", cat("block of ", it->second.n, " given back as ", n));
    if (it->second.arena != arena)
      vh::violation("dealloc-arena", cat("block of arena ", it->second.arena, " given back to ", arena));
    live.erase(it);
    ::free(p);
  }
};
static Ledger ledger;

// Kind bits: 1 = propagates on move assignment, 2 = always equal
template <int Kind>
struct LedgerAlloc
{
  typedef uint8_t value_type;
  typedef std::integral_constant<bool, (Kind & 1) != 0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, (Kind & 4) != 0> propagate_on_container_copy_assignment;
  typedef std::false_type is_always_equal;
  int arena;
  LedgerAlloc(int a = 0) noexcept : arena(a) {}
  uint8_t* allocate(std::size_t n) { return static_cast<uint8_t*>(ledger.get(n, arena)); }
  void deallocate(uint8_t* p, std::size_t n) { ledger.put(p, n, arena); }
  friend bool operator==(const LedgerAlloc& a, const LedgerAlloc& b) { return a.arena == b.arena; }
  friend bool operator!=(const LedgerAlloc& a, const LedgerAlloc& b) { return a.arena != b.arena; }
};

template <class A> struct AllocOf { static A make(Rng& r) { return A(); } static const bool ledger_used = false; };
template <int K> struct AllocOf<LedgerAlloc<K>>
{
  static LedgerAlloc<K> make(Rng& r) { return LedgerAlloc<K>(int(r.below(3))); }
  static const bool ledger_used = true;
};

// ---------------------------------------------------------------- C01/C02
template <class A>
struct Slot
{
  typedef asioext::basic_linear_buffer<A> Buf;
  std::unique_ptr<Buf> b;
  std::string m;       // model contents
};

template <class A>
static void compare(Slot<A>& s, std::size_t expected_max, const char* op, const std::string& trace)
{
  typedef asioext::basic_linear_buffer<A> Buf;
  Buf& b = *s.b;
  const Buf& c = b;
  VH_CHECK(b.size() == s.m.size(), "size-differs", "after ", op, " size ", b.size(), " model ", s.m.size(), "\n", trace);
  VH_CHECK(b.empty() == s.m.empty(), "empty-differs", "after ", op, "\n", trace);
  VH_CHECK(b.capacity() >= b.size(), "capacity-below-size", "after ", op, " cap ", b.capacity(), "\n", trace);
  VH_CHECK(b.max_size() >= b.size(), "size-above-max", "after ", op, " max ", b.max_size(), "\n", trace);
  VH_CHECK(b.max_size() == expected_max, "max-size-changed", "after ", op, " ", b.max_size(), " vs ", expected_max, "\n", trace);
  if (b.size() != s.m.size() || b.capacity() < b.size()) return;
  const std::size_t n = b.size();
  if (n && std::memcmp(b.data(), s.m.data(), n) != 0) {
    std::size_t i = 0;
    while (b.data()[i] == (uint8_t)s.m[i]) ++i;
    vh::violation("contents-differ", cat("after ", op, " at ", i, " of ", n, "\n", trace));
  }
  VH_CHECK(b.begin() == b.data() && b.end() == b.data() + n && c.begin() == c.data() && c.end() == c.data() + n &&
           c.data() == b.data(), "iterators-wrong", op, "\n", trace);
  asio::mutable_buffer mb = b.as_buffers(), mb2 = asio::buffer(b);
  asio::const_buffer cb = c.as_buffers(), cb2 = asio::buffer(c);
  VH_CHECK(mb.size() == n && mb2.size() == n && cb.size() == n && cb2.size() == n, "as-buffers-size", op, "\n", trace);
  VH_CHECK(n == 0 || (mb.data() == b.data() && cb.data() == b.data() && mb2.data() == b.data() && cb2.data() == b.data()),
           "as-buffers-data", op, "\n", trace);
  if (n) {
    std::size_t k = n / 2;
    VH_CHECK(b[k] == (uint8_t)s.m[k] && c[n - 1] == (uint8_t)s.m[n - 1] && c[0] == (uint8_t)s.m[0], "index-differs", op, "\n", trace);
  }
}

static std::size_t huge_size(Rng& r)
{
  static const std::size_t sizes[] = {150000, 150000, 600000, 2500000};
  return sizes[r.below(4)];
}

template <class A>
static void history(Rng& r, bool inject)
{
  typedef asioext::basic_linear_buffer<A> Buf;
  typedef std::allocator_traits<A> AT;
  const bool small = r.chance(50);
  // Once in a while everything is far larger than any plausible threshold inside the container.
  const bool huge = r.below(800) == 0;
  const std::size_t big = huge ? huge_size(r) : small ? 24 : (r.chance(10) ? 5000 : 300);
  if (huge) vh::count("huge-histories");
  std::vector<Slot<A>> s(4);
  std::vector<std::size_t> mx(4);
  std::string trace;
  uint64_t sig = 0;
  const std::size_t natural = AT::max_size(A());

  auto construct = [&](std::size_t i) {
    s[i].b.reset();
    s[i].m.clear();
    A a = AllocOf<A>::make(r);
    switch (r.below(6)) {
    case 0: s[i].b.reset(new Buf()); mx[i] = natural; trace += cat(" ", i, "=()"); break;
    case 1: s[i].b.reset(new Buf(a)); mx[i] = natural; trace += cat(" ", i, "=(a)"); break;
    default: {
      std::size_t n = r.size(big), lim = r.chance(30) ? natural : n + r.size(big);
      bool useA = r.chance(50);
      if (r.chance(20)) { s[i].b.reset(useA ? new Buf(a, n) : new Buf(n)); lim = natural; }
      else s[i].b.reset(useA ? new Buf(a, n, lim) : new Buf(n, lim));
      mx[i] = std::min(natural, lim);
      trace += cat(" ", i, "=(", n, ",", lim, ")");
      s[i].m = r.bytes(n);
      for (std::size_t k = 0; k < n; ++k) (*s[i].b)[k] = (uint8_t)s[i].m[k];
    } }
    compare(s[i], mx[i], "construct", trace);
  };
  for (std::size_t i = 0; i < s.size(); ++i) construct(i);

  const unsigned ops = huge ? 12 + r.below(12) : 8 + r.below(40);
  for (unsigned k = 0; k < ops; ++k) {
    std::size_t i = r.below(s.size()), j = r.below(s.size());
    Slot<A>& x = s[i];
    Slot<A>& y = s[j];
    const unsigned op = r.below(20);
    sig = vh::mix(sig ^ (op * 4 + i) ^ (x.m.size() << 8));
    std::string before = x.m;
    const std::size_t cap_before = x.b->capacity();
    const uint8_t* ptr_before = x.b->data();
    bool threw_len = false, threw_alloc = false;
    const char* name = "?";
    bool expect_len = false;
    bool injected = false;
    if (inject && r.chance(25) && op != 13 && op != 18) { ledger.fail_in = 0; injected = true; }
    uint64_t fails0 = ledger.failures;
    try {
      switch (op) {
      case 0: case 1: case 2: { // append
        std::size_t n = r.size(big);
        std::string d = r.bytes(n);
        name = "append"; trace += cat(" ", i, ".append(", n, ")");
        if (vh::st().cur) vh::current(trace);
        expect_len = before.size() + n > mx[i];
        std::unique_ptr<char[]> exact(new char[n]);
        if (n) std::memcpy(exact.get(), d.data(), n);
        x.b->append(exact.get(), n);
        x.m += d;
        break; }
      case 3: case 4: case 5: case 6: { // insert
        std::size_t n = r.size(r.chance(60) ? std::min<std::size_t>(big, std::max<std::size_t>(1, cap_before - before.size())) : big);
        std::size_t pos = r.chance(20) ? 0 : r.chance(20) ? before.size() : r.below(before.size() + 1);
        std::string d = r.bytes(n);
        name = "insert"; trace += cat(" ", i, ".insert(", pos, ",", n, ")");
        if (vh::st().cur) vh::current(trace);
        expect_len = before.size() + n > mx[i];
        std::unique_ptr<char[]> exact(new char[n]);
        if (n) std::memcpy(exact.get(), d.data(), n);
        if (r.chance(50)) x.b->insert(static_cast<const Buf&>(*x.b).begin() + pos, exact.get(), n);
        else x.b->insert(pos, exact.get(), n);
        x.m.insert(pos, d);
        break; }
      case 7: { // erase one
        name = "erase1";
        if (before.empty()) break;
        std::size_t pos = r.below(before.size());
        trace += cat(" ", i, ".erase(", pos, ")");
        if (vh::st().cur) vh::current(trace);
        if (r.chance(50)) x.b->erase(static_cast<const Buf&>(*x.b).begin() + pos); else x.b->erase(pos);
        x.m.erase(pos, 1);
        break; }
      case 8: case 9: { // erase range
        name = "erase";
        std::size_t a = r.below(before.size() + 1), e = a + r.below(before.size() - a + 1);
        trace += cat(" ", i, ".erase(", a, ",", e, ")");
        if (vh::st().cur) vh::current(trace);
        const Buf& c = *x.b;
        if (r.chance(50)) x.b->erase(c.begin() + a, c.begin() + e); else x.b->erase(a, e);
        x.m.erase(a, e - a);
        break; }
      case 10: { // reserve
        name = "reserve";
        std::size_t n = r.size(big * 2);
        trace += cat(" ", i, ".reserve(", n, ")");
        if (vh::st().cur) vh::current(trace);
        expect_len = n > mx[i];
        x.b->reserve(n);
        VH_CHECK(x.b->capacity() >= n, "reserve-too-small", x.b->capacity(), " < ", n, "\n", trace);
        break; }
      case 11: case 17: { // resize
        name = "resize";
        std::size_t n = r.size(big);
        trace += cat(" ", i, ".resize(", n, ")");
        if (vh::st().cur) vh::current(trace);
        expect_len = n > mx[i];
        x.b->resize(n);
        std::size_t old = before.size();
        if (n > old) {
          std::string f = r.bytes(n - old);
          for (std::size_t q = 0; q < f.size(); ++q) (*x.b)[old + q] = (uint8_t)f[q];
          x.m += f;
        } else x.m.resize(n);
        break; }
      case 12: { // move assign
        name = "move-assign"; trace += cat(" ", i, "=move(", j, ")");
        if (vh::st().cur) vh::current(trace);
        if (i == j) {
          Buf& self = *x.b;
          self = std::move(*y.b);
          // contents after self-move are unspecified, but it must stay valid
          x.m.assign(reinterpret_cast<const char*>(x.b->data()), x.b->size());
        } else {
          *x.b = std::move(*y.b);
          x.m = y.m; y.m.clear();
          mx[i] = mx[j];
          VH_CHECK(y.b->size() == 0 && y.b->empty(), "moved-from-not-empty", "size ", y.b->size(), "\n", trace);
          VH_CHECK(y.b->capacity() == 0, "moved-from-has-storage", "capacity ", y.b->capacity(), "\n", trace);
          compare(y, mx[j], "move-assign source", trace);
        }
        break; }
      case 13: { // move construct into a fresh slot
        name = "move-construct";
        if (i == j) break;
        trace += cat(" ", i, "=new(move(", j, "))");
        if (vh::st().cur) vh::current(trace);
        x.b.reset(new Buf(std::move(*y.b)));
        x.m = y.m; y.m.clear(); mx[i] = mx[j];
        VH_CHECK(y.b->size() == 0 && y.b->capacity() == 0, "moved-from-not-empty", "size ", y.b->size(), " cap ", y.b->capacity(), "\n", trace);
        compare(y, mx[j], "move-construct source", trace);
        break; }
      case 14: { // copy assign
        name = "copy-assign"; trace += cat(" ", i, "=", j);
        if (vh::st().cur) vh::current(trace);
        expect_len = y.m.size() > mx[i];
        std::string src = y.m;
        *x.b = *static_cast<const Buf*>(y.b.get());
        x.m = src;
        if (i != j) compare(y, mx[j], "copy-assign source", trace);
        if (x.b->size() && i != j)
          VH_CHECK(x.b->data() != y.b->data(), "copy-shares-storage", trace);
        break; }
      case 15: { // copy construct
        name = "copy-construct";
        if (i == j) break;
        trace += cat(" ", i, "=new(", j, ")");
        if (vh::st().cur) vh::current(trace);
        std::unique_ptr<Buf> n(new Buf(*static_cast<const Buf*>(y.b.get())));
        x.b = std::move(n);
        x.m = y.m; mx[i] = mx[j];
        compare(y, mx[j], "copy-construct source", trace);
        if (x.b->size()) VH_CHECK(x.b->data() != y.b->data(), "copy-shares-storage", trace);
        break; }
      case 16: { // clear
        name = "clear"; trace += cat(" ", i, ".clear");
        x.b->clear();
        x.m.clear();
        VH_CHECK(x.b->capacity() == cap_before && x.b->data() == ptr_before, "clear-reallocates", trace);
        break; }
      case 18: { // swap (std::swap: move construct and two move assignments)
        if (i == j) break;
        name = "swap"; trace += cat(" swap(", i, ",", j, ")");
        if (vh::st().cur) vh::current(trace);
        using std::swap;
        swap(*x.b, *y.b);
        std::swap(x.m, y.m); std::swap(mx[i], mx[j]);
        compare(y, mx[j], "swap", trace);
        break; }
      case 19: { // write through
        name = "write";
        if (before.empty()) break;
        std::size_t pos = r.below(before.size());
        uint8_t v = (uint8_t)r.next();
        trace += cat(" ", i, "[", pos, "]=");
        if (r.chance(50)) (*x.b)[pos] = v; else *(x.b->begin() + pos) = v;
        x.m[pos] = (char)v;
        break; }
      }
    } catch (const std::length_error&) {
      threw_len = true;
    } catch (const std::bad_alloc&) {
      threw_alloc = true;
    }
    bool failed_alloc = ledger.failures != fails0;
    if (injected) ledger.fail_in = -1;
    if (threw_alloc) {
      VH_CHECK(failed_alloc, "unexpected-bad_alloc", name, "\n", trace);
      vh::count("alloc-failures-survived");
    } else if (failed_alloc) {
      vh::violation("alloc-failure-swallowed", cat(name, "\n", trace));
    }
    if (!threw_alloc)
      VH_CHECK(threw_len == expect_len, "length_error-wrong", name, " threw=", threw_len, " expected=", expect_len, "\n", trace);
    if (threw_len) vh::count("length_errors");
    if (threw_len || threw_alloc) {
      x.m = before;
      VH_CHECK(x.b->capacity() == cap_before && x.b->data() == ptr_before, "failed-op-changed-storage", name, "\n", trace);
      trace += threw_len ? "!L" : "!A";
      if (op == 12) { vh::count("failed-move-assignments"); compare(y, mx[j], "failed move-assign source", trace); }
    }
    if (op < 12 || op == 17) {
      VH_CHECK(x.b->capacity() == cap_before || x.b->capacity() <= mx[i], "grows-beyond-max", name, ": capacity ", x.b->capacity(), " of at most ", mx[i], "\n", trace);
      if (x.b->capacity() > cap_before && cap_before * 2 > mx[i]) vh::count("growth-cut-at-max");
    }
    compare(x, mx[i], name, trace);
    vh::count(std::string("op:") + name);
    if (!vh::st().violations.empty()) break;
    if (r.chance(3)) construct(r.below(s.size()));
  }
  vh::distinct(sig);
  vh::sample(trace);
  s.clear();
  if (AllocOf<A>::ledger_used) {
    VH_CHECK(ledger.live.empty(), "leak", ledger.live.size(), " blocks never given back\n", trace);
    for (auto& p : ledger.live) ::free(p.first);
    ledger.live.clear();
  }
}

VH_GROUP(model) { vh::run_cases([](Rng& r, uint64_t) { history<std::allocator<uint8_t>>(r, false); }); }

VH_GROUP(alloc)
{
  vh::run_cases([](Rng& r, uint64_t i) {
    bool inj = r.chance(50);
    switch (i % 4) {
    case 0: history<LedgerAlloc<0>>(r, inj); break;
    case 1: history<LedgerAlloc<1>>(r, inj); break;
    case 2: history<LedgerAlloc<5>>(r, inj); break;
    case 3: history<std::pmr::polymorphic_allocator<uint8_t>>(r, false); break;
    }
  });
  vh::count("allocations", ledger.allocs);
  vh::count("deallocations", ledger.frees);
  vh::count("injected-failures", ledger.failures);
}

// ---------------------------------------------------------------- C03
typedef asioext::linear_buffer LB;
typedef asioext::dynamic_linear_buffer<std::allocator<uint8_t>> DB;

static std::string bytes_of(const asio::const_buffer& b)
{ return std::string(static_cast<const char*>(b.data()), b.size()); }

static void check_view(DB& d, LB& b, std::size_t pos, std::size_t n, const std::string& all, const std::string& trace)
{
  const DB& c = d;
  std::size_t p = std::min(pos, all.size());
  std::size_t len = std::min(n, all.size() - p);
  asio::mutable_buffer m = d.data(pos, n);
  asio::const_buffer k = c.data(pos, n);
  VH_CHECK(m.size() == len && k.size() == len, "view-size", "data(", pos, ",", n, ") has ", m.size(), "/", k.size(), " want ", len, "\n", trace);
  if (m.size() == len && k.size() == len && len)
    VH_CHECK(m.data() == b.data() + p && k.data() == b.data() + p, "view-position", "data(", pos, ",", n, ")\n", trace);
}

static std::size_t hostile(Rng& r, std::size_t around)
{
  switch (r.below(8)) {
  case 0: return (std::numeric_limits<std::size_t>::max)();
  case 1: return (std::numeric_limits<std::size_t>::max)() - r.below(40);
  case 2: return std::size_t(1) << 63;
  default: return r.below(around + 4);
  }
}

VH_GROUP(dynv1)
{
  vh::run_cases([](Rng& r, uint64_t) {
    const bool huge = r.below(500) == 0;
    const std::size_t big = huge ? huge_size(r) : r.chance(50) ? 20 : 400;
    if (huge) vh::count("huge-histories");
    std::string trace;
    uint64_t sig = 1;
    LB b(0, r.chance(30) ? (std::numeric_limits<std::size_t>::max)() : big + r.size(big));
    std::string m = r.bytes(r.size(std::min(big, b.max_size())));
    b.append(m.data(), m.size());
    std::size_t lim = r.chance(40) ? (std::numeric_limits<std::size_t>::max)() : m.size() + r.size(big);
    const bool defaulted = r.chance(20);
    if (defaulted) lim = (std::numeric_limits<std::size_t>::max)();
    std::unique_ptr<DB> d(defaulted ? new DB(asioext::dynamic_buffer(b)) : new DB(b, lim));
    const std::size_t mx = std::min(lim, b.max_size());
    trace = cat("v1 initial ", m.size(), " max ", mx, ":");
    std::size_t prepared = 0; bool have = false; std::string outdata;
    auto check = [&](const char* op) {
      VH_CHECK(d->size() == m.size(), "dyn-size", op, ": ", d->size(), " model ", m.size(), "\n", trace);
      VH_CHECK(d->max_size() == mx, "dyn-max", op, "\n", trace);
      VH_CHECK(d->capacity() >= d->size() && d->capacity() <= mx && d->capacity() == std::min(b.capacity(), mx), "dyn-capacity", op, ": ", d->capacity(), "\n", trace);
      const DB& c = *d;
      asio::mutable_buffer mb = d->data();
      asio::const_buffer cb = c.data();
      VH_CHECK(mb.size() == m.size() && cb.size() == m.size(), "dyn-data-size", op, ": ", mb.size(), " want ", m.size(), "\n", trace);
      if (mb.size() == m.size() && cb.size() == m.size())
        VH_CHECK(bytes_of(cb) == m && mb.data() == cb.data(), "dyn-data", op, "\n", trace);
    };
    check("construct");
    const unsigned ops = 5 + r.below(25);
    for (unsigned k = 0; k < ops && vh::st().violations.empty(); ++k) {
      unsigned op = r.below(6);
      sig = vh::mix(sig ^ op ^ (m.size() << 4));
      if (vh::st().cur) vh::current(trace);
      if (op <= 1) { // prepare
        std::size_t n = r.chance(8) ? hostile(r, big) : r.size(big);
        if (n > big && n <= mx - m.size()) n = big;
        bool fits = m.size() <= mx && n <= mx - m.size();
        trace += cat(" prepare(", n, ")");
        std::size_t before = b.size();
        if (r.chance(50)) {
          bool threw = false;
          asio::mutable_buffer o;
          try { o = d->prepare(n); } catch (const std::length_error&) { threw = true; }
          VH_CHECK(threw == !fits, "prepare-throws", "threw ", threw, "\n", trace);
          if (!threw) {
            VH_CHECK(o.size() == n, "prepare-size", o.size(), " vs ", n, "\n", trace);
            VH_CHECK(n == 0 || o.data() == b.data() + m.size(), "prepare-position", trace);
            outdata = r.bytes(o.size());
            if (o.size()) std::memcpy(o.data(), outdata.data(), o.size());
            have = true; prepared = n;
          } else { VH_CHECK(b.size() == before, "failed-prepare-changed", trace); vh::count("prepare-rejected"); }
        } else {
          asioext::error_code ec = r.chance(50) ? asioext::error_code(asio::error::eof) : asioext::error_code();
          asio::mutable_buffer o = d->prepare(n, ec);
          VH_CHECK(!!ec == !fits, "prepare-ec", ec.message(), "\n", trace);
          if (!ec) {
            VH_CHECK(o.size() == n, "prepare-size", o.size(), " vs ", n, "\n", trace);
            VH_CHECK(n == 0 || o.data() == b.data() + m.size(), "prepare-position", trace);
            outdata = r.bytes(o.size());
            if (o.size()) std::memcpy(o.data(), outdata.data(), o.size());
            have = true; prepared = n;
          } else { VH_CHECK(b.size() == before && o.size() == 0, "failed-prepare-changed", trace); vh::count("prepare-rejected"); }
        }
      } else if (op == 2 || op == 3) { // commit
        if (!have) continue;
        std::size_t n = r.chance(30) ? prepared + hostile(r, 10) % 1000 : r.below(prepared + 1);
        if (r.chance(5)) n = (std::numeric_limits<std::size_t>::max)();
        trace += cat(" commit(", n, ")");
        d->commit(n);
        m += outdata.substr(0, std::min(n, outdata.size()));
        outdata.clear(); prepared = 0;
        VH_CHECK(b.size() == m.size(), "commit-leaves-output", b.size(), " vs ", m.size(), "\n", trace);
      } else if (op == 4) { // consume
        std::size_t n = r.chance(20) ? hostile(r, m.size()) : r.below(m.size() + 1);
        trace += cat(" consume(", n, ")");
        d->consume(n);
        m.erase(0, std::min(n, m.size()));
        // pending output must be prepared again before a commit
        if (have) { have = false; }
      } else {
        std::string all(reinterpret_cast<const char*>(b.data()), b.size());
        check_view(*d, b, hostile(r, b.size()), hostile(r, b.size()), all, trace);
        if (r.chance(30)) { trace += " move"; std::unique_ptr<DB> e(new DB(std::move(*d))); d = std::move(e); }
      }
      check("step");
      vh::count("dynv1-ops");
    }
    vh::distinct(sig);
    vh::sample(trace);
  });
}

VH_GROUP(dynv2)
{
  vh::run_cases([](Rng& r, uint64_t) {
    const bool huge = r.below(500) == 0;
    const std::size_t big = huge ? huge_size(r) : r.chance(50) ? 20 : 400;
    if (huge) vh::count("huge-histories");
    std::string trace;
    uint64_t sig = 2;
    LB b(0, r.chance(30) ? (std::numeric_limits<std::size_t>::max)() : big + r.size(big));
    std::string m = r.bytes(r.size(std::min(big, b.max_size())));
    b.append(m.data(), m.size());
    std::size_t lim = r.chance(40) ? (std::numeric_limits<std::size_t>::max)() : m.size() + r.size(big);
    // The limit may be below what the buffer holds already: the rest is no part of the input sequence then.
    if (m.size() > 1 && r.chance(15)) { lim = r.below(m.size()); vh::count("limit-below-contents"); }
    std::unique_ptr<DB> d(new DB(b, lim));
    const std::size_t mx = std::min(lim, b.max_size());
    auto in = [&] { return std::min(m.size(), mx); };
    trace = cat("v2 initial ", m.size(), " max ", mx, ":");
    const unsigned ops = 5 + r.below(25);
    for (unsigned k = 0; k < ops && vh::st().violations.empty(); ++k) {
      unsigned op = r.below(5);
      sig = vh::mix(sig ^ op ^ (m.size() << 4));
      if (vh::st().cur) vh::current(trace);
      // A prepare() that does not fit fails and changes nothing, for users of grow() and shrink() as well.
      if (mx != (std::numeric_limits<std::size_t>::max)() && r.chance(10)) {
        const std::size_t n = r.chance(50) ? mx - in() + 1 + r.below(5) : (std::numeric_limits<std::size_t>::max)() - r.below(3);
        trace += cat(" failing prepare(", n, ")");
        if (r.chance(50)) {
          asioext::error_code ec;
          asio::mutable_buffer o = d->prepare(n, ec);
          VH_CHECK(!!ec && o.size() == 0, "prepare-ec", ec.message(), "\n", trace);
        } else {
          bool threw = false;
          try { d->prepare(n); } catch (const std::length_error&) { threw = true; }
          VH_CHECK(threw, "prepare-throws", trace);
        }
        VH_CHECK(d->size() == in() && b.size() == m.size(), "failed-prepare-changed", d->size(), "/", b.size(), " model ", m.size(), "\n", trace);
        vh::count("v2-prepare-rejected");
      }
      if (op <= 1) {
        std::size_t n = r.chance(8) ? hostile(r, big) : r.size(big);
        if (n > big && n <= mx - in()) n = big;
        bool fits = n <= mx - in();
        trace += cat(" grow(", n, ")");
        bool threw = false;
        try { d->grow(n); } catch (const std::length_error&) { threw = true; }
        VH_CHECK(threw == !fits, "grow-throws", "threw ", threw, "\n", trace);
        if (!threw) {
          m.resize(in());
          VH_CHECK(b.size() == m.size() + n, "grow-size", b.size(), " vs ", m.size() + n, "\n", trace);
          if (b.size() != m.size() + n) break;
          asio::mutable_buffer v = d->data(m.size(), n);
          VH_CHECK(v.size() == n, "grow-view", trace);
          if (v.size() != n) break;
          std::string f = r.bytes(n);
          if (n) std::memcpy(v.data(), f.data(), n);
          m += f;
        } else vh::count("grow-rejected");
      } else if (op == 2) {
        std::size_t n = r.chance(20) ? hostile(r, m.size()) : r.below(m.size() + 1);
        trace += cat(" shrink(", n, ")");
        d->shrink(n);
        m.resize(in() - std::min(n, in()));
      } else if (op == 3) {
        std::size_t n = r.chance(20) ? hostile(r, m.size()) : r.below(m.size() + 1);
        trace += cat(" consume(", n, ")");
        d->consume(n);
        m.erase(0, std::min(n, in()));
      } else {
        check_view(*d, b, hostile(r, m.size()), hostile(r, m.size()), m, trace);
        if (r.chance(30)) { trace += " move"; std::unique_ptr<DB> e(new DB(std::move(*d))); d = std::move(e); }
      }
      VH_CHECK(d->size() == in() && b.size() == m.size(), "v2-size", d->size(), "/", b.size(), " model ", m.size(), "\n", trace);
      VH_CHECK(d->max_size() == mx && d->capacity() == std::min(b.capacity(), mx), "v2-capacity", trace);
      if (b.size() == m.size())
        VH_CHECK(std::string((const char*)b.data(), b.size()) == m, "v2-data", trace);
      vh::count("dynv2-ops");
    }
    vh::distinct(sig);
    vh::sample(trace);
  });
}

// A scripted stream delivering its bytes in arbitrary fragments.
struct FragStream
{
  typedef asio::io_context::executor_type executor_type;
  asio::io_context& io;
  std::string in; std::size_t pos = 0;
  std::string out;
  Rng rng;
  std::size_t most;
  FragStream(asio::io_context& c, std::string d, Rng r, std::size_t m) : io(c), in(std::move(d)), rng(r), most(m) {}
  executor_type get_executor() { return io.get_executor(); }
  template <class B> std::size_t read_some(const B& b, asioext::error_code& ec)
  {
    ec = asioext::error_code();
    if (asio::buffer_size(b) == 0) return 0;
    if (pos == in.size()) { ec = asio::error::eof; return 0; }
    std::size_t n = std::min<std::size_t>(1 + rng.below(most), in.size() - pos);
    std::size_t k = asio::buffer_copy(b, asio::buffer(in.data() + pos, n));
    pos += k;
    return k;
  }
  template <class B> std::size_t read_some(const B& b)
  { asioext::error_code ec; std::size_t n = read_some(b, ec); if (ec) throw vh::system_error(ec); return n; }
  template <class B> std::size_t write_some(const B& b, asioext::error_code& ec)
  {
    ec = asioext::error_code();
    std::size_t n = std::min<std::size_t>(asio::buffer_size(b), 1 + rng.below(most));
    std::string t(n, 0);
    asio::buffer_copy(asio::buffer(&t[0], n), b);
    out += t;
    return n;
  }
  template <class B, class H> void async_read_some(const B& b, H&& h)
  {
    asioext::error_code ec; std::size_t n = read_some(b, ec);
    asio::post(io, [h = std::move(h), ec, n]() mutable { h(ec, n); });
  }
  template <class B, class H> void async_write_some(const B& b, H&& h)
  {
    asioext::error_code ec; std::size_t n = write_some(b, ec);
    asio::post(io, [h = std::move(h), ec, n]() mutable { h(ec, n); });
  }
};

VH_GROUP(asioops)
{
  vh::run_cases([](Rng& r, uint64_t) {
    asio::io_context io;
    const bool huge = r.below(500) == 0;
    if (huge) vh::count("huge-histories");
    std::string data = r.bytes(r.size(huge ? huge_size(r) : 2000));
    for (auto& c : data) if (c == '\n') c = 'x';
    // sprinkle delimiters
    for (unsigned k = r.below(6); k > 0 && !data.empty(); --k) data[r.below(data.size())] = '\n';
    std::string init = r.bytes(r.size(huge && r.chance(50) ? huge_size(r) : 40));
    for (auto& c : init) if (c == '\n') c = 'y';
    if (r.chance(25) && !init.empty()) init[r.below(init.size())] = '\n';
    LB b;
    b.append(init.data(), init.size());
    FragStream s(io, data, Rng(r.next()), huge ? 20000 + r.size(300000) : 1 + r.size(700));
    const std::string all = init + data;
    asioext::error_code ec;
    std::size_t n = 0;
    const bool async = r.chance(50);
    const unsigned op = r.below(4);
    bool done = false;
    auto h = [&](asioext::error_code e, std::size_t k) { ec = e; n = k; done = true; };
    std::string trace = cat("asio op ", op, async ? " async" : " sync", " init ", init.size(), " data ", data.size(), " frag ", s.most);
    vh::current(trace);
    auto content = [&] { return std::string((const char*)b.data(), b.size()); };
    if (op == 0) { // read at least
      std::size_t want = r.chance(20) ? data.size() + 5 : r.below(data.size() + 1);
      if (async) { asio::async_read(s, asio::dynamic_buffer(b), asio::transfer_at_least(want), h); io.run(); }
      else { n = asio::read(s, asio::dynamic_buffer(b), asio::transfer_at_least(want), ec); done = true; }
      VH_CHECK(done && n == s.pos && (ec ? ec == asio::error::eof && s.pos == data.size() : n >= want), "asio-read", trace, " n ", n, " ", ec.message());
      VH_CHECK(content() == init + data.substr(0, n), "asio-read-data", trace);
    } else if (op == 1) { // read_until
      if (async) { asio::async_read_until(s, asio::dynamic_buffer(b), '\n', h); io.run(); }
      else { n = asio::read_until(s, asio::dynamic_buffer(b), '\n', ec); done = true; }
      std::size_t p = all.find('\n');
      if (p == std::string::npos) VH_CHECK(done && ec == asio::error::eof && n == 0, "asio-read-until", trace, " ", ec.message());
      else VH_CHECK(done && !ec && n == p + 1, "asio-read-until", trace, " n ", n, " want ", p + 1, " ", ec.message());
      VH_CHECK(content() == init + data.substr(0, s.pos), "asio-read-until-data", trace);
    } else if (op == 2) { // write: consumes everything
      if (async) { asio::async_write(s, asio::dynamic_buffer(b), h); io.run(); }
      else { n = asio::write(s, asio::dynamic_buffer(b), ec); done = true; }
      VH_CHECK(done && !ec && n == init.size() && s.out == init && b.size() == 0, "asio-write", trace, " n ", n, " left ", b.size(), " ", ec.message());
    } else { // bounded read: never past the limit
      std::size_t lim = init.size() + r.below(data.size() + 2);
      asioext::dynamic_linear_buffer<std::allocator<uint8_t>> db(b, lim);
      if (async) { asio::async_read(s, std::move(db), h); io.run(); }
      else { n = asio::read(s, std::move(db), ec); done = true; }
      std::size_t want = std::min(lim - init.size(), data.size());
      VH_CHECK(done && n == want && content() == init + data.substr(0, want), "asio-bounded-read", trace, " n ", n, " want ", want, " ", ec.message());
    }
    vh::count("asio-composed-ops");
    vh::distinct(vh::hash_str(trace));
    vh::sample(trace);
  });
}

VH_MAIN
