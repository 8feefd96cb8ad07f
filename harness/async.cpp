// C14-C17, C26: asynchronous file operations under gates, injected delays and faults.
#define VH_SYS_NO_WRAPS
#include "handles.hpp"
#include <asio/experimental/awaitable_operators.hpp>
#include <asioext/linear_buffer.hpp>
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
#include <asioext/url_view.hpp>
#include <asioext/standard_streams.hpp>
#include <asioext/bind_handler.hpp>
#include <asioext/unique_handler.hpp>
#include <asioext/socks/error.hpp>
#include <asioext/error.hpp>
#include <asioext/thread_pool_file_service.hpp>
#include <asioext/cancellation_token.hpp>
#include <atomic>
#include <barrier>
#include <future>
#include <optional>
#include <thread>

using vh::Rng;
using vh::cat;
typedef asioext::thread_pool_file_service Svc;

#if defined(__SANITIZE_THREAD__)
static const bool tsan = true;
extern "C" void __tsan_write_range(void*, unsigned long);
extern "C" void __tsan_read_range(void*, unsigned long);
#else
static const bool tsan = false;
#endif

// ------------------------------------------------------------------ system-call hooks
namespace hk {
enum { MAXFD = 1024 };
struct Plan { int eintr = 0; int err = 0; long limit = -1; };
// Written by whoever starts the operation, consumed by whoever executes it (ordered by the pool's queue).
Plan plan[MAXFD];
std::atomic<unsigned char> watched[MAXFD]; // files of the monitored objects
std::atomic<int> gate[MAXFD];              // 0 open, 1 armed, 2 a call waits in it, 3 let it pass
std::atomic<unsigned> jitter{0};           // percent of calls delayed
std::atomic<uint64_t> calls{0};
thread_local Plan* own = nullptr;          // plan of a twin operation made by this thread
thread_local uint64_t seed = 0;
struct Exec { int fd; bool wr; long long off; long ret; int err; };
std::mutex log_m;
std::vector<Exec> log;
bool logging = false;
std::atomic<int> run_after_close{-1};      // when this descriptor is closed ...
std::function<void()> let_queue_run;       // ... do this before close() returns

void check(const iovec* v, int n, bool wr)
{
  for (int i = 0; i < n; ++i) {
#if defined(__SANITIZE_THREAD__)
    if (wr) __tsan_read_range(v[i].iov_base, v[i].iov_len); else __tsan_write_range(v[i].iov_base, v[i].iov_len);
#else
    if (v[i].iov_len && &__asan_region_is_poisoned && __asan_region_is_poisoned(v[i].iov_base, v[i].iov_len)) vh::violation("bad-buffer-handed-to-kernel", cat("buffer ", i, " of ", v[i].iov_len));
#endif
  }
}

long xfer(int nr, int fd, const iovec* v, int n, bool wr, bool at, long long off)
{
  auto raw = [&](const iovec* vv, int nn) -> long {
    if (at) return ::syscall(wr ? SYS_pwritev : SYS_preadv, fd, vv, nn, off, 0);
    return ::syscall(wr ? SYS_writev : SYS_readv, fd, vv, nn);
  };
  if (fd < 0 || fd >= MAXFD || !(own || watched[fd].load(std::memory_order_relaxed))) return raw(v, n);
  check(v, n, wr);
  Plan* p = own;
  if (!p) {
    p = &plan[fd];
    calls.fetch_add(1, std::memory_order_relaxed);
    const unsigned j = jitter.load(std::memory_order_relaxed);
    if (j) {
      if (!seed) seed = vh::mix(std::hash<std::thread::id>()(std::this_thread::get_id()));
      seed = vh::mix(seed);
      if (seed % 100 < j) { if (seed & 1024) std::this_thread::yield(); else ::usleep((seed >> 20) % 60); }
    }
    int armed = 1; // one call waits in the gate
    if (gate[fd].load(std::memory_order_relaxed) == 1 && gate[fd].compare_exchange_strong(armed, 2)) {
      while (gate[fd].load(std::memory_order_acquire) != 3) ::usleep(20);
      gate[fd].store(0, std::memory_order_release);
    }
  }
  long r;
  int e = 0;
  if (p->eintr > 0) { --p->eintr; r = -1; e = EINTR; }
  else if (p->err) { r = -1; e = p->err; p->err = 0; }
  else {
    std::vector<iovec> cut;
    if (p->limit >= 0) {
      long left = p->limit; p->limit = -1;
      std::size_t total = 0;
      for (int i = 0; i < n; ++i) total += v[i].iov_len;
      if (left < 1) left = 1;
      if ((std::size_t)left < total) {
        for (int i = 0; i < n && left > 0; ++i) { iovec x = v[i]; if ((long)x.iov_len > left) x.iov_len = left; left -= x.iov_len; cut.push_back(x); }
        v = cut.data(); n = (int)cut.size();
      }
    }
    r = raw(v, n);
    e = r < 0 ? errno : 0;
  }
  if (logging && !own) { std::lock_guard<std::mutex> l(log_m); log.push_back(Exec{fd, wr, at ? off : -1, r, e}); }
  errno = e;
  return r;
}
}

extern "C" {
ssize_t __wrap_read(int fd, void* b, size_t n) { iovec v{b, n}; return hk::xfer(0, fd, &v, 1, false, false, 0); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { iovec v{(void*)b, n}; return hk::xfer(0, fd, &v, 1, true, false, 0); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { return hk::xfer(0, fd, v, c, false, false, 0); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { return hk::xfer(0, fd, v, c, true, false, 0); }
ssize_t __wrap_preadv(int fd, const struct iovec* v, int c, off_t o) { return hk::xfer(0, fd, v, c, false, true, o); }
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int c, off_t o) { return hk::xfer(0, fd, v, c, true, true, o); }
ssize_t __wrap_preadv64(int fd, const struct iovec* v, int c, off_t o) { return hk::xfer(0, fd, v, c, false, true, o); }
ssize_t __wrap_pwritev64(int fd, const struct iovec* v, int c, off_t o) { return hk::xfer(0, fd, v, c, true, true, o); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { iovec v{b, n}; return hk::xfer(0, fd, &v, 1, false, true, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { iovec v{(void*)b, n}; return hk::xfer(0, fd, &v, 1, true, true, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
// closing: not intercepted by the race detector (descriptors are tracked by the monitors themselves)
int __wrap_close(int fd)
{
  const bool run = fd >= 0 && fd == hk::run_after_close.load(std::memory_order_relaxed);
  if (fd >= 0 && fd < hk::MAXFD && !run) hk::watched[fd].store(0, std::memory_order_relaxed);
  const int rc = (int)::syscall(SYS_close, fd);
  if (run) { // the queue advances right after the descriptor is gone
    hk::run_after_close.store(-1, std::memory_order_relaxed);
    hk::let_queue_run();
    hk::watched[fd].store(0, std::memory_order_relaxed);
  }
  return rc;
}
}

namespace {
thread_local int initiating = 0; // inside an initiating function of this thread
struct Initiating { Initiating() { ++initiating; } ~Initiating() { --initiating; } };

void watch(int fd, bool on = true) { if (fd >= 0 && fd < hk::MAXFD) { hk::plan[fd] = hk::Plan(); hk::watched[fd].store(on, std::memory_order_relaxed); } }
void mark(int fd) { if (fd >= 0 && fd < hk::MAXFD) hk::watched[fd].store(1, std::memory_order_relaxed); } // leaves the plans alone
bool gate_reached(int fd, int ms = 20000)
{
  for (int i = 0; i < ms * 20; ++i) { if (hk::gate[fd].load(std::memory_order_acquire) == 2) return true; ::usleep(50); }
  return false;
}
void gate_arm(int fd) { hk::gate[fd].store(1, std::memory_order_release); }
void gate_open(int fd) { int one = 1; if (hk::gate[fd].compare_exchange_strong(one, 0)) return; hk::gate[fd].store(3, std::memory_order_release); while (hk::gate[fd].load(std::memory_order_acquire) != 0) ::usleep(20); }

std::string fresh_name() { static std::atomic<unsigned> n{0}; return cat(vh::scratch(), "/f", n++); }
// compares everything an operation may have touched of two possibly sparse files
bool same_contents(const std::string& p, const std::string& q)
{
  struct stat s1, s2;
  if (sys::raw::stat(p.c_str(), &s1) || sys::raw::stat(q.c_str(), &s2) || s1.st_size != s2.st_size) return false;
  const int a = sys::raw::open(p.c_str(), O_RDONLY), b = sys::raw::open(q.c_str(), O_RDONLY);
  bool same = a >= 0 && b >= 0;
  std::vector<char> x(1 << 16), y(1 << 16);
  const long long from[2] = {0, 1ll << 32}, to[2] = {24 << 20, (1ll << 32) + (1 << 20)};
  for (int i = 0; i < 2; ++i)
    for (long long o = from[i]; same && o < to[i]; o += 1 << 16) {
      const long n = sys::raw::pread(a, x.data(), x.size(), o), m = sys::raw::pread(b, y.data(), y.size(), o);
      if (n <= 0 && m == n) break;
      same = n == m && std::memcmp(x.data(), y.data(), n) == 0;
    }
  sys::raw::close(a); sys::raw::close(b);
  return same;
}
int raw_open(const std::string& p, int fl) { return sys::raw::open(p.c_str(), fl | O_CLOEXEC, 0644); }
void add_service(asio::io_context& io, std::size_t threads) { asio::add_service<Svc>(io, new Svc(io, threads)); }
const asioext::open_args RW(OF::access_read | OF::access_write | OF::open_always);
}

// ------------------------------------------------------------------ C14
namespace {
struct Env
{
  // the file service's threads may still be inside these when a handler runs: they go last
  asio::io_context io2;
  asio::thread_pool alt{2};
  asio::io_context io;
  asio::strand<asio::io_context::executor_type> strand{io.get_executor()};
};

struct Rec // one operation
{
  std::atomic<int> calls{0};
  int kind, exec;
  bool lvalue = false;
  std::string what;
  std::unique_ptr<Pieces> mine, twin;
  uint64_t off = 0;
  hk::Plan plan;
  std::vector<char> after; // arena contents when the handler ran
};

struct Actor : std::enable_shared_from_this<Actor>
{
  Env& w;
  Rng r;
  asioext::file f;
  int twin_fd;
  std::string path, twin_path, hist;
  int left;
  std::vector<std::shared_ptr<Rec>> recs;
  std::atomic<int> live_handlers{0};
  std::atomic<int> finished{0};
  bool bad = false;
  std::future<std::size_t> fut;
  std::shared_ptr<Rec> fut_rec;
  Actor(Env& e, uint64_t seed, int ops, int mode) : w(e), r(seed), f(e.io), left(ops)
  {
    path = fresh_name(); twin_path = fresh_name();
    const std::string d = r.bytes(r.size(6000));
    sys::raw::put(path, d); sys::raw::put(twin_path, d);
    const int fl = mode == 1 ? O_RDONLY : mode == 2 ? O_WRONLY : O_RDWR;
    const int fd = raw_open(path, fl);
    twin_fd = raw_open(twin_path, fl);
    f = asioext::file(e.io, asioext::file_handle(fd));
    watch(fd);
    hist = cat("mode ", mode, " ");
  }
  ~Actor() { sys::raw::close(twin_fd); ::unlink(path.c_str()); ::unlink(twin_path.c_str()); }

  // the user's handler: owns state, knows where it must run
  template <class Next> struct Hd
  {
    std::shared_ptr<Actor> a;
    std::shared_ptr<Rec> rec;
    Next next;
    Hd(std::shared_ptr<Actor> x, std::shared_ptr<Rec> y, Next n) : a(std::move(x)), rec(std::move(y)), next(std::move(n)) {}
    void operator()(asioext::error_code ec, std::size_t n) { auto x = a; x->done(*rec, ec, n); next(x); }
  };

  std::shared_ptr<Rec> make(int kind, int exec)
  {
    auto c = std::make_shared<Rec>();
    c->kind = kind; c->exec = exec;
    const std::size_t cnt = r.chance(10) ? r.below(40) : r.range(1, 4);
    const uint64_t shape = r.next();
    { Rng q(shape); c->mine.reset(new Pieces(q, cnt, 3000, 'g')); }
    { Rng q(shape); c->twin.reset(new Pieces(q, cnt, 3000, 'g')); }
    const std::string data = r.bytes(c->mine->total());
    c->mine->fill(data); c->twin->fill(data);
    c->off = r.chance(5) ? (1ull << 32) + r.below(100) : r.chance(5) ? ~0ull - r.below(3) : r.below(8000);
    if (r.chance(30)) c->plan.eintr = (int)r.range(1, 3);
    if (r.chance(25)) c->plan.limit = (long)r.size(2000);
    else if (r.chance(8)) c->plan.err = r.chance(50) ? EIO : ENOSPC;
    c->what = cat(kind == 0 ? "read_some" : kind == 1 ? "write_some" : kind == 2 ? "read_some_at" : "write_some_at", kind > 1 ? cat("@", c->off) : std::string(), c->mine->shape(), " on executor ", exec,
                  c->plan.eintr ? " eintr" : "", c->plan.err ? " error" : "", c->plan.limit >= 0 ? " short" : "");
    hist += c->what + "; ";
    recs.push_back(c);
    hk::plan[f.native_handle()] = c->plan;
    return c;
  }

  template <class T> auto start(Rec& c, T&& t)
  {
    Initiating guard;
    switch (c.kind) {
    case 0: return f.async_read_some(c.mine->mut(), std::forward<T>(t));
    case 1: return f.async_write_some(c.mine->con(), std::forward<T>(t));
    case 2: return f.async_read_some_at(c.off, c.mine->mut(), std::forward<T>(t));
    default: return f.async_write_some_at(c.off, c.mine->con(), std::forward<T>(t));
    }
  }

  // completion of one operation
  void done(Rec& c, asioext::error_code ec, std::size_t n, bool ran_here = true)
  {
    if (ran_here) {
      VH_CHECK(initiating == 0, "called-inside-initiating-function", hist);
      const bool ok = c.exec == 0 ? w.io.get_executor().running_in_this_thread()
                    : c.exec == 1 ? w.strand.running_in_this_thread()
                    : c.exec == 2 ? w.alt.get_executor().running_in_this_thread()
                                  : w.io2.get_executor().running_in_this_thread();
      VH_CHECK(ok, "wrong-executor", hist);
    }
    if (c.calls.fetch_add(1) != 0) { vh::violation("called-twice", hist); return; }
    // the synchronous operation on the twin, under the same conditions
    asioext::file_handle t(twin_fd);
    asioext::error_code tec = asio::error::fault;
    std::size_t tn = 0;
    hk::own = &c.plan;
    switch (c.kind) {
    case 0: tn = t.read_some(c.twin->mut(), tec); break;
    case 1: tn = t.write_some(c.twin->con(), tec); break;
    case 2: tn = t.read_some_at(c.off, c.twin->mut(), tec); break;
    default: tn = t.write_some_at(c.off, c.twin->con(), tec); break;
    }
    hk::own = nullptr;
    VH_CHECK(ec == tec && n == tn, "wrong-result", hist, " got ", text(ec), " ", n, " want ", text(tec), " ", tn);
    VH_CHECK(c.mine->arena == c.twin->arena, "wrong-data", hist);
    VH_CHECK(c.mine->guards_ok(), "wrote-outside-buffers", hist);
    std::fill(c.mine->arena.begin(), c.mine->arena.end(), (char)0x5a); // anybody still writing here is caught
    c.after = c.mine->arena;
    vh::count(ec ? "completed-error" : "completed-ok");
  }

  static const int tokens = 8;
  void next()
  {
    if (left-- <= 0) { finished.store(1); return; }
    auto self = shared_from_this();
    const int kind = (int)r.below(4);
    auto cont = [](std::shared_ptr<Actor> a) { a->next(); };
    typedef Hd<decltype(cont)> H;
    switch (r.below(tokens)) {
    case 0: case 1: { auto c = make(kind, 0); start(*c, H(self, c, cont)); vh::count("token:plain"); break; }
    case 2: { auto c = make(kind, 1); start(*c, asio::bind_executor(w.strand, H(self, c, cont))); vh::count("token:strand"); break; }
    case 3: { auto c = make(kind, 2); start(*c, asio::bind_executor(w.alt, H(self, c, cont))); vh::count("token:other-pool"); break; }
    case 4: { auto c = make(kind, 3); start(*c, asio::bind_executor(w.io2, H(self, c, cont))); vh::count("token:other-context"); break; }
    case 5: { // an lvalue handler must be copied, and stays usable
      auto c = make(kind, 0); H h(self, c, cont); start(*c, h);
      VH_CHECK(h.a && h.rec, "lvalue-handler-moved-from", "plain lvalue handler"); vh::count("token:lvalue"); break; }
    case 6: { // a burst of operations at disjoint offsets, all pending at once
      auto n = std::make_shared<std::atomic<int>>((int)r.range(2, 6));
      const int k = n->load();
      auto last = [n](std::shared_ptr<Actor> a) { if (n->fetch_sub(1) == 1) a->next(); };
      // positional operations only; the twin sees each in isolation, so they must not overlap
      std::vector<std::shared_ptr<Rec>> cs;
      const int burst = 2 + (int)r.below(2);
      for (int i = 0; i < k; ++i) {
        auto c = make(burst, 1); // all reads or all writes: a write may extend the file under a read
        c->plan = hk::Plan(); c->off = 20000 + 130000ull * recs.size();
        cs.push_back(c);
      }
      hk::plan[f.native_handle()] = hk::Plan();
      for (auto& c : cs) start(*c, asio::bind_executor(w.strand, Hd<decltype(last)>(self, c, last)));
      vh::count("token:burst"); break; }
    default: {
      switch (r.below(2)) {
      case 0: { // a coroutine performing a few operations in a row
        const int m = (int)r.range(1, 3);
        std::vector<std::shared_ptr<Rec>> cs;
        asio::co_spawn(w.io, [](std::shared_ptr<Actor> a, int m) -> asio::awaitable<void> {
          for (int i = 0; i < m; ++i) {
            auto c = a->make((int)a->r.below(4), 0);
            auto [ec, n] = co_await a->start(*c, asio::as_tuple(asio::use_awaitable));
            a->done(*c, ec, n);
          }
          a->next();
        }(self, m), asio::detached);
        vh::count("token:coroutine"); break; }
      default: { // a future: the last operation of the chain
        auto c = make(kind, 0);
        fut_rec = c;
        fut = start(*c, asio::use_future);
        vh::count("token:future");
        finished.store(1);
        left = 0;
        break; }
      } }
    }
  }
};
}

VH_GROUP(ops)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    hk::jitter.store(r.chance(50) ? 30 : 0);
    std::vector<std::shared_ptr<Actor>> as;
    std::string all;
    {
      auto w = std::make_unique<Env>();
      const std::size_t threads = (std::size_t)r.range(1, 4);
      if (r.chance(70)) add_service(w->io, threads);
      const int n = (int)r.range(1, 4), nio = (int)r.range(1, 3), nst = (int)r.range(0, 2);
      for (int i = 0; i < n; ++i) as.push_back(std::make_shared<Actor>(*w, r.next(), (int)r.range(1, 12), (int)(r.chance(80) ? 0 : r.range(1, 2))));
      auto g1 = asio::make_work_guard(w->io); auto g2 = asio::make_work_guard(w->io2);
      std::vector<std::thread> th;
      for (int i = 0; i < nio; ++i) th.emplace_back([&] { w->io.run(); });
      th.emplace_back([&] { w->io2.run(); });
      // distinct files may be started from distinct threads, or from the context
      std::vector<std::thread> st;
      for (int i = 0; i < n; ++i) {
        auto a = as[i];
        if (nst == 0) asio::post(w->io, [a] { a->next(); });
        else if (nst == 1) st.emplace_back([a] { a->next(); });
        else a->next();
      }
      for (auto& t : st) t.join();
      bool stuck = false;
      for (auto& a : as) {
        for (int i = 0; i < 200000 && !a->finished.load(); ++i) ::usleep(100);
        if (!a->finished.load()) { stuck = true; }
        else if (a->fut.valid()) {
          if (a->fut.wait_for(std::chrono::seconds(20)) != std::future_status::ready) stuck = true;
          else { asioext::error_code ec; std::size_t k = 0; try { k = a->fut.get(); } catch (const vh::system_error& e) { ec = e.code(); }
            // a future reports no count with an error
            auto& c = *a->fut_rec; asioext::error_code tec = asio::error::fault; std::size_t tn = 0; asioext::file_handle t(a->twin_fd); hk::own = &c.plan;
            switch (c.kind) { case 0: tn = t.read_some(c.twin->mut(), tec); break; case 1: tn = t.write_some(c.twin->con(), tec); break;
              case 2: tn = t.read_some_at(c.off, c.twin->mut(), tec); break; default: tn = t.write_some_at(c.off, c.twin->con(), tec); break; }
            hk::own = nullptr;
            c.calls++;
            VH_CHECK(ec == tec && (ec || k == tn), "wrong-result", a->hist, " got ", text(ec), " ", k, " want ", text(tec), " ", tn);
            VH_CHECK(c.mine->arena == c.twin->arena, "wrong-data", a->hist);
          }
        }
      }
      g1.reset(); g2.reset();
      if (stuck) {
        std::string h; for (auto& a : as) if (!a->finished.load()) h += a->hist + " | ";
        vh::violation("never-completed", h);
        vh::write_stats();
        ::_exit(0);
      }
      for (auto& t : th) t.join();
      w->alt.join();
      // nothing may touch files or buffers any more
      for (auto& a : as) {
        all += a->hist;
        for (auto& c : a->recs) {
          VH_CHECK(c->calls == 1, c->calls ? "called-twice" : "never-completed", a->hist, " : ", c->what, " calls ", c->calls.load());
          VH_CHECK(c->after.empty() || c->after == c->mine->arena, "buffer-touched-after-completion", a->hist);
        }
        asioext::error_code e1, e2;
        const uint64_t p1 = a->f.position(e1), p2 = asioext::file_handle(a->twin_fd).position(e2);
        VH_CHECK(p1 == p2 && e1 == e2, "wrong-position", a->hist, " ", p1, " want ", p2);
        VH_CHECK(same_contents(a->path, a->twin_path), "wrong-file-contents", a->hist);
        for (int i = 0; i < 20000 && a.use_count() != 1; ++i) ::usleep(50);
        VH_CHECK(a.use_count() == 1, "handler-leaked", a->hist, " ", a.use_count());
        vh::count("operations", a->recs.size());
      }
      as.clear();
    }
    hk::jitter.store(0);
    vh::distinct(vh::hash_str(all));
    static int shown = 0;
    if (shown++ < 2) vh::sample(all);
  });
}

// run() of the context a handler belongs to does not return before that handler ran
VH_GROUP(keepalive)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    asio::io_context other, io;
    const std::string p = fresh_name();
    sys::raw::put(p, r.bytes(100));
    asioext::file f(io, p.c_str(), RW);
    watch(f.native_handle());
    const int kind = (int)r.below(4), how = (int)r.below(5), ops = r.chance(3) ? (int)r.range(100, 400) : (int)r.range(1, 3);
    std::vector<std::array<char, 16>> buf(ops);
    const bool thrower = r.chance(20); // handlers may throw: the others still run
    int thrown = 0;
    const bool slow = r.chance(50);
    const std::string what = cat("kind ", kind, " how ", how, " ops ", ops, slow ? " slow" : "");
    vh::current(what);
    int called = 0, want = 0;
    auto strand = asio::make_strand(other);
    auto one = [&](int i, auto tok) {
      ++want;
      switch (kind) {
      case 0: f.async_read_some(asio::buffer(buf[i]), tok); break;
      case 1: f.async_write_some(asio::buffer(buf[i]), tok); break;
      case 2: f.async_read_some_at(i * 16, asio::buffer(buf[i]), tok); break;
      default: f.async_write_some_at(i * 16, asio::buffer(buf[i]), tok); break;
      }
    };
    if (slow) gate_arm(f.native_handle());
    asio::io_context* runs = how >= 2 ? &other : &io;
    std::atomic<bool> opened{false};
    for (int i = 0; i < ops; ++i) {
      auto h = [&](asioext::error_code, std::size_t) { VH_CHECK(!slow || opened.load(), "called-early", what); VH_CHECK(runs->get_executor().running_in_this_thread(), "wrong-executor", what); ++called; if (thrower && called % 2) throw std::runtime_error("handler"); };
      switch (how) {
      case 0: one(i, h); break;
      case 1: one(i, asio::bind_executor(io, h)); break;
      case 2: one(i, asio::bind_executor(other, h)); break;
      case 3: one(i, asio::bind_executor(strand, h)); break;
      default: one(i, asio::bind_executor(asio::any_io_executor(other.get_executor()), h)); break;
      }
    }
    std::thread t;
    const int fd = f.native_handle();
    if (slow) t = std::thread([&, fd] { if (!gate_reached(fd)) vh::violation("never-executed", what); ::usleep(200); opened = true; gate_open(fd); });
    if (r.chance(30)) ::usleep(300);
    for (;;) { try { runs->run(); break; } catch (const std::runtime_error&) { ++thrown; vh::count("throwing-handlers"); } }
    VH_CHECK(thrown == (thrower ? (called + 1) / 2 : 0), "exception-lost", what, " ", thrown);
    if (ops > 50) vh::count("many-pending");
    VH_CHECK(called == want, "run-returned-before-completion", what, " ", called, " of ", want);
    if (t.joinable()) t.join();
    ::unlink(p.c_str());
    vh::count(slow ? "keepalive-slow" : "keepalive-fast");
    vh::distinct(vh::hash_str(what));
  });
  vh::sample("operations whose handlers belong to the file's or another context, started before run()");
}

// ------------------------------------------------------------------ C15
// One pool thread, held inside the system call of a first operation: everything started meanwhile is queued.
namespace {
struct POp // an operation with its own region of the file
{
  int file, kind; // 0 read_at 1 write_at 2 read_some 3 write_some
  uint64_t off;
  int epoch;       // of the file when started
  bool executing = false;
  bool expect_abort = false, closed = false;
  int err = 0;     // injected into its execution
  long cut = -1;
  bool at_end = false;
  int calls = 0;
  asioext::error_code ec = asio::error::fault;
  std::size_t n = 0;
  std::string buf, data;
  int tok = 0;
};
enum { REGION = 64 };
std::string pattern(int file, uint64_t off, std::size_t n)
{ std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = (char)(vh::mix(file * 1000003 + off + i) | 1); return s; }
}

VH_GROUP(cancel)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    hk::logging = true;
    std::string hist;
    {
      asio::io_context io;
      add_service(io, 1);
      const int N = (int)r.range(2, 4); // file 0 hosts the blocker
      struct F { std::unique_ptr<asioext::file> f; std::string path; int epoch = 0; int seq = 0; uint64_t next = 0; bool opened = true; int fd = -1; };
      std::vector<F> fs(N);
      std::vector<std::string> content(N); // what must be in the files
      for (int i = 0; i < N; ++i) {
        fs[i].path = fresh_name();
        content[i] = pattern(i, 0, REGION * 60); // positional operations; the second half belongs to sequential ones
        sys::raw::put(fs[i].path, content[i] + std::string(REGION * 60, 's'));
      }
      auto open_file = [&](int i) {
        fs[i].f.reset(new asioext::file(io, fs[i].path.c_str(), RW));
        fs[i].fd = fs[i].f->native_handle();
        watch(fs[i].fd);
        sys::raw::seek(fs[i].fd, REGION * 60);
        fs[i].opened = true;
        fs[i].seq = 0;
      };
      for (int i = 0; i < N; ++i) open_file(i);
      std::vector<std::unique_ptr<POp>> ops;
      const int phases = (int)r.range(1, 3);
      for (int ph = 0; ph < phases; ++ph) {
        const std::size_t first = ops.size();
        auto start = [&](int i, bool blocker) {
          ops.emplace_back(new POp);
          POp& o = *ops.back();
          o.file = i; o.kind = (int)r.below(2); o.off = REGION * fs[i].next++; o.epoch = fs[i].epoch; o.executing = blocker;
          if (r.chance(15) && !blocker) o.kind += 2;
          if (blocker) { // what becomes of the executing operation
            auto& p = hk::plan[fs[0].fd];
            if (r.chance(30)) { p.eintr = (int)r.range(1, 3); hist += " interrupted"; vh::count("executing-interrupted"); }
            switch (r.below(8)) {
            case 5: p.err = o.err = r.chance(50) ? EIO : ENOSPC; hist += " failing"; break;
            case 6: p.limit = o.cut = r.range(1, (int64_t)REGION - 1); hist += " short"; break;
            case 7: o.at_end = true; o.kind = 0; o.off = REGION * 200; hist += " at the end"; break;
            }
          }
          o.buf.assign(REGION, 'x');
          if (o.kind & 1) { o.data = r.bytes(REGION); o.buf = o.data; }
          POp* q = &o;
          auto h = [q, &hist](asioext::error_code ec, std::size_t n) { if (++q->calls != 1) vh::violation("called-twice", hist); q->ec = ec; q->n = n; };
          Initiating g;
          auto& f = *fs[i].f;
          switch (o.kind) {
          case 0: f.async_read_some_at(o.off, asio::buffer(o.buf), h); break;
          case 1: f.async_write_some_at(o.off, asio::buffer(o.buf), h); break;
          case 2: f.async_read_some(asio::buffer(o.buf), h); break;
          default: f.async_write_some(asio::buffer(o.buf), h); break;
          }
          vh::count("started");
        };
        { std::lock_guard<std::mutex> l(hk::log_m); hk::log.clear(); }
        gate_arm(fs[0].fd);
        hist += "; block f0";
        start(0, true);
        vh::current(hist);
        if (!gate_reached(fs[0].fd)) { vh::violation("never-executed", hist); break; }
        std::vector<uint64_t> pos_before(N);
        const int steps = (int)r.range(2, 14);
        bool released = false; // the blocker
        for (int s = 0; s < steps && !released; ++s) {
          const int i = (int)r.below(N);
          if (!fs[i].opened) continue;
          if (fs[i].next > 50) continue;
          asioext::error_code ec = asio::error::fault;
          switch (r.below(8)) {
          default: start(i, false); hist += cat("; f", i, " op"); break;
          case 5: case 6: {
            hist += cat("; f", i, ".cancel"); vh::current(hist);
            for (auto& o : ops) if (o->file == i && !o->executing && o->calls == 0) o->expect_abort = true;
            if (r.chance(50)) { fs[i].f->cancel(ec); VH_CHECK(!ec, "cancel-failed", hist); } else fs[i].f->cancel();
            vh::count("cancels"); break; }
          case 7: {
            if (i == 0) break; // an executing operation's file stays open (see the group 'window')
            for (auto& o : ops) if (o->file == i && o->calls == 0) { if (!o->expect_abort) o->closed = true; o->expect_abort = true; }
            hist += cat("; f", i); fs[i].opened = false;
            if (r.chance(30)) { // the pool gets to this file's operations while its descriptor is being closed
              released = true;
              hk::let_queue_run = [&] { gate_open(fs[0].fd); ::usleep(400); vh::count("ran-while-closing"); };
              hk::run_after_close.store(fs[i].fd);
              hist += " (queue runs after close())";
            }
            switch (r.below(4)) {
            case 0: hist += " destroyed"; fs[i].f.reset(); vh::count("destroyed"); break;
            case 1: hist += " closed"; fs[i].f->close(ec); VH_CHECK(!ec, "close-failed", hist); vh::count("closed"); break;
            case 2: hist += " assigned over"; *fs[i].f = asioext::file(io); vh::count("assigned-over"); break;
            default: { // closed, and its descriptor number reused by somebody else's file
              hist += " closed and reused"; fs[i].f->close(ec);
              const int fd = raw_open(fs[i].path + ".other", O_RDWR | O_CREAT);
              if (fd == fs[i].fd) vh::count("reused");
              watch(fd);
              fs[i].f.reset(new asioext::file(io, asioext::file_handle(fd)));
              break; }
            }
            if (released) VH_CHECK(hk::run_after_close.exchange(-1) == -1, "not-closed", hist);
            break; }
          }
          vh::current(hist);
        }
        if (!released) gate_open(fs[0].fd);
        io.restart();
        io.run(); // returns when every operation completed
        hist += "; run";
        std::vector<hk::Exec> log;
        { std::lock_guard<std::mutex> l(hk::log_m); log = hk::log; }
        for (std::size_t k = first; k < ops.size(); ++k) {
          POp& o = *ops[k];
          if (o.calls != 1) { vh::violation(o.calls ? "called-twice" : "never-completed", cat(hist, ": operation ", k)); continue; }
          if (o.expect_abort) {
            VH_CHECK(o.ec == asio::error::operation_aborted && o.n == 0, o.closed ? "not-aborted-by-close" : "not-aborted", hist, ": operation ", k - first, " of f", o.file, " ", text(o.ec), " ", o.n);
            if (!(o.kind & 1)) VH_CHECK(o.buf == std::string(REGION, 'x'), "aborted-operation-has-effect", hist);
            vh::count("aborted");
          } else if (o.err || o.at_end) {
            const bool right = o.err ? is_sys(o.ec, o.err) : o.ec == asio::error::eof;
            VH_CHECK(right && o.n == 0, "executing-operation-result", hist, ": ", text(o.ec), " ", o.n);
            if (!(o.kind & 1)) VH_CHECK(o.buf == std::string(REGION, 'x'), "wrong-data", hist);
            vh::count("executing-failed");
          } else if (o.cut >= 0) {
            VH_CHECK(!o.ec && o.n == (std::size_t)o.cut, "executing-operation-result", hist, ": ", text(o.ec), " ", o.n, " want ", o.cut);
            if (!o.ec && o.kind == 0) VH_CHECK(o.buf == content[o.file].substr(o.off, o.cut) + std::string(REGION - o.cut, 'x'), "wrong-data", hist);
            if (!o.ec && o.kind == 1) content[o.file].replace(o.off, o.cut, o.data.substr(0, o.cut));
            vh::count("executing-short");
          } else {
            VH_CHECK(!o.ec && o.n == REGION, "spuriously-failed", hist, ": operation ", k - first, " of f", o.file, " ", text(o.ec), " ", o.n);
            if (!o.ec && o.kind == 0) VH_CHECK(o.buf == content[o.file].substr(o.off, REGION), "wrong-data", hist);
            if (!o.ec && o.kind == 1) content[o.file].replace(o.off, REGION, o.data);
            vh::count(o.executing ? "executing-unaffected" : "completed");
          }
        }
        // positional calls observed = positional operations that completed
        std::size_t execs = 0, want = 0;
        for (auto& e : log) if (e.fd >= 0 && e.err != EINTR) ++execs;
        for (std::size_t k = first; k < ops.size(); ++k) want += !ops[k]->expect_abort;
        VH_CHECK(execs == want, "aborted-operation-executed", hist, ": ", execs, " system calls, want ", want);
        for (int i = 0; i < N; ++i) {
          std::string d;
          sys::raw::get(fs[i].path, d);
          VH_CHECK(d.size() == REGION * 120 && d.compare(0, content[i].size(), content[i]) == 0, "aborted-operation-has-effect", hist, ": f", i, " contents differ");
          for (std::size_t k = first; k < ops.size(); ++k) if (ops[k]->file == i && ops[k]->kind >= 2 && !ops[k]->expect_abort) ++fs[i].seq;
          if (fs[i].opened) { asioext::error_code ec; VH_CHECK(fs[i].f->position(ec) == REGION * (60u + fs[i].seq), "aborted-operation-has-effect", hist, ": f", i, " position"); }
          std::string other;
          if (sys::raw::get(fs[i].path + ".other", other)) VH_CHECK(other.empty(), "touched-another-file", hist);
        }
        // files can be reopened and work
        for (int i = 1; i < N; ++i) if (!fs[i].opened && r.chance(70)) {
          open_file(i); hist += cat("; reopen f", i);
        }
      }
      for (auto& f : fs) { ::unlink(f.path.c_str()); ::unlink((f.path + ".other").c_str()); }
    }
    hk::logging = false;
    vh::distinct(vh::hash_str(hist));
    static int shown = 0;
    if (shown++ < 2) vh::sample(hist);
  });
}

// cancel() at random moments of a running system (also under ThreadSanitizer)
VH_GROUP(cancel_mt)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    hk::jitter.store(40);
    const int N = (int)r.range(1, 3);
    std::string hist;
    {
      asio::io_context io;
      add_service(io, (std::size_t)r.range(1, 3));
      std::vector<std::unique_ptr<asioext::file>> f(N);
      std::vector<std::string> path(N);
      struct O { int file, epoch; uint64_t off; bool wr; std::atomic<int> calls{0}; asioext::error_code ec; std::size_t n = 0; std::string buf; };
      std::vector<std::unique_ptr<O>> ops;
      std::vector<int> epoch(N);
      std::vector<std::string> init(N);
      for (int i = 0; i < N; ++i) { path[i] = fresh_name(); init[i] = pattern(i, 0, 64 * 64); sys::raw::put(path[i], init[i]); f[i].reset(new asioext::file(io, path[i].c_str(), RW)); watch(f[i]->native_handle()); }
      auto g = asio::make_work_guard(io);
      std::vector<std::thread> th;
      for (int k = (int)r.range(1, 2); k > 0; --k) th.emplace_back([&] { io.run(); });
      std::atomic<int> completed{0};
      const int steps = (int)r.range(5, 40);
      for (int s = 0; s < steps; ++s) {
        const int i = (int)r.below(N);
        if (r.chance(30)) { f[i]->cancel(); ++epoch[i]; hist += cat("c", i); vh::count("cancels"); }
        else {
          ops.emplace_back(new O);
          O* o = ops.back().get();
          o->file = i; o->epoch = epoch[i]; o->off = 64 * s; o->wr = r.chance(50); o->buf = o->wr ? std::string(64, 'W') : std::string(64, 'x');
          auto h = [o, &completed](asioext::error_code ec, std::size_t n) { o->ec = ec; o->n = n; o->calls.fetch_add(1); completed.fetch_add(1); };
          if (o->wr) f[i]->async_write_some_at(o->off, asio::buffer(o->buf), h); else f[i]->async_read_some_at(o->off, asio::buffer(o->buf), h);
          hist += cat("o", i);
        }
        if (r.chance(20)) ::usleep(r.below(80));
      }
      g.reset();
      for (auto& t : th) t.join();
      uint64_t aborted = 0;
      for (auto& o : ops) {
        VH_CHECK(o->calls == 1, o->calls ? "called-twice" : "never-completed", hist);
        if (o->ec == asio::error::operation_aborted) {
          VH_CHECK(o->epoch < epoch[o->file], "spuriously-aborted", hist, ": started after the last cancel");
          VH_CHECK(o->n == 0, "aborted-with-count", hist);
          ++aborted;
        } else VH_CHECK(!o->ec && o->n == 64, "wrong-result", hist, " ", text(o->ec));
        std::string d; sys::raw::get(path[o->file], d);
        const std::string was = init[o->file].substr(o->off, 64);
        if (o->wr) VH_CHECK(d.substr(o->off, 64) == (o->ec ? was : std::string(64, 'W')), o->ec ? "aborted-operation-has-effect" : "lost-write", hist);
        else VH_CHECK(o->buf == (o->ec ? std::string(64, 'x') : was), o->ec ? "aborted-operation-has-effect" : "wrong-data", hist);
      }
      vh::count("mt-aborted", aborted); vh::count("mt-completed", ops.size() - aborted);
      vh::distinct(vh::hash_str(cat(hist, aborted)));
      for (auto& p : path) ::unlink(p.c_str());
    }
    hk::jitter.store(0);
  });
  vh::sample("random starts and cancels over 1-3 files while 1-3 pool threads execute with random delays");
}

// ------------------------------------------------------------------ C16
namespace {
struct Cell { std::atomic<int> invoked{0}, destroyed{0}; std::atomic<bool> allowed{true}; char buf[64]; };
struct Session // what a typical handler keeps alive
{
  std::unique_ptr<asioext::file> f;
  std::unique_ptr<asio::ip::tcp::socket> sock;
  std::unique_ptr<asio::steady_timer> timer;
  std::unique_ptr<asioext::file> f2;
};
struct LHandler // move-only, counted
{
  std::shared_ptr<Cell> c;
  std::shared_ptr<Session> s;
  std::unique_ptr<int> token{new int(7)};
  std::function<void()> more;
  LHandler(std::shared_ptr<Cell> x, std::shared_ptr<Session> y) : c(std::move(x)), s(std::move(y)) {}
  LHandler(LHandler&& o) noexcept : c(std::move(o.c)), s(std::move(o.s)), token(std::move(o.token)), more(std::move(o.more)) {}
  ~LHandler() { s.reset(); if (c && token) c->destroyed.fetch_add(1); }
  void operator()(asioext::error_code, std::size_t)
  {
    if (!c || !token) { vh::violation("moved-from-called", "shutdown"); return; }
    if (c->invoked.fetch_add(1) != 0) vh::violation("called-twice", "shutdown");
    if (c->destroyed) vh::violation("called-after-destruction", "shutdown");
    if (!c->allowed) vh::violation("called-during-shutdown", "shutdown");
    if (more) { auto m = std::move(more); m(); }
  }
};
}

VH_GROUP(shutdown)
{
  const std::set<int> base_fds = sys::raw::fds();
  vh::run_cases([&](Rng& r, uint64_t) {
    std::string hist;
    hk::jitter.store(r.chance(40) ? 30 : 0);
    std::vector<std::shared_ptr<Cell>> cells;
    std::vector<std::string> paths;
    {
      auto io = std::make_unique<asio::io_context>();
      std::vector<std::shared_ptr<Session>> owned; // sessions the program itself keeps
      const bool gated = r.chance(50);
      int gate_fd = -1;
      std::thread opener;
      if (r.chance(60)) { const std::size_t n = r.range(1, 3); hist += cat("pool ", n); add_service(*io, n); }
      if (r.chance(30)) { asio::ip::tcp::socket early(*io); hist += "; sockets first"; }
      auto new_session = [&] {
        auto s = std::make_shared<Session>();
        const std::string p = fresh_name();
        paths.push_back(p);
        sys::raw::put(p, "0123456789abcdefghijklmnopqrstuvwxyz");
        s->f.reset(new asioext::file(*io, p.c_str(), RW));
        watch(s->f->native_handle());
        if (r.chance(50)) { s->sock.reset(new asio::ip::tcp::socket(*io)); s->sock->open(asio::ip::tcp::v4()); }
        if (r.chance(40)) s->timer.reset(new asio::steady_timer(*io, std::chrono::hours(1)));
        if (r.chance(20)) s->f2.reset(new asioext::file(*io, p.c_str(), RW));
        return s;
      };
      auto start = [&](std::shared_ptr<Session> s, bool keep) {
        auto c = std::make_shared<Cell>();
        cells.push_back(c);
        LHandler h(c, keep ? s : nullptr);
        if (keep && r.chance(30)) h.more = [s, &cells]() mutable { // continues with another operation
          if (!s->f || !s->f->is_open()) return;
          auto c2 = std::make_shared<Cell>();
          cells.push_back(c2); // one thread at a time runs handlers here
          LHandler h2(c2, s);
          s->f->async_read_some_at(3, asio::buffer(c2->buf), std::move(h2));
        };
        auto& f = *s->f;
        static char shared_out[64] = "payload";
        char* b = c->buf;
        switch (r.below(4)) {
        case 0: f.async_read_some(asio::buffer(b, 32), std::move(h)); break;
        case 1: f.async_write_some(asio::buffer((const char*)shared_out, 32), std::move(h)); break;
        case 2: f.async_read_some_at(5, asio::buffer(b, 32), std::move(h)); break;
        default: f.async_write_some_at(40, asio::buffer((const char*)shared_out, 32), std::move(h)); break;
        }
        vh::count("operations");
      };
      const int n = (int)r.range(1, 5);
      for (int i = 0; i < n; ++i) {
        auto s = new_session();
        const bool keep = r.chance(60);
        if (i == 0 && gated) { gate_fd = s->f->native_handle(); gate_arm(gate_fd); hist += "; gated"; }
        const int k = (int)r.range(1, 3);
        hist += cat("; session ", i, keep ? " kept by handlers" : " owned", " x", k);
        for (int j = 0; j < k; ++j) start(s, keep);
        if (!keep || r.chance(50) || (i == 0 && gated)) owned.push_back(s);
      }
      vh::current(hist);
      if (gated) { if (!gate_reached(gate_fd)) vh::violation("never-executed", hist); }
      else if (r.chance(50)) ::usleep(r.below(200));
      // some of it may run
      std::thread runner;
      switch (r.below(5)) {
      case 0: io->poll(); hist += "; poll"; break;
      case 1: { const int k = (int)r.range(1, 3); hist += cat("; poll_one x", k); for (int i = 0; i < k; ++i) io->poll_one(); break; }
      case 2: { hist += "; run, stop"; runner = std::thread([&] { io->run(); }); ::usleep(r.below(150)); io->stop(); runner.join(); break; }
      default: break;
      }
      // destroy files while their operations are queued or executing
      if (r.chance(60)) {
        hist += "; drop files";
        for (auto& s : owned) if (r.chance(60)) {
          vh::count("files-destroyed");
          if (r.chance(30)) { asioext::error_code ec; s->f->close(ec); } // stays a closed object
          s->f.reset();
        }
        for (std::size_t k = owned.size(); k-- > 0;) if (!owned[k]->f) { if (r.chance(50)) owned.erase(owned.begin() + k); }
      }
      if (r.chance(20)) { io->poll(); hist += "; poll"; }
      vh::current(hist);
      if (gated) {
        const unsigned d = (unsigned)r.below(400);
        const int fd = gate_fd;
        opener = std::thread([fd, d] { ::usleep(d); gate_open(fd); });
      }
      for (auto& c : cells) c->allowed = false;
      owned.clear(); // the program's own objects go first, as documented by Asio
      hist += "; destroy context";
      io.reset();
      if (opener.joinable()) opener.join();
      vh::count("contexts-destroyed");
    }
    uint64_t inv = 0, des = 0;
    for (auto& c : cells) {
      if (c.use_count() != 1) vh::violation("handler-leaked", hist);
      VH_CHECK(c->invoked <= 1, "called-twice", hist);
      VH_CHECK(c->destroyed <= 1, "destroyed-twice", hist);
      (c->invoked ? inv : des) += 1;
    }
    vh::count("handlers-invoked", inv); vh::count("handlers-destroyed-uninvoked", des);
    if (!tsan) {
      auto now = sys::raw::fds();
      for (int fd : now) if (!base_fds.count(fd) && fd > 2) { char b[64], l[256]; std::snprintf(b, sizeof b, "/proc/self/fd/%d", fd); long k = ::readlink(b, l, sizeof l - 1); if (k > 0 && std::string(l, k).find(vh::scratch()) != std::string::npos) vh::violation("descriptor-leaked", cat(hist, ": ", std::string(l, k))); }
    }
    for (auto& p : paths) ::unlink(p.c_str());
    hk::jitter.store(0);
    vh::distinct(vh::hash_str(hist));
    static int shown = 0;
    if (shown++ < 2) vh::sample(hist);
  });
}

// An operation already inside its system call when its file goes away (known limitation, see known_findings.json):
// if the descriptor number is reused before the kernel is entered, the operation hits somebody else's file.
VH_GROUP(window)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    const int how = (int)r.below(3);
    static const char* names[] = {"closed", "destroyed", "assigned-over"};
    const std::string a = fresh_name(), b = fresh_name();
    {
      asio::io_context io;
      add_service(io, 1);
      sys::raw::put(a, std::string(100, 'a')); sys::raw::put(b, std::string(100, 'b'));
      auto f = std::make_unique<asioext::file>(io, a.c_str(), RW);
      const int fd = f->native_handle();
      watch(fd);
      int calls = 0;
      gate_arm(fd);
      f->async_write_some_at(10, asio::buffer("XXXXXXXX", 8), [&](asioext::error_code, std::size_t) { ++calls; });
      if (!gate_reached(fd)) { vh::violation("never-executed", "window"); return; }
      asioext::error_code ec;
      if (how == 0) f->close(ec); else if (how == 1) f.reset(); else *f = asioext::file(io);
      asioext::file g(io, b.c_str(), RW);
      const bool reused = g.native_handle() == fd;
      gate_open(fd);
      io.run();
      VH_CHECK(calls == 1, "call-count", names[how]);
      std::string d;
      sys::raw::get(b, d);
      vh::count("window-probes");
      if (reused) vh::count("window-descriptor-reused");
      if (d != std::string(100, 'b')) vh::violation(cat("executing-operation-hits-reused-descriptor:", names[how]), "write_at started on file a, a gone while the write was about to enter the kernel, file b opened with the same descriptor number: b was written");
    }
    ::unlink(a.c_str()); ::unlink(b.c_str());
    vh::distinct(how);
  });
  vh::sample("file closed, destroyed or assigned over between the cancellation check and the system call of its operation");
}

// ------------------------------------------------------------------ C17
namespace {
template <typename F>
void life()
{
  vh::run_cases([&](Rng& r, uint64_t) {
    std::string hist;
    const int NF = 4, NC = 2, NP = 3;
    std::vector<std::string> path(NP);
    for (int i = 0; i < NP; ++i) { path[i] = fresh_name(); sys::raw::put(path[i], pattern(i, 0, 4096)); }
    {
      std::unique_ptr<asio::io_context> io[NC];
      std::vector<std::unique_ptr<asio::io_context>> pending_io;
      for (auto& c : io) { c.reset(new asio::io_context); if (r.chance(50)) add_service(*c, 1); }
      // the executor of a file is noted when the file is created, and travels with it
      using EX = typename F::executor_type;
      struct M { std::unique_ptr<F> f; int ctx = 0; int p = -1; /* file open, -1 none */ std::optional<EX> e; uint64_t pos = 0; };
      auto born = [&](M& x) {
        x.e.emplace(x.f->get_executor());
        VH_CHECK(&asio::query(*x.e, asio::execution::context) == io[x.ctx].get(), "wrong-executor", hist, ": not of the context");
        if constexpr (std::is_same_v<EX, asio::any_io_executor>) VH_CHECK(*x.e == asio::any_io_executor(io[x.ctx]->get_executor()), "wrong-executor", hist);
      };
      M m[NF];
      auto ino = [](int fd) { struct stat st; return sys::raw::fstat(fd, &st) == 0 ? (uint64_t)st.st_ino : 0; };
      std::vector<uint64_t> inode(NP);
      for (int i = 0; i < NP; ++i) { struct stat st; sys::raw::stat(path[i].c_str(), &st); inode[i] = st.st_ino; }
      struct Out { int calls = 0, ctx; asioext::error_code ec; std::size_t n = 0; std::string buf; std::string want; bool may_abort = false; int kind = 0; };
      int held[NC]; for (int& h : held) h = -1; // the descriptor on which the pool of a context is held
      std::vector<std::unique_ptr<Out>> outstanding;
      std::vector<std::pair<int, Out*>> of; // file object index -> its outstanding operations
      auto run = [&](int c) { for (int& h : held) if (h >= 0) { gate_open(h); h = -1; } io[c]->restart(); io[c]->run(); };
      auto settle = [&] {
        for (int c = 0; c < NC; ++c) run(c);
        for (auto& o : outstanding) {
          VH_CHECK(o->calls == 1, o->calls ? "called-twice" : "never-completed", hist);
          if (o->may_abort && o->ec == asio::error::operation_aborted) continue;
          VH_CHECK(!o->ec && o->n == o->buf.size() && o->buf == o->want, "operation-started-before-move-failed", hist, " kind ", o->kind, " ", text(o->ec), " ", o->n);
        }
        outstanding.clear(); of.clear();
      };
      auto wfd = [&](M& x) { watch(x.f->native_handle()); };
      auto forget = [&](int i) { // the file object's current file goes away: queued operations may be aborted
        bool any = false;
        for (auto& x : of) if (x.first == i) { any = true; x.second->may_abort = true; }
        if (any) { settle(); } // (executing operations must be finished: see the group 'window')
      };
      auto probe = [&](int i) {
        M& x = m[i];
        if (!x.f) return;
        auto& f = *x.f;
        VH_CHECK(f.is_open() == (x.p >= 0), "wrong-open-state", hist, ": file ", i);
        VH_CHECK(f.get_executor() == *x.e, "wrong-executor", hist, ": file ", i);
        asioext::error_code ec;
        char b[16], b2[16];
        const uint64_t off = r.below(4000);
        if (x.p < 0) {
          std::size_t n = f.read_some_at(0, asio::buffer(b), ec);
          VH_CHECK(ec && n == 0, "closed-file-reads", hist, ": file ", i);
          f.size(ec = asioext::error_code()); VH_CHECK(ec, "closed-file-has-size", hist, ": file ", i);
          f.cancel(ec = asioext::error_code()); VH_CHECK(ec, "closed-file-cancels", hist, ": file ", i);
          int calls = 0; asioext::error_code aec; std::size_t an = 1;
          f.async_read_some_at(0, asio::buffer(b), [&](asioext::error_code e, std::size_t k) { ++calls; aec = e; an = k; });
          run(x.ctx);
          VH_CHECK(calls == 1 && aec && an == 0, "closed-file-reads", hist, ": file ", i, " asynchronous, calls ", calls);
          vh::count("probes-closed");
          return;
        }
        VH_CHECK(ino(f.native_handle()) == inode[x.p], "wrong-file", hist, ": file ", i);
        std::size_t n = f.read_some_at(off, asio::buffer(b), ec);
        VH_CHECK(!ec && n == 16 && std::string(b, 16) == pattern(x.p, off, 16), "open-file-unusable", hist, ": file ", i, " ", text(ec));
        int calls = 0; asioext::error_code aec; std::size_t an = 0; bool where = false;
        auto here = [&, ex = io[x.ctx]->get_executor()] {
          if constexpr (requires { x.e->running_in_this_thread(); }) {
            if (x.e->running_in_this_thread()) vh::count("handlers-inside-file-executor");
            // the services runs them directly on the context (known finding)
            else vh::violation("file-executor-bypassed", "asynchronous operation of a file whose executor is a strand: the handler, which has no executor of its own, runs on the context outside the strand");
          }
          return ex.running_in_this_thread();
        };
        f.async_read_some_at(off, asio::buffer(b2), [&](asioext::error_code e, std::size_t k) { ++calls; aec = e; an = k; where = here(); });
        run(x.ctx);
        VH_CHECK(calls == 1, "never-completed", hist, ": file ", i, " asynchronous probe on its own context");
        VH_CHECK(!aec && an == 16 && std::string(b2, 16) == pattern(x.p, off, 16), "open-file-unusable", hist, ": file ", i, " asynchronous ", text(aec));
        VH_CHECK(where, "wrong-executor", hist, ": file ", i);
        vh::count("probes-open");
      };
      auto probe_cancel = [&](int i) { // hold the pool inside one operation, queue another, cancel
        M& x = m[i];
        if (!x.f || x.p < 0) return;
        settle();
        auto& f = *x.f;
        const int fd = f.native_handle();
        wfd(x);
        char b1[8], b2[8];
        asioext::error_code e1 = asio::error::fault, e2 = asio::error::fault, ec;
        gate_arm(fd);
        f.async_read_some_at(0, asio::buffer(b1), [&](asioext::error_code e, std::size_t) { e1 = e; });
        if (!gate_reached(fd)) { vh::violation("open-file-unusable", cat(hist, ": file ", i, " never executed")); ::_exit(0); }
        f.async_read_some_at(0, asio::buffer(b2), [&](asioext::error_code e, std::size_t) { e2 = e; });
        f.cancel(ec);
        VH_CHECK(!ec, "cancel-failed", hist);
        gate_open(fd);
        run(x.ctx);
        VH_CHECK(!e1, "executing-operation-aborted", hist, ": file ", i, " ", text(e1));
        VH_CHECK(e2 == asio::error::operation_aborted, "cancel-without-effect", hist, ": file ", i, " ", text(e2));
        vh::count("cancel-probes");
      };
      const int steps = (int)r.range(5, 30);
      for (int s = 0; s < steps; ++s) {
        const int i = (int)r.below(NF), j = (int)r.below(NF);
        M &x = m[i], &y = m[j];
        asioext::error_code ec;
        switch (r.below(13)) {
        case 0: if (x.f) continue; x.ctx = (int)r.below(NC); x.p = -1; hist += cat("; f", i, "(c", x.ctx, ")"); x.f.reset(new F(*io[x.ctx])); born(x); break;
        case 1: { if (x.f) continue; x.ctx = (int)r.below(NC); x.p = (int)r.below(NP); x.pos = 0; hist += cat("; f", i, "(c", x.ctx, ",p", x.p, ")");
          switch (r.below(3)) { case 0: x.f.reset(new F(*io[x.ctx], path[x.p].c_str(), RW)); break;
            case 1: x.f.reset(new F(*io[x.ctx], boost::filesystem::path(path[x.p]), RW, ec)); break;
            default: x.f.reset(new F(*io[x.ctx], asioext::file_handle(raw_open(path[x.p], O_RDWR)))); break; }
          VH_CHECK(!ec, "open-failed", hist); wfd(x); born(x); break; }
        case 2: case 3: { if (!x.f || x.p >= 0) continue; x.p = (int)r.below(NP); x.pos = 0; hist += cat("; f", i, ".open p", x.p);
          if (r.chance(50)) x.f->open(path[x.p].c_str(), RW, ec = asio::error::fault); else { ec = asioext::error_code(); x.f->open(boost::filesystem::path(path[x.p]), RW); }
          VH_CHECK(!ec, "reopen-failed", hist, " ", text(ec)); wfd(x); vh::count("reopens"); break; }
        case 4: { if (!x.f || x.p < 0) continue; hist += cat("; f", i, ".close"); forget(i); x.f->close(ec = asio::error::fault); VH_CHECK(!ec, "close-failed", hist); x.p = -1; vh::count("closes"); break; }
        case 5: { if (!x.f) continue; hist += cat("; ~f", i); forget(i); x.f.reset(); x.p = -1; break; }
        case 6: case 7: { // move construction, possibly with operations under way
          if (!x.f || y.f) continue;
          hist += cat("; f", j, "(move f", i, ")");
          y.f.reset(new F(std::move(*x.f))); y.p = x.p; y.pos = x.pos; y.ctx = x.ctx; y.e = x.e; x.p = -1;
          for (auto& o : of) if (o.first == i) o.first = j;
          vh::count("move-constructions"); break; }
        case 8: case 9: { // move assignment
          if (!x.f || !y.f) continue;
          if (i == j) { hist += cat("; f", i, "=move f", i); auto& alias = *x.f; *x.f = std::move(alias); vh::count("self-moves"); break; }
          hist += cat("; f", j, "=move f", i, x.ctx != y.ctx ? "(other context)" : "");
          forget(j);
          *y.f = std::move(*x.f); vh::count(x.ctx != y.ctx ? "move-assignments-across-contexts" : "move-assignments");
          y.p = x.p; y.pos = x.pos; y.ctx = x.ctx; y.e = x.e; x.p = -1;
          for (auto& o : of) if (o.first == i) o.first = j;
          break; }
        case 10: { // operations that stay outstanding across the next steps
          if (!x.f || x.p < 0) continue;
          const int k = (int)r.range(1, 4);
          bool hold = held[x.ctx] < 0 && r.chance(50);
          if (hold) run(x.ctx); // nothing else is under way there
          hist += cat("; f", i, " starts ", k, hold ? ", the first one blocks" : "");
          vh::current(hist);
          for (int q = 0; q < k; ++q) {
            outstanding.emplace_back(new Out);
            Out* o = outstanding.back().get();
            o->ctx = x.ctx; o->kind = (int)r.below(x.pos < 4000 ? 4 : 2);
            const uint64_t off = o->kind < 2 ? r.below(4000) : x.pos;
            o->want = pattern(x.p, off, 32); // writes don't change the contents
            if (o->kind & 1) o->buf = o->want; else o->buf.assign(32, 0);
            auto done = [o](asioext::error_code e, std::size_t n) { ++o->calls; o->ec = e; o->n = n; };
            if (hold) gate_arm(x.f->native_handle());
            switch (o->kind) {
            case 0: x.f->async_read_some_at(off, asio::buffer(o->buf), done); break;
            case 1: x.f->async_write_some_at(off, asio::buffer(o->buf), done); break;
            case 2: x.f->async_read_some(asio::buffer(o->buf), done); x.pos += 32; break;
            default: x.f->async_write_some(asio::buffer(o->buf), done); x.pos += 32; break;
            }
            of.push_back({i, o});
            if (hold) { // the others stay in the queue of the pool
              if (!gate_reached(x.f->native_handle())) { vh::violation("open-file-unusable", cat(hist, ": file ", i, " never executed")); ::_exit(0); }
              held[x.ctx] = x.f->native_handle(); hold = false; vh::count("pool-held-across-steps");
            }
          }
          vh::count("operations-across-steps", k); break; }
        case 11: { // a failed open leaves the object usable
          if (!x.f) continue;
          if (x.p >= 0) { // so does opening an open file: it keeps its file and its operations
            const int p = (int)r.below(NP);
            hist += cat("; f", i, ".open p", p, " while open");
            const unsigned how = r.below(3);
            if (how == 0) { try { x.f->open(path[p].c_str(), RW); } catch (const vh::system_error& e) { ec = e.code(); } }
            else if (how == 1) x.f->open(boost::filesystem::path(path[p]), RW, ec);
            else x.f->open(path[p].c_str(), RW, ec);
            VH_CHECK(ec == asio::error::already_open, "open-while-open", hist, " ", text(ec));
            vh::count("opens-while-open"); break; }
          hist += cat("; f", i, ".open fails"); x.f->open("/nonexistent/x", RW, ec); VH_CHECK(ec, "open-succeeded", hist); vh::count("failed-opens"); break; }
        default: { // a context without files goes away and a new one takes its place
          const int c = (int)r.below(NC);
          bool used = false;
          for (auto& q : m) if (q.f && q.ctx == c) used = true;
          if (used) continue;
          hist += cat("; recreate c", c);
          settle();
          for (auto& q : m) if (q.ctx == c) q.e.reset();
          io[c].reset(); io[c].reset(new asio::io_context);
          vh::count("contexts-recreated"); break; }
        }
        vh::current(hist);
        const int p = (int)r.below(NF);
        if (r.chance(60)) probe(p);
        if (r.chance(35)) probe(i);
        if (r.chance(25)) probe(j);
        if (r.chance(15)) probe_cancel(r.chance(50) ? j : i);
        if (r.chance(30)) settle();
      }
      hist += "; end"; vh::current(hist);
      for (int k = 0; k < NF; ++k) { probe(k); probe_cancel(k); }
      settle();
      // some contexts may go first when none of their files is left
      for (auto& x : m) if (r.chance(50)) { x.f.reset(); }
      for (int c = 0; c < NC; ++c) { bool used = false; for (auto& q : m) if (q.f && q.ctx == c) used = true; if (!used) { for (auto& q : m) if (q.ctx == c) q.e.reset(); io[c].reset(); } }
      for (int k = 0; k < NF; ++k) if (m[k].f && m[k].p >= 0) { char b[16]; asioext::error_code ec; VH_CHECK(m[k].f->read_some_at(7, asio::buffer(b), ec) == 16 && !ec, "open-file-unusable", hist, " after another context was destroyed"); }
      for (auto& x : m) x.f.reset();
    }
    for (auto& p : path) ::unlink(p.c_str());
    vh::distinct(vh::hash_str(hist));
    static int shown = 0;
    if (shown++ < 2) vh::sample(hist);
  });
}
}

VH_GROUP(life) { life<asioext::file>(); }
VH_GROUP(life_strand) { life<asioext::basic_file<asioext::thread_pool_file_service, asio::strand<asio::io_context::executor_type>>>(); }
VH_GROUP(life_plain) { life<asioext::basic_file<asioext::thread_pool_file_service, asio::io_context::executor_type>>(); }

// ------------------------------------------------------------------ C26
namespace {
// everything a thread does is a function of its seed only: the digest must be the same alone and in company
uint64_t thread_work(asio::io_context& io, asio::io_context& io2, uint64_t seed, const std::string& dir, bool own_loop, std::atomic<uint64_t>* pending)
{
  Rng r(seed);
  uint64_t h = seed;
  auto add = [&](uint64_t v) { h = vh::mix(h ^ v); };
  const std::string p = cat(dir, "/t", seed);
  sys::raw::put(p, pattern((int)(seed % 1000), 0, 5000));
  std::unique_ptr<asioext::file> f;
  asioext::unique_file_handle u;
  asioext::linear_buffer lb;
  asioext::cancellation_token_source src;
  for (int s = (int)r.range(5, 25); s > 0; --s) {
    asioext::error_code ec;
    switch (r.below(16)) {
    case 0: f.reset(new asioext::file(r.chance(50) ? io2 : io, p.c_str(), RW, ec)); add(!!ec); if (f->is_open()) mark(f->native_handle()); break;
    case 1: f.reset(); break;
    case 2: if (f) { asioext::file g(std::move(*f)); *f = std::move(g); add(f->is_open()); } break;
    case 14: case 15: { // files created on both services, one assigned to the other: both lists of files change
      asioext::file g(r.chance(50) ? io2 : io, p.c_str(), RW, ec); add(!!ec); if (g.is_open()) mark(g.native_handle());
      asioext::file e(r.chance(50) ? io2 : io);
      if (f && r.chance(50)) { *f = std::move(g); add(f->is_open()); } else { e = std::move(g); add(e.is_open()); add(g.is_open()); }
      break; }
    case 3: if (f) { f->close(ec); add(ec.value()); f->open(p.c_str(), RW, ec); add(ec.value()); if (f->is_open()) mark(f->native_handle()); } break;
    case 4: if (f) { std::string b(r.size(300), 0); std::size_t n = f->read_some_at(r.below(5000), asio::buffer(b), ec); add(n); add(vh::hash_str(b)); } break;
    case 5: if (f) { std::string b = r.bytes(r.below(200)); f->write_some_at(r.below(5000), asio::buffer(b), ec); add(ec.value()); } break;
    case 6: case 7: if (f && f->is_open()) { // an asynchronous operation, waited for
      std::string b(r.range(1, 300), 0);
      auto fu = f->async_read_some_at(r.below(4000), asio::buffer(b), asio::as_tuple(asio::use_future));
      auto [e, n] = fu.get();
      add(e.value()); add(n); add(vh::hash_str(b));
      pending->fetch_add(1, std::memory_order_relaxed); } break;
    case 8: if (f && f->is_open()) { std::string b = r.bytes(r.range(1, 200)); auto fu = f->async_write_some_at(r.below(4000), asio::buffer(b), asio::as_tuple(asio::use_future)); auto [e, n] = fu.get(); add(e.value()); add(n); pending->fetch_add(1, std::memory_order_relaxed); } break;
    case 9: { auto k = asioext::duplicate(asioext::file_handle(0), ec); u = asioext::unique_file_handle(); (void)k; asioext::file_handle q = asioext::open(p.c_str(), asioext::open_args(OF::access_read | OF::open_existing), ec).release(); add(!!ec); u.reset(q, ec); std::string b(20, 0); add(u.read_some(asio::buffer(b), ec)); add(vh::hash_str(b)); if (k.is_open()) { k.close(ec); } break; }
    case 10: { std::string b = "http://user@host" + std::to_string(r.below(1000)) + ":80/path?q#f"; if (r.chance(30)) b[r.below(b.size())] = (char)r.next(); asioext::url_view v(b, ec); add(ec.value()); add(vh::hash_str(ec.message())); break; }
    case 11: { const std::string b = r.bytes(r.below(300)); lb.append(b.data(), b.size()); if (lb.size() > 1000) lb.erase(0, 500); add(lb.size()); add(vh::hash_bytes(lb.data(), lb.size())); break; }
    case 12: { // error categories and their messages, created on first use
      const auto& c1 = asioext::socks::get_error_category(); const auto& c2 = asioext::url_error_category();
      add(vh::hash_str(c1.name())); add(vh::hash_str(c2.name())); for (int v = 0; v < 12; ++v) { add(vh::hash_str(c1.message(v))); add(vh::hash_str(c2.message(v))); } break; }
    default: { asioext::cancellation_token t(src); add(t.cancelled()); src.cancel(); add(t.cancelled()); std::string w = r.bytes(100); asioext::write_file((p + "w").c_str(), asio::buffer(w), ec); add(ec.value()); std::string q; asioext::read_file((p + "w").c_str(), q, ec); add(q == w); break; }
    }
  }
  f.reset();
  { std::string d; sys::raw::get(p, d); add(vh::hash_str(d)); }
  ::unlink(p.c_str()); ::unlink((p + "w").c_str());
  return h;
}
}

VH_GROUP(threads)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    hk::jitter.store(10);
    std::atomic<uint64_t> async_ops{0};
    const int n = (int)r.range(2, 6), nio = (int)r.range(1, 2);
    std::vector<uint64_t> seeds, got(n), want(n);
    for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    const std::string dir = vh::scratch();
    {
      asio::io_context io, io2;
      auto g = asio::make_work_guard(io), g2 = asio::make_work_guard(io2);
      std::vector<std::thread> run, th;
      for (int i = 0; i < nio; ++i) { run.emplace_back([&] { io.run(); }); run.emplace_back([&] { io2.run(); }); }
      std::barrier start(n);
      for (int i = 0; i < n; ++i) th.emplace_back([&, i] { start.arrive_and_wait(); got[i] = thread_work(io, io2, seeds[i], dir, false, &async_ops); });
      for (auto& t : th) t.join();
      g.reset(); g2.reset();
      for (auto& t : run) t.join();
    }
    for (int i = 0; i < n; ++i) {
      asio::io_context io, io2;
      auto g = asio::make_work_guard(io), g2 = asio::make_work_guard(io2);
      std::thread t([&] { io.run(); }), t2([&] { io2.run(); });
      want[i] = thread_work(io, io2, seeds[i], dir, true, &async_ops);
      g.reset(); g2.reset(); t.join(); t2.join();
      VH_CHECK(got[i] == want[i], "interference", "thread with seed ", seeds[i]);
    }
    vh::count("threads", n); vh::count("async-operations", async_ops.load());
    vh::distinct(vh::hash_bytes(got.data(), got.size() * 8));
    hk::jitter.store(0);
  });
  vh::sample("2-6 threads on one context and service: files created, moved, reopened, read and written (a)synchronously, handles, URLs, buffers, tokens, error categories; digests compared with solo runs");
}

VH_MAIN
