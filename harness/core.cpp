// C18 cancellation tokens, C19 composed operations and bound handlers, C20 unique handlers.
#include "common.hpp"
#include <memory_resource>
#include <asio.hpp>
#include <asioext/bind_handler.hpp>
#include <asioext/cancellation_token.hpp>
#include <asioext/compose.hpp>
#include <asioext/error_code.hpp>
#include <asioext/exception.hpp>
#include <asioext/unique_handler.hpp>
#include <asioext/work.hpp>
#include <atomic>
#include <barrier>
#include <deque>
#include <memory>
#include <optional>
#include <thread>

using vh::Rng;
using vh::cat;
using asioext::cancellation_token;
using asioext::cancellation_token_source;

// ------------------------------------------------------------------ C18
VH_GROUP(tokens)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    const int NS = 3;
    // generation -1: destroyed. A token is cancelled iff no source holds its generation.
    std::optional<cancellation_token_source> src[NS];
    int gen[NS];
    int next = 0;
    std::vector<std::pair<cancellation_token, int>> tok;
    std::string hist;
    auto held = [&](int g) { for (int i = 0; i < NS; ++i) if (src[i] && gen[i] == g && g >= 0) return true; return false; };
    const int steps = (int)r.range(8, 50);
    for (int s = 0; s < steps; ++s) {
      const int i = (int)r.below(NS), j = (int)r.below(NS);
      std::string d;
      switch (r.below(12)) {
      case 0: if (src[i]) continue; src[i].emplace(); gen[i] = next++; d = cat("new s", i); break;
      case 1: case 2: if (!src[i]) continue; d = cat("s", i, ".cancel"); src[i]->cancel(); if (gen[i] >= 0) gen[i] = next++; else vh::count("cancel-destroyed"); vh::count("cancels"); break;
      case 3: if (!src[i]) continue; d = cat("s", i, ".destroy"); src[i]->destroy(); gen[i] = -1; vh::count("destroys"); break;
      case 4: if (!src[i]) continue; d = cat("s", i, ".reset"); if (gen[i] < 0) { gen[i] = next++; vh::count("resets-after-destroy"); } src[i]->reset(); break;
      case 5: if (!src[i] || i == j) continue; d = cat("s", j, "(move s", i, ")"); src[j].reset(); src[j].emplace(std::move(*src[i])); gen[j] = gen[i]; gen[i] = -1; vh::count("moves"); break;
      case 6: if (!src[i] || !src[j]) continue; d = cat("s", j, "=move s", i);
        { auto& alias = *src[i]; *src[j] = std::move(alias); }
        if (i != j) { gen[j] = gen[i]; gen[i] = -1; vh::count("moves"); } else { d += "(self)"; src[j]->destroy(); gen[j] = -1; } // self-move: unspecified state
        break;
      case 7: if (!src[i]) continue; d = cat("~s", i); src[i].reset(); gen[i] = -1; break;
      case 8: case 9: if (!src[i]) continue; d = cat("t", tok.size(), "=s", i); tok.emplace_back(cancellation_token(*src[i]), gen[i]); vh::count("tokens"); break;
      case 10: { if (tok.empty()) continue; const std::size_t k = r.below(tok.size()); d = cat("copy t", k); auto c = tok[k]; tok.push_back(c); break; }
      default: { if (tok.size() < 2) continue; const std::size_t a = r.below(tok.size()), b = r.below(tok.size()); d = cat("t", a, "=t", b);
        if (r.chance(50) || a == b) { tok[a].first = tok[b].first; tok[a].second = tok[b].second; }
        else { tok[a].first = std::move(tok[b].first); tok[a].second = tok[b].second; tok.erase(tok.begin() + b); d += "(move)"; }
        break; }
      }
      hist += "; " + d;
      vh::current(hist);
      for (std::size_t k = 0; k < tok.size(); ++k) {
        const bool want = !held(tok[k].second), got = tok[k].first.cancelled();
        if (want != got) { vh::violation(want ? "not-cancelled" : "spuriously-cancelled", cat(hist, ": token ", k, " of generation ", tok[k].second)); return; }
        vh::count(want ? "observed-cancelled" : "observed-live");
      }
    }
    vh::distinct(vh::hash_str(hist));
    static int shown = 0;
    if (shown++ < 2) vh::sample(hist);
  });
}

VH_GROUP(tokens_mt)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    const int rounds = 12, nobs = 1 + (int)r.below(4);
    const unsigned how0 = (unsigned)r.below(1000);
    struct Round { std::atomic<int> started{0}, done{0}; };
    std::vector<Round> rd(rounds);
    auto src = std::make_unique<cancellation_token_source>();
    std::vector<std::vector<cancellation_token>> tok(nobs);
    std::atomic<int> issued{0};
    std::mutex m; // the source itself is used by one thread at a time; tokens are handed over under the lock
    std::vector<std::vector<cancellation_token>> handed(rounds);
    // One object per round that all observers use at once (cancelled() and copying are const operations).
    std::vector<std::unique_ptr<const cancellation_token>> shared(rounds);
    std::atomic<bool> stop{false};
    std::atomic<uint64_t> before{0}, after{0}, during{0};
    std::vector<std::thread> th;
    std::barrier start(nobs + 1);
    for (int o = 0; o < nobs; ++o)
      th.emplace_back([&, o] {
        start.arrive_and_wait();
        std::vector<cancellation_token> mine;
        std::vector<bool> was;
        for (;;) {
          const bool last = stop.load(std::memory_order_acquire);
          { std::lock_guard<std::mutex> l(m); for (int k = (int)mine.size(); k < rounds && !handed[k].empty(); ++k) { mine.push_back(handed[k][o]); was.push_back(false); } }
          for (std::size_t k = 0; k < mine.size(); ++k) {
            cancellation_token copy(mine[k]);
            const bool must = rd[k].done.load(std::memory_order_acquire);
            bool got;
            switch ((how0 + o + k) % 3) {
            case 0: got = copy.cancelled(); break;
            case 1: got = shared[k]->cancelled(); break;
            default: { cancellation_token c2(*shared[k]); got = c2.cancelled(); break; }
            }
            const bool may = rd[k].started.load(std::memory_order_acquire);
            if (got && !may) vh::violation("spuriously-cancelled", cat("round ", k, " observer ", o));
            if (!got && must) vh::violation("not-cancelled", cat("round ", k, " observer ", o));
            if (was[k] && !got) vh::violation("cancellation-undone", cat("round ", k));
            was[k] = got;
            (must ? after : may ? during : before).fetch_add(1, std::memory_order_relaxed);
          }
          if (last) break;
          std::this_thread::yield();
        }
      });
    start.arrive_and_wait();
    for (int k = 0; k < rounds; ++k) {
      { std::lock_guard<std::mutex> l(m); for (int o = 0; o < nobs; ++o) handed[k].emplace_back(*src); shared[k] = std::make_unique<const cancellation_token>(*src); }
      for (unsigned y = 0; y < (how0 + k) % 5; ++y) std::this_thread::yield();
      rd[k].started.store(1, std::memory_order_release);
      switch ((how0 >> (k % 8)) % 4) {
      case 0: case 1: src->cancel(); break;
      case 2: src->destroy(); src->reset(); break;
      default: { auto n = std::make_unique<cancellation_token_source>(std::move(*src)); src = std::move(n); src->cancel(); break; }
      }
      rd[k].done.store(1, std::memory_order_release);
    }
    const bool kill = r.chance(50);
    if (kill) src.reset();
    stop.store(true, std::memory_order_release);
    for (auto& t : th) t.join();
    vh::count("observed-before-cancel", before); vh::count("observed-during-cancel", during); vh::count("observed-after-cancel", after);
    vh::distinct(vh::mix(before * 1000003 + during * 7919 + after));
  });
  vh::sample("one cancelling thread, 1-4 observing threads copying and polling tokens of every round, their own ones and one that all share");
}

// ------------------------------------------------------------------ tracing executor and allocator
namespace {
struct TraceCtx : asio::execution_context
{
  std::deque<std::function<void()>> q;
  long work = 0, posts = 0, dispatches = 0, defers = 0, negative = 0;
  int running = 0;
  bool step()
  {
    if (q.empty()) return false;
    auto f = std::move(q.front());
    q.pop_front();
    ++running; f(); --running;
    return true;
  }
  ~TraceCtx() { q.clear(); }
};
struct TraceEx
{
  TraceCtx* c = nullptr;
  int id = 0;
  TraceCtx& context() const noexcept { return *c; }
  void on_work_started() const noexcept { ++c->work; }
  void on_work_finished() const noexcept { if (--c->work < 0) ++c->negative; }
  template <class F, class A> void put(F&& f, const A& a) const
  {
    typedef std::decay_t<F> D;
    // the function is kept in memory of the given allocator, released before it is called
    struct Node { D f; };
    typedef typename std::allocator_traits<A>::template rebind_alloc<Node> NA;
    NA na(a);
    Node* n = std::allocator_traits<NA>::allocate(na, 1);
    ::new (static_cast<void*>(n)) Node{std::forward<F>(f)};
    struct Hold { Node* n; NA na; ~Hold() { if (n) { n->~Node(); std::allocator_traits<NA>::deallocate(na, n, 1); } } };
    auto h = std::make_shared<Hold>(Hold{nullptr, na});
    h->n = n;
    c->q.push_back([h] { D f(std::move(h->n->f)); h->n->~Node(); std::allocator_traits<NA>::deallocate(h->na, h->n, 1); h->n = nullptr; f(); });
  }
  template <class F, class A> void post(F&& f, const A& a) const { ++c->posts; put(std::forward<F>(f), a); }
  template <class F, class A> void defer(F&& f, const A& a) const { ++c->defers; put(std::forward<F>(f), a); }
  template <class F, class A> void dispatch(F&& f, const A& a) const
  { ++c->dispatches; if (c->running) { std::decay_t<F> g(std::forward<F>(f)); g(); } else put(std::forward<F>(f), a); }
  bool operator==(const TraceEx& o) const noexcept { return c == o.c && id == o.id; }
  bool operator!=(const TraceEx& o) const noexcept { return !(*this == o); }
};

struct AllocLedger { std::map<void*, std::size_t> live; uint64_t allocs = 0; int fail_in = -1; std::string trouble; };
template <class T> struct LedgerAlloc
{
  typedef T value_type;
  AllocLedger* l;
  explicit LedgerAlloc(AllocLedger* x) : l(x) {}
  template <class U> LedgerAlloc(const LedgerAlloc<U>& o) noexcept : l(o.l) {}
  T* allocate(std::size_t n)
  {
    if (l->fail_in >= 0 && l->fail_in-- == 0) throw std::bad_alloc();
    void* p = ::operator new(n * sizeof(T));
    l->live[p] = n * sizeof(T); ++l->allocs;
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n)
  {
    auto it = l->live.find(p);
    if (it == l->live.end()) { l->trouble += "deallocating foreign memory; "; return; }
    if (it->second != n * sizeof(T)) l->trouble += "wrong size; ";
    l->live.erase(it);
    ::operator delete(p);
  }
  template <class U> bool operator==(const LedgerAlloc<U>& o) const noexcept { return l == o.l; }
  template <class U> bool operator!=(const LedgerAlloc<U>& o) const noexcept { return l != o.l; }
};
template <> struct LedgerAlloc<void>
{
  typedef void value_type;
  AllocLedger* l;
  explicit LedgerAlloc(AllocLedger* x) : l(x) {}
  template <class U> LedgerAlloc(const LedgerAlloc<U>& o) noexcept : l(o.l) {}
  template <class U> struct rebind { typedef LedgerAlloc<U> other; };
  template <class U> bool operator==(const LedgerAlloc<U>& o) const noexcept { return l == o.l; }
  template <class U> bool operator!=(const LedgerAlloc<U>& o) const noexcept { return l != o.l; }
};
}

// ------------------------------------------------------------------ C19
namespace {
struct Run
{
  TraceCtx handler_ctx, io1, io2;
  AllocLedger mem;
  int called = 0;
  int intermediate = 0;
  bool cont = false;
  bool check_mem = true;
  long work1_at_call = -1, work2_at_call = -1;
  int steps = 0, final_kind = 0, path = 0;
  int a = 0; std::string b;
  std::string what;
  int live_handlers = 0;
  bool lvalue = false;
};

// the user's handler: executor, allocator and continuation hints of its own
struct Final
{
  typedef TraceEx executor_type;
  typedef LedgerAlloc<void> allocator_type;
  Run* r;
  std::unique_ptr<int> state; // moved-from handlers are useless
  explicit Final(Run* x) : r(x), state(new int(42)) { ++r->live_handlers; }
  Final(Final&& o) : r(o.r), state(std::move(o.state)) { ++r->live_handlers; }
  Final(const Final& o) : r(o.r), state(o.state ? new int(*o.state) : nullptr) { ++r->live_handlers; }
  ~Final() { --r->live_handlers; }
  executor_type get_executor() const noexcept { return TraceEx{&r->handler_ctx, 7}; }
  allocator_type get_allocator() const noexcept { return allocator_type(&r->mem); }
  void operator()(int a, const std::string& b)
  {
    ++r->called;
    VH_CHECK(state && *state == 42, "moved-from-handler", r->what);
    VH_CHECK(a == r->a && b == r->b, "wrong-arguments", r->what, " got ", a, ",", b, " want ", r->a, ",", r->b);
    r->work1_at_call = r->io1.work; r->work2_at_call = r->io2.work;
    if (r->check_mem) VH_CHECK(r->mem.live.empty(), "memory-held-at-call", r->what, " ", r->mem.live.size(), " blocks");
  }
  friend bool asio_handler_is_continuation(Final* f) { return f->r->cont; }
};
}

namespace {
// intermediate step: re-posts itself bound to its step number
struct Op
{
  Run* r;
  int left;
  int count = 0;
  Op(Run* x, int n) : r(x), left(n) {}
  template <class Self> void operator()(Self& self, int got = 0)
  {
    ++count;
    VH_CHECK(got == count - 1, "wrong-step-argument", r->what, " got ", got, " want ", count - 1);
    if (count > 1) { ++r->intermediate; VH_CHECK(r->handler_ctx.running > 0, "wrong-executor", r->what, " step ", count); }
    VH_CHECK((asio::get_associated_executor(self) == TraceEx{&r->handler_ctx, 7}), "wrong-associated-executor", r->what);
    VH_CHECK(asio::get_associated_allocator(self).l == &r->mem, "wrong-associated-allocator", r->what);
    const bool c = asio_handler_cont_helpers::is_continuation(self);
    VH_CHECK(c == (count > 1 || r->cont), "wrong-continuation-hint", r->what, " step ", count, " says ", c);
    VH_CHECK(r->called == 0, "called-early", r->what);
    VH_CHECK(r->path == 0 || r->io1.work > 0, "work-missing-during-operation", r->what, " step ", count);
    VH_CHECK(r->path < 2 || r->io2.work > 0, "work-missing-during-operation", r->what, " step ", count);
    Run* const rr = r;
    if (left-- > 0) {
      const int n = count;
      auto b = asioext::bind_handler(std::move(self), n);
      VH_CHECK((asio::get_associated_executor(b) == TraceEx{&rr->handler_ctx, 7}), "bound-executor", rr->what);
      VH_CHECK(asio::get_associated_allocator(b).l == &rr->mem, "bound-allocator", rr->what);
      VH_CHECK(asio_handler_cont_helpers::is_continuation(b) == (n > 1 || rr->cont), "bound-continuation", rr->what);
      const TraceEx ex{&rr->handler_ctx, 7};
      switch ((rr->steps + n) % 3) {
      case 0: asio::post(ex, std::move(b)); break;
      case 1: asio::defer(ex, std::move(b)); break;
      default: asio::post(std::move(b)); break; // associated executor
      }
      return;
    }
    switch (r->final_kind) {
    case 0: r->check_mem = count > 1; self.complete(r->a, r->b); VH_CHECK(rr->called == 1, "not-called", rr->what); break;
    default: {
      auto b = self.complete_to_bound_handler(rr->a, rr->b);
      VH_CHECK((asio::get_associated_executor(b) == TraceEx{&rr->handler_ctx, 7}), "bound-executor", rr->what);
      VH_CHECK(asio::get_associated_allocator(b).l == &rr->mem, "bound-allocator", rr->what);
      VH_CHECK(asio_handler_cont_helpers::is_continuation(b) == rr->cont, "bound-continuation", rr->what);
      if (rr->final_kind == 1) asio::post(TraceEx{&rr->handler_ctx, 7}, std::move(b));
      else if (rr->final_kind == 2) asio::post(std::move(b));
      else if (rr->final_kind == 3) asio::dispatch(TraceEx{&rr->handler_ctx, 7}, std::move(b));
      else { auto b2 = std::move(b); b2(); }
      VH_CHECK(rr->called <= 1, "called-twice", rr->what);
      break; }
    }
  }
};

struct Init
{
  Run* r;
  template <class H> void operator()(H&& h) const
  {
    const TraceEx e1{&r->io1, 1}, e2{&r->io2, 2};
    if (r->path == 0) { auto op = asioext::make_composed_operation(Op(r, r->steps), std::forward<H>(h)); op(); }
    else if (r->path == 1) { auto op = asioext::make_composed_operation(Op(r, r->steps), std::forward<H>(h), e1); op(); }
    else { auto op = asioext::make_composed_operation(Op(r, r->steps), std::forward<H>(h), e1, e2); op(); }
  }
};
}

VH_GROUP(compose)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    auto run = std::make_unique<Run>();
    run->steps = (int)r.below(6);
    run->final_kind = (int)r.below(5);
    run->path = (int)r.below(3);
    run->cont = r.chance(50);
    run->a = (int)r.next(); run->b = r.bytes(r.below(40));
    const bool abandon = r.chance(15);
    run->lvalue = r.chance(40);
    run->what = cat("steps ", run->steps, " final ", run->final_kind, " executors ", run->path, run->cont ? " continuation" : "", abandon ? " abandoned" : "", run->lvalue ? " lvalue" : "");
    vh::current(run->what);
    {
      Final f(run.get());
      if (run->lvalue) {
        // an lvalue handler is copied: the caller's stays usable
        asioext::async_initiate<Final&, void(int, std::string)>(Init{run.get()}, f);
        VH_CHECK(f.state && *f.state == 42, "lvalue-handler-moved-from", run->what);
        vh::count("lvalue-handlers");
      } else {
        asioext::async_initiate<Final, void(int, std::string)>(Init{run.get()}, f);
      }
    }
    // an immediate completion ran outside of any allocation; anything else waits for the executor
    const bool immediate = run->steps == 0 && (run->final_kind == 0 || run->final_kind == 4);
    VH_CHECK(run->called == (immediate ? 1 : 0), "called-in-initiation", run->what);
    if (!immediate) {
      VH_CHECK(run->path < 1 || run->io1.work > 0, "work-missing", run->what);
      VH_CHECK(run->path < 2 || run->io2.work > 0, "work-missing", run->what);
    }
    if (abandon && !immediate) {
      int k = (int)r.below(run->steps + 1);
      while (k-- > 0 && run->handler_ctx.step()) {}
      run->handler_ctx.q.clear();
      VH_CHECK(run->called <= 1, "called-twice", run->what);
      vh::count("abandoned");
    } else {
      int guard = 0;
      while (run->handler_ctx.step() && ++guard < 1000) VH_CHECK(run->called <= 1, "called-twice", run->what);
      VH_CHECK(run->called == 1, "not-called", run->what, " called ", run->called);
      VH_CHECK(run->intermediate == run->steps, "wrong-step-count", run->what, " ", run->intermediate);
      if (run->path >= 1) VH_CHECK(run->work1_at_call > 0, "work-released-before-handler", run->what);
      if (run->path >= 2) VH_CHECK(run->work2_at_call > 0, "work-released-before-handler", run->what);
      vh::count("completed");
    }
    VH_CHECK(run->io1.work == 0 && run->io2.work == 0 && run->handler_ctx.work == 0, "work-leaked", run->what, " ", run->io1.work, " ", run->io2.work, " ", run->handler_ctx.work);
    VH_CHECK(run->io1.negative == 0 && run->io2.negative == 0 && run->handler_ctx.negative == 0, "work-released-twice", run->what);
    VH_CHECK(run->live_handlers == 0, "handler-leaked", run->what, " ", run->live_handlers);
    VH_CHECK(run->mem.live.empty() && run->mem.trouble.empty(), "memory-leaked", run->what, " ", run->mem.trouble);
    if (run->steps > 0 || (run->final_kind >= 1 && run->final_kind <= 3)) VH_CHECK(run->mem.allocs > 0, "allocator-not-used", run->what);
    vh::count("steps", run->intermediate);
    vh::distinct(vh::hash_str(cat(run->what, run->b.size())));
    static int shown = 0;
    if (shown++ < 3) vh::sample(run->what);
  });
}

// bound handlers and work tuples on their own
namespace {
struct Arg
{
  int v; int* copies; bool moved = false;
  Arg(int x, int* c) : v(x), copies(c) {}
  Arg(const Arg& o) : v(o.v), copies(o.copies) { ++*copies; }
  Arg(Arg&& o) noexcept : v(o.v), copies(o.copies) { o.moved = true; o.v = -1; }
};
struct Assoc { typedef TraceEx executor_type; TraceEx e; executor_type get_executor() const noexcept { return e; } template <class... A> void operator()(A&&...) {} };
struct Nop { template <class Self, class... A> void operator()(Self&, A&&...) {} };
struct Plain { std::function<void(const Arg&, const std::string&)> f; void operator()(const Arg& a, const std::string& s) { f(a, s); } };
}
VH_GROUP(bound)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    auto io1 = std::make_unique<TraceCtx>(), io2 = std::make_unique<TraceCtx>(), io3 = std::make_unique<TraceCtx>();
    const int n = (int)r.below(4), v = (int)r.below(1000);
    const bool thr = r.chance(25);
    const std::string s = r.bytes(r.below(30));
    int copies = 0, called = 0;
    bool work_ok = true;
    std::string what = cat("bound handler with ", n, " work guards", thr ? " throwing" : "");
    vh::current(what);
    const TraceEx e1{io1.get(), 1}, e2{io2.get(), 2}, e3{io3.get(), 3};
    Plain p{[&](const Arg& a, const std::string& x) {
      ++called;
      VH_CHECK(a.v == v && !a.moved && x == s, "wrong-arguments", what, " got ", a.v, " want ", v);
      work_ok = (n < 1 || io1->work > 0) && (n < 2 || io2->work > 0) && (n < 3 || io3->work > 0);
      if (thr) throw 5;
    }};
    auto exercise = [&](auto b) {
      VH_CHECK(n < 1 || io1->work == 1, "work-missing", what, " ", io1->work);
      VH_CHECK(n < 2 || io2->work == 1, "work-missing", what, " ", io2->work);
      VH_CHECK(n < 3 || io3->work == 1, "work-missing", what, " ", io3->work);
      // no associations of its own: the defaults apply
      VH_CHECK((asio::get_associated_executor(b, e2) == e2), "default-executor", what);
      {
      std::pmr::monotonic_buffer_resource arena;
      const std::pmr::polymorphic_allocator<char> pa(&arena);
      VH_CHECK(asio::get_associated_allocator(b, pa) == pa, "default-allocator", what);
      const Assoc as{e3};
      auto own = asioext::bind_handler(as, asioext::make_work_tuple(), 1);
      VH_CHECK((asio::get_associated_executor(own, e2) == e3), "own-executor", what);
      VH_CHECK(asio::get_associated_allocator(own, pa) == pa, "default-allocator", what);
      auto op = asioext::make_composed_operation(Nop(), p, e1);
      VH_CHECK((asio::get_associated_executor(op, e2) == e2), "default-executor", what, " composed");
      VH_CHECK(asio::get_associated_allocator(op, pa) == pa, "default-allocator", what, " composed");
      auto op2 = asioext::make_composed_operation(Nop(), as, e1);
      VH_CHECK((asio::get_associated_executor(op2, e2) == e3), "own-executor", what, " composed");
      VH_CHECK(asio::get_associated_allocator(op2, pa) == pa, "default-allocator", what, " composed");
      auto nested = asioext::make_composed_operation(Nop(), asioext::bind_handler(as, 2), e1);
      VH_CHECK((asio::get_associated_executor(nested, e2) == e3), "own-executor", what, " nested");
      VH_CHECK(asio::get_associated_allocator(nested, pa) == pa, "default-allocator", what, " nested");
      }
      vh::count("fallback-associations");
      if (r.chance(20)) return; // destroyed uninvoked
      auto m = std::move(b);
      bool caught = false;
      try { m(); } catch (int) { caught = true; }
      VH_CHECK(called == 1 && caught == thr, "call-count", what, " ", called);
      VH_CHECK(work_ok, "work-released-before-handler", what);
      if (!thr) VH_CHECK(io1->work == 0 && io2->work == 0 && io3->work == 0, "work-kept-after-handler", what);
      vh::count(thr ? "throwing" : "invoked");
    };
    Arg arg(v, &copies);
    const bool lv = r.chance(50);
    auto make = [&](auto&& w) {
      if (lv) { auto b = asioext::bind_handler(p, std::move(w), arg, s); VH_CHECK(!arg.moved && p.f, "lvalue-moved-from", what); return b; }
      return asioext::bind_handler(std::move(p), std::move(w), std::move(arg), std::string(s));
    };
    switch (n) {
    case 0: if (lv) { auto b = asioext::bind_handler(p, arg, s); VH_CHECK(!arg.moved && p.f, "lvalue-moved-from", what); exercise(std::move(b)); } else exercise(asioext::bind_handler(std::move(p), std::move(arg), std::string(s))); break;
    case 1: exercise(make(asioext::make_work_tuple(e1))); break;
    case 2: exercise(make(asioext::make_work_tuple(e1, e2))); break;
    default: exercise(make(asioext::make_work_tuple(e1, e2, e3))); break;
    }
    VH_CHECK(io1->work == 0 && io2->work == 0 && io3->work == 0, "work-leaked", what);
    VH_CHECK(io1->negative == 0 && io2->negative == 0 && io3->negative == 0, "work-released-twice", what);
    VH_CHECK(copies <= (lv ? 1 : 0), "argument-copied", what, " ", copies);
    vh::distinct(vh::hash_str(cat(what, v, lv)));
  });
  vh::sample("bind_handler with 0-3 work guards: arguments, associations, work counts before, during and after the call");
}

// completion tokens on real contexts
namespace {
struct ThreadOp
{
  asio::thread_pool* pool;
  int hops, value;
  asio::io_context* io;
  template <class Self> void operator()(Self& self)
  {
    if (hops-- > 0) { auto* p = pool; asio::post(asio::bind_executor(p->get_executor(), [s = std::move(self)]() mutable { s(); })); return; }
    auto ex = asio::get_associated_executor(self, io->get_executor());
    const int v = value;
    asio::post(ex, self.complete_to_bound_handler(asioext::error_code(), v));
  }
};
struct ThreadInit
{
  asio::thread_pool* pool; int hops, value; asio::io_context* io;
  template <class H> void operator()(H&& h) const
  {
    auto ex = asio::get_associated_executor(h, io->get_executor());
    auto op = asioext::make_composed_operation(ThreadOp{pool, hops, value, io}, std::forward<H>(h), ex);
    op();
  }
};
template <class T> auto start(asio::io_context& io, asio::thread_pool& pool, int hops, int v, T&& t)
{ return asioext::async_initiate<T, void(asioext::error_code, int)>(ThreadInit{&pool, hops, v, &io}, t); }
}
VH_GROUP(compose_mt)
{
  asio::thread_pool pool(3);
  vh::run_cases([&](Rng& r, uint64_t) {
    asio::io_context io;
    const int n = (int)r.range(1, 20), nt = (int)r.range(1, 3);
    auto strand = asio::make_strand(io);
    std::vector<std::atomic<int>> got(n);
    std::vector<std::future<int>> futs;
    std::vector<int> fidx;
    int in_strand_seen = 0;
    std::atomic<int> wrong{0};
    std::string what;
    std::vector<int> kinds;
    for (int i = 0; i < n; ++i) {
      const int hops = (int)r.below(4), k = (int)r.below(4), v = 1000 + i;
      kinds.push_back(k);
      what += cat(k, ":", hops, " ");
      switch (k) {
      case 0: start(io, pool, hops, v, [&, i, v](asioext::error_code ec, int x) { if (ec || x != v || !io.get_executor().running_in_this_thread()) ++wrong; ++got[i]; }); break;
      case 1: start(io, pool, hops, v, asio::bind_executor(strand, [&, i, v](asioext::error_code ec, int x) { if (ec || x != v || !strand.running_in_this_thread()) ++wrong; ++in_strand_seen; ++got[i]; })); break;
      case 2: fidx.push_back(i); futs.push_back(start(io, pool, hops, v, asio::use_future)); break;
      default: asio::co_spawn(io, [&, i, v, hops]() -> asio::awaitable<void> { const int x = co_await start(io, pool, hops, v, asio::use_awaitable); if (x != v) ++wrong; ++got[i]; }, asio::detached); break;
      }
    }
    vh::current(what);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back([&] { io.run(); });
    for (std::size_t k = 0; k < futs.size(); ++k) { if (futs[k].wait_for(std::chrono::seconds(20)) != std::future_status::ready) vh::violation("never-completed", what); else { if (futs[k].get() != 1000 + fidx[k]) ++wrong; ++got[fidx[k]]; } }
    for (auto& t : th) t.join();
    { // every pool thread is past whatever it was doing (asio signals its condition variables after unlocking)
      auto fence = std::make_shared<std::barrier<>>(4);
      for (int k = 0; k < 3; ++k) asio::post(pool, [fence] { fence->arrive_and_wait(); });
      fence->arrive_and_wait();
    }
    // run() returned: the outstanding work of every operation kept it alive until its handler ran
    int strands = 0;
    for (int i = 0; i < n; ++i) { VH_CHECK(got[i] == 1, got[i] ? "called-twice" : "never-completed", what, " operation ", i, " ", got[i].load()); strands += kinds[i] == 1; }
    VH_CHECK(wrong == 0, "wrong-executor-or-result", what);
    VH_CHECK(in_strand_seen == strands, "never-completed", what);
    vh::count("mt-operations", n);
    vh::distinct(vh::hash_str(cat(what, nt)));
  });
  pool.join();
  vh::sample("callbacks, strand-bound callbacks, futures and coroutines completing from a three-thread pool");
}

// ------------------------------------------------------------------ C20
namespace {
struct Life { int live = 0, calls = 0, destroyed_after_call = 0; };
struct UWorld
{
  AllocLedger mem;
  int live = 0;
  std::map<int, int> calls; // per callable identity
  std::map<int, int> owners; // live objects still holding the identity
  int move_fail_in = -1;
  std::string hist;
  int expect_a = 0; std::string expect_b;
  std::function<void()> during; // re-entrant action
  std::function<void()> on_destroy;
};
struct move_failure {};

template <bool WithAlloc, std::size_t Pad, std::size_t Align = alignof(void*)> struct alignas(Align) Callable
{
  UWorld* w;
  int id;
  char pad[Pad];
  explicit Callable(UWorld* x, int i) : w(x), id(i) { ++w->live; ++w->owners[id]; }
  Callable(Callable&& o) : w(o.w), id(o.id)
  {
    if (id >= 0 && w->move_fail_in >= 0 && w->move_fail_in-- == 0) throw move_failure();
    o.id = -1; ++w->live;
  }
  Callable(const Callable& o) : w(o.w), id(o.id) { ++w->live; if (id >= 0) { ++w->owners[id]; vh::violation("callable-copied", w->hist); } }
  ~Callable() { --w->live; if (id >= 0) { --w->owners[id]; if (w->on_destroy) { auto f = std::move(w->on_destroy); w->on_destroy = nullptr; f(); } } }
  typedef std::conditional_t<WithAlloc, LedgerAlloc<void>, std::allocator<void>> allocator_type;
  allocator_type get_allocator() const noexcept { if constexpr (WithAlloc) return allocator_type(&w->mem); else return allocator_type(); }
  void operator()(int a, std::string b)
  {
    if (id < 0) { vh::violation("moved-from-called", w->hist); return; }
    ++w->calls[id];
    VH_CHECK(reinterpret_cast<std::uintptr_t>(this) % Align == 0, "misaligned-callable", w->hist);
    VH_CHECK(a == w->expect_a && b == w->expect_b, "wrong-arguments", w->hist, " got ", a, " want ", w->expect_a);
    if (w->during) { auto f = std::move(w->during); w->during = nullptr; f(); }
  }
};
int free_called = 0;
void free_function(int, std::string) { ++free_called; }
}

VH_GROUP(unique)
{
  typedef asioext::unique_handler<void(int, std::string)> UH;
  typedef Callable<true, 8> C0;
  typedef Callable<true, 300> C1;
  typedef Callable<false, 40> C2;
  typedef Callable<false, 24, 128> C3; // over-aligned
  vh::run_cases([&](Rng& r, uint64_t) {
    auto w = std::make_unique<UWorld>();
    const int N = 4;
    int next = 0;
    {
      std::optional<UH> h[N];
      int m[N]; // identity held, -1 empty
      for (int i = 0; i < N; ++i) { h[i].emplace(); m[i] = -1; }
      std::size_t blocks[N] = {0}; // ledger blocks each handler accounts for
      const bool faults = r.chance(40);
      const int steps = (int)r.range(6, 40);
      for (int s = 0; s < steps; ++s) {
        const int i = (int)r.below(N), j = (int)r.below(N), type = (int)r.below(4);
        w->mem.fail_in = faults && r.chance(15) ? 0 : -1;
        w->move_fail_in = -1;
        const bool mvfail = faults && w->mem.fail_in < 0 && r.chance(12);
        std::string d;
        auto gone = [&](int id) { if (id >= 0) VH_CHECK(w->owners[id] == 0, "not-destroyed", w->hist, " callable ", id); };
        auto store = [&](auto tag, int how) {
          typedef typename decltype(tag)::type C;
          const int id = next++;
          const int old = m[i];
          const bool ledger = std::is_same_v<C, C0> || std::is_same_v<C, C1>;
          bool failed = false;
          {
            C c(w.get(), id);
            if (mvfail) w->move_fail_in = 0; // the move into the storage fails
            try {
              if (how == 0) { *h[i] = std::move(c); }
              else if (how == 1) { *h[i] = c; } // documented to move as well
              else { UH n(std::move(c)); w->move_fail_in = -1; *h[i] = std::move(n); }
              m[i] = id; blocks[i] = ledger ? 1 : 0;
            } catch (const std::bad_alloc&) { failed = true; vh::count("allocation-failures"); }
            catch (const move_failure&) { failed = true; vh::count("move-failures"); }
            w->move_fail_in = -1;
            if (failed) {
              // the target holds its old callable or nothing
              if (!*h[i]) { m[i] = -1; blocks[i] = 0; }
              VH_CHECK(!*h[i] || old >= 0, "dangling-state", w->hist);
            }
          }
          if (!failed) { gone(old); VH_CHECK(w->owners[id] == 1, "stored-twice-or-lost", w->hist, " callable ", id, " owners ", w->owners[id]); VH_CHECK(!!*h[i], "empty-after-store", w->hist); }
          else { VH_CHECK(w->owners[id] == 0, "leaked-after-failure", w->hist); if (m[i] < 0) gone(old); }
        };
        switch (r.below(14)) {
        case 12: { // the handler is destroyed, or throws, from inside its own call
          w->mem.fail_in = -1;
          d = cat("owner of a handler"); w->hist += "; " + d; vh::current(w->hist);
          const int id = next++;
          auto own = std::make_unique<UH>(C0(w.get(), id));
          const int how = (int)r.below(4);
          w->expect_a = (int)r.next(); w->expect_b = r.bytes(r.below(30));
          bool ran = false;
          w->during = [&] {
            ran = true;
            if (how & 1) own.reset();
            if (how & 2) throw move_failure();
          };
          bool thrown = false;
          try { own->complete(w->expect_a, w->expect_b); } catch (const move_failure&) { thrown = true; }
          VH_CHECK(ran && w->calls[id] == 1, "call-count", w->hist);
          VH_CHECK(thrown == !!(how & 2), "exception-lost", w->hist);
          if (own) {
            VH_CHECK(!*own, "not-empty-after-call", w->hist);
            bool bad = false;
            try { own->complete(1, "x"); } catch (const asioext::bad_function_call&) { bad = true; }
            VH_CHECK(bad && w->calls[id] == 1, "called-twice", w->hist);
          }
          gone(id);
          vh::count(how & 2 ? "throwing-calls" : "destroyed-in-call");
          break; }
        case 13: { // chains: a callable that holds the next handler
          w->mem.fail_in = -1;
          d = cat("chain"); w->hist += "; " + d; vh::current(w->hist);
          struct Link
          {
            C0 c; std::unique_ptr<UH> next; UH** where; std::vector<int>* order; int id;
            typedef C0::allocator_type allocator_type;
            allocator_type get_allocator() const noexcept { return c.get_allocator(); }
            void operator()(int a, std::string b) { order->push_back(id); UH n; if (next) n = std::move(*next); next.reset(); if (n) n.complete(a, b); }
          };
          const int len = (int)r.range(2, 6), how = (int)r.below(3);
          std::vector<int> ids, order; std::vector<UH*> inner;
          UH head;
          for (int k = 0; k < len; ++k) {
            ids.push_back(next++);
            auto rest = std::make_unique<UH>(std::move(head));
            inner.push_back(rest.get());
            head = Link{C0(w.get(), ids.back()), std::move(rest), nullptr, &order, ids.back()};
          }
          // inner[k] lives in the callable ids[k] and holds ids[k - 1]
          if (how == 0) { // every link is called, outermost first
            head.complete(1, "x");
            VH_CHECK(!head && order == std::vector<int>(ids.rbegin(), ids.rend()), "call-count", w->hist, " chain");
          } else if (how == 1) { // pop: the new target lives inside the old one
            for (int k = len - 1; k > 0; --k) {
              head = std::move(*inner[k]);
              gone(ids[k]);
              VH_CHECK(!!head && w->owners[ids[k - 1]] == 1, "stored-twice-or-lost", w->hist, " chain");
            }
            head.complete(1, "x");
            VH_CHECK(!head && order == std::vector<int>(1, ids[0]), "call-count", w->hist, " chain");
          } else { // dropped as a whole; a destructor assigns to the handler being assigned
            const int a = next++, b = next++;
            const bool re = r.chance(60);
            if (re) w->on_destroy = [&] { head = C0(w.get(), b); };
            head = C0(w.get(), a);
            for (int id : ids) gone(id);
            VH_CHECK(!!head && order.empty(), "wrong-state", w->hist, " chain");
            VH_CHECK(w->owners[a] + w->owners[b] == 1, "stored-twice-or-lost", w->hist, " chain, reassigned by a destructor");
            w->on_destroy = nullptr;
            head.reset(); gone(a); gone(b);
          }
          for (int id : ids) gone(id);
          vh::count("chains");
          break; }
        case 0: case 1: case 2: case 3: {
          const int how = (int)r.below(3);
          d = cat("h", i, "=C", type, how == 1 ? "(lvalue)" : how == 2 ? "(construct)" : "", w->mem.fail_in == 0 ? "!alloc" : "", mvfail ? "!move" : "");
          w->hist += "; " + d; vh::current(w->hist);
          if (type == 0) store(std::type_identity<C0>{}, how); else if (type == 1) store(std::type_identity<C1>{}, how); else if (type == 2) store(std::type_identity<C2>{}, how); else store(std::type_identity<C3>{}, how);
          vh::count("stores");
          break; }
        case 4: { // move assignment, also onto itself
          d = cat("h", i, "=move h", j); w->hist += "; " + d; vh::current(w->hist);
          const int old = m[i];
          UH& alias = *h[j];
          *h[i] = std::move(alias);
          if (i != j) { m[i] = m[j]; blocks[i] = blocks[j]; m[j] = -1; blocks[j] = 0; gone(old); } else vh::count("self-moves");
          vh::count("moves");
          break; }
        case 5: { // move construction
          if (i == j) continue;
          d = cat("h", j, "(move h", i, ")"); w->hist += "; " + d; vh::current(w->hist);
          const int old = m[j];
          h[j].reset(); gone(old);
          h[j].emplace(std::move(*h[i])); m[j] = m[i]; blocks[j] = blocks[i]; m[i] = -1; blocks[i] = 0;
          break; }
        case 6: { d = cat("swap h", i, " h", j); w->hist += "; " + d; vh::current(w->hist); if (i != j) { std::swap(*h[i], *h[j]); std::swap(m[i], m[j]); std::swap(blocks[i], blocks[j]); } break; }
        case 7: case 8: { // invoke
          d = cat("h", i, ".complete"); w->hist += "; " + d; vh::current(w->hist);
          w->expect_a = (int)r.next(); w->expect_b = r.bytes(r.below(30));
          const int id = m[i];
          const std::size_t others = [&] { std::size_t t = 0; for (int k = 0; k < N; ++k) if (k != i) t += blocks[k]; return t; }();
          bool re = false;
          if (id >= 0) {
            const bool restore = r.chance(30);
            w->during = [&, i, others, restore] {
              re = true;
              VH_CHECK(!*h[i], "not-empty-while-called", w->hist);
              VH_CHECK(w->mem.live.size() == others, "memory-held-at-call", w->hist, " ", w->mem.live.size(), " blocks, want ", others);
              if (restore) { w->mem.fail_in = -1; const int nid = next++; *h[i] = C0(w.get(), nid); m[i] = nid; blocks[i] = 1; vh::count("restored-inside-call"); }
              else { m[i] = -1; blocks[i] = 0; }
            };
          }
          bool bad = false;
          try { h[i]->complete(w->expect_a, w->expect_b); } catch (const asioext::bad_function_call&) { bad = true; }
          VH_CHECK(bad == (id < 0), "bad-function-call", w->hist);
          if (id >= 0) { VH_CHECK(re && w->calls[id] == 1, "call-count", w->hist, " ", w->calls[id]); gone(id); vh::count("calls"); } else vh::count("empty-calls");
          break; }
        case 9: { // reset, with a destructor that looks at the handler
          d = cat("h", i, ".reset"); w->hist += "; " + d; vh::current(w->hist);
          const int id = m[i];
          if (id >= 0) w->on_destroy = [&, i] { VH_CHECK(!*h[i], "not-empty-while-destroyed", w->hist); };
          h[i]->reset(); m[i] = -1; blocks[i] = 0; gone(id);
          w->on_destroy = nullptr;
          VH_CHECK(!*h[i], "not-empty-after-reset", w->hist);
          break; }
        case 10: { d = cat("~h", i); w->hist += "; " + d; vh::current(w->hist); const int id = m[i]; h[i].reset(); gone(id); h[i].emplace(); m[i] = -1; blocks[i] = 0; break; }
        default: { // function pointers
          d = "function pointer"; w->hist += "; " + d;
          UH f(&free_function); const int b = free_called; f.complete(1, "x"); VH_CHECK(free_called == b + 1 && !f, "call-count", w->hist);
          // references, constant references and move-only arguments
          int target = 7, seen = 0; const std::string text = r.bytes(r.below(40));
          auto box = std::make_unique<int>((int)r.next()); int* const addr = box.get();
          asioext::unique_handler<void(int&, const std::string&, std::unique_ptr<int>, std::string&&)> q([&, keep = std::make_unique<int>(3)](int& x, const std::string& t, std::unique_ptr<int> u, std::string&& z) {
            ++seen;
            VH_CHECK(&x == &target && &t == &text && u.get() == addr && z == text && *keep == 3, "wrong-arguments", w->hist, " reference or move-only argument");
            x = 8; });
          auto q2(std::move(q));
          q2.complete(target, text, std::move(box), std::string(text));
          VH_CHECK(seen == 1 && target == 8 && !box && !q2 && !q, "call-count", w->hist, " move-only arguments");
          asioext::unique_handler<void()> none([&] { ++seen; }); none.complete(); VH_CHECK(seen == 2, "call-count", w->hist, " no arguments");
          vh::count("other-signatures");
          break; }
        }
        for (int k = 0; k < N; ++k) VH_CHECK(!!*h[k] == (m[k] >= 0), "wrong-state", w->hist, ": h", k, " is ", !!*h[k] ? "full" : "empty");
        std::size_t want = 0, held = 0;
        for (int k = 0; k < N; ++k) { want += blocks[k]; held += m[k] >= 0; }
        if (w->mem.live.size() != want) { vh::violation(w->mem.live.size() > want ? "memory-leaked" : "wrong-allocator", cat(w->hist, ": ", w->mem.live.size(), " blocks, want ", want)); break; }
        if (w->live != (int)held) { vh::violation(w->live > (int)held ? "callable-leaked" : "destroyed-twice", cat(w->hist, ": ", w->live, " callables, want ", held)); break; }
      }
      w->mem.fail_in = -1; w->move_fail_in = -1;
    }
    VH_CHECK(w->live == 0, "callable-leaked", w->hist, " ", w->live);
    VH_CHECK(w->mem.live.empty() && w->mem.trouble.empty(), "memory-leaked", w->hist, " ", w->mem.trouble);
    for (auto& c : w->calls) VH_CHECK(c.second <= 1, "called-twice", w->hist);
    vh::distinct(vh::hash_str(w->hist));
    static int shown = 0;
    if (shown++ < 2) vh::sample(w->hist);
  });
}

VH_MAIN
