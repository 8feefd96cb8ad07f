// C25: buffered_stream against byte-queue models, over a scripted stream and over socket pairs.
#include "common.hpp"
#include <asio.hpp>
#include <asioext/experimental/buffered_stream.hpp>
#include <future>
#include <memory>
#include <optional>
#include <thread>

using vh::Rng;
using vh::cat;
typedef asioext::error_code EC;

namespace {
// ------------------------------------------------------------------ the stream below
struct Wire
{
  Rng r{1};
  bool open = true;
  std::string in;                 // what the peer sent
  std::size_t pos = 0;
  std::optional<EC> read_end;     // reported once in is used up (otherwise the read blocks)
  std::string out;                // what reached the peer
  std::optional<std::size_t> fail_write_at; // out.size() at which writing fails
  EC write_error = asio::error::connection_reset;
  int frag = 0;
  int closes = 0, sync_calls = 0, async_calls = 0;
  int reading = 0, writing = 0;
  std::string misuse;
  std::function<void()> blocked_read; // aborts a read which waits for data
  std::function<void()> wake_read;

  std::size_t piece(std::size_t n) { return frag == 0 || n < 2 ? n : frag == 1 && n < 20000 ? 1 : (std::size_t)r.range(1, (int64_t)n); }

  std::size_t write(const std::string& s, EC& ec)
  {
    ec = EC();
    if (!open) { ec = asio::error::bad_descriptor; return 0; }
    std::size_t n = piece(s.size());
    if (fail_write_at && !s.empty()) {
      if (out.size() >= *fail_write_at) { ec = write_error; return 0; }
      n = std::min(n, *fail_write_at - out.size());
    }
    out.append(s, 0, n);
    return n;
  }
  template <class B> std::size_t read(const B& b, EC& ec)
  {
    ec = EC();
    if (!open) { ec = asio::error::bad_descriptor; return 0; }
    const std::size_t want = asio::buffer_size(b);
    if (!want) return 0;
    if (pos == in.size()) { ec = read_end ? *read_end : EC(asio::error::would_block); return 0; }
    const std::size_t n = piece(std::min(want, in.size() - pos));
    asio::buffer_copy(b, asio::buffer(in.data() + pos, n));
    pos += n;
    return n;
  }
  void shut()
  {
    open = false; ++closes;
    if (blocked_read) { auto f = std::move(blocked_read); blocked_read = nullptr; wake_read = nullptr; f(); }
  }
};

struct Lowest
{
  typedef asio::any_io_executor executor_type;
  asio::any_io_executor ex;
  Wire* w;
  executor_type get_executor() const { return ex; }
};

struct Stream
{
  typedef Lowest lowest_layer_type;
  typedef asio::any_io_executor executor_type;
  Lowest low;
  Stream(const Lowest& l) : low(l) {}
  Stream(Stream&&) = default;
  lowest_layer_type& lowest_layer() { return low; }
  const lowest_layer_type& lowest_layer() const { return low; }
  executor_type get_executor() { return low.ex; }
  void close() { low.w->shut(); }
  void close(EC& ec) { ec = EC(); low.w->shut(); }

  template <class B> std::size_t read_some(const B& b, EC& ec) { ++low.w->sync_calls; return low.w->read(b, ec); }
  template <class B> std::size_t write_some(const B& b, EC& ec)
  {
    ++low.w->sync_calls;
    std::string s(asio::buffer_size(b), 0);
    asio::buffer_copy(asio::buffer(s), b);
    return low.w->write(s, ec);
  }
  template <class H> static void finish(Lowest low, H&& h, EC ec, std::size_t n, int Wire::*gate)
  {
    auto e = asio::get_associated_executor(h, low.ex);
    auto work = asio::prefer(e, asio::execution::outstanding_work.tracked);
    asio::post(low.ex, [h = std::forward<H>(h), ec, n, e, low, gate, work = std::move(work)]() mutable {
      --(low.w->*gate);
      asio::dispatch(e, [h = std::move(h), ec, n]() mutable { h(ec, n); });
    });
  }
  template <class B, class T> auto async_write_some(B b, T&& t)
  {
    return asio::async_initiate<T, void(EC, std::size_t)>([this](auto h, B b) {
      Wire& w = *low.w;
      ++w.async_calls;
      if (w.writing++) w.misuse = "overlapping writes";
      std::string s(asio::buffer_size(b), 0);
      asio::buffer_copy(asio::buffer(s), b);
      EC ec;
      const std::size_t n = w.write(s, ec);
      finish(low, std::move(h), ec, n, &Wire::writing);
    }, t, b);
  }
  template <class B, class T> auto async_read_some(B b, T&& t)
  {
    return asio::async_initiate<T, void(EC, std::size_t)>([this](auto h, B b) {
      Wire& w = *low.w;
      ++w.async_calls;
      if (w.reading++) w.misuse = "overlapping reads";
      EC ec;
      const std::size_t n = w.read(b, ec);
      if (ec == asio::error::would_block) { // waits for data, the end or close()
        auto hp = std::make_shared<std::decay_t<decltype(h)>>(std::move(h));
        w.blocked_read = [hp, low = low] { finish(low, std::move(*hp), asio::error::operation_aborted, 0, &Wire::reading); };
        w.wake_read = [hp, b, low = low] { EC ec; const std::size_t n = low.w->read(b, ec); finish(low, std::move(*hp), ec, n, &Wire::reading); };
        return;
      }
      finish(low, std::move(h), ec, n, &Wire::reading);
    }, t, b);
  }
};

// counts what it allocates and belongs to one ledger
struct Ledger { long live = 0; std::size_t bytes = 0; uint64_t calls = 0; };
unsigned long stray_allocations = 0; // through an allocator nobody passed in
template <class T> struct Alloc
{
  typedef T value_type;
  Ledger* l;
  explicit Alloc(Ledger* l = nullptr) : l(l) {}
  template <class U> Alloc(const Alloc<U>& o) : l(o.l) {}
  T* allocate(std::size_t n) { if (l) { ++l->live; ++l->calls; l->bytes += n; } else ++stray_allocations; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t n) { if (l) { --l->live; l->bytes -= n; } ::operator delete(p); }
  template <class U> bool operator==(const Alloc<U>& o) const { return l == o.l; }
  template <class U> bool operator!=(const Alloc<U>& o) const { return l != o.l; }
};

std::string text(const EC& e) { return e ? cat(e.category().name(), ":", e.value()) : std::string("success"); }
template <class B> std::string str(const B& b) { return std::string((const char*)b.data(), b.size()); }

const EC stale_codes[] = {EC(), EC(asio::error::eof), EC(asio::error::already_started), EC(2, asioext::error_code(asio::error::eof).category())};

struct Done { int calls = 0; EC ec; std::size_t n = 0; bool wrong_thread = false; bool inside = false; };

// ------------------------------------------------------------------ one session
template <class BS>
struct Session
{
  Rng& r;
  Wire& w;
  asio::io_context& ctx;
  asio::io_context& other;
  BS& b;
  std::string log;
  std::string sent;    // everything still due or already delivered on this connection, in order
  std::string eaten;   // bytes taken out of the read buffer on this connection
  bool initiating = false;
  std::optional<std::shared_ptr<Done>> flush_op, fill_op;
  std::size_t flush_out0 = 0, fill_size0 = 0;
  bool closed_since_flush = false, closed_since_fill = false;
  std::vector<std::shared_ptr<Done>> refused;
  std::vector<std::pair<std::shared_ptr<Done>, std::future<std::size_t>>> futures;
  std::size_t max_w, max_r;
  bool dead = false;
  bool huge = false; // far more than any plausible threshold at once

  void bad(const std::string& key, const std::string& d) { vh::violation(key, cat(d, " ; history:", log)); dead = true; }
  void say(const std::string& s) { log += " " + s; vh::current(log); }

  std::size_t unsent() const { return sent.size() - w.out.size(); }

  // Holds between any two steps.
  void invariants()
  {
    if (dead) return;
    look_at_futures(false);
    if (!w.misuse.empty()) return bad("stream-misused", w.misuse);
    if (w.out.size() > sent.size() || sent.compare(0, w.out.size(), w.out) != 0)
      return bad("wrong-bytes-sent", cat("sent ", vh::show(w.out), " of ", vh::show(sent)));
    const std::string wb = str(static_cast<const BS&>(b).write_buffer());
    if (wb.size() > unsent() || sent.compare(sent.size() - wb.size(), wb.size(), wb) != 0)
      return bad("write-buffer-contents", cat("write buffer holds ", vh::show(wb), " with ", unsent(), " bytes unsent"));
    if (b.write_buffer().size() > max_w || b.read_buffer().size() > max_r)
      return bad("limit-exceeded", cat("write ", b.write_buffer().size(), "/", max_w, " read ", b.read_buffer().size(), "/", max_r));
    const bool pending = flush_op && !(*flush_op)->calls;
    if (b.flush_pending() != pending) return bad("flush-pending", cat("flush_pending() ", b.flush_pending(), ", a flush is ", pending ? "" : "not ", "running"));
    if (b.can_flush() != (!pending && unsent() != 0)) return bad("can-flush", cat("can_flush() ", b.can_flush(), " with ", unsent(), " bytes unsent"));
    if (!fill_op) {
      const std::string rb = str(static_cast<const BS&>(b).read_buffer());
      const std::string want = w.in.substr(eaten.size(), w.pos - eaten.size());
      if (rb != want) return bad("wrong-bytes-read", cat("read buffer holds ", vh::show(rb), " instead of ", vh::show(want), " (", eaten.size(), " taken)"));
    }
  }

  void append(std::size_t n)
  {
    std::string d = r.bytes(n);
    say(cat("append ", n));
    const bool fits = b.write_buffer().size() + n <= max_w;
    try { b.write_buffer().append(d.data(), d.size()); if (!fits) return bad("limit-ignored", "append beyond max_write_size"); sent += d; vh::count("appends"); }
    catch (const std::length_error&) { if (fits) return bad("append-refused", cat("size ", b.write_buffer().size(), " + ", n, " max ", max_w)); vh::count("full-write-buffer"); }
  }

  void script()
  {
    if (r.chance(40)) w.frag = (int)r.below(3);
    if (flush_op) return;
    if (r.chance(25)) w.fail_write_at = w.out.size() + (r.chance(40) ? 0 : r.below(unsent() + 2));
    else if (r.chance(60)) w.fail_write_at.reset();
    static const EC errs[] = {asio::error::connection_reset, asio::error::broken_pipe, asio::error::eof, asio::error::no_buffer_space, asio::error::operation_aborted};
    w.write_error = errs[r.below(5)];
  }

  // n and ec reported for a flush that started with out0 bytes on the wire
  void judge_flush(const char* how, EC ec, std::size_t n, std::size_t out0, std::size_t due, bool closed)
  {
    if (n != ~std::size_t(0) && n != w.out.size() - out0) return bad("flush-count", cat(how, " reported ", n, ", the stream took ", w.out.size() - out0, " ", text(ec)));
    if (closed) return;
    const bool must_fail = due && w.fail_write_at && *w.fail_write_at < out0 + due && w.out.size() == *w.fail_write_at;
    if (ec && !must_fail) return bad("flush-error", cat(how, " failed with ", text(ec), ", the stream did not fail"));
    if (ec && ec != w.write_error) return bad("flush-error", cat(how, " reported ", text(ec), " instead of ", text(w.write_error)));
    if (!ec && due && n == 0) return bad("flush-nothing", cat(how, " succeeded without writing any of ", due, " bytes"));
    vh::count(ec ? "flush-failures" : n ? "flushes" : "empty-flushes");
    if (ec && n) vh::count("partial-flushes");
  }

  void flush()
  {
    const std::size_t out0 = w.out.size(), due = unsent();
    const bool pending = flush_op && !(*flush_op)->calls;
    script();
    EC ec = stale_codes[r.below(4)];
    std::size_t n = 0;
    if (r.chance(30)) {
      say("flush()"); ec = EC();
      try { n = b.flush(); } catch (const vh::system_error& e) { ec = e.code(); n = w.out.size() - out0; if (!ec) return bad("throws-success", "flush()"); vh::count("thrown"); }
    } else {
      say(cat("flush(", text(ec), ")"));
      n = b.flush(ec);
    }
    say(cat("-> ", text(ec), " ", n));
    if (pending) {
      if (ec != asio::error::already_started || n || w.out.size() != out0) bad("second-flush", cat("second flush gave ", text(ec), " ", n));
      vh::count("second-flushes");
      return;
    }
    judge_flush("flush", ec, n, out0, due, false);
  }

  template <class Start> void launch(std::shared_ptr<Done> d, Start start)
  {
    initiating = true;
    auto note = [this, d](EC ec, std::size_t n, bool right) { ++d->calls; d->ec = ec; d->n = n; d->inside = initiating; d->wrong_thread = !right; };
    switch (r.below(5)) {
    case 0: { // move-only rvalue
      say("rvalue");
      start([note, u = std::unique_ptr<int>(new int(1))](EC ec, std::size_t n) { note(ec, n, true); });
      break; }
    case 1: { // an lvalue stays usable
      say("lvalue");
      struct L { std::shared_ptr<int> keep; decltype(note) f; void operator()(EC ec, std::size_t n) { f(ec, n, keep && *keep == 7); } };
      L l{std::make_shared<int>(7), note};
      start(l);
      if (!l.keep) bad("lvalue-handler-moved", "the caller's handler was moved from");
      vh::count("lvalue-handlers");
      break; }
    case 2: { // bound to another context's executor
      say("bound");
      start(asio::bind_executor(other.get_executor(), [note, this](EC ec, std::size_t n) { note(ec, n, running == 2); }));
      vh::count("bound-handlers");
      break; }
    case 3: {
      say("future");
      auto f = start(asio::use_future);
      futures.emplace_back(d, std::move(f));
      vh::count("futures");
      break; }
    default: { // default executor
      say("plain");
      start([note, this](EC ec, std::size_t n) { note(ec, n, running == 1); });
    }
    }
    initiating = false;
    if (d->calls) bad("handler-in-initiation", "the handler ran inside the initiating function");
  }
  int running = 0;

  void start_flush()
  {
    const bool pending = flush_op && !(*flush_op)->calls;
    auto d = std::make_shared<Done>();
    if (!pending) { reap(); if (dead) return; script(); flush_due = unsent(); flush_out0 = w.out.size(); closed_since_flush = false; }
    say("async_flush");
    launch(d, [this](auto&& h) { return b.async_flush(std::forward<decltype(h)>(h)); });
    if (pending) { refused.push_back(d); vh::count("second-flushes"); }
    else { flush_op = d; vh::count("async-flushes"); }
  }
  std::size_t flush_due = 0;

  void judge_fill(const char* how, EC ec, std::size_t n, std::size_t pos0, std::size_t size0, bool closed)
  {
    if (n == ~std::size_t(0)) n = w.pos - pos0; // a future tells the error alone
    if (n != w.pos - pos0) return bad("fill-count", cat(how, " reported ", n, ", the stream gave ", w.pos - pos0, " ", text(ec)));
    if (closed) return;
    if (b.read_buffer().size() != size0 + n) return bad("fill-count", cat(how, " reported ", n, ", the buffer grew by ", b.read_buffer().size() - size0));
    const bool at_end = pos0 == w.in.size();
    const bool full = size0 == max_r;
    if (full) { if (ec || n) bad("fill-full", cat(how, " into a full buffer: ", text(ec), " ", n)); vh::count("full-read-buffer"); return; }
    if (at_end) {
      if (!w.read_end || ec != *w.read_end || n) return bad("fill-end", cat(how, " at the end reported ", text(ec), " ", n, " instead of ", w.read_end ? text(*w.read_end) : "?"));
      vh::count("fill-failures");
    } else {
      if (ec || !n) return bad("fill-error", cat(how, " failed with ", text(ec), " ", n, " though ", w.in.size() - pos0, " bytes were left"));
      vh::count("fills");
    }
  }

  void fill()
  {
    if (fill_op) return;
    if (w.pos == w.in.size() && !w.read_end) { if (r.chance(50)) feed(); if (w.pos == w.in.size()) end(); }
    script();
    const std::size_t pos0 = w.pos, size0 = b.read_buffer().size();
    EC ec = stale_codes[r.below(4)];
    std::size_t n = 0;
    if (r.chance(30)) {
      say("fill()"); ec = EC();
      try { n = b.fill(); } catch (const vh::system_error& e) { ec = e.code(); n = w.pos - pos0; if (!ec) return bad("throws-success", "fill()"); vh::count("thrown"); }
    } else {
      say(cat("fill(", text(ec), ")"));
      n = b.fill(ec);
    }
    say(cat("-> ", text(ec), " ", n));
    judge_fill("fill", ec, n, pos0, size0, false);
  }

  void start_fill()
  {
    if (fill_op) return;
    script();
    fill_pos0 = w.pos; fill_size0 = b.read_buffer().size(); closed_since_fill = false;
    auto d = std::make_shared<Done>();
    say("async_fill");
    launch(d, [this](auto&& h) { return b.async_fill(std::forward<decltype(h)>(h)); });
    fill_op = d;
    vh::count("async-fills");
  }
  std::size_t fill_pos0 = 0;

  void check_done(const char* what, Done& d)
  {
    if (d.calls > 1) return bad("handler-twice", what);
    if (d.inside) return bad("handler-in-initiation", what);
    if (d.wrong_thread) return bad("handler-executor", cat(what, " handler ran on the wrong executor or lost its state"));
  }

  void look_at_futures(bool last)
  {
    for (auto it = futures.begin(); it != futures.end();) {
      if (it->second.wait_for(std::chrono::seconds(last ? 20 : 0)) != std::future_status::ready) { ++it; continue; }
      Done& d = *it->first;
      ++d.calls;
      d.n = ~std::size_t(0);
      try { d.n = it->second.get(); } catch (const vh::system_error& e) { d.ec = e.code(); }
      it = futures.erase(it);
    }
  }

  // look at finished operations
  void reap()
  {
    if (dead) return;
    look_at_futures(false);
    for (auto it = refused.begin(); it != refused.end();) {
      if (!(*it)->calls) { ++it; continue; }
      check_done("refused flush", **it);
      if ((*it)->ec != asio::error::already_started || (*it)->n + 1 > 1) return bad("second-flush", cat("second async_flush gave ", text((*it)->ec), " ", (*it)->n));
      it = refused.erase(it);
    }
    if (flush_op && (*flush_op)->calls) {
      Done d = **flush_op;
      flush_op.reset();
      check_done("async_flush", d);
      say(cat("[flushed ", text(d.ec), " ", d.n, "]"));
      if (!dead) judge_flush("async_flush", d.ec, d.n, flush_out0, flush_due, closed_since_flush);
    }
    if (fill_op && (*fill_op)->calls) {
      Done d = **fill_op;
      fill_op.reset();
      check_done("async_fill", d);
      say(cat("[filled ", text(d.ec), " ", d.n, "]"));
      if (dead) return;
      judge_fill("async_fill", d.ec, d.n, fill_pos0, fill_size0, closed_since_fill);
      if (closed_since_fill) {
        if (b.read_buffer().size() && !w.in.empty()) return bad("closed-data-returns", cat(b.read_buffer().size(), " bytes are back after close()"));
        vh::count("closed-while-filling");
      }
    }
  }

  void consume()
  {
    if (fill_op) return;
    auto& rb = b.read_buffer();
    if (rb.empty()) return;
    const std::size_t n = r.chance(40) ? rb.size() : (std::size_t)r.range(1, (int64_t)rb.size());
    say(cat("consume ", n));
    eaten.append((const char*)rb.data(), n);
    rb.erase(0, n);
    vh::count("consumed");
  }

  void feed()
  {
    std::string d = r.bytes(huge && r.chance(50) ? 60000 + r.below(600000) : r.chance(20) ? r.size(4000) : r.size(200) + 1);
    if (w.read_end || d.empty()) return;
    say(cat("peer sends ", d.size()));
    w.in += d;
    if (w.wake_read) { auto f = std::move(w.wake_read); w.wake_read = nullptr; w.blocked_read = nullptr; f(); }
  }
  void end()
  {
    if (w.read_end) return;
    static const EC ends[] = {asio::error::eof, asio::error::connection_reset, asio::error::timed_out};
    w.read_end = ends[r.below(3)];
    say(cat("peer ends with ", text(*w.read_end)));
    if (w.wake_read) { auto f = std::move(w.wake_read); w.wake_read = nullptr; w.blocked_read = nullptr; f(); }
  }

  void poll(std::size_t most)
  {
    for (std::size_t i = 0; i < most; ++i) {
      std::size_t k = 0;
      ctx.restart(); other.restart();
      if (r.chance(50)) { running = 1; k = ctx.poll_one(); running = 2; k += other.poll_one(); }
      else { running = 2; k = other.poll_one(); running = 1; k += ctx.poll_one(); }
      running = 0;
      if (!k) break;
      if (r.chance(30)) reap();
    }
    reap();
  }

  void drain()
  {
    if (fill_op && w.wake_read) { if (r.chance(50)) feed(); if (w.wake_read) end(); }
    poll(1000000);
    look_at_futures(true);
    reap();
    if (!dead && flush_op) bad("flush-never-completes", "no handler call");
    if (!dead && fill_op) bad("fill-never-completes", "no handler call");
    if (!dead && (!refused.empty() || !futures.empty())) bad("handler-lost", cat(refused.size(), " refused, ", futures.size(), " futures"));
  }

  void close()
  {
    const int c0 = w.closes;
    if (r.chance(50)) { say("close()"); b.close(); } else { EC ec = stale_codes[r.below(4)]; say("close(ec)"); b.close(ec); if (ec) return bad("close-error", text(ec)); }
    if (w.closes != c0 + 1 || w.open) return bad("not-closed", cat(w.closes - c0, " closes"));
    if (!b.write_buffer().empty()) return bad("close-keeps-data", "write buffer");
    if (!fill_op && !b.read_buffer().empty()) return bad("close-keeps-data", "read buffer");
    closed_since_flush = closed_since_fill = true;
    if (flush_op) vh::count("closed-while-flushing");
    vh::count("closes");
    // operations under way end, nothing of the old connection is left
    std::string cut = w.out;
    poll(1000000);
    look_at_futures(true);
    reap();
    if (dead) return;
    if (flush_op || fill_op) return bad("close-leaves-operation", flush_op ? "flush" : "fill");
    if (w.out != cut) return bad("sent-after-close", "");
    sent = w.out;
    if (b.can_flush()) return bad("close-keeps-data", "can_flush() after close()");
    if (!b.read_buffer().empty()) return bad("close-keeps-data", "read buffer");
    EC ec;
    const std::size_t n = b.flush(ec); // nothing to send
    (void)n;
    if (r.chance(50)) { ec = EC(); b.fill(ec); if (ec != asio::error::bad_descriptor && max_r) return bad("fill-after-close", text(ec)); }
    // connected again
    say("reopen");
    Wire fresh;
    fresh.r = w.r; fresh.closes = w.closes; fresh.open = true;
    w = std::move(fresh);
    sent.clear(); eaten.clear();
  }

  void run()
  {
    huge = r.below(1500) == 0;
    if (huge) vh::count("huge-sessions");
    const int steps = huge ? (int)r.range(4, 16) : (int)r.range(4, 60);
    for (int i = 0; i < steps && !dead; ++i) {
      switch (r.below(14)) {
      case 0: case 1: case 2: append(huge && r.chance(50) ? 60000 + r.below(r.chance(30) ? 1500000 : 100000) : r.chance(85) ? r.size(60) : r.size(3000)); break;
      case 3: case 4: flush(); break;
      case 5: case 6: start_flush(); break;
      case 7: fill(); break;
      case 8: start_fill(); break;
      case 9: consume(); break;
      case 10: feed(); break;
      case 11: case 12: poll(1 + r.below(4)); break;
      default:
        if (r.chance(12)) close(); else if (r.chance(6)) end(); else poll(1000);
      }
      if (!dead) reap();
      invariants();
    }
    if (dead) return;
    drain();
    if (dead) return;
    // Everything written arrives once the stream works.
    w.fail_write_at.reset();
    for (int i = 0; i < 4 && b.can_flush(); ++i) { EC ec; b.flush(ec); if (ec) return bad("flush-error", cat("final flush: ", text(ec))); }
    if (w.out != sent) return bad("bytes-lost", cat("sent ", w.out.size(), " of ", sent.size(), " bytes, can_flush() ", b.can_flush()));
    // Everything the peer sent can be read, then the end is seen.
    end();
    if (huge) w.frag = 0;
    for (int i = 0; i < 3000000; ++i) {
      if (b.read_buffer().size()) { eaten.append((const char*)b.read_buffer().data(), b.read_buffer().size()); b.read_buffer().clear(); }
      EC ec;
      const std::size_t n = b.fill(ec);
      if (ec || !n) { if (max_r && ec != *w.read_end) return bad("fill-end", text(ec)); break; }
    }
    if (max_r && eaten != w.in) return bad("bytes-lost", cat("read ", eaten.size(), " of ", w.in.size(), " bytes"));
    invariants();
    vh::distinct(vh::hash_str(log));
    if (vh::st().samples.size() < 2) vh::sample(log.substr(0, 600));
  }
};

template <class BS> void session(Rng& r, Wire& w, asio::io_context& ctx, asio::io_context& other, BS& b, std::size_t mw, std::size_t mr, Lowest* low)
{
  Session<BS> s{r, w, ctx, other, b};
  s.max_w = mw; s.max_r = mr;
  s.log = cat("limits ", mw, "/", mr, ":");
  const BS& cb = b;
  if (b.lowest_layer().w != &w || &cb.lowest_layer() != &b.lowest_layer() || &b.next_layer().low != &b.lowest_layer()) return s.bad("layers", "wrong layer");
  if (low && &b.lowest_layer() != low) return s.bad("layers", "referenced stream was copied");
  if (b.get_executor() != ctx.get_executor()) return s.bad("layers", "wrong executor");
  if (b.write_buffer().max_size() != mw || b.read_buffer().max_size() != mr) {
    const std::size_t am = std::allocator_traits<std::allocator<uint8_t>>::max_size(std::allocator<uint8_t>());
    s.max_w = std::min(mw, am); s.max_r = std::min(mr, am);
    if (b.write_buffer().max_size() != s.max_w || b.read_buffer().max_size() != s.max_r)
      return s.bad("limits", cat(b.write_buffer().max_size(), "/", b.read_buffer().max_size()));
  }
  s.run();
  // after a violation: let go of everything before the contexts die
  w.shut();
  for (std::size_t k = 1; k;) { ctx.restart(); other.restart(); k = ctx.poll() + other.poll(); }
  s.look_at_futures(true);
}
} // namespace

VH_GROUP(history)
{
  vh::run_cases([](Rng& r, uint64_t) {
    asio::io_context ctx, other;
    Wire w;
    w.r = Rng(r.next());
    w.frag = (int)r.below(3);
    const std::size_t nomax = (std::numeric_limits<std::size_t>::max)();
    static const std::size_t lims[] = {0, 1, 7, 100, 511, 512, 513, 4096};
    const std::size_t mw = r.chance(50) ? nomax : lims[r.below(8)], mr = r.chance(50) ? nomax : lims[r.below(8)];
    Lowest low{ctx.get_executor(), &w};
    Ledger ledger;
    switch (r.below(3)) {
    case 0: { asioext::buffered_stream<Stream> b(low, mw, mr); session(r, w, ctx, other, b, mw, mr, nullptr); break; }
    case 1: { Stream next(low); asioext::buffered_stream<Stream&> b(next, mw, mr); session(r, w, ctx, other, b, mw, mr, &next.low); break; }
    default: {
      asioext::buffered_stream<Stream, Alloc<uint8_t>> b(low, Alloc<uint8_t>(&ledger), mw, mr);
      const uint64_t c0 = ledger.calls;
      session(r, w, ctx, other, b, mw, mr, nullptr);
      (void)c0;
      if (stray_allocations) { stray_allocations = 0; vh::violation("allocator-ignored", "allocation through a default-constructed allocator"); }
      if (!ledger.calls) vh::violation("allocator-unused", "no allocation through the given allocator");
      vh::count("allocators"); }
    }
    if (ledger.live) vh::violation("buffer-leak", cat(ledger.live, " allocations left"));
    // handlers still pending are destroyed with their contexts
  });
}

// Two buffered streams connected by sockets: asynchronous full-duplex traffic.
namespace {
struct Side
{
  typedef asio::local::stream_protocol::socket sock;
  asioext::buffered_stream<sock> b;
  Rng r;
  std::string data, got;
  std::size_t queued = 0, total, most = 9000;
  bool flushing = false, filled = false;
  std::size_t flushed = 0;
  uint64_t flushes = 0, fills = 0;
  std::string fault;
  std::atomic<int> active{0};

  Side(sock&& s, uint64_t seed, std::size_t size, std::size_t expect, std::size_t mr)
    : b(std::move(s), (std::numeric_limits<std::size_t>::max)(), mr), r(seed), data(r.bytes(size)), total(expect) {}

  void pump()
  {
    while (queued < data.size() && r.chance(60)) {
      const std::size_t n = std::min<std::size_t>(data.size() - queued, 1 + r.size(most));
      b.write_buffer().append(data.data() + queued, n);
      queued += n;
    }
    if (flushing) {
      if (r.chance(10)) b.async_flush([this](EC ec, std::size_t n) { if (ec != asio::error::already_started || n) fault = "second flush"; });
      return;
    }
    if (!b.can_flush()) {
      if (queued == data.size()) { if (flushed == data.size()) { EC ec; b.lowest_layer().shutdown(sock::shutdown_send, ec); } return; }
      const std::size_t n = std::min<std::size_t>(data.size() - queued, 1 + r.size(most));
      b.write_buffer().append(data.data() + queued, n);
      queued += n;
    }
    flushing = true; ++flushes;
    b.async_flush([this](EC ec, std::size_t n) {
      flushing = false; flushed += n;
      if (ec) { fault = "flush failed: " + ec.message(); return; }
      if (!n) fault = "flush wrote nothing";
      pump();
    });
    if (r.chance(30)) pump();
  }
  void pull()
  {
    ++fills;
    b.async_fill([this](EC ec, std::size_t n) {
      auto& rb = b.read_buffer();
      const std::size_t take = ec ? rb.size() : r.chance(30) ? r.below(rb.size() + 1) : rb.size();
      got.append((const char*)rb.data(), take);
      rb.erase(0, take);
      if (ec) { if (ec != asio::error::eof || n) fault = "fill failed: " + ec.message(); filled = true; return; }
      if (!n && rb.size() + take < rb.max_size()) { fault = "fill read nothing"; return; }
      if (r.chance(20)) pump();
      pull();
    });
  }
};
}

VH_GROUP(sockets)
{
  vh::run_cases([](Rng& r, uint64_t) {
    asio::io_context ctx;
    Side::sock a(ctx), c(ctx);
    asio::local::connect_pair(a, c);
    if (r.chance(50)) { a.set_option(asio::socket_base::send_buffer_size(4096)); c.set_option(asio::socket_base::send_buffer_size(4096)); }
    const bool bulk = r.chance(4); // megabytes at once
    const std::size_t n1 = bulk ? (1u << 20) + r.below(3u << 20) : r.chance(10) ? r.below(400000) : r.below(40000), n2 = r.chance(20) ? 0 : r.below(40000);
    const std::size_t mr = bulk || r.chance(50) ? (std::numeric_limits<std::size_t>::max)() : 1 + r.below(3000);
    if (bulk) vh::count("bulk-transfers");
    Side x(std::move(a), r.next(), n1, n2, mr), y(std::move(c), r.next(), n2, n1, mr);
    vh::current(cat("sockets ", n1, " ", n2, " max ", mr));
    if (bulk) x.most = r.chance(50) ? n1 : n1 / 2;
    x.pull(); y.pull();
    x.pump(); y.pump();
    ctx.run_for(std::chrono::seconds(60));
    const std::string info = cat(n1, "+", n2, " bytes, max ", mr, ": got ", y.got.size(), " and ", x.got.size());
    for (Side* s : {&x, &y}) if (!s->fault.empty()) vh::violation("socket-fault", cat(s->fault, " ; ", info));
    if (x.got != y.data || y.got != x.data) vh::violation("socket-bytes", info);
    else if (!x.filled || !y.filled) vh::violation("socket-end", info);
    if (x.flushed != n1 || y.flushed != n2) vh::violation("socket-flush-count", cat(x.flushed, " ", y.flushed, " ; ", info));
    vh::count("socket-flushes", x.flushes + y.flushes);
    vh::count("socket-fills", x.fills + y.fills);
    vh::count("socket-bytes-moved", n1 + n2);
    vh::distinct(vh::mix(n1 * 1000003 + n2) ^ mr);
  });
}

VH_MAIN
