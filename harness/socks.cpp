// C21-C23: SOCKS clients against a scripted server behind a fragmenting, failing in-memory stream.
#include "common.hpp"
#include <asio.hpp>
#include <asioext/socks/client.hpp>
#include <asioext/linear_buffer.hpp>
#include <asioext/error.hpp>
#include <optional>
#include <thread>

using vh::Rng;
using vh::cat;
namespace sk = asioext::socks;
typedef asioext::error_code EC;

// ------------------------------------------------------------------ the wire
namespace {
struct Wire // what a connection did, and what it will do
{
  Rng r{1};
  std::string in;              // bytes the server sends, in total
  std::size_t pos = 0;         // bytes the client took
  std::size_t avail = 0;       // how much of in the server has sent by now
  EC end = asio::error::eof;   // what a read finds behind in
  std::string out;             // bytes the client sent
  std::size_t fail_write_at = ~std::size_t(0); // out.size() at which writing fails
  EC write_error;
  std::size_t need = 0;        // bytes the server wants to see before it answers
  bool early_read = false;
  int frag = 0;                // 0 whole, 1 single bytes, 2 random
  uint64_t ops = 0, reads = 0, writes = 0;
  int pending = 0;
  bool overlapped = false;
  std::size_t piece(std::size_t n) { return frag == 0 || n < 2 ? n : frag == 1 ? 1 : (std::size_t)r.range(1, (int64_t)n); }
};

struct Stream
{
  typedef asio::any_io_executor executor_type;
  typedef Stream lowest_layer_type;
  asio::any_io_executor ex;
  Wire& w;
  executor_type get_executor() { return ex; }
  executor_type get_executor() const { return ex; }

  template <class H> void finish(H&& h, EC ec, std::size_t n)
  {
    auto e = asio::get_associated_executor(h, ex);
    Wire* pw = &w;
    auto work = asio::prefer(e, asio::execution::outstanding_work.tracked);
    asio::post(ex, [h = std::forward<H>(h), ec, n, pw, e, work = std::move(work)]() mutable {
      --pw->pending;
      asio::dispatch(e, [h = std::move(h), ec, n]() mutable { h(ec, n); });
    });
  }

  template <class B, class T> auto async_read_some(B b, T&& t)
  {
    return asio::async_initiate<T, void(EC, std::size_t)>([this](auto h, B b) {
      ++w.ops; ++w.reads;
      if (w.pending++) w.overlapped = true;
      if (w.out.size() < w.need) w.early_read = true;
      const std::size_t want = asio::buffer_size(b);
      if (want == 0) return finish(std::move(h), EC(), 0);
      if (w.pos == w.in.size()) return finish(std::move(h), w.end, 0);
      const std::size_t n = w.piece(std::min(want, w.in.size() - w.pos));
      asio::buffer_copy(b, asio::buffer(w.in.data() + w.pos, n));
      w.pos += n;
      finish(std::move(h), EC(), n);
    }, t, b);
  }

  template <class B, class T> auto async_write_some(B b, T&& t)
  {
    return asio::async_initiate<T, void(EC, std::size_t)>([this](auto h, B b) {
      ++w.ops; ++w.writes;
      if (w.pending++) w.overlapped = true;
      const std::size_t want = asio::buffer_size(b);
      std::size_t n = w.piece(want);
      if (w.fail_write_at != ~std::size_t(0)) {
        if (w.out.size() >= w.fail_write_at) return finish(std::move(h), w.write_error, 0);
        n = std::min(n, w.fail_write_at - w.out.size());
      }
      std::string s(n, 0);
      asio::buffer_copy(asio::buffer(s), b);
      w.out += s;
      finish(std::move(h), EC(), n);
    }, t, b);
  }
};

std::string text(const EC& e) { return e ? cat(e.category().name(), ":", e.value()) : std::string("success"); }
std::string u8(int v) { return std::string(1, (char)v); }
std::string be16(uint16_t v) { return u8(v >> 8) + u8(v & 255); }

// ------------------------------------------------------------------ requests, by the specification
enum Step { v4_ip, v4_host, greet, login, v5_ip, v5_host, steps };
const char* const names[] = {"v4", "v4a", "greet", "login", "v5", "v5-host"};
struct Req
{
  int step;
  sk::command cmd = sk::command::connect;
  int code = 1; // the command's number in the specifications
  asio::ip::tcp::endpoint ep;
  std::string host, user, pass;
  uint16_t port = 0;
  std::vector<sk::auth_method> methods;
  std::optional<std::string> wire; // nothing: not encodable
  std::string what;
};

asio::ip::tcp::endpoint endpoint(Rng& r, bool v6)
{
  const uint16_t port = (uint16_t)(r.chance(20) ? 0 : r.chance(20) ? 65535 : r.next());
  if (v6) {
    asio::ip::address_v6::bytes_type b;
    const int k = (int)r.below(4);
    for (std::size_t i = 0; i < 16; ++i) b[i] = k == 0 ? 0 : k == 1 && i < 12 ? (i >= 10 ? 0xff : 0) : (unsigned char)r.next();
    return {asio::ip::address_v6(b, r.chance(20) ? (unsigned)r.below(5) : 0), port};
  }
  asio::ip::address_v4::bytes_type b;
  for (auto& x : b) x = (unsigned char)(r.chance(20) ? 0 : r.chance(20) ? 255 : r.next());
  return {asio::ip::address_v4(b), port};
}

std::string text_arg(Rng& r, std::size_t lo, bool nuls)
{
  static const std::size_t edges[] = {1, 2, 127, 128, 200, 254, 255, 256, 257, 300, 511, 512, 600};
  std::size_t n = r.chance(30) ? edges[r.below(sizeof edges / sizeof *edges)] : r.size(60);
  if (n < lo) n = lo;
  std::string s = r.bytes(n);
  if (!nuls) for (auto& c : s) if (!c) c = 'n';
  return s;
}

Req make(Rng& r, int step)
{
  Req q;
  q.step = step;
  static const sk::command commands[] = {sk::command::connect, sk::command::bind, sk::command::bind_udp};
  static const sk::auth_method methods[] = {sk::auth_method::none, sk::auth_method::gssapi, sk::auth_method::username_password};
  q.code = (int)r.range(1, 3);
  q.cmd = commands[q.code - 1];
  if (r.chance(3)) { q.code = (int)r.below(256); q.cmd = (sk::command)q.code; }
  switch (step) {
  case v4_ip:
    q.ep = endpoint(r, r.chance(12)); q.user = text_arg(r, 0, r.chance(20));
    if (q.ep.address().is_v4() && q.user.find('\0') == std::string::npos) {
      const auto b = q.ep.address().to_v4().to_bytes();
      q.wire = u8(4) + u8(q.code) + be16(q.ep.port()) + std::string((const char*)b.data(), 4) + q.user + u8(0);
    }
    break;
  case v4_host:
    q.host = text_arg(r, 1, r.chance(10)); q.port = (uint16_t)(r.chance(20) ? 0 : r.next()); q.user = text_arg(r, 0, r.chance(20));
    if (q.user.find('\0') == std::string::npos && q.host.find('\0') == std::string::npos)
      q.wire = u8(4) + u8(q.code) + be16(q.port) + std::string("\0\0\0?", 4) + q.user + u8(0) + q.host + u8(0); // ?: any non-zero
    break;
  case greet: {
    const std::size_t n = r.chance(60) ? r.below(5) : r.chance(50) ? (std::size_t)r.range(250, 260) : r.below(700);
    std::string m;
    for (std::size_t i = 0; i < n; ++i) {
      const int c = (int)(r.chance(70) ? r.below(3) : r.below(256));
      q.methods.push_back(c < 3 ? methods[c] : (sk::auth_method)c); m += u8(c);
    }
    if (n >= 1 && n <= 255) q.wire = u8(5) + u8((int)n) + m;
    break; }
  case login:
    q.user = text_arg(r, 1, true); q.pass = text_arg(r, 1, true);
    if (q.user.size() <= 255 && q.pass.size() <= 255) q.wire = u8(1) + u8((int)q.user.size()) + q.user + u8((int)q.pass.size()) + q.pass;
    break;
  case v5_ip: {
    q.ep = endpoint(r, r.chance(50));
    q.wire = u8(5) + u8(q.code) + u8(0);
    if (q.ep.address().is_v4()) { const auto b = q.ep.address().to_v4().to_bytes(); *q.wire += u8(1) + std::string((const char*)b.data(), 4); }
    else { const auto b = q.ep.address().to_v6().to_bytes(); *q.wire += u8(4) + std::string((const char*)b.data(), 16); }
    *q.wire += be16(q.ep.port());
    break; }
  default:
    q.host = text_arg(r, 1, true); q.port = (uint16_t)(r.chance(20) ? 0 : r.next());
    if (q.host.size() <= 255) q.wire = u8(5) + u8(q.code) + u8(0) + u8(3) + u8((int)q.host.size()) + q.host + be16(q.port);
  }
  q.what = cat(names[step], " cmd ", q.code, " host[", q.host.size(), "] user[", q.user.size(), "] pass[", q.pass.size(), "] methods ", q.methods.size(), q.wire ? "" : " (not encodable)");
  return q;
}

bool same_request(const Req& q, const std::string& out)
{
  if (!q.wire || out.size() != q.wire->size()) return false;
  std::string a = out, b = *q.wire;
  if (q.step == v4_host) { if (!a[7]) return false; a[7] = b[7] = 1; }
  return a == b;
}

// ------------------------------------------------------------------ replies, by the specification
struct Verdict
{
  enum { ok, any_error, exact } kind;
  EC ec;
  std::size_t used = 0; // bytes of the reply, when ok
  int method = -1;
};

Verdict judge(int step, const std::string& s)
{
  auto B = [&](std::size_t i) { return (unsigned char)s[i]; };
  auto fail = [](EC e) { return Verdict{Verdict::exact, e}; };
  const Verdict some{Verdict::any_error, EC()};
  switch (step) {
  case v4_ip: case v4_host:
    if (s.size() < 8) return some;
    if (B(0) != 0) return some;
    switch (B(1)) { case 0x5a: return {Verdict::ok, EC(), 8}; case 0x5c: return fail(sk::error::identd_not_reachable); case 0x5d: return fail(sk::error::login_failed); default: return some; }
  case greet:
    if (s.size() < 2) return some;
    if (B(0) != 5) return fail(sk::error::invalid_version);
    if (B(1) == 0xff) return fail(sk::error::no_acceptable_auth_method);
    return {Verdict::ok, EC(), 2, B(1)};
  case login:
    if (s.size() < 2) return some;
    if (B(0) != 1) return fail(sk::error::invalid_auth_version);
    if (B(1) != 0) return fail(sk::error::login_failed);
    return {Verdict::ok, EC(), 2};
  default: {
    if (s.size() < 5) return some;
    std::size_t n = B(3) == 1 ? 10 : B(3) == 4 ? 22 : B(3) == 3 ? 7u + B(4) : 0;
    if (B(0) != 5) return n && s.size() >= n ? fail(sk::error::invalid_version) : some;
    if (B(1) != 0) {
      if (!n || s.size() < n) return some;
      switch (B(1)) {
      case 2: return fail(asio::error::no_permission);
      case 3: return fail(asio::error::network_unreachable);
      case 4: return fail(asio::error::host_unreachable);
      case 5: return fail(asio::error::connection_refused);
      case 6: return fail(asio::error::timed_out);
      case 7: return fail(sk::error::command_not_supported);
      case 8: return fail(asio::error::address_family_not_supported);
      default: return some;
      }
    }
    if (!n || s.size() < n) return some;
    return {Verdict::ok, EC(), n}; }
  }
}

std::string good_reply(Rng& r, int step)
{
  switch (step) {
  case v4_ip: case v4_host: return u8(0) + u8(0x5a) + r.bytes(6);
  case greet: return u8(5) + u8((int)(r.chance(70) ? r.below(3) : r.below(255)));
  case login: return u8(1) + u8(0);
  default: {
    std::string s = u8(5) + u8(0) + u8(r.chance(80) ? 0 : (int)r.below(256));
    switch (r.below(3)) {
    case 0: return s + u8(1) + r.bytes(6);
    case 1: return s + u8(4) + r.bytes(18);
    default: { std::size_t n = r.chance(15) ? 0 : r.chance(20) ? 255 : r.below(256); return s + u8(3) + u8((int)n) + r.bytes(n + 2); }
    } }
  }
}

std::string hostile_reply(Rng& r, int step)
{
  std::string s = good_reply(r, step);
  switch (r.below(8)) {
  case 0: return r.bytes(r.size(40));
  case 1: s.resize(r.below(s.size() + 1)); break;                                   // cut
  case 2: s[1] = (char)(r.chance(60) ? (step <= v4_host ? 0x58 + r.below(9) : r.below(12)) : r.below(256)); break; // status
  case 3: s[0] = (char)(r.chance(60) ? r.below(8) : r.below(256)); break;           // version
  case 4: if (s.size() > 3) s[3] = (char)(r.chance(60) ? r.below(8) : r.below(256)); break; // address type
  case 5: s[r.below(s.size())] = (char)r.next(); break;
  case 6: s[1] = (char)r.below(256); s.resize(r.below(s.size() + 1)); break;
  default: s[r.below(s.size())] ^= (char)(1u << r.below(8)); break;
  }
  return s;
}

// ------------------------------------------------------------------ running a step
struct Out { int calls = 0; EC ec = asio::error::fault; int method = -2; bool inside = false; bool wrong_executor = false; };

template <class S, class B, class H> void launch(S& s, const Req& q, B&& b, H&& h)
{
  switch (q.step) {
  case v4_ip: sk::async_execute(s, q.cmd, q.ep, q.user, std::forward<B>(b), std::forward<H>(h)); break;
  case v4_host: sk::async_execute(s, q.cmd, q.host, q.port, q.user, std::forward<B>(b), std::forward<H>(h)); break;
  case greet: sk::async_greet(s, q.methods.data(), q.methods.size(), std::forward<B>(b), std::forward<H>(h)); break;
  case login: sk::async_login(s, q.user, q.pass, std::forward<B>(b), std::forward<H>(h)); break;
  case v5_ip: sk::async_execute(s, q.cmd, q.ep, std::forward<B>(b), std::forward<H>(h)); break;
  default: sk::async_execute(s, q.cmd, q.host, q.port, std::forward<B>(b), std::forward<H>(h)); break;
  }
}

bool in_launch = false;
struct Hd
{
  std::shared_ptr<Out> o;
  asio::strand<asio::io_context::executor_type>* strand;
  void note(EC e) { ++o->calls; o->ec = e; o->inside |= in_launch; if (strand && !strand->running_in_this_thread()) o->wrong_executor = true; }
  void operator()(EC e) { note(e); }
  void operator()(EC e, sk::auth_method m) { note(e); o->method = (int)m; }
};

// arguments live in buffers that are gone as soon as the operation was started
struct Bufs
{
  int kind;
  std::size_t limit; // of the dynamic buffer
  asioext::linear_buffer lb;
  std::string str;
  std::vector<char> vec;
  std::unique_ptr<asio::streambuf> sb;
  static constexpr std::size_t unlimited = (std::numeric_limits<std::size_t>::max)();
  explicit Bufs(int k, std::size_t most = unlimited) : kind(k), limit(most), sb(new asio::streambuf(most)) {}
  void stale(const std::string& s)
  {
    switch (kind) {
    case 0: lb.append((const uint8_t*)s.data(), s.size()); break;
    case 1: str += s; break;
    case 2: vec.insert(vec.end(), s.begin(), s.end()); break;
    default: { auto b = sb->prepare(s.size()); asio::buffer_copy(b, asio::buffer(s)); sb->commit(s.size()); }
    }
  }
  std::size_t held() const { return kind == 0 ? lb.size() : kind == 1 ? str.size() : kind == 2 ? vec.size() : sb->size(); }
  template <class S, class H> void go(S& s, const Req& q, H&& h)
  {
    in_launch = true;
    { Req* copy = new Req(q); // freed right afterwards: the operation must not keep references to its arguments
      switch (kind) {
      case 0: if (limit == unlimited) launch(s, *copy, asioext::dynamic_buffer(lb), std::forward<H>(h));
              else launch(s, *copy, asioext::dynamic_linear_buffer<std::allocator<uint8_t>>(lb, limit), std::forward<H>(h));
              break;
      case 1: launch(s, *copy, asio::dynamic_buffer(str, limit), std::forward<H>(h)); break;
      case 2: launch(s, *copy, asio::dynamic_buffer(vec, limit), std::forward<H>(h)); break;
      default: launch(s, *copy, asio::basic_streambuf_ref<>(*sb), std::forward<H>(h)); break;
      }
      delete copy; }
    in_launch = false;
  }
};

EC transport_error(Rng& r)
{
  switch (r.below(4)) { case 0: return asio::error::connection_reset; case 1: return asio::error::eof; case 2: return asio::error::operation_aborted; default: return asio::error::timed_out; }
}

void run_step(Rng& r, asio::io_context& io, Wire& w, Bufs& bufs, const Req& q, const std::string& what, Out& out)
{
  auto o = std::make_shared<Out>();
  auto strand = asio::make_strand(io);
  Stream s{io.get_executor(), w};
  const int bind = (int)r.below(3);
  switch (bind) {
  case 0: bufs.go(s, q, Hd{o, nullptr}); break;
  case 1: bufs.go(s, q, asio::bind_executor(strand, Hd{o, &strand})); break;
  default: { Hd h{o, nullptr}; bufs.go(s, q, h); VH_CHECK((bool)h.o, "lvalue-handler-moved-from", what); break; }
  }
  VH_CHECK(o->calls == 0, "called-inside-initiating-function", what);
  uint64_t n = 0;
  try { while (n < 200000 && io.run_one()) ++n; }
  catch (const std::exception& e) { vh::violation("exception-escapes", cat(what, ": ", e.what())); return; }
  if (n >= 200000) vh::violation("never-ends", what);
  VH_CHECK(o->calls == 1, o->calls ? "called-twice" : "never-completed", what, ": ", o->calls);
  VH_CHECK(!o->wrong_executor, "wrong-executor", what);
  VH_CHECK(!w.overlapped && w.pending == 0, "overlapping-operations", what);
  VH_CHECK(o.use_count() == 1, "handler-leaked", what);
  VH_CHECK(!w.early_read, "read-before-request-complete", what);
  io.restart();
  out = *o;
}

// One step with a conforming server: everything is exact.
void conforming(Rng& r, int first, int last)
{
  asio::io_context io;
  Wire w;
  w.r = Rng(r.next());
  w.frag = (int)r.below(3);
  Bufs bufs((int)r.below(4));
  const int n = (int)r.range(1, 4);
  std::string hist = cat("buffer ", bufs.kind, " fragments ", w.frag);
  if (r.chance(25)) { bufs.stale(r.bytes(r.range(1, 40))); hist += "; stale bytes in buffer"; }
  for (int i = 0; i < n; ++i) {
    const Req q = make(r, (int)r.range(first, last));
    hist += "; " + q.what;
    vh::current(hist);
    const std::string reply = good_reply(r, q.step), tail = r.chance(60) ? r.bytes(r.size(60)) : std::string();
    w.in = reply + tail; w.pos = 0; w.out.clear(); w.ops = 0;
    w.end = asio::error::eof;
    w.need = q.wire ? q.wire->size() : 0;
    // a retry on the same buffer after the connection failed while sending
    w.fail_write_at = ~std::size_t(0);
    if (q.wire && r.chance(15)) {
      w.fail_write_at = r.below(q.wire->size()); w.write_error = transport_error(r); hist += cat(" (write fails at ", w.fail_write_at, ")");
      Out o; w.need = 0;
      run_step(r, io, w, bufs, q, hist, o);
      VH_CHECK(o.ec == w.write_error, "transport-error-lost", hist, ": ", text(o.ec), " want ", text(w.write_error));
      VH_CHECK(w.out == q.wire->substr(0, w.out.size()) || q.step == v4_host, "wrong-request", hist);
      w.fail_write_at = ~std::size_t(0); w.out.clear(); w.pos = 0; w.need = q.wire->size();
      vh::count("retries");
    }
    Out o;
    run_step(r, io, w, bufs, q, hist, o);
    vh::count(cat("step:", names[q.step]));
    if (!q.wire) {
      VH_CHECK((bool)o.ec, "unencodable-accepted", hist, ": sent ", vh::show(w.out));
      VH_CHECK(w.out.empty() && w.ops == 0, "unencodable-partly-sent", hist, ": sent ", vh::show(w.out));
      vh::count("rejected-arguments");
      continue;
    }
    VH_CHECK(same_request(q, w.out), "wrong-request", hist, ": sent ", vh::show(w.out), " want ", vh::show(*q.wire));
    VH_CHECK(!o.ec, "positive-reply-reported-as-error", hist, ": ", text(o.ec), " reply ", vh::show(reply));
    VH_CHECK(w.pos == reply.size(), "reply-not-consumed-exactly", hist, ": took ", w.pos, " of ", reply.size());
    VH_CHECK(bufs.held() == 0, "reply-left-in-buffer", hist, ": ", bufs.held(), " bytes");
    if (q.step == greet) VH_CHECK(o.method == (unsigned char)reply[1], "wrong-method", hist, ": ", o.method, " want ", (int)(unsigned char)reply[1]);
    vh::count("succeeded");
    if (q.ep.address().is_v6()) vh::count("v6-targets");
  }
  vh::distinct(vh::hash_str(hist));
  static int shown = 0;
  if (shown++ < 2) vh::sample(hist);
}
}

VH_GROUP(v4) { vh::run_cases([&](Rng& r, uint64_t) { conforming(r, v4_ip, v4_host); }); }
VH_GROUP(v5) { vh::run_cases([&](Rng& r, uint64_t) { conforming(r, greet, v5_host); }); }

// Hostile servers
namespace {
void hostile(int first, int last)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    asio::io_context io;
    Wire w;
    w.r = Rng(r.next());
    w.frag = (int)r.below(3);
    Req q;
    do q = make(r, (int)r.range(first, last)); while (!q.wire);
    const std::string old = r.chance(10) ? r.bytes(r.range(1, 40)) : std::string();
    // a buffer with just enough space for the request
    const bool limited = r.chance(15);
    Bufs bufs((int)r.below(4), limited ? std::max(q.wire->size(), old.size()) + r.below(20) : Bufs::unlimited);
    if (!old.empty()) bufs.stale(old);
    w.in = hostile_reply(r, q.step);
    const Verdict whole = judge(q.step, w.in);
    w.end = transport_error(r);
    w.need = q.wire->size();
    const std::string what = cat(q.what, " reply ", vh::show(w.in), " then ", text(w.end), " fragments ", w.frag, limited ? cat(" buffer limit ", bufs.limit) : std::string());
    vh::current(what);
    Out o;
    run_step(r, io, w, bufs, q, what, o);
    VH_CHECK(same_request(q, w.out), "wrong-request", what);
    if (limited) vh::count("limited-buffers");
    if (limited && q.step >= v5_ip && w.in.size() >= 5 && w.in[0] == 5 && w.in[1] == 0) {
      const unsigned char type = (unsigned char)w.in[3], len = (unsigned char)w.in[4];
      if ((type == 3 ? len + 2u : type == 4 ? 17u : type == 1 ? 5u : 0u) > bufs.limit) { // the reply need not fit
        if (!o.ec) VH_CHECK(whole.kind == Verdict::ok && w.pos == whole.used, "negative-reply-accepted", what);
        vh::count("reply-larger-than-buffer");
        return;
      }
    }
    switch (whole.kind) {
    case Verdict::ok:
      VH_CHECK(!o.ec, "positive-reply-reported-as-error", what, ": ", text(o.ec));
      VH_CHECK(w.pos == whole.used, "reply-not-consumed-exactly", what, ": ", w.pos);
      if (q.step == greet) VH_CHECK(o.method == whole.method, "wrong-method", what);
      vh::count("accepted");
      break;
    case Verdict::any_error:
      VH_CHECK((bool)o.ec, "negative-reply-accepted", what);
      vh::count("refused");
      break;
    default:
      VH_CHECK((bool)o.ec, "negative-reply-accepted", what);
      VH_CHECK(o.ec == whole.ec, "wrong-error", what, ": ", text(o.ec), " want ", text(whole.ec));
      vh::count(cat("status:", text(whole.ec)));
    }
    if (o.ec && q.step == greet) VH_CHECK(o.method == (int)sk::auth_method::no_acceptable, "method-with-error", what, ": ", o.method);
    vh::distinct(vh::hash_str(names[q.step] + w.in));
    static int shown = 0;
    if (shown++ < 3) vh::sample(what);
  });
}
}
VH_GROUP(hostile4) { hostile(v4_ip, v4_host); }
VH_GROUP(hostile5) { hostile(greet, v5_host); }

// Every prefix of a good reply, with every error behind it, and every value of every byte of the fixed part
namespace {
void cuts(int first, int last)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    const int step = (int)r.range(first, last);
    Req q;
    do q = make(r, step); while (!q.wire);
    const std::string good = good_reply(r, step);
    auto one = [&](const std::string& in, bool cut) {
      asio::io_context io;
      Wire w;
      w.r = Rng(r.next());
      w.frag = (int)r.below(3);
      w.in = in; w.end = transport_error(r); w.need = q.wire->size();
      Bufs bufs((int)r.below(4));
      const std::string what = cat(q.what, " reply ", vh::show(in), " then ", text(w.end));
      vh::current(what);
      Out o;
      run_step(r, io, w, bufs, q, what, o);
      const Verdict v = judge(step, in);
      VH_CHECK((v.kind == Verdict::ok) == !o.ec, v.kind == Verdict::ok ? "positive-reply-reported-as-error" : "negative-reply-accepted", what, ": ", text(o.ec));
      if (v.kind == Verdict::exact) VH_CHECK(o.ec == v.ec, "wrong-error", what, ": ", text(o.ec), " want ", text(v.ec));
      if (cut) VH_CHECK(o.ec == w.end, "transport-error-lost", what, ": ", text(o.ec), " want ", text(w.end));
      vh::count(cut ? "cuts" : "edits");
    };
    for (std::size_t n = 0; n < good.size(); n += 1 + (n > 24 ? r.below(40) : 0)) one(good.substr(0, n), true);
    // failing while sending
    for (int i = 0; i < 3; ++i) {
      asio::io_context io; Wire w; w.r = Rng(r.next()); w.frag = (int)r.below(3); w.in = good;
      w.fail_write_at = r.below(q.wire->size()); w.write_error = transport_error(r);
      Bufs bufs((int)r.below(4)); Out o;
      const std::string what = cat(q.what, " write fails at ", w.fail_write_at);
      vh::current(what);
      run_step(r, io, w, bufs, q, what, o);
      VH_CHECK(o.ec == w.write_error, "transport-error-lost", what, ": ", text(o.ec));
      VH_CHECK(w.reads == 0, "read-before-request-complete", what);
      vh::count("write-failures");
    }
    const std::size_t fixed = std::min<std::size_t>(good.size(), 5);
    for (std::size_t i = 0; i < fixed; ++i) {
      const int stride = (int)r.range(1, 5);
      for (int v = 0; v < 256; v += v < 16 || (v > 0x56 && v < 0x60) ? 1 : stride) { std::string s = good; s[i] = (char)v; one(s, false); }
    }
    vh::distinct(vh::hash_str(q.what + good));
  });
  vh::sample("every prefix of a positive reply followed by each transport error; single-byte edits of the fixed part; failing writes");
}
}
VH_GROUP(cuts4) { cuts(v4_ip, v4_host); }
VH_GROUP(cuts5) { cuts(greet, v5_host); }

// The context goes away in the middle of a step
VH_GROUP(abandon)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    auto o = std::make_shared<Out>();
    std::string what;
    {
      Wire w;
      w.r = Rng(r.next()); w.frag = (int)r.below(3);
      Bufs bufs((int)r.below(4));
      Req q = make(r, (int)r.below(steps));
      w.in = r.chance(70) ? good_reply(r, q.step) : hostile_reply(r, q.step);
      asio::io_context io;
      Stream s{io.get_executor(), w};
      const int k = (int)r.below(12);
      what = cat(q.what, " abandoned after ", k);
      vh::current(what);
      bufs.go(s, q, Hd{o, nullptr});
      for (int i = 0; i < k; ++i) io.poll_one();
    }
    VH_CHECK(o->calls <= 1, "called-twice", what);
    VH_CHECK(o.use_count() == 1, "handler-leaked", what);
    vh::count(o->calls ? "completed-before" : "abandoned");
    vh::distinct(vh::hash_str(what));
  });
}

// Whole sessions over loopback TCP, with futures and coroutines, against a server thread
VH_GROUP(session)
{
  using asio::ip::tcp;
  vh::run_cases([&](Rng& r, uint64_t) {
    asio::io_context io;
    tcp::acceptor acc(io, tcp::endpoint(asio::ip::address_v4::loopback(), 0));
    const bool five = r.chance(60);
    std::vector<Req> qs;
    std::vector<std::string> replies;
    auto add = [&](int s) { Req q; do { q = make(r, s); if (s == greet && !q.methods.empty()) q.methods[0] = sk::auth_method::username_password; if (s == greet && q.wire && q.wire->size() > 2) (*q.wire)[2] = 2; } while (!q.wire); qs.push_back(q); replies.push_back(good_reply(r, s)); };
    if (five) { add(greet); replies[0] = u8(5) + u8(2); add(login); add(r.chance(50) ? v5_ip : v5_host); } else add(r.chance(50) ? v4_ip : v4_host);
    const std::string payload = r.bytes(r.range(1, 400)), answer = r.bytes(r.range(1, 400));
    const int tok = (int)r.below(3), frag = (int)r.below(3);
    const uint64_t sseed = r.next();
    std::string what = cat("session token ", tok, " fragments ", frag);
    for (auto& q : qs) what += "; " + q.what;
    vh::current(what);
    std::string trouble;
    std::thread server([&] {
      try {
        Rng sr(sseed);
        asio::io_context sio;
        tcp::socket c = acc.accept(sio);
        c.set_option(tcp::no_delay(true));
        for (std::size_t i = 0; i < qs.size(); ++i) {
          std::string got(qs[i].wire->size(), 0);
          asio::read(c, asio::buffer(got));
          if (!same_request(qs[i], got)) trouble += cat(" request ", i, " ", vh::show(got));
          // proxied data may follow in the same segment
          const std::string s = i + 1 == qs.size() ? replies[i] + answer : replies[i];
          for (std::size_t p = 0; p < s.size();) { std::size_t n = frag == 0 ? s.size() : frag == 1 && s.size() < 40 ? 1 : (std::size_t)sr.range(1, (int64_t)(s.size())); n = std::min(n, s.size() - p); asio::write(c, asio::buffer(s.data() + p, n)); p += n; }
        }
        std::string got(payload.size(), 0);
        asio::read(c, asio::buffer(got));
        if (got != payload) trouble += " payload";
        asioext::error_code ec; char b; if (asio::read(c, asio::buffer(&b, 1), ec) != 0) trouble += " extra bytes";
      } catch (const std::exception& e) { trouble += e.what(); }
    });
    tcp::socket s(io);
    s.connect(acc.local_endpoint());
    asioext::linear_buffer lb;
    EC bad;
    sk::auth_method method = sk::auth_method::no_acceptable;
    for (std::size_t i = 0; i < qs.size() && !bad; ++i) {
      const Req& q = qs[i];
      if (tok == 0) {
        Out o; auto so = std::make_shared<Out>();
        launch(s, q, asioext::dynamic_buffer(lb), Hd{so, nullptr});
        io.restart(); io.run();
        VH_CHECK(so->calls == 1, "never-completed", what);
        bad = so->ec; if (q.step == greet) method = (sk::auth_method)so->method;
      } else if (tok == 1) {
        try {
          if (q.step == greet) { auto f = sk::async_greet(s, q.methods.data(), q.methods.size(), asioext::dynamic_buffer(lb), asio::use_future); io.restart(); io.run(); method = f.get(); }
          else {
            std::future<void> f;
            switch (q.step) {
            case v4_ip: f = sk::async_execute(s, q.cmd, q.ep, q.user, asioext::dynamic_buffer(lb), asio::use_future); break;
            case v4_host: f = sk::async_execute(s, q.cmd, q.host, q.port, q.user, asioext::dynamic_buffer(lb), asio::use_future); break;
            case login: f = sk::async_login(s, q.user, q.pass, asioext::dynamic_buffer(lb), asio::use_future); break;
            case v5_ip: f = sk::async_execute(s, q.cmd, q.ep, asioext::dynamic_buffer(lb), asio::use_future); break;
            default: f = sk::async_execute(s, q.cmd, q.host, q.port, asioext::dynamic_buffer(lb), asio::use_future); break;
            }
            io.restart(); io.run(); f.get();
          }
        } catch (const vh::system_error& e) { bad = e.code(); }
      } else {
#ifndef VH_NO_CORO
        asio::co_spawn(io, [&]() -> asio::awaitable<void> {
          try {
            switch (q.step) {
            case greet: method = co_await sk::async_greet(s, q.methods.data(), q.methods.size(), asioext::dynamic_buffer(lb), asio::use_awaitable); break;
            case login: co_await sk::async_login(s, q.user, q.pass, asioext::dynamic_buffer(lb), asio::use_awaitable); break;
            case v4_ip: co_await sk::async_execute(s, q.cmd, q.ep, q.user, asioext::dynamic_buffer(lb), asio::use_awaitable); break;
            case v4_host: co_await sk::async_execute(s, q.cmd, q.host, q.port, q.user, asioext::dynamic_buffer(lb), asio::use_awaitable); break;
            case v5_ip: co_await sk::async_execute(s, q.cmd, q.ep, asioext::dynamic_buffer(lb), asio::use_awaitable); break;
            default: co_await sk::async_execute(s, q.cmd, q.host, q.port, asioext::dynamic_buffer(lb), asio::use_awaitable); break;
            }
          } catch (const vh::system_error& e) { bad = e.code(); }
        }, asio::detached);
        io.restart(); io.run();
#endif
      }
    }
    VH_CHECK(!bad, "positive-reply-reported-as-error", what, ": ", text(bad));
    if (five && !bad) VH_CHECK(method == sk::auth_method::username_password, "wrong-method", what);
    if (!bad) {
      EC ec;
      asio::write(s, asio::buffer(payload), ec);
      std::string got(answer.size(), 0);
      asio::read(s, asio::buffer(got), ec);
      VH_CHECK(!ec && got == answer, "proxied-data-damaged", what, ": ", text(ec));
    }
    { EC ec; s.shutdown(tcp::socket::shutdown_both, ec); s.close(ec); }
    server.join();
    VH_CHECK(trouble.empty(), "wrong-request", what, ":", trouble);
    vh::count(five ? "v5-sessions" : "v4-sessions");
    vh::distinct(vh::hash_str(what));
    static int shown = 0;
    if (shown++ < 2) vh::sample(what);
  });
}

// Error codes and their texts
VH_GROUP(errors)
{
  vh::run_cases([&](Rng&, uint64_t) {
    std::set<std::string> seen;
    for (int v = 1; v <= 7; ++v) {
      const EC e = sk::make_error_code((sk::error)v);
      VH_CHECK(e && e.value() == v && &e.category() == &sk::get_error_category(), "wrong-error-code", "value ", v);
      VH_CHECK(EC((sk::error)v) == e, "wrong-error-code", "conversion of value ", v);
      const std::string m = e.message();
      VH_CHECK(!m.empty() && seen.insert(m).second, "indistinct-error-message", "value ", v, " ", m);
      vh::count("error-codes");
    }
    VH_CHECK(!EC(sk::error::none), "wrong-error-code", "none");
    VH_CHECK(std::string(sk::get_error_category().name()).size() > 0, "wrong-error-code", "category name");
    (void)sk::get_error_category().message(12345); (void)sk::get_error_category().message(-1);
    vh::distinct(7);
  });
  vh::sample("all SOCKS error values, their category, conversions and messages");
}
VH_MAIN
