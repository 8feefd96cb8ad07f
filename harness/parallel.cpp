// C26: every component used from several threads at once, each thread with objects of its own. What a thread computed
// must be what it computes alone (ThreadSanitizer watches for memory the objects share in secret).
#include "common.hpp"
#include <asio.hpp>
#include <asioext/asioext.hpp>
#include <asioext/compose.hpp>
#include <asioext/bind_handler.hpp>
#include <asioext/unique_handler.hpp>
#include <asioext/connect.hpp>
#include <asioext/duplicate.hpp>
#include <asioext/linear_buffer.hpp>
#include <asioext/error.hpp>
#include <asioext/open.hpp>
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
#include <asioext/standard_streams.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/url_view.hpp>
#include <asioext/chrono.hpp>
#include <asioext/detail/chrono.hpp>
#include <asioext/socks/client.hpp>
#include <asioext/experimental/buffered_stream.hpp>
#include <barrier>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using vh::Rng;
using vh::cat;
namespace sk = asioext::socks;
typedef asioext::error_code EC;
typedef asioext::open_flags OF;

namespace {
// An in-memory stream: delivers in, keeps what is written in out, in pieces.
struct Mem
{
  std::string in, out;
  std::size_t pos = 0, piece = ~std::size_t(0);
  template <class B> std::size_t read(const B& b, EC& ec)
  {
    const std::size_t want = std::min(asio::buffer_size(b), piece);
    ec = EC();
    if (want == 0) return 0;
    if (pos == in.size()) { ec = asio::error::eof; return 0; }
    const std::size_t n = asio::buffer_copy(b, asio::buffer(in.data() + pos, std::min(want, in.size() - pos)));
    pos += n;
    return n;
  }
  template <class B> std::size_t write(const B& b, EC& ec)
  {
    std::string s(std::min(asio::buffer_size(b), piece), 0);
    asio::buffer_copy(asio::buffer(s), b);
    out += s;
    ec = EC();
    return s.size();
  }
};
struct Low { typedef asio::io_context::executor_type executor_type; executor_type ex; executor_type get_executor() const { return ex; } };
struct Stream
{
  typedef Low lowest_layer_type;
  typedef Low::executor_type executor_type;
  Low low; Mem* m;
  Stream(const std::pair<Low, Mem*>& p) : low(p.first), m(p.second) {}
  lowest_layer_type& lowest_layer() { return low; }
  const lowest_layer_type& lowest_layer() const { return low; }
  executor_type get_executor() { return low.ex; }
  void close() {}
  void close(EC& ec) { ec = EC(); }
  template <class B> std::size_t read_some(const B& b, EC& ec) { return m->read(b, ec); }
  template <class B> std::size_t write_some(const B& b, EC& ec) { return m->write(b, ec); }
  template <class H> void finish(H&& h, EC ec, std::size_t n)
  { asio::post(low.ex, [h = std::forward<H>(h), ec, n]() mutable { h(ec, n); }); }
  template <class B, class T> auto async_read_some(B b, T&& t)
  { return asio::async_initiate<T, void(EC, std::size_t)>([this](auto h, B b) { EC ec; const std::size_t n = m->read(b, ec); finish(std::move(h), ec, n); }, t, b); }
  template <class B, class T> auto async_write_some(B b, T&& t)
  { return asio::async_initiate<T, void(EC, std::size_t)>([this](auto h, B b) { EC ec; const std::size_t n = m->write(b, ec); finish(std::move(h), ec, n); }, t, b); }
};

std::string be16(unsigned v) { return std::string(1, (char)(v >> 8)) + (char)v; }

struct Hops
{
  asio::io_context* io; int left;
  template <class Self> void operator()(Self& self)
  {
    if (left-- > 0) { asio::post(*io, std::move(self)); return; }
    asio::post(*io, self.complete_to_bound_handler(EC(asio::error::eof), std::string("done")));
  }
};

const int kinds = 15;
std::atomic<uint64_t> done[kinds];
const char* const names[kinds] = {"metadata", "positions", "whole-files", "open-flags", "throwing-forms", "socks4", "socks5", "buffered-streams", "composed", "unique-handlers",
                                  "urls", "times", "dynamic-buffers", "connect", "named-things"};

uint64_t work(uint64_t seed, const std::string& dir)
{
  Rng r(seed);
  uint64_t h = seed;
  auto add = [&](uint64_t v) { h = vh::mix(h ^ v); };
  auto adds = [&](const std::string& s) { add(vh::hash_str(s)); };
  auto adde = [&](const EC& e) { add(e.value()); adds(e.category().name()); };
  const std::string p = cat(dir, "/p", seed), q = p + "q";
  const std::string content = r.bytes(r.range(1, 3000));
  { EC ec; asioext::write_file(p.c_str(), asio::buffer(content), ec); adde(ec); }
  asio::io_context io(1);
  for (int s = (int)r.range(4, 14); s > 0; --s) {
    EC ec = asio::error::fault;
    const int what = (int)r.below(kinds);
    done[what].fetch_add(1, std::memory_order_relaxed);
    switch (what) {
    case 0: { // what a file says about itself, and what it is told
      asioext::unique_file_handle f = asioext::open(p.c_str(), OF::access_read_write | OF::open_existing, ec); adde(ec);
      add(f.size(ec)); adde(ec);
      typedef asioext::file_time_type T;
      asioext::file_times t;
      t.atime = T(T::duration((int64_t)r.below(4000000000ull) * 10000000));
      t.mtime = T(T::duration((int64_t)r.below(4000000000ull) * 10000000 + (int64_t)r.below(10000000)));
      f.times(t, ec); adde(ec);
      const asioext::file_times g = f.times(ec); adde(ec);
      add(g.atime.time_since_epoch().count()); add(g.mtime.time_since_epoch().count());
      VH_CHECK(g.atime == t.atime && g.mtime == t.mtime, "interference", "times");
      const auto perm = static_cast<asioext::file_perms>(0600 | r.below(0200));
      f.permissions(perm, ec); adde(ec);
      VH_CHECK(f.permissions(ec) == perm, "interference", "permissions");
      f.permissions(asioext::file_perms::owner_read, asioext::file_perm_options::add, ec); adde(ec);
      add(static_cast<unsigned>(f.permissions(ec)));
      add(static_cast<unsigned>(f.attributes(ec))); add(ec.value() != 0);
      break; }
    case 1: {
      asioext::unique_file_handle f = asioext::open(p.c_str(), OF::access_read_write | OF::open_existing, ec); adde(ec);
      for (int k = 0; k < 6; ++k)
        switch (r.below(6)) {
        case 0: add(f.seek(asioext::seek_origin::from_begin, r.below(3000), ec)); adde(ec); break;
        case 1: add(f.seek(asioext::seek_origin::from_end, -(int64_t)r.below(content.size()), ec)); adde(ec); break;
        case 2: add(f.position(ec)); adde(ec); break;
        case 3: { std::string a(r.below(200), 0), b(r.below(200), 0); std::array<asio::mutable_buffer, 2> v{asio::buffer(a), asio::buffer(b)}; add(f.read_some(v, ec)); adde(ec); adds(a + b); break; }
        case 4: { const std::string a = r.bytes(r.below(50)); add(f.write_some_at(r.below(100), asio::buffer(a), ec)); adde(ec); break; }
        default: { auto d = asioext::duplicate(f.get(), ec); adde(ec); asioext::unique_file_handle own(std::move(d)); add(own.size(ec)); adde(ec); break; }
        }
      f.truncate(content.size(), ec); adde(ec);
      break; }
    case 2: {
      const std::string w = r.bytes(r.below(2000));
      asioext::write_file(q.c_str(), asio::buffer(w), ec); adde(ec);
      std::string a; asioext::read_file(q.c_str(), a, ec); adde(ec);
      VH_CHECK(a == w, "interference", "whole file");
      std::vector<char> b; asioext::read_file(q.c_str(), b, ec); adde(ec); add(b.size());
      std::string c(w.size(), 0); asioext::read_file(q.c_str(), asio::buffer(c), ec); adde(ec); add(c == w);
      break; }
    case 3: {
      ::unlink(q.c_str());
      static const OF how[] = {OF::create_new, OF::create_always, OF::open_existing, OF::open_always, OF::truncate_existing};
      static const OF acc[] = {OF::access_read, OF::access_write, OF::access_read_write, OF::none};
      for (int k = 0; k < 5; ++k) {
        const OF fl = how[r.below(5)] | acc[r.below(4)];
        asioext::open_args args(fl, static_cast<asioext::file_perms>(0600 | r.below(0100)));
        add(args.is_valid());
        asioext::unique_file_handle f = asioext::open(q.c_str(), args, ec); adde(ec); add(f.is_open());
        struct stat st; add(::stat(q.c_str(), &st) ? 1 : st.st_mode & 0777);
      }
      ::unlink(q.c_str());
      break; }
    case 4:
      try { asioext::open(cat("/nonexistent/", r.below(100)).c_str(), OF::access_read | OF::open_existing); add(1); } catch (const std::exception& e) { adds(e.what()); }
      try { asioext::url_view v("http://exa mple/"); add(1); } catch (const std::exception& e) { adds(e.what()); }
      try { asioext::linear_buffer b(0, 10); b.resize(r.range(8, 13)); add(2); } catch (const std::exception& e) { adds(e.what()); }
      try { asioext::unique_handler<void(int)> u; u.complete(1); add(3); } catch (const std::exception& e) { adds(e.what()); }
      try { asioext::file_handle f(-1); f.size(); add(4); } catch (const std::exception& e) { adds(e.what()); }
      break;
    case 5: {
      Mem m; m.piece = r.chance(50) ? ~std::size_t(0) : (std::size_t)r.range(1, 4);
      m.in = std::string(1, '\0') + (char)(0x5a + r.below(5)) + r.bytes(6);
      Stream st({Low{io.get_executor()}, &m});
      std::string user = r.bytes(r.below(40)), host = r.bytes(r.range(1, 80)), buf;
      for (auto& c : user) if (!c) c = 'u';
      for (auto& c : host) if (!c) c = 'h';
      const uint16_t port = (uint16_t)r.next();
      EC got = asio::error::fault; int calls = 0;
      auto handler = [&](EC e) { got = e; ++calls; };
      if (r.chance(50)) {
        sk::async_execute(st, sk::command::connect, host, port, user, asio::dynamic_buffer(buf), handler);
        io.restart(); io.run();
        VH_CHECK(m.out == std::string("\4\1") + be16(port) + std::string("\0\0\0\1", 4) + user + '\0' + host + '\0', "interference", "socks4 request");
      } else {
        const asio::ip::address_v4 a((unsigned)r.next());
        sk::async_execute(st, sk::command::bind, asio::ip::tcp::endpoint(a, port), user, asio::dynamic_buffer(buf), handler);
        io.restart(); io.run();
        auto b = a.to_bytes();
        VH_CHECK(m.out == std::string("\4\2") + be16(port) + std::string((const char*)b.data(), 4) + user + '\0', "interference", "socks4 request");
      }
      add(calls); adde(got); adds(got.message()); adds(m.out);
      break; }
    case 6: {
      Mem m; m.piece = r.chance(50) ? ~std::size_t(0) : (std::size_t)r.range(1, 5);
      Stream st({Low{io.get_executor()}, &m});
      std::string buf;
      std::vector<sk::auth_method> methods(r.range(1, 200));
      for (auto& x : methods) x = static_cast<sk::auth_method>(r.below(256));
      std::string want = std::string(1, 5) + (char)methods.size();
      for (auto x : methods) want += (char)x;
      m.in = std::string(1, 5) + (char)r.below(256);
      EC got = asio::error::fault; sk::auth_method chosen = sk::auth_method::none;
      sk::async_greet(st, methods.data(), methods.size(), asio::dynamic_buffer(buf), [&](EC e, sk::auth_method a) { got = e; chosen = a; });
      io.restart(); io.run();
      VH_CHECK(m.out == want, "interference", "socks5 greeting");
      adde(got); add(static_cast<unsigned>(chosen));
      m.out.clear(); m.in = std::string(1, 1) + (char)r.below(2); m.pos = 0;
      const std::string user = r.bytes(r.below(256)), pass = r.bytes(r.below(256));
      sk::async_login(st, user, pass, asio::dynamic_buffer(buf), [&](EC e) { got = e; });
      io.restart(); io.run();
      VH_CHECK(m.out == std::string(1, 1) + (char)user.size() + user + (char)pass.size() + pass, "interference", "socks5 login");
      adde(got);
      m.out.clear(); m.pos = 0;
      const std::string host = r.bytes(r.range(1, 200));
      const uint16_t port = (uint16_t)r.next();
      const std::string bound = r.bytes(r.below(256));
      m.in = std::string("\5", 1) + (char)r.below(r.chance(50) ? 1 : 10) + '\0' + '\3' + (char)bound.size() + bound + be16(80);
      sk::async_execute(st, sk::command::connect, host, port, asio::dynamic_buffer(buf), [&](EC e) { got = e; });
      io.restart(); io.run();
      VH_CHECK(m.out == std::string("\5\1\0\3", 4) + (char)host.size() + host + be16(port), "interference", "socks5 request");
      adde(got); adds(got.message()); add(m.pos);
      break; }
    case 7: {
      Mem m; m.piece = (std::size_t)r.range(1, 300);
      asioext::buffered_stream<Stream> bs(std::pair<Low, Mem*>(Low{io.get_executor()}, &m));
      m.in = r.bytes(r.range(1, 1000));
      std::string sent;
      for (int k = 0; k < 4; ++k) {
        const std::string w = r.bytes(r.below(300));
        bs.write_buffer().append(w.data(), w.size()); sent += w;
        if (r.chance(50)) { add(bs.flush(ec)); adde(ec); }
        else { bs.async_flush([&](EC e, std::size_t n) { adde(e); add(n); }); io.restart(); io.run(); }
        add(bs.can_flush()); add(bs.flush_pending());
        if (r.chance(50)) { bs.fill(ec); adde(ec); }
        else { bs.async_fill([&](EC e, std::size_t) { adde(e); }); io.restart(); io.run(); }
      }
      VH_CHECK(m.out == sent, "interference", "flushed bytes");
      VH_CHECK(std::string(bs.read_buffer().begin(), bs.read_buffer().end()) == m.in.substr(0, m.pos), "interference", "filled bytes");
      adds(m.out);
      break; }
    case 8: {
      int calls = 0;
      for (int k = 0; k < 5; ++k) {
        auto op = asioext::make_composed_operation(Hops{&io, (int)r.below(5)}, [&](EC e, const std::string& x) { ++calls; adde(e); adds(x); }, io.get_executor());
        if (r.chance(50)) asio::post(io, std::move(op)); else op();
        const uint64_t v = r.next();
        asio::post(io, asioext::bind_handler([&, v](uint64_t a, const std::string& b) { ++calls; add(a == v); adds(b); }, v, std::string("bound")));
      }
      io.restart(); io.run();
      add(calls);
      break; }
    case 9: {
      asioext::unique_handler<void(int, std::string)> u, v;
      int calls = 0;
      for (int k = 0; k < 8; ++k) {
        const uint64_t x = r.next();
        switch (r.below(4)) {
        case 0: u = [&, x, pad = std::array<char, 100>()](int a, std::string b) { ++calls; add(x + a + pad[5]); adds(b); }; break;
        case 1: v = std::move(u); break;
        case 2: u.reset(); break;
        default: if (v) v.complete((int)k, "arg"); break;
        }
        add(!!u); add(!!v);
      }
      add(calls);
      break; }
    case 10:
      for (int k = 0; k < 20; ++k) {
        std::string host = r.chance(50) ? cat("h", r.below(100000), ".example") : cat("[fe80::", r.below(9999), "%25eth", r.below(9), "]");
        std::string u = cat("sch", r.below(10), "://u", r.below(100), ":p@", host, ":", r.below(66000), "/p", r.below(1000), "?q=", r.below(1000), "#f", r.below(1000));
        if (r.chance(20)) u[r.below(u.size())] = (char)r.next();
        asioext::url_view v(u, ec);
        adde(ec); adds(ec.message());
        if (!ec) { adds(std::string(v.host())); adds(std::string(v.path())); adds(std::string(v.query())); adds(std::string(v.userinfo())); add(v.port_value()); adds(std::string(v.fragment())); adds(std::string(v.scheme())); }
      }
      break;
    case 11:
      for (int k = 0; k < 30; ++k) {
        namespace ch = asioext::chrono;
        asioext::file_time_type::duration d;
        const int64_t sec = (int64_t)r.next() >> r.below(40);
        const bool ok = asioext::detail::compose_time(ch::seconds(sec), ch::nanoseconds(r.below(1000000000)), d);
        add(ok);
        if (!ok) continue;
        add(d.count());
        ch::seconds s2; ch::nanoseconds n2;
        const bool back = asioext::detail::decompose_time(d, s2, n2);
        VH_CHECK(back && s2.count() == sec, "interference", "times composed from ", sec);
        add(n2.count());
      }
      break;
    case 12: {
      asioext::linear_buffer b(0, 5000);
      auto db = asioext::dynamic_buffer(b);
      std::string model;
      for (int k = 0; k < 12; ++k) {
        const std::string w = r.bytes(r.below(300));
        switch (r.below(4)) {
        case 0: case 1: { auto x = db.prepare(w.size(), ec); adde(ec); if (ec) break; std::memcpy(x.data(), w.data(), w.size()); db.commit(w.size()); model += w; break; }
        case 2: { const std::size_t n = r.below(400); db.consume(n); model.erase(0, n); break; }
        default: adds(std::string(static_cast<const char*>(db.data().data()), db.size())); break;
        }
        VH_CHECK(db.size() == model.size() && std::memcmp(db.data().data(), model.data(), model.size()) == 0, "interference", "dynamic buffer");
      }
      asioext::linear_buffer c(b), d(std::move(b));
      c.insert(c.size() / 2, "mid", 3); adds(std::string(c.begin(), c.end())); add(d.size());
      break; }
    case 13: {
      if (!r.chance(25)) break; // (system calls, a thread of the resolver)
      asio::ip::tcp::acceptor acc(io, asio::ip::tcp::endpoint(asio::ip::address_v4::loopback(), 0));
      asio::ip::tcp::socket so(io);
      asio::ip::tcp::resolver re(io);
      const std::string port = std::to_string(acc.local_endpoint().port());
      if (r.chance(50)) asioext::connect(so, re, "127.0.0.1", port, {}, ec);
      else { asioext::async_connect(so, re, "127.0.0.1", port, {}, [&](EC e, asio::ip::tcp::endpoint x) { ec = e; add(x.address() == asio::ip::address_v4::loopback()); }); io.restart(); io.run(); }
      adde(ec); add(so.is_open());
      break; }
    default: { // names, constants, categories
      adds(asioext::url_error_category().name());
      for (int v = 0; v < 12; ++v) { adds(asioext::url_error_category().message(v)); adds(sk::get_error_category().message(v)); }
      asioext::file_handle in = asioext::get_stdin(ec); add(in.is_open()); asioext::get_stdout(ec); asioext::get_stderr(ec);
      break; }
    }
  }
  { std::string d; EC ec; asioext::read_file(p.c_str(), d, ec); adde(ec); adds(d); }
  ::unlink(p.c_str()); ::unlink(q.c_str());
  return h;
}
}

VH_GROUP(parallel)
{
  vh::run_cases([&](Rng& r, uint64_t) {
    const int n = (int)r.range(2, 6);
    std::vector<uint64_t> seeds, got(n), want(n);
    for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    const std::string dir = vh::scratch();
    vh::current(cat(n, " threads"));
    {
      std::barrier start(n);
      std::vector<std::thread> th;
      for (int i = 0; i < n; ++i) th.emplace_back([&, i] { start.arrive_and_wait(); got[i] = work(seeds[i], dir); });
      for (auto& t : th) t.join();
    }
    for (int i = 0; i < n; ++i) {
      want[i] = work(seeds[i], dir);
      VH_CHECK(got[i] == want[i], "interference", "thread with seed ", seeds[i]);
    }
    vh::count("parallel-threads", n);
    vh::distinct(vh::hash_bytes(got.data(), got.size() * 8));
  });
  for (int k = 0; k < kinds; ++k) vh::count(cat("parallel:", names[k]), done[k].load());
  vh::sample("2-6 threads with their own files, buffers, handlers, URLs, time conversions, SOCKS and buffered streams and connections; digests compared with solo runs");
}

VH_MAIN
