// C24: connect() and async_connect() with scripted name resolution and scripted endpoints on loopback.
#include "common.hpp"
#include <asio.hpp>
#include <asioext/connect.hpp>
#include <dirent.h>
#include <mutex>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <thread>

using vh::Rng;
using vh::cat;
using asio::ip::tcp;
typedef asioext::error_code EC;

// ------------------------------------------------------------------ the scripted system
namespace sim {
struct Target { tcp::endpoint ep; int err = 0; bool ok = false; bool hangs = false; bool no_socket = false; }; // err: what connecting to it yields
struct Attempt { int fd; int serial; tcp::endpoint to; int err; };
struct Sock { int serial, family, type, proto; bool open; };
std::mutex m;
bool on = false;
std::vector<Target> list;
int resolve_error = 0;
bool empty = false;
int resolves = 0;
std::string host, service;
int flags = 0, socktype = 0;
std::vector<Attempt> attempts;
std::map<int, Sock> socks; // by descriptor
int serials = 0;
std::vector<std::string> trouble;
unsigned resolve_delay = 0;
std::size_t next_family_fail = 0;
bool v6 = false;

void reset() { list.clear(); resolve_error = 0; empty = false; resolves = 0; host.clear(); service.clear(); flags = 0; attempts.clear(); socks.clear(); trouble.clear(); resolve_delay = 0; }

tcp::endpoint from(const sockaddr* a, socklen_t n) { tcp::endpoint e; e.resize(n); std::memcpy(e.data(), a, n); return e; }
const Target* find(const tcp::endpoint& e) { for (auto& t : list) if (t.ep == e) return &t; return nullptr; }
}

extern "C" {
int __real_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**);
void __real_freeaddrinfo(addrinfo*);
int __real_socket(int, int, int);
int __real_connect(int, const sockaddr*, socklen_t);
int __real_close(int);

int __wrap_getaddrinfo(const char* h, const char* s, const addrinfo* hints, addrinfo** res)
{
  std::unique_lock<std::mutex> l(sim::m);
  if (!sim::on) { l.unlock(); return __real_getaddrinfo(h, s, hints, res); }
  if (sim::resolve_delay) { unsigned d = sim::resolve_delay; l.unlock(); ::usleep(d); l.lock(); }
  ++sim::resolves;
  sim::host = h ? h : "(null)"; sim::service = s ? s : "(null)";
  sim::flags = hints ? hints->ai_flags : -1;
  sim::socktype = hints ? hints->ai_socktype : 0;
  *res = nullptr;
  if (sim::resolve_error) return sim::resolve_error;
  addrinfo** tail = res;
  if (!sim::empty) for (auto& t : sim::list) {
    addrinfo* a = (addrinfo*)std::calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
    a->ai_family = t.ep.protocol().family(); a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
    a->ai_addr = (sockaddr*)(a + 1); a->ai_addrlen = (socklen_t)t.ep.size();
    std::memcpy(a->ai_addr, t.ep.data(), t.ep.size());
    *tail = a; tail = &a->ai_next;
  }
  return 0;
}
void __wrap_freeaddrinfo(addrinfo* a)
{
  std::unique_lock<std::mutex> l(sim::m);
  if (!sim::on) { l.unlock(); return __real_freeaddrinfo(a); }
  while (a) { addrinfo* n = a->ai_next; std::free(a); a = n; }
}
int __wrap_socket(int family, int type, int proto)
{
  std::unique_lock<std::mutex> l(sim::m);
  if (sim::on && (family == AF_INET || family == AF_INET6)) {
    const std::size_t next = sim::attempts.size();
    (void)next;
    if (family == AF_INET6 && !sim::v6) { errno = EAFNOSUPPORT; return -1; }
  }
  const int fd = __real_socket(family, type, proto);
  if (sim::on && fd >= 0) sim::socks[fd] = sim::Sock{sim::serials++, family, type & 0xf, proto, true};
  return fd;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t n)
{
  std::unique_lock<std::mutex> l(sim::m);
  if (!sim::on || (a->sa_family != AF_INET && a->sa_family != AF_INET6)) { l.unlock(); return __real_connect(fd, a, n); }
  const tcp::endpoint to = sim::from(a, n);
  auto s = sim::socks.find(fd);
  sim::Attempt at{fd, s == sim::socks.end() ? -1 : s->second.serial, to, 0};
  if (s == sim::socks.end()) sim::trouble.push_back("connect on a socket that was not freshly opened");
  else if (s->second.family != a->sa_family || s->second.type != SOCK_STREAM) sim::trouble.push_back("socket of the wrong protocol");
  for (auto& x : sim::attempts) if (x.fd == fd && x.serial == at.serial && at.serial >= 0) sim::trouble.push_back("socket used for two attempts");
  const sim::Target* t = sim::find(to);
  if (!t) sim::trouble.push_back("connect to an endpoint that was not resolved");
  at.err = t ? t->err : 0;
  const int inject = t && t->err && t->err != ECONNREFUSED ? t->err : 0;
  sim::attempts.push_back(at);
  l.unlock();
  if (inject) { errno = inject; return -1; }
  return __real_connect(fd, a, n);
}
int __wrap_close(int fd)
{
  { std::lock_guard<std::mutex> l(sim::m); if (sim::on) { auto s = sim::socks.find(fd); if (s != sim::socks.end()) sim::socks.erase(s); } }
  return __real_close(fd);
}
}

namespace {
std::string text(const EC& e) { return e ? cat(e.category().name(), ":", e.value()) : std::string("success"); }
template <class E> std::string str(const E& e) { std::ostringstream o; o << e; return o.str(); }

// Loopback fixtures, made once: listening endpoints, refusing ones, and one whose backlog is full.
struct Fixture
{
  asio::io_context io;
  std::vector<std::unique_ptr<tcp::acceptor>> acc, dead;
  std::vector<std::unique_ptr<tcp::socket>> filler;
  std::unique_ptr<tcp::acceptor> full;
  std::vector<tcp::endpoint> listening, refusing, hanging;
  Fixture()
  {
    for (int i = 0; i < 4; ++i) {
      const auto addr = asio::ip::make_address_v4(0x7f000001u + i);
      acc.emplace_back(new tcp::acceptor(io, tcp::endpoint(addr, 0))); acc.back()->listen(4096); listening.push_back(acc.back()->local_endpoint());
      dead.emplace_back(new tcp::acceptor(io)); dead.back()->open(tcp::v4()); dead.back()->bind(tcp::endpoint(addr, 0)); refusing.push_back(dead.back()->local_endpoint());
    }
    EC ec;
    { tcp::acceptor a(io); a.open(tcp::v6(), ec); if (!ec) a.bind(tcp::endpoint(asio::ip::address_v6::loopback(), 0), ec); if (!ec) a.listen(4096, ec);
      if (!ec) { sim::v6 = true; listening.push_back(a.local_endpoint()); acc.emplace_back(new tcp::acceptor(std::move(a)));
        dead.emplace_back(new tcp::acceptor(io)); dead.back()->open(tcp::v6()); dead.back()->bind(tcp::endpoint(asio::ip::address_v6::loopback(), 0)); refusing.push_back(dead.back()->local_endpoint()); } }
    // connections to a listener with a full backlog stay pending
    full.reset(new tcp::acceptor(io)); full->open(tcp::v4()); full->bind(tcp::endpoint(asio::ip::address_v4::loopback(), 0)); full->listen(0);
    hanging.push_back(full->local_endpoint());
    for (int i = 0; i < 3; ++i) { filler.emplace_back(new tcp::socket(io)); filler.back()->open(tcp::v4()); filler.back()->native_non_blocking(true); const auto e = full->local_endpoint(); ::connect(filler.back()->native_handle(), (const sockaddr*)e.data(), (socklen_t)e.size()); }
  }
  void drain() // accept what came in, so that the backlogs stay short
  {
    for (auto& a : acc) { a->non_blocking(true); for (;;) { EC ec; tcp::socket s(io); a->accept(s, ec); if (ec) break; s.set_option(asio::socket_base::linger(true, 0), ec); } }
  }
};
Fixture& fx() { static Fixture* f = new Fixture; return *f; }

std::string make_list(Rng& r, bool with_hang, bool unusable)
{
  // Hosts with many addresses exist: long lists, most of them failing to the last.
  const bool lengthy = r.chance(12);
  const std::size_t n = r.chance(8) ? 0 : (std::size_t)(lengthy ? r.range(7, 40) : r.range(1, 6));
  if (lengthy && n) vh::count("long-lists");
  std::string s;
  std::set<std::string> used;
  for (std::size_t i = 0; i < n; ++i) {
    sim::Target t;
    const int k = lengthy && i + 2 < n ? (int)r.range(2, 9) : (int)r.below(10);
    if (k < 2) { t.ep = r.chance(50) ? fx().listening.back() : fx().listening[r.below(fx().listening.size())]; t.ok = true;
      // the unspecified address reaches this very host, too
      if (r.chance(8)) { t.ep = tcp::endpoint(asio::ip::address_v4::any(), fx().listening[0].port()); vh::count("unspecified-address"); } }
    else if (k < 6) { t.ep = fx().refusing[r.below(fx().refusing.size())]; t.err = ECONNREFUSED; }
    else if (k == 6 && with_hang) { t.ep = fx().hanging[0]; t.hangs = true; }
    else if (k == 7 && unusable && !sim::v6) { t.ep = tcp::endpoint(asio::ip::make_address_v6("2001:db8::1"), (unsigned short)r.range(1, 60000)); t.no_socket = true; t.err = EAFNOSUPPORT; }
    else {
      static const int errs[] = {ENETUNREACH, EHOSTUNREACH, ETIMEDOUT, EACCES, EADDRNOTAVAIL, ECONNABORTED, ECONNRESET, EPERM};
      const bool six = sim::v6 && r.chance(40);
      t.ep = six ? tcp::endpoint(asio::ip::make_address_v6(cat("2001:db8::", r.range(1, 99))), (unsigned short)r.range(1, 60000))
                 : tcp::endpoint(asio::ip::make_address_v4(0xc6336400u + (unsigned)r.below(255)), (unsigned short)r.range(1, 60000));
      t.err = errs[r.below(8)];
    }
    if (t.ep.address().is_v6() && !sim::v6) { t.no_socket = true; t.ok = false; t.err = EAFNOSUPPORT; if (!unusable) continue; vh::count("unusable-protocols"); }
    if (!used.insert(str(t.ep)).second) continue;
    sim::list.push_back(t);
    s += cat(" ", t.ok ? "ok" : t.hangs ? "hang" : cat("e", t.err), t.ep.address().is_v6() ? "(v6)" : "");
  }
  return s;
}

struct Expect { std::vector<tcp::endpoint> tried; bool ok = false; tcp::endpoint peer; EC last; bool any = false; };
Expect expect()
{
  Expect x;
  for (auto& t : sim::list) {
    if (!t.no_socket) x.tried.push_back(t.ep);
    if (t.ok) { x.ok = true; x.peer = t.ep; return x; }
    x.last = EC(t.err, asio::error::get_system_category());
  }
  x.any = sim::list.empty();
  return x;
}

EC resolver_error(int e)
{
  switch (e) {
  case EAI_AGAIN: return asio::error::host_not_found_try_again;
  case EAI_FAIL: return asio::error::no_recovery;
  case EAI_NONAME: return asio::error::host_not_found;
  case EAI_SERVICE: return asio::error::service_not_found;
  case EAI_MEMORY: return asio::error::no_memory;
  default: return asio::error::address_family_not_supported;
  }
}

void check_common(const std::string& what, const Expect& x, bool resolved, tcp::socket& s, const EC& ec, const std::string& host, const std::string& service, int flags)
{
  VH_CHECK(sim::resolves == 1, "resolved-more-than-once", what, ": ", sim::resolves);
  VH_CHECK(sim::host == (host.empty() ? "(null)" : host) && sim::service == (service.empty() ? "(null)" : service), "wrong-query", what, ": ", sim::host, " ", sim::service);
  VH_CHECK(sim::flags == flags, "wrong-query-flags", what, ": ", sim::flags, " want ", flags);
  for (auto& t : sim::trouble) vh::violation(t == "connect to an endpoint that was not resolved" ? "wrong-endpoint" : "wrong-socket", cat(what, ": ", t));
  std::vector<tcp::endpoint> got;
  for (auto& a : sim::attempts) got.push_back(a.to);
  std::string gs; for (auto& g : got) gs += " " + str(g);
  VH_CHECK(got == (resolved ? x.tried : std::vector<tcp::endpoint>()), "wrong-attempts", what, ": tried", gs);
  if (resolved && x.ok) {
    VH_CHECK(!ec, "success-reported-as-error", what, ": ", text(ec));
    EC e; VH_CHECK(s.remote_endpoint(e) == (x.peer.address().is_unspecified() ? fx().listening[0] : x.peer) && !e, "not-connected", what, ": ", text(e));
    if (!sim::attempts.empty()) VH_CHECK((int)s.native_handle() == sim::attempts.back().fd, "wrong-socket", what, ": not the socket of the last attempt");
    vh::count("connected");
  } else {
    VH_CHECK((bool)ec, "failure-reported-as-success", what);
    EC e; s.remote_endpoint(e);
    // without an attempt, a connection made before may still be there
    if (!sim::attempts.empty() || what.find("connected elsewhere") == std::string::npos) VH_CHECK((bool)e, "connected-despite-error", what);
  }
}

int open_sockets() { int n = 0; DIR* d = ::opendir("/proc/self/fd"); while (dirent* e = ::readdir(d)) { char l[128]; std::string p = cat("/proc/self/fd/", e->d_name); long k = ::readlink(p.c_str(), l, sizeof l - 1); if (k > 0 && !std::strncmp(l, "socket:", 7)) ++n; } ::closedir(d); return n; }

struct Args { std::string host, service; asio::ip::resolver_base::flags flags; int raw; };
Args args(Rng& r)
{
  Args a;
  a.host = r.chance(10) ? std::string() : cat("host", r.below(1000), ".test");
  a.service = r.chance(50) ? cat(r.range(1, 65535)) : std::string("http");
  static const asio::ip::resolver_base::flags f[] = {asio::ip::resolver_base::flags(), asio::ip::resolver_base::numeric_service, asio::ip::resolver_base::address_configured,
    asio::ip::resolver_base::passive, asio::ip::resolver_base::numeric_host | asio::ip::resolver_base::numeric_service, asio::ip::resolver_base::v4_mapped | asio::ip::resolver_base::all_matching};
  a.flags = f[r.below(6)]; a.raw = (int)a.flags;
  return a;
}

// what the socket was used for before
std::string before(Rng& r, tcp::socket& s)
{
  EC ec;
  switch (r.below(4)) {
  case 0: return "";
  case 1: s.open(tcp::v4(), ec); return " socket open";
  case 2: if (sim::v6) s.open(tcp::v6(), ec); return " socket open v6";
  default: s.open(tcp::v4(), ec); s.connect(fx().listening[0], ec); return " socket connected elsewhere";
  }
}
int pick_resolve_error(Rng& r) { static const int e[] = {EAI_AGAIN, EAI_FAIL, EAI_NONAME, EAI_SERVICE, EAI_MEMORY, EAI_FAMILY}; return r.chance(15) ? e[r.below(6)] : 0; }
}

VH_GROUP(sync)
{
  fx();
  const bool has_v6 = sim::v6;
  vh::run_cases([&](Rng& r, uint64_t) {
    sim::reset();
    sim::v6 = has_v6 && !r.chance(25);
    asio::io_context io;
    tcp::resolver res(io);
    const int base = open_sockets();
    std::string what;
    {
      tcp::socket s(io);
      what = before(r, s);
      const std::string l = make_list(r, false, true);
      sim::resolve_error = pick_resolve_error(r);
      if (sim::resolve_error) what += cat(" resolve error ", sim::resolve_error);
      what += l;
      vh::current(what);
      const Expect x = expect();
      const Args a = args(r);
      EC ec = r.chance(50) ? EC(asio::error::fault) : EC();
      sim::on = true;
      const bool throwing = r.chance(40), dflt = a.raw == 0 && r.chance(50);
      if (throwing) {
        ec = EC();
        try { if (dflt) asioext::connect(s, res, a.host, a.service); else asioext::connect(s, res, a.host, a.service, a.flags); }
        catch (const vh::system_error& e) { ec = e.code(); VH_CHECK((bool)ec, "threw-success", what); }
      } else asioext::connect(s, res, a.host, a.service, a.flags, ec);
      sim::on = false;
      check_common(what, x, !sim::resolve_error, s, ec, a.host, a.service, a.raw);
      if (sim::resolve_error) { VH_CHECK(ec == resolver_error(sim::resolve_error), "wrong-error", what, ": ", text(ec), " want ", text(resolver_error(sim::resolve_error))); vh::count("resolution-failures"); }
      else if (sim::list.empty()) vh::count("empty-lists");
      else if (!x.ok) { VH_CHECK(ec == x.last, "wrong-error", what, ": ", text(ec), " want ", text(x.last)); vh::count("all-failed"); }
      vh::count(throwing ? "throwing" : "error-code");
    }
    VH_CHECK(open_sockets() == base, "descriptor-leaked", what);
    fx().drain();
    vh::distinct(vh::hash_str(what));
    static int shown = 0;
    if (shown++ < 3) vh::sample("sync:" + what);
  });
}

namespace {
struct Out { int calls = 0; EC ec; tcp::endpoint ep; bool inside = false, wrong = false; };
bool in_launch = false;
struct Hd
{
  std::shared_ptr<Out> o;
  asio::strand<asio::io_context::executor_type>* st;
  void operator()(EC ec, tcp::endpoint ep) { ++o->calls; o->ec = ec; o->ep = ep; o->inside |= in_launch; if (st && !st->running_in_this_thread()) o->wrong = true; }
};
}

VH_GROUP(async)
{
  fx();
  vh::run_cases([&](Rng& r, uint64_t) {
    sim::reset();
    const int base = open_sockets();
    std::string what;
    int token;
    {
      asio::io_context io;
      tcp::resolver res(io);
      tcp::socket s(io);
      what = before(r, s);
      const std::string l = make_list(r, false, false);
      sim::resolve_error = pick_resolve_error(r);
      if (sim::resolve_error) what += cat(" resolve error ", sim::resolve_error);
      if (r.chance(30)) sim::resolve_delay = (unsigned)r.below(300);
      what += l;
      token = (int)r.below(5);
      what += cat(" token ", token);
      vh::current(what);
      const Expect x = expect();
      const Args a = args(r);
      auto o = std::make_shared<Out>();
      auto strand = asio::make_strand(io);
      sim::on = true;
      std::future<tcp::endpoint> fu;
      in_launch = true;
      { // the strings are gone when the function returned
        std::unique_ptr<std::string> h(new std::string(a.host)), v(new std::string(a.service));
        switch (token) {
        case 0: asioext::async_connect(s, res, *h, *v, a.flags, Hd{o, nullptr}); break;
        case 1: asioext::async_connect(s, res, *h, *v, a.flags, asio::bind_executor(strand, Hd{o, &strand})); break;
        case 2: { Hd hd{o, nullptr}; asioext::async_connect(s, res, *h, *v, a.flags, hd); VH_CHECK((bool)hd.o, "lvalue-handler-moved-from", what); break; }
        case 3: fu = asioext::async_connect(s, res, *h, *v, a.flags, asio::use_future); break;
        default:
          asio::co_spawn(io, [](auto& s, auto& res, std::string h, std::string v, auto f, auto o) -> asio::awaitable<void> {
            auto [ec, ep] = co_await asioext::async_connect(s, res, h, v, f, asio::as_tuple(asio::use_awaitable));
            ++o->calls; o->ec = ec; o->ep = ep; }(s, res, a.host, a.service, a.flags, o), asio::detached);
        }
      }
      in_launch = false;
      VH_CHECK(!o->inside, "called-inside-initiating-function", what);
      io.run();
      sim::on = false;
      if (token == 3) {
        ++o->calls;
        if (fu.wait_for(std::chrono::seconds(0)) != std::future_status::ready) { vh::violation("never-completed", what); o->ec = asio::error::fault; }
        else try { o->ep = fu.get(); } catch (const vh::system_error& e) { o->ec = e.code(); }
      }
      VH_CHECK(o->calls == 1, o->calls ? "called-twice" : "never-completed", what, ": ", o->calls);
      VH_CHECK(!o->wrong, "wrong-executor", what);
      VH_CHECK(o.use_count() == 1, "handler-leaked", what, ": ", o.use_count());
      check_common(what, x, !sim::resolve_error, s, o->ec, a.host, a.service, a.raw);
      if (sim::resolve_error) { VH_CHECK(o->ec == resolver_error(sim::resolve_error), "wrong-error", what, ": ", text(o->ec), " want ", text(resolver_error(sim::resolve_error))); vh::count("resolution-failures"); }
      else if (sim::list.empty()) vh::count("empty-lists");
      else if (!x.ok) { VH_CHECK(o->ec == x.last, "wrong-error", what, ": ", text(o->ec), " want ", text(x.last)); vh::count("all-failed"); }
      else VH_CHECK(o->ep == x.peer, "wrong-endpoint-reported", what, ": ", str(o->ep), " want ", str(x.peer));
      vh::count(cat("token:", token));
    }
    VH_CHECK(open_sockets() == base, "descriptor-leaked", what);
    fx().drain();
    vh::distinct(vh::hash_str(what));
    static int shown = 0;
    if (shown++ < 3) vh::sample("async:" + what);
  });
}

// cancelled, closed or abandoned while resolving or connecting
VH_GROUP(stop)
{
  fx();
  vh::run_cases([&](Rng& r, uint64_t) {
    sim::reset();
    const int base = open_sockets();
    auto o = std::make_shared<Out>();
    std::string what;
    int how;
    {
      asio::io_context io;
      tcp::resolver res(io);
      tcp::socket s(io);
      const std::string l = make_list(r, true, false);
      if (r.chance(70)) { sim::Target t; t.ep = fx().hanging[0]; t.hangs = true; bool dup = false; for (auto& q : sim::list) dup |= q.ep == t.ep; if (!dup) sim::list.insert(sim::list.begin(), t); }
      what = l;
      sim::resolve_delay = r.chance(40) ? (unsigned)r.below(2000) : 0;
      how = (int)r.below(4);
      const unsigned d = (unsigned)r.below(1500);
      what += cat(" how ", how);
      vh::current(what);
      sim::on = true;
      asioext::async_connect(s, res, "h", "1", asio::ip::resolver_base::flags(), Hd{o, nullptr});
      const bool hangs = [&] { for (auto& t : sim::list) { if (t.hangs) return true; if (t.ok) return false; } return false; }();
      switch (how) {
      case 0: res.cancel(); break;
      case 1: { asio::steady_timer t(io, std::chrono::microseconds(d)); t.async_wait([&](EC) { EC ec; res.cancel(); s.close(ec); });
        // a name resolution that ends after the close still opens the socket anew: stop that one, too
        asio::steady_timer t2(io); std::function<void(EC)> again = [&](EC) { if (o->calls) return; EC ec; s.close(ec); t2.expires_after(std::chrono::milliseconds(3)); t2.async_wait(again); };
        t2.expires_after(std::chrono::milliseconds(6)); t2.async_wait(again);
        io.run(); break; }
      default: { io.run_for(std::chrono::microseconds(d)); break; } // abandoned
      }
      if (how == 0) { if (hangs) { // pending connections end when the socket is closed
          asio::steady_timer t2(io); std::function<void(EC)> again = [&](EC) { if (o->calls) return; EC ec; s.close(ec); t2.expires_after(std::chrono::milliseconds(2)); t2.async_wait(again); };
          t2.expires_after(std::chrono::milliseconds(2)); t2.async_wait(again); io.run(); }
        else io.run(); }
      if (how < 2) {
        VH_CHECK(o->calls == 1, o->calls ? "called-twice" : "never-completed", what, ": ", o->calls);
        if (o->ec) { EC e; s.remote_endpoint(e); VH_CHECK((bool)e, "connected-despite-error", what); }
        vh::count(o->ec ? "stopped" : "completed-anyway");
      } else VH_CHECK(o->calls <= 1, "called-twice", what);
    }
    sim::on = false;
    if (how >= 2) vh::count(o->calls ? "completed-before" : "abandoned");
    VH_CHECK(o.use_count() == 1, "handler-leaked", what);
    VH_CHECK(open_sockets() == base, "descriptor-leaked", what);
    fx().drain();
    vh::distinct(vh::hash_str(what));
  });
  vh::sample("operations cancelled, closed or abandoned while resolving or connecting");
}
VH_MAIN
